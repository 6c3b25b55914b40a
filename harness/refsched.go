//go:build sched

package main

import (
	"fmt"
	"math/rand"
	"strconv"

	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/collections/verifsched"
)

// Controlled schedules: every interleaving of the scheduling points with at
// most `preempt` preemptions, for every combination of small programs.
func init() {
	recorders["refsched"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		shard, _ := strconv.Atoi(opt["shard"])
		shards, _ := strconv.Atoi(opt["shards"])
		seen := map[string]bool{}
		runs := 0
		explore := func(progs [][]string, preempt, limit int) {
			setCur(progs)
			// depth-first over the choices: prefix[i] is the i-th choice
			prefix, width, budget := []int{}, []int{}, []int{}
			for count := 0; count < limit; count++ {
				runs++
				val := &refVal{1, 2}
				rc := collections.NewReferenceCounter(val)
				for i := 1; i < len(progs); i++ {
					rc.Refer()
				}
				h := []refEvent{}
				trues := 0
				fs := []func(){}
				for i := range progs {
					i := i
					fs = append(fs, func() {
						for _, c := range progs[i] {
							at := len(h)
							h = append(h, refEvent{0, "inv", i, 0, c})
							r := refCall(rc, c)
							h[at].res = r
							h = append(h, refEvent{0, "ret", i, r, c})
							if c == "release" {
								trues += r
							}
						}
					})
				}
				depth, used, streak := 0, 0, 0
				err := error(nil)
				pan, msg := guard(func() {
					err = verifsched.Run(fs, func(runnable []int, last int) int {
						// candidates in order: continue, then the others
						k := 0
						if depth < len(prefix) {
							k = prefix[depth]
						} else {
							prefix = append(prefix, 0)
							w := len(runnable)
							if last >= 0 && used >= preempt {
								w = 1
							}
							width, budget = append(width, w), append(budget, used)
						}
						depth++
						if last < 0 {
							streak = 0
							return k
						}
						// fairness: someone spinning for long lets the next one continue
						if streak++; k == 0 && streak > 60 {
							streak = 0
							return (last + 1) % len(runnable)
						}
						if k > 0 {
							streak = 0
						}
						if k == 0 {
							return last
						}
						used++
						if k <= last {
							return k - 1
						}
						return k
					})
				})
				if pan || err != nil {
					// reported as a history no counter has
					key := fmt.Sprint("bad", progs, err, msg)
					if !seen[key] {
						seen[key] = true
						refEmit(t, len(progs), h, -1000, 0, false)
					}
					return
				}
				key := fmt.Sprint(h, rc.UseCount(), trues, rc.Get() == val)
				if !seen[key] {
					seen[key] = true
					refEmit(t, len(progs), h, int(rc.UseCount()), trues, rc.Get() == val && *val == refVal{1, 2})
				}
				i := len(prefix) - 1
				for ; i >= 0 && prefix[i]+1 >= width[i]; i-- {
				}
				if i < 0 {
					return
				}
				prefix = append(prefix[:i:i], prefix[i]+1)
				width, budget = width[:i+1], budget[:i+1]
			}
		}
		k := 0
		ps, small := refPrograms(3), refPrograms(2)
		quick := opt["tier"] == "quick"
		for _, a := range ps {
			for _, b := range ps {
				if k++; k%shards == shard {
					explore([][]string{a, b}, 3, 3000)
				}
			}
		}
		for _, a := range small {
			for _, b := range small {
				for _, c := range small {
					if k++; k%shards == shard && (!quick || rng.Intn(3) == 0) {
						explore([][]string{a, b, c}, map[bool]int{true: 2, false: 4}[quick], n)
					}
				}
			}
		}
		t.ops["schedules"] = runs
	}
}
