package main

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/lkmio/avformat/collections"
)

type refEvent struct {
	seq    int64
	op     string
	p, res int
	call   string
}

type refVal struct{ a, b int }

// refCall performs a call and yields its result as a number.
func refCall(rc *collections.ReferenceCounter[*refVal], call string) int {
	switch call {
	case "refer":
		rc.Refer()
		return 0
	case "release":
		return b2i(rc.Release())
	}
	return int(rc.UseCount())
}

// refPrograms: every list of at most max calls a goroutine holding one
// reference may make (refer and release only with a reference).
func refPrograms(max int) [][]string {
	all := [][]string{{}}
	for from, n := 0, 0; n < max; n++ {
		to := len(all)
		for ; from < to; from++ {
			own := 1
			for _, c := range all[from] {
				own += b2i(c == "refer") - b2i(c == "release")
			}
			if own == 0 {
				continue
			}
			for _, c := range []string{"refer", "release", "use"} {
				all = append(all, append(append([]string{}, all[from]...), c))
			}
		}
	}
	return all[1:]
}

// refEmit writes one history: an invocation carries the result its return has.
func refEmit(t *tracer, start int, h []refEvent, count, trues int, value bool) {
	t.episodes++
	t.emit(J{"op": "new", "n": start, "p": 0, "call": "", "trues": 0, "value": true})
	for _, e := range h {
		t.emit(J{"op": e.op, "n": e.res, "p": e.p, "call": e.call, "trues": 0, "value": true})
	}
	t.emit(J{"op": "end", "n": count, "p": 0, "call": "", "trues": trues, "value": value})
}

// newCounter makes a counter of val, or of something else that setValue replaces.
func newCounter(val *refVal, late bool) *collections.ReferenceCounter[*refVal] {
	if late {
		return collections.NewReferenceCounter(&refVal{-1, -1})
	}
	return collections.NewReferenceCounter(val)
}

func setValue(rc *collections.ReferenceCounter[*refVal], val *refVal, late bool) {
	if late {
		rc.ResetData(val)
	}
}

func init() {
	// free running goroutines, also meant for a race-detector build
	recorders["refcount"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		runtime.GOMAXPROCS(4)
		for k := 0; k < n; k++ {
			procs := 2 + rng.Intn(3)
			val := &refVal{k, -k}
			rc := newCounter(val, k%4 == 1)
			for i := 1; i < procs; i++ {
				rc.Refer()
			}
			setValue(rc, val, k%4 == 1)
			progs := make([][]string, procs)
			for i := range progs {
				own := 1
				for m := rng.Intn(5); m > 0 && own > 0; m-- {
					c := []string{"refer", "release", "use", "release"}[rng.Intn(4)]
					own += b2i(c == "refer") - b2i(c == "release")
					progs[i] = append(progs[i], c)
				}
				for ; own > 0 && k%3 > 0; own-- { // mostly release everything
					progs[i] = append(progs[i], "release")
				}
			}
			var seq, ready int64
			var wg sync.WaitGroup
			hs := make([][]refEvent, procs)
			trues := int64(0)
			same := int64(1)
			for i := range progs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					atomic.AddInt64(&ready, 1)
					for atomic.LoadInt64(&ready) < int64(procs) {
					}
					for _, c := range progs[i] {
						a := atomic.AddInt64(&seq, 1)
						r := refCall(rc, c)
						b := atomic.AddInt64(&seq, 1)
						hs[i] = append(hs[i], refEvent{a, "inv", i, r, c}, refEvent{b, "ret", i, r, c})
						if c == "release" {
							atomic.AddInt64(&trues, int64(r))
						} else if rc.Get() != val {
							atomic.StoreInt64(&same, 0)
						}
					}
				}(i)
			}
			wg.Wait()
			h := make([]refEvent, seq)
			for i := range hs {
				for _, e := range hs[i] {
					h[e.seq-1] = e
				}
			}
			refEmit(t, procs, h, int(rc.UseCount()), int(trues), same == 1 && *val == refVal{k, -k})
		}
	}

	// sequential and massive: many references, every release but the last says no
	recorders["refmass"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		runtime.GOMAXPROCS(8)
		for k := 0; k < n; k++ {
			val := &refVal{k, k}
			rc := newCounter(val, k%2 == 1)
			procs, each := 8, 200+rng.Intn(2000)
			var wg sync.WaitGroup
			var trues, held, early int64
			held = 1
			many := 0
			if k%10 == 3 { // more references than any small counter holds
				many = []int{140, 300, 33000, 66000}[rng.Intn(4)]
			}
			setValue(rc, val, k%2 == 1)
			atomic.AddInt64(&held, int64(many))
			for i := 0; i < many; i++ {
				rc.Refer()
			}
			for i := 0; i < procs; i++ {
				atomic.AddInt64(&held, 1)
				rc.Refer()
				wg.Add(1)
				go func(seed int64) {
					defer wg.Done()
					rng := rand.New(rand.NewSource(seed))
					own := 1
					for j := 0; j < each; j++ {
						if own == 1 || rng.Intn(2) == 0 {
							rc.Refer()
							atomic.AddInt64(&held, 1)
							own++
						} else {
							atomic.AddInt64(&held, -1)
							if rc.Release() {
								atomic.AddInt64(&trues, 1)
								if atomic.LoadInt64(&held) != 0 {
									atomic.AddInt64(&early, 1)
								}
							}
							own--
						}
					}
					for ; own > 0; own-- {
						atomic.AddInt64(&held, -1)
						if rc.Release() {
							atomic.AddInt64(&trues, 1)
							if atomic.LoadInt64(&held) != 0 {
								atomic.AddInt64(&early, 1)
							}
						}
					}
				}(rng.Int63())
			}
			for ; many > 0; many-- {
				if many%1000 == 0 && int64(rc.UseCount()) < int64(many) {
					atomic.AddInt64(&early, 1)
				}
				atomic.AddInt64(&held, -1)
				if rc.Release() {
					atomic.AddInt64(&trues, 1)
					atomic.AddInt64(&early, 1)
				}
			}
			if k%2 == 0 { // the creator's reference goes last, or concurrently
				wg.Wait()
			}
			start := int(rc.UseCount())
			if k%2 == 1 {
				atomic.AddInt64(&held, -1)
				trues0 := rc.Release()
				wg.Wait()
				trues += int64(b2i(trues0))
				refEmit(t, 0, nil, int(rc.UseCount()), int(trues), early == 0 && rc.Get() == val)
			} else {
				refEmit(t, 1, []refEvent{{0, "inv", 0, start, "use"}, {0, "ret", 0, start, "use"}}, int(rc.UseCount()), int(trues), early == 0 && rc.Get() == val)
			}
		}
	}
}
