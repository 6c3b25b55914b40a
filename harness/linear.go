package main

import (
	"fmt"
	"math/rand"

	"github.com/lkmio/avformat/collections"
)

// A family of linear block buffers: the first one and its split-offs.

type linClient struct {
	bufClient
	bb collections.BlockBuffer
}

type linFamily struct {
	bufs []*linClient
	v    int
}

func newLin(capacity int) *linFamily {
	f := &linFamily{}
	f.add(collections.NewDirectBlockBuffer(capacity))
	return f
}

func (f *linFamily) add(b collections.BlockBuffer) {
	f.bufs = append(f.bufs, &linClient{bufClient: bufClient{b: b}, bb: b})
}

// do performs one operation on buffer i (0-based).
func (f *linFamily) do(i int, op string, n int, v byte, alloc bool) (res [][2]int, panicked bool, msg string) {
	c := f.bufs[i]
	res = [][2]int{}
	panicked, msg = guard(func() {
		switch op {
		case "write":
			if alloc {
				if got := c.alloc(n, v); got != n {
					panic(fmt.Sprintf("Alloc(%d) returned %d bytes", n, got))
				}
			} else {
				c.write(n, v)
			}
		case "fetch":
			res = rle(c.fetch())
		case "pop":
			c.pop()
		case "popback":
			c.popBack()
		case "clear":
			c.clear()
		case "split":
			f.add(c.bb.SplitOff())
		}
	})
	return
}

func (f *linFamily) shown() (all []J, avail []int) {
	for _, c := range f.bufs {
		all = append(all, J{"live": c.seen(), "data": rle(c.bb.(interface{ Data() []byte }).Data()),
			"pend": c.bb.PendingBlockSize(), "size": c.bb.Size()})
		avail = append(avail, c.bb.AvailableBytes())
	}
	return
}

func (f *linFamily) next() byte {
	f.v++
	return byte((f.v-1)%250 + 1)
}

func init() {
	replayers["linear"] = func(b J) string {
		f := newLin(num(b["cap"]))
		ops := b["ops"].([]any)
		for k, o := range ops {
			op := o.([]any)
			var v byte
			if op[0] == "write" {
				v = f.next()
			}
			res, pan, msg := f.do(num(op[1])-1, op[0].(string), num(op[2]), v, k%3 == 1)
			if k < len(ops)-1 {
				continue // earlier steps are the last step of another behaviour
			}
			if pan != b["panic"].(bool) {
				return fmt.Sprintf("last step panics: %v (%s), the specification demands %v", pan, msg, b["panic"])
			}
			if e := check("result", res, b["res"]); e != "" {
				return e
			}
		}
		all, _ := f.shown()
		return check("buffers", all, b["all"])
	}

	recorders["linear"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		for e := 0; e < n; e++ {
			t.episodes++
			capacity := []int{0, 1, 2, 4, 8, 16, 24, 50, 100}[rng.Intn(9)]
			if e%5 == 3 {
				capacity = []int{300, 1024, 1500, 4096, 70000, 1 << 20}[rng.Intn(6)]
			}
			f := newLin(capacity)
			emit := func(op string, id, n int, v byte, res [][2]int, pan bool, msg string) bool {
				rec := J{"op": op, "id": id, "n": n, "v": int(v), "res": res, "panic": pan, "all": []J{}, "avail": []int{}}
				if p2, m2 := guard(func() { rec["all"], rec["avail"] = f.shown() }); p2 {
					rec["panic"], rec["msg"] = true, "reading: "+m2
				} else if pan {
					rec["msg"] = msg
				}
				t.emit(rec)
				return true
			}
			emit("new", 1, capacity, 0, [][2]int{}, false, "")
			maxSize := 1 + rng.Intn(12+capacity/6)
			if rng.Intn(4) == 0 {
				maxSize = 2*capacity + 3
			}
			splits := rng.Intn(4)
			popW, steps := 5+rng.Intn(40), 15+rng.Intn(80)
			if rng.Intn(12) == 0 { // many blocks
				popW, steps = 3+rng.Intn(8), 250+rng.Intn(150)
			}
			for i := 0; i < steps; i++ {
				id := rng.Intn(len(f.bufs))
				c := f.bufs[id]
				op, sz, v := "write", 0, byte(0)
				switch k := rng.Intn(100); {
				case splits > 0 && len(f.bufs) < 5 && rng.Intn(12) == 0:
					op = "split"
					splits--
				case rng.Intn(40) == 0:
					op = "clear"
				case len(c.live) > 0 && k < popW:
					op = "pop"
					if rng.Intn(3) == 0 {
						op = "popback"
					}
				case len(c.live) > 0 && k < popW+25:
					op = "fetch"
				default:
					sz, v = rng.Intn(maxSize+1), f.next()
				}
				live, open := len(c.live), c.open
				setCur(J{"op": op, "id": id + 1, "n": sz})
				res, pan, msg := f.do(id, op, sz, v, rng.Intn(3) == 0)
				if pan { // the client's own bookkeeping must not move
					_ = live
					_ = open
				}
				emit(op, id+1, sz, v, res, pan, msg)
			}
		}
	}
}
