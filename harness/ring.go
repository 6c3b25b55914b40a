package main

import (
	"fmt"
	"math/rand"

	"github.com/lkmio/avformat/collections"
)

// blockBuf is the part of the block buffers the drivers use.
type blockBuf interface {
	Write(data []byte)
	Alloc(size int) []byte
	Fetch() []byte
	Pop()
	PopBack()
	PendingBlockSize() int
	Clear()
}

// bufClient is a client of one block buffer that keeps the slices of the
// blocks it fetched and has not given back.
type bufClient struct {
	b    blockBuf
	v    int
	live [][]byte // one per outstanding block; nil for the open one
	open bool     // the newest outstanding block is open
}

func (c *bufClient) nextV() byte {
	c.v++
	return byte((c.v-1)%250 + 1)
}

func (c *bufClient) started() {
	if !c.open {
		c.live = append(c.live, nil)
		c.open = true
	}
}

func (c *bufClient) write(n int, v byte) {
	c.b.Write(fill(n, v))
	c.started()
}

func (c *bufClient) alloc(n int, v byte) int {
	s := c.b.Alloc(n)
	for i := range s {
		s[i] = v
	}
	c.started()
	return len(s)
}

func (c *bufClient) fetch() []byte {
	d := c.b.Fetch()
	if c.open {
		if d == nil {
			d = []byte{}
		}
		c.live[len(c.live)-1] = d
		c.open = false
	}
	return d
}

func (c *bufClient) pop() {
	c.b.Pop()
	if len(c.live) > 0 {
		if len(c.live) == 1 {
			c.open = false
		}
		c.live = c.live[1:]
	}
}

func (c *bufClient) popBack() {
	c.b.PopBack()
	c.live = c.live[:len(c.live)-1]
	c.open = false
}

func (c *bufClient) clear() {
	c.b.Clear()
	c.live, c.open = nil, false
}

// seen re-reads every fetched, outstanding block.
func (c *bufClient) seen() [][][2]int {
	r := [][][2]int{}
	for i, s := range c.live {
		if c.open && i == len(c.live)-1 {
			continue
		}
		r = append(r, rle(s))
	}
	return r
}

// replayBlockBuf performs ops ([["w",3],["f"],["p"],["b"],["c"]]) and returns
// the fetch result of the last one.
func replayBlockBuf(c *bufClient, ops []any) (res [][2]int, err string) {
	res = [][2]int{}
	for i, o := range ops {
		op := o.([]any)
		var pan bool
		var msg string
		res = [][2]int{}
		pan, msg = guard(func() {
			switch op[0].(string) {
			case "w":
				if i%3 == 2 {
					c.alloc(num(op[1]), c.nextV())
				} else {
					c.write(num(op[1]), c.nextV())
				}
			case "f":
				res = rle(c.fetch())
			case "p":
				c.pop()
			case "b":
				c.popBack()
			case "c":
				c.clear()
			}
		})
		if pan {
			return res, fmt.Sprintf("step %d %s panics: %s", i+1, js(op), msg)
		}
	}
	return res, ""
}

func init() {
	replayers["ring"] = func(b J) string {
		c := &bufClient{b: collections.NewRBBlockBuffer(num(b["cap"]))}
		res, err := replayBlockBuf(c, b["ops"].([]any))
		if err != "" {
			return err
		}
		if e := check("fetched block", res, b["res"]); e != "" {
			return e
		}
		var pend int
		if pan, msg := guard(func() { pend = c.b.PendingBlockSize() }); pan {
			return "PendingBlockSize panics: " + msg
		}
		if e := check("pending size", pend, b["pend"]); e != "" {
			return e
		}
		return check("outstanding blocks", c.seen(), b["live"])
	}

	recorders["ring"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		for e := 0; e < n; e++ {
			t.episodes++
			capacity := []int{0, 1, 2, 3, 4, 5, 8, 13, 16, 20, 32, 64, 100}[rng.Intn(13)]
			if e%5 == 3 {
				capacity = []int{300, 1024, 1500, 4096, 70000, 1 << 20}[rng.Intn(6)]
			}
			recordBlockBuf(t, rng, "ring", capacity, &bufClient{b: collections.NewRBBlockBuffer(capacity)})
		}
	}
}

// recordBlockBuf drives one random history; weights vary per episode so that
// long queues, in-order streaming, bursts and growth all occur.
func recordBlockBuf(t *tracer, rng *rand.Rand, kind string, capacity int, c *bufClient) {
	t.emit(J{"op": "new", "v": 0, "n": capacity, "res": [][2]int{}, "live": [][][2]int{}, "pend": 0, "panic": false})
	maxSize := 1 + rng.Intn(capacity/2+4)
	if rng.Intn(4) == 0 {
		maxSize = capacity + 2
	}
	depth := 1 + rng.Intn(8) // how many blocks are held back
	steps := 20 + rng.Intn(100)
	if rng.Intn(12) == 0 { // many small blocks
		depth, steps = 20+rng.Intn(60), 300+rng.Intn(200)
		maxSize = 1 + maxSize/8
	}
	if t.episodes%60 == 7 { // very many
		depth, steps = 150+rng.Intn(300), 2400
		maxSize = 1 + maxSize/8
	}
	waves := rng.Intn(3) == 0 || depth > 100 // filled up and drained by turns
	draining := false
	fixed := 0
	if rng.Intn(3) == 0 { // equal blocks: the ring gets exactly full
		fixed = 1 + rng.Intn(maxSize)
	}
	clearW := 0
	if rng.Intn(4) == 0 {
		clearW = 60
		if rng.Intn(2) == 0 {
			clearW = 15
		}
	}
	for i := 0; i < steps; i++ {
		size := func() int {
			if fixed > 0 && rng.Intn(8) > 0 {
				return fixed
			}
			if rng.Intn(12) == 0 {
				return 0
			}
			return rng.Intn(maxSize + 1)
		}
		rec := J{"op": "", "v": 0, "n": 0, "res": [][2]int{}, "live": [][][2]int{}, "pend": 0, "panic": false}
		var f func()
		k := rng.Intn(100)
		if waves && len(c.live) > depth {
			draining = true
		} else if len(c.live) <= depth/8 {
			draining = false
		}
		switch {
		case clearW > 0 && rng.Intn(clearW) == 0:
			rec["op"] = "clear"
			f = func() { c.clear() }
		case c.open && k < 45:
			rec["op"] = "fetch"
			f = func() { rec["res"] = rle(c.fetch()) }
		case (len(c.live) > depth || draining) && k < 75, len(c.live) > 0 && k < 12 && (k < 3 || depth < 100):
			if c.open && len(c.live) == 1 && rng.Intn(4) > 0 {
				rec["op"] = "fetch"
				f = func() { rec["res"] = rle(c.fetch()) }
			} else {
				rec["op"] = "pop"
				f = func() { c.pop() }
			}
		case len(c.live) > 0 && k >= 97: // perhaps nothing to fetch
			rec["op"] = "fetch"
			f = func() { rec["res"] = rle(c.fetch()) }
		case len(c.live) > 0 && k < 20 && (k < 6 || depth < 100):
			rec["op"] = "popback"
			f = func() { c.popBack() }
		default:
			sz, v := size(), c.nextV()
			rec["op"], rec["v"], rec["n"] = "write", int(v), sz
			if rng.Intn(3) == 0 {
				f = func() {
					if got := c.alloc(sz, v); got != sz {
						panic(fmt.Sprintf("Alloc(%d) returned %d bytes", sz, got))
					}
				}
			} else {
				f = func() { c.write(sz, v) }
			}
		}
		setCur(rec)
		pan, msg := guard(f)
		if !pan {
			pan, msg = guard(func() { rec["pend"] = c.b.PendingBlockSize() })
		}
		if pan {
			rec["panic"], rec["msg"] = true, msg
			t.emit(rec)
			return
		}
		rec["live"] = c.seen()
		t.emit(rec)
		// a second fetch right after one returns nothing
		if rec["op"] == "fetch" && rng.Intn(6) == 0 {
			rec2 := J{"op": "fetch", "v": 0, "n": 0, "res": [][2]int{}, "live": c.seen(), "pend": 0, "panic": false}
			if pan, msg := guard(func() { rec2["res"] = rle(c.fetch()) }); pan {
				rec2["panic"], rec2["msg"] = true, msg
			}
			t.emit(rec2)
			if rec2["panic"].(bool) {
				return
			}
		}
	}
}
