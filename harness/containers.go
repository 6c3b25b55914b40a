package main

import (
	"fmt"
	"math/rand"

	"github.com/lkmio/avformat/collections"
)

// One container of any of the three kinds, holding ints from 1 up.
type container struct {
	kind string
	q    *collections.Queue[int]
	r    collections.RingBuffer[int]
	l    *collections.LinkedList[int]
	v    int
}

func newContainer(kind string, capacity int) *container {
	c := &container{kind: kind}
	switch kind {
	case "queue":
		c.q = collections.NewQueue[int](capacity)
		c.r = c.q
	case "ring":
		c.r = collections.NewRingBuffer[int](capacity)
	default:
		c.l = &collections.LinkedList[int]{}
	}
	return c
}

func (c *container) do(op string, i int) (res int, panicked bool, msg string) {
	panicked, msg = guard(func() {
		switch op {
		case "push":
			c.v++
			switch c.kind {
			case "list":
				c.l.Add(c.v)
			case "queue":
				c.q.Push(c.v)
			default:
				c.r.Push(c.v)
			}
		case "pop":
			res = c.r.Pop()
		case "popback":
			res = c.q.PopBack()
		case "clear":
			c.r.Clear()
		case "remove":
			res = c.l.Remove(i)
		}
	})
	return
}

func (c *container) size() int {
	if c.l != nil {
		return c.l.Size()
	}
	return c.r.Size()
}

func (c *container) data() []int {
	out := []int{}
	if c.l != nil {
		for i := 0; i < c.l.Size(); i++ {
			out = append(out, c.l.Get(i))
		}
		return out
	}
	a, b := c.r.Data()
	return append(append(out, a...), b...)
}

// shown reads everything a client can read.
func (c *container) shown(rec J, want int) (panicked bool, msg string) {
	rec["size"], rec["data"], rec["peek"] = 0, []int{}, [][2]int{}
	rec["empty"], rec["full"], rec["cap"], rec["head"], rec["tail"] = false, false, 0, 0, 0
	return guard(func() {
		rec["size"], rec["data"] = c.size(), c.data()
		if c.l != nil {
			return
		}
		rec["empty"], rec["full"], rec["cap"] = c.r.IsEmpty(), c.r.IsFull(), c.r.Capacity()
		if c.r.Size() > 0 {
			rec["head"], rec["tail"] = c.r.Head(), c.r.Tail()
		}
		if c.q != nil {
			peek := [][2]int{}
			for i := 0; i < want && i < c.q.Size(); i++ {
				peek = append(peek, [2]int{i, c.q.Peek(i)})
			}
			rec["peek"] = peek
		}
	})
}

func init() {
	replayers["containers"] = func(b J) string {
		c := newContainer(b["kind"].(string), num(b["cap"]))
		ops := b["ops"].([]any)
		for k, o := range ops {
			op := o.([]any)
			res, pan, msg := c.do(op[0].(string), num(op[1]))
			if pan {
				return fmt.Sprintf("step %d panics: %s", k+1, msg)
			}
			if k == len(ops)-1 {
				if e := check("result", res, b["res"]); e != "" {
					return e
				}
			}
		}
		rec := J{}
		if pan, msg := c.shown(rec, 1<<20); pan {
			return "reading panics: " + msg
		}
		want := b["seq"].([]any)
		if e := check("data", rec["data"], b["seq"]); e != "" {
			return e
		}
		if rec["size"] != len(want) {
			return check("size", rec["size"], len(want))
		}
		if c.l == nil {
			if rec["empty"] != (len(want) == 0) || rec["full"] != (rec["cap"] == len(want)) {
				return fmt.Sprintf("empty %v full %v capacity %v with %d elements", rec["empty"], rec["full"], rec["cap"], len(want))
			}
			if c.kind == "ring" && rec["cap"] != num(b["cap"]) {
				return check("capacity", rec["cap"], b["cap"])
			}
			if len(want) > 0 && (rec["head"] != num(want[0]) || rec["tail"] != num(want[len(want)-1])) {
				return fmt.Sprintf("head %v tail %v of %v", rec["head"], rec["tail"], want)
			}
		}
		for _, p := range rec["peek"].([][2]int) {
			if p[1] != num(want[p[0]]) {
				return fmt.Sprintf("peek(%d) = %d of %v", p[0], p[1], want)
			}
		}
		return ""
	}

	recorders["containers"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		for e := 0; e < n; e++ {
			t.episodes++
			kind := []string{"queue", "queue", "ring", "list"}[rng.Intn(4)]
			capacity := []int{1, 2, 3, 4, 5, 7, 8, 16, 33, 100}[rng.Intn(10)]
			if e%40 == 3 {
				capacity = []int{255, 256, 257, 300}[rng.Intn(4)]
			}
			c := newContainer(kind, capacity)
			emit := func(op string, i, res int, pan bool, msg string) {
				rec := J{"op": op, "kind": kind, "i": i, "v": c.v, "res": res}
				p2, m2 := c.shown(rec, 24)
				rec["panic"] = pan || p2
				if pan || p2 {
					rec["msg"] = msg + m2
				}
				t.emit(rec)
			}
			emit("new", capacity, 0, false, "")
			grow := rng.Intn(70) + 20
			steps := 20 + rng.Intn(100)
			if e%40 == 1 || e%40 == 3 { // grows time and again
				steps, grow = 600+rng.Intn(1200), 95
			}
			for i := 0; i < steps; i++ {
				if rng.Intn(25) == 0 && (steps < 600 || i > 600) {
					grow = rng.Intn(90) + 5
				}
				op, arg := "push", 0
				switch k := rng.Intn(100); {
				case k < grow:
				case kind == "list" && c.l.Size() > 0:
					op, arg = "remove", rng.Intn(c.l.Size())
					if rng.Intn(3) == 0 {
						arg = c.l.Size() - 1
					}
				case kind != "list" && rng.Intn(60) == 0:
					op = "clear"
				case kind == "ring" || kind == "queue" && c.r.Size() > 0:
					op = "pop"
					if kind == "queue" && rng.Intn(3) == 0 {
						op = "popback"
					}
				}
				setCur(J{"kind": kind, "op": op, "i": arg})
				res, pan, msg := c.do(op, arg)
				emit(op, arg, res, pan, msg)
			}
		}
	}
}
