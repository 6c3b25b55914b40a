package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// pipe is a client of a data pipeline that keeps the blocks it fetched.
type pipe struct {
	kind string
	p    avformat.DataPipeline
	d    *avformat.DirectDataPipeline
	live map[int][][]byte // nil entry: the open block
	open map[int]bool
	used map[int]bool
	v    int
}

func newPipe(kind string) *pipe {
	p := &pipe{kind: kind, live: map[int][][]byte{}, open: map[int]bool{}, used: map[int]bool{}}
	if kind == "direct" {
		p.d = &avformat.DirectDataPipeline{}
		p.p = p.d
	} else {
		p.p = &avformat.StreamsBuffer{}
	}
	return p
}

func (p *pipe) next() byte {
	p.v++
	return byte((p.v-1)%250 + 1)
}

func (p *pipe) do(op string, s, n int, v byte, mt utils.AVMediaType) (res [][2]int, pan bool, msg string) {
	res = [][2]int{}
	pan, msg = guard(func() {
		p.used[s] = true
		live := p.live[s]
		switch op {
		case "write":
			if _, err := p.p.Write(fill(n, v), s, mt); err != nil {
				panic("write: " + err.Error())
			}
			if !p.open[s] {
				p.live[s] = append(live, nil)
				p.open[s] = true
			}
		case "fetch":
			d, err := p.p.Fetch(s)
			if err != nil {
				panic("fetch: " + err.Error())
			}
			res = rle(d)
			if p.open[s] {
				live[len(live)-1] = d[:len(d):len(d)]
				p.open[s] = false
			}
		case "back":
			p.p.DiscardBackPacket(s)
			p.live[s] = live[:len(live)-1]
			p.open[s] = false
		case "head":
			// two names for the same
			if x, ok := p.p.(interface{ Discard(int) }); ok && len(p.used)%2 == len(live)%2 {
				x.Discard(s)
			} else {
				p.p.DiscardHeadPacket(s)
			}
			if len(live) == 1 {
				p.open[s] = false
			}
			p.live[s] = live[1:]
		case "pending":
			p.p.PendingBlockSize(s)
		case "seek":
			if err := p.d.Seek(int64(-n), s); err != nil {
				panic("seek: " + err.Error())
			}
		}
	})
	return
}

func (p *pipe) blocks(s int) [][][2]int {
	r := [][][2]int{}
	if p.kind == "direct" {
		return r
	}
	for i, b := range p.live[s] {
		if p.open[s] && i == len(p.live[s])-1 {
			continue
		}
		r = append(r, rle(b))
	}
	return r
}

func (p *pipe) streams() []int {
	r := []int{}
	for s := range p.used {
		r = append(r, s)
	}
	sort.Ints(r)
	return r
}

// the real sizes of the buffers behind a stream
func pipeUnit(mt utils.AVMediaType) int {
	if mt == utils.AVMediaTypeVideo {
		return 1024 * 1024 * 2
	}
	return 48000 * 12
}

func scaled(v any, unit int) any { // multiplies the lengths of [[v,n],...] by unit
	switch x := v.(type) {
	case []any:
		if len(x) == 2 {
			a, ok1 := x[0].(float64)
			b, ok2 := x[1].(float64)
			if ok1 && ok2 {
				return []any{a, b * float64(unit)}
			}
		}
		r := []any{}
		for _, y := range x {
			r = append(r, scaled(y, unit))
		}
		return r
	}
	return v
}

func init() {
	replayers["pipeline"] = func(b J) string {
		p := newPipe(b["kind"].(string))
		types := []utils.AVMediaType{}
		unit := []int{}
		for _, x := range b["types"].([]any) {
			mt := utils.AVMediaType(num(x))
			types = append(types, mt)
			u := pipeUnit(mt) / 4
			if p.kind == "direct" || b["small"] == true {
				u = 3
			}
			unit = append(unit, u)
		}
		var res [][2]int
		var last int
		for k, o := range b["ops"].([]any) {
			op := o.([]any)
			var v byte
			last = num(op[1])
			if op[0] == "write" {
				v = p.next()
			}
			var pan bool
			var msg string
			res, pan, msg = p.do(op[0].(string), last, num(op[2])*unit[last], v, types[last])
			if pan {
				return fmt.Sprintf("step %d panics: %s", k+1, msg)
			}
		}
		if e := check("result", res, scaled(b["res"], unit[last])); e != "" {
			return e
		}
		live, pend := b["live"].([]any), b["pend"].([]any)
		for s := range live {
			if !p.used[s] {
				continue
			}
			var got int
			if pan, msg := guard(func() { got = p.p.PendingBlockSize(s) }); pan {
				return "PendingBlockSize panics: " + msg
			}
			if got != num(pend[s])*unit[s] {
				return check(fmt.Sprintf("pending size of stream %d", s), got, num(pend[s])*unit[s])
			}
			if e := check(fmt.Sprintf("blocks of stream %d", s), p.blocks(s), scaled(live[s], unit[s])); e != "" {
				return e
			}
		}
		return ""
	}

	recorders["pipeline"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		for e := 0; e < n; e++ {
			t.episodes++
			recordPipe(t, rng, e)
		}
	}
}

func recordPipe(t *tracer, rng *rand.Rand, e int) {
	kind := "streams"
	if e%4 == 0 {
		kind = "direct"
	}
	p := newPipe(kind)
	emit := func(op string, s, n int, v byte, res [][2]int, pan bool, msg string) {
		rec := J{"op": op, "kind": kind, "s": s, "n": n, "v": int(v), "res": res, "panic": pan, "live": []any{}, "pend": []any{}}
		if !pan {
			pan, msg = guard(func() {
				live, pend := []any{}, []any{}
				for _, s := range p.streams() {
					pend = append(pend, []any{s, p.p.PendingBlockSize(s)})
					live = append(live, []any{s, p.blocks(s)})
				}
				rec["live"], rec["pend"] = live, pend
			})
		}
		if pan {
			rec["panic"], rec["msg"] = true, msg
		}
		t.emit(rec)
	}
	emit("new", 0, 0, 0, [][2]int{}, false, "")
	if kind == "direct" {
		max := 1 + rng.Intn(2000)
		for i, steps := 0, 10+rng.Intn(60); i < steps; i++ {
			op, n, v := "write", rng.Intn(max), byte(0)
			switch k := rng.Intn(10); {
			case k < 2:
				op, n = "fetch", 0
			case k < 4:
				op = "seek"
				if rng.Intn(2) == 0 {
					n = rng.Intn(20)
				}
			case k == 4:
				n = 0
			}
			if op == "write" {
				v = p.next()
			}
			setCur(J{"op": op, "n": n})
			res, pan, msg := p.do(op, 0, n, v, utils.AVMediaTypeVideo)
			emit(op, 0, n, v, res, pan, msg)
			if pan {
				return
			}
		}
		return
	}
	ns := 1 + rng.Intn(4)
	small := rng.Intn(3) == 0
	if small && rng.Intn(3) == 0 {
		ns = 5 + rng.Intn(6)
	}
	idx := rng.Perm(ns + 2)[:ns] // sparse indices, first used in any order
	if rng.Intn(2) == 0 {
		idx = rng.Perm(ns)
	}
	if rng.Intn(8) == 0 { // far apart
		idx = rng.Perm([]int{20, 70, 150, 300}[rng.Intn(4)])[:ns]
		if rng.Intn(2) == 0 && ns > 1 {
			idx[1] = (idx[0] + []int{1, 8, 16, 32, 64, 128, 256}[rng.Intn(7)]) % 512
		}
		for i := range idx[:ns] {
			for j := 0; j < i; j++ {
				if idx[i] == idx[j] {
					idx[i]++
					j = -1
				}
			}
		}
	}
	types := map[int]utils.AVMediaType{}
	fixed := map[int]int{}
	depth := map[int]int{}
	for _, s := range idx {
		types[s] = []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio, utils.AVMediaTypeAudio, utils.AVMediaTypeUnknown, utils.AVMediaTypeData, utils.AVMediaTypeSubtitle}[rng.Intn(6)]
		depth[s] = 1 + rng.Intn(6)
		if rng.Intn(3) == 0 {
			fixed[s] = pipeUnit(types[s]) / (2 + rng.Intn(7))
		}
	}
	size := func(s int) int {
		u := pipeUnit(types[s])
		if fixed[s] > 0 && rng.Intn(6) > 0 {
			return fixed[s]
		}
		if small {
			return rng.Intn(2000)
		}
		switch rng.Intn(12) {
		case 0:
			return 0
		case 1, 2:
			return rng.Intn(100)
		case 3:
			return u + rng.Intn(3) - 1
		case 4:
			return u/2 + rng.Intn(3) - 1
		case 5:
			return u + rng.Intn(u)
		default:
			return rng.Intn(u / 3)
		}
	}
	total := 0
	for i, steps := 0, 20+rng.Intn(40); i < steps && total < 60<<20; i++ {
		s := idx[rng.Intn(ns)]
		op, n, v := "write", 0, byte(0)
		live := p.live[s]
		switch k := rng.Intn(100); {
		case rng.Intn(20) == 0:
			op = "pending"
		case p.open[s] && k < 50:
			op = "fetch"
		case len(live) > depth[s] && k < 80, len(live) > 0 && k < 10:
			op = "head"
		case len(live) > 0 && k < 20:
			op = "back"
		case len(live) > 0 && k < 25:
			op = "fetch"
		}
		if op == "write" {
			n, v = size(s), p.next()
			total += n
		}
		setCur(J{"op": op, "s": s, "n": n})
		res, pan, msg := p.do(op, s, n, v, types[s])
		emit(op, s, n, v, res, pan, msg)
		if pan {
			return
		}
	}
}
