package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"

	"github.com/lkmio/avformat/bufio"
)

// bitsStripped is v in binary, most significant bit first, without leading zeros.
func bitsStripped(v uint64) []int {
	r := []int{}
	for i := 63; i >= 0; i-- {
		b := int(v >> uint(i) & 1)
		if b == 1 || len(r) > 0 || i == 0 {
			r = append(r, b)
		}
	}
	return r
}

func bits64(v uint64) []int {
	r := make([]int, 64)
	for i := range r {
		r[i] = int(v >> uint(63-i) & 1)
	}
	return r
}

func beBytes(v uint64, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(v >> uint(8*(n-1-i)))
	}
	return r
}

func beVal(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

// cursor is one byte cursor of either kind.
type cursor struct {
	kind string
	data []byte
	r    bufio.BytesReader
	w    bufio.BytesWriter
	b    bufio.BytesBuffer
}

func newCursor(kind string, data []byte) *cursor {
	c := &cursor{kind: kind, data: data}
	if kind == "r" {
		c.r = bufio.NewBytesReader(data)
		c.b = c.r
	} else {
		c.w = bufio.NewBytesWriter(data)
		c.b = c.w
	}
	return c
}

func (c *cursor) do(op string, n int, in []byte) (res []byte, err error) {
	switch op {
	case "seek":
		return nil, c.b.Seek(n)
	case "back":
		return nil, c.b.SeekBack(n)
	case "clear":
		c.b.Clear()
		return nil, nil
	case "reset":
		c.data = append([]byte{}, in...)
		c.b.Reset(c.data)
		return nil, nil
	}
	if c.kind == "w" {
		switch op {
		case "u8":
			err = c.w.WriteUint8(in[0])
		case "u16":
			err = c.w.WriteUint16(uint16(beVal(in)))
		case "u32":
			err = c.w.WriteUint32(uint32(beVal(in)))
		case "u64":
			err = c.w.WriteUint64(beVal(in))
		case "bytes":
			err = c.w.Write(in)
		}
		return nil, err
	}
	var v uint64
	w := 0
	switch op {
	case "u8":
		var x uint8
		x, err = c.r.ReadUint8()
		v, w = uint64(x), 1
	case "u16":
		var x uint16
		x, err = c.r.ReadUint16()
		v, w = uint64(x), 2
	case "u24":
		var x uint32
		x, err = c.r.ReadUint24()
		v, w = uint64(x), 3
		if x > 0xFFFFFF {
			w = 4
		}
	case "u32":
		var x uint32
		x, err = c.r.ReadUint32()
		v, w = uint64(x), 4
	case "u64":
		v, err = c.r.ReadUint64()
		w = 8
	case "bytes":
		var x []byte
		x, err = c.r.ReadBytes(n)
		if err != nil {
			return nil, err
		}
		return x, nil
	}
	if err != nil {
		return nil, err
	}
	return beBytes(v, w), nil
}

func init() {
	replayers["cursors"] = func(b J) string {
		n := num(b["len"])
		data := make([]byte, n)
		for i := range data {
			data[i] = byte(101 + i)
		}
		c := newCursor(b["kind"].(string), data)
		var res []byte
		var err error
		for k, o := range b["ops"].([]any) {
			op := o.([]any)
			if pan, msg := guard(func() { res, err = c.do(op[0].(string), num(op[1]), bytesOf(op[2])) }); pan {
				return fmt.Sprintf("step %d panics: %s", k+1, msg)
			}
		}
		if (err == nil) != b["ok"].(bool) {
			return fmt.Sprintf("last step: error %v, the specification demands ok=%v", err, b["ok"])
		}
		for _, e := range []string{check("result", ints(res), b["res"]), check("offset", c.b.Offset(), b["off"]),
			check("data", ints(c.data), b["data"]), check("remaining", ints(c.b.RemainingBytes()), b["rem"]),
			check("readable", c.b.ReadableBytes(), n-num(b["off"]))} {
			if e != "" {
				return e
			}
		}
		if c.w != nil {
			return check("written", ints(c.w.WrittenBytes()), b["written"])
		}
		return ""
	}

	recorders["cursors"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		if opt["shard"] == "0" {
			bitGrid(t)
		}
		for e := 0; e < n; e++ {
			recordBytes(t, rng)
			recordBits(t, rng)
			for i := 0; i < 4; i++ {
				recordGolomb(t, rng)
			}
		}
	}
}

func curRec(op string) J {
	return J{"op": op, "kind": "", "n": 0, "in": []int{}, "ok": true, "res": []int{}, "pos": true, "off": 0,
		"data": []int{}, "rem": []int{}, "readable": 0, "written": []int{}, "panic": false}
}

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func recordBytes(t *tracer, rng *rand.Rand) {
	t.episodes++
	kind := []string{"r", "w"}[rng.Intn(2)]
	size := rng.Intn(24)
	if rng.Intn(12) == 0 {
		size = 250 + rng.Intn(300)
	}
	c := newCursor(kind, randBytes(rng, size))
	rec := curRec("new")
	rec["kind"], rec["in"], rec["data"] = kind, ints(c.data), ints(c.data)
	t.emit(rec)
	ops := []string{"u8", "u16", "u24", "u32", "u64", "bytes", "seek", "back", "bytes", "seek", "back", "clear", "reset"}
	for i, steps := 0, 5+rng.Intn(25); i < steps; i++ {
		op := ops[rng.Intn(len(ops))]
		if op == "u24" && kind == "w" || (op == "clear" || op == "reset") && rng.Intn(3) > 0 {
			op = "u16"
		}
		arg, in := 0, []byte{}
		switch op {
		case "bytes":
			arg = rng.Intn(8 + size/5)
		case "seek", "back":
			arg = rng.Intn(8 + size/2)
			if rng.Intn(12) == 0 {
				arg = []int{math.MaxInt, math.MaxInt32, math.MaxInt - 3, 1 << 40}[rng.Intn(4)]
			}
		case "reset":
			in = randBytes(rng, rng.Intn(24+size))
		}
		if kind == "w" {
			if w, ok := map[string]int{"u8": 1, "u16": 2, "u32": 4, "u64": 8, "bytes": arg}[op]; ok {
				in = randBytes(rng, w)
			}
		}
		rec := curRec(op)
		rec["n"], rec["in"] = int(math.Min(float64(arg), 1e6)), ints(in)
		var res []byte
		var err error
		pan, msg := guard(func() {
			res, err = c.do(op, arg, in)
			rec["off"], rec["readable"] = c.b.Offset(), c.b.ReadableBytes()
			rec["rem"] = ints(c.b.RemainingBytes())
			if c.w != nil {
				rec["written"] = ints(c.w.WrittenBytes())
			}
		})
		rec["ok"], rec["res"], rec["data"], rec["panic"] = err == nil, ints(res), ints(c.data), pan
		if pan {
			rec["msg"] = msg
		}
		t.emit(rec)
		if pan {
			return
		}
	}
	v := uint32(rng.Intn(1 << 24))
	d := make([]byte, 3)
	rec = curRec("put24")
	if pan, msg := guard(func() { bufio.PutUint24(d, v); rec["res"] = ints(beBytes(uint64(bufio.Uint24(d)), 3)) }); pan {
		rec["panic"], rec["msg"] = true, msg
	}
	rec["in"], rec["data"] = ints(beBytes(uint64(v), 3)), ints(d)
	t.emit(rec)
}

func recordBits(t *tracer, rng *rand.Rand) {
	t.episodes++
	data := randBytes(rng, 1+rng.Intn(20))
	if rng.Intn(12) == 0 {
		data = randBytes(rng, 35+rng.Intn(30))
	}
	switch rng.Intn(3) {
	case 0:
		data = fill(len(data), 0)
	case 1:
		data = fill(len(data), 255)
	}
	start := func(kind string) {
		rec := curRec("new")
		rec["kind"], rec["in"], rec["data"] = kind, ints(data), ints(data)
		t.emit(rec)
	}
	total := 8 * len(data)
	start("bw")
	type field struct{ skip, n, bytes int }
	fields := []field{}
	w := bufio.BitsWriter{Data: data}
	pos := 0
	for pos < total {
		f := field{}
		if rng.Intn(4) == 0 {
			f.skip = rng.Intn(10)
		}
		if pos+f.skip >= total {
			break
		}
		max := total - pos - f.skip
		f.n = rng.Intn(int(math.Min(float64(max), 64)) + 1)
		if rng.Intn(3) > 0 && f.n > 12 {
			f.n = rng.Intn(12)
		}
		if (pos+f.skip)%8 == 0 && max >= 8 && rng.Intn(4) == 0 {
			f.bytes, f.n = 1+rng.Intn(max/8), 0
		}
		pos += f.skip + f.n + 8*f.bytes
		fields = append(fields, f)
		if f.skip > 0 {
			rec := curRec("seek")
			w.Seek(f.skip)
			rec["n"], rec["off"], rec["data"] = f.skip, w.Offset, ints(data)
			t.emit(rec)
		}
		rec := curRec("write")
		v := rng.Uint64()
		in := randBytes(rng, f.bytes)
		pan, msg := guard(func() {
			if f.bytes > 0 {
				w.WriteBytes(in)
			} else {
				w.Write(f.n, v)
			}
		})
		rec["panic"] = pan
		if pan {
			rec["msg"] = msg
		}
		rec["n"], rec["in"], rec["off"], rec["data"] = f.n, bits64(v), w.Offset, ints(data)
		if f.bytes > 0 {
			rec["op"], rec["n"], rec["in"] = "wbytes", f.bytes, ints(in)
		}
		t.emit(rec)
		if pan {
			return
		}
	}
	start("br")
	r := bufio.BitsReader{Data: data}
	for _, f := range fields {
		if f.skip > 0 {
			rec := curRec("seek")
			r.Seek(f.skip)
			rec["n"], rec["off"], rec["data"] = f.skip, r.Offset, ints(data)
			t.emit(rec)
		}
		rec := curRec("read")
		rec["n"] = f.n
		pan, msg := guard(func() {
			if f.bytes > 0 {
				rec["op"], rec["n"] = "rbytes", f.bytes
				rec["res"] = ints(r.ReadBytes(f.bytes))
			} else {
				if f.n%2 == 0 {
					v, err := r.SafeRead(f.n)
					rec["op"], rec["ok"], rec["res"] = "safe", err == nil, bitsStripped(v)
				} else {
					rec["res"] = bitsStripped(r.Read(f.n))
				}
			}
		})
		rec["panic"], rec["off"], rec["data"] = pan, r.Offset, ints(data)
		if pan {
			rec["msg"] = msg
		}
		t.emit(rec)
		if pan {
			return
		}
	}
	for _, over := range []int{1, 0, 1, 64} { // around the end of the data
		if left := 8*len(data) - r.Offset; left > 64 {
			rec := curRec("seek")
			r.Seek(left - 40)
			rec["n"], rec["off"], rec["data"] = left-40, r.Offset, ints(data)
			t.emit(rec)
		}
		rec := curRec("safe")
		n := 8*len(data) - r.Offset + over
		if n > 64 {
			n = 64
		}
		pan, msg := guard(func() {
			v, err := r.SafeRead(n)
			rec["n"], rec["ok"], rec["off"], rec["data"] = n, err == nil, r.Offset, ints(data)
			if err == nil {
				rec["res"] = bitsStripped(v)
			}
		})
		if pan {
			rec["panic"], rec["msg"] = true, msg
		}
		t.emit(rec)
		if pan {
			return
		}
	}
}

// bitGrid: every offset in two bytes and every length, on all-zero and all-one data.
func bitGrid(t *tracer) {
	for off := 0; off < 16; off++ {
		for n := 0; n <= 64; n++ {
			if n > 20 && n < 62 && n%8 > 1 {
				continue
			}
			for _, bg := range []byte{0, 255} {
				t.episodes++
				data := fill(11, bg)
				rec := curRec("new")
				rec["kind"], rec["in"], rec["data"] = "bw", ints(data), ints(data)
				t.emit(rec)
				w := bufio.BitsWriter{Data: data}
				w.Seek(off)
				rec = curRec("seek")
				rec["n"], rec["off"], rec["data"] = off, w.Offset, ints(data)
				t.emit(rec)
				v := uint64(0xA5C3F1B792D4E68F)
				if n%2 == 0 {
					v = 0
					if bg == 0 {
						v = math.MaxUint64
					}
				}
				pan, msg := guard(func() { w.Write(n, v) })
				rec = curRec("write")
				rec["n"], rec["in"], rec["off"], rec["data"], rec["panic"] = n, bits64(v), w.Offset, ints(data), pan
				if pan {
					rec["msg"] = msg
				}
				t.emit(rec)
				if pan {
					continue
				}
				rec = curRec("new")
				rec["kind"], rec["in"], rec["data"] = "br", ints(data), ints(data)
				t.emit(rec)
				r := bufio.BitsReader{Data: data, Offset: 0}
				r.Seek(off)
				rec = curRec("seek")
				rec["n"], rec["off"], rec["data"] = off, r.Offset, ints(data)
				t.emit(rec)
				rec = curRec("read")
				pan, msg = guard(func() { rec["res"] = bitsStripped(r.Read(n)) })
				rec["n"], rec["off"], rec["data"], rec["panic"] = n, r.Offset, ints(data), pan
				if pan {
					rec["msg"] = msg
				}
				t.emit(rec)
			}
		}
	}
}

type bitString struct {
	b []byte
	n int
}

func (s *bitString) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if s.n%8 == 0 {
			s.b = append(s.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			s.b[s.n/8] |= 1 << uint(7-s.n%8)
		}
		s.n++
	}
}

func (s *bitString) ue(v uint64) {
	n := 0
	for x := v + 1; x > 1; x >>= 1 {
		n++
	}
	s.put(0, n)
	s.put(v+1, n+1)
}

func (s *bitString) se(v int64) {
	if v > 0 {
		s.ue(uint64(2*v - 1))
	} else {
		s.ue(uint64(-2 * v))
	}
}

// codeNum picks an Exp-Golomb code number, mostly small, sometimes at a power of two.
func codeNum(rng *rand.Rand) uint64 {
	switch rng.Intn(4) {
	case 0:
		return uint64(rng.Intn(20))
	case 1:
		return uint64(1)<<uint(rng.Intn(32)) - 1
	case 2:
		return uint64(1)<<uint(rng.Intn(31)+1) - 2
	}
	return rng.Uint64() >> uint(33+rng.Intn(31))
}

func recordGolomb(t *tracer, rng *rand.Rand) {
	t.episodes++
	s := &bitString{}
	type f struct {
		op string
		n  int
	}
	fs := []f{}
	for i, k := 0, 1+rng.Intn(8); i < k; i++ {
		switch rng.Intn(5) {
		case 0, 1:
			s.ue(codeNum(rng))
			fs = append(fs, f{"ue", 0})
		case 2, 3:
			s.ue(codeNum(rng))
			fs = append(fs, f{"se", 0})
		default:
			op := []string{"bits", "bits32", "bits64"}[rng.Intn(3)]
			n := rng.Intn(33)
			if op != "bits32" && rng.Intn(3) == 0 {
				n = rng.Intn(65)
			}
			s.put(rng.Uint64(), n)
			fs = append(fs, f{op, n})
		}
	}
	data := s.b
	if rng.Intn(4) == 0 && len(data) > 0 {
		data = data[:rng.Intn(len(data))]
	}
	rec := curRec("new")
	rec["kind"], rec["in"], rec["data"] = "g", ints(data), ints(data)
	t.emit(rec)
	var src io.Reader = bytes.NewReader(data)
	g := &bufio.GolombBitReader{R: src}
	for _, x := range fs {
		rec := curRec(x.op)
		rec["n"] = x.n
		var err error
		pan, msg := guard(func() {
			switch x.op {
			case "ue":
				var v uint
				v, err = g.ReadExponentialGolombCode()
				rec["res"] = bitsStripped(uint64(v) + 1)
			case "se":
				var u uint
				u, err = g.ReadSE()
				v := int64(u)
				if v > 0 {
					rec["res"] = bitsStripped(uint64(2 * v))
				} else {
					rec["pos"] = false
					rec["res"] = bitsStripped(uint64(-2*v) + 1)
				}
			case "bits":
				var v uint
				v, err = g.ReadBits(x.n)
				rec["res"] = bitsStripped(uint64(v))
			case "bits32":
				var v uint32
				v, err = g.ReadBits32(uint(x.n))
				rec["res"] = bitsStripped(uint64(v))
			case "bits64":
				var v uint64
				v, err = g.ReadBits64(uint(x.n))
				rec["res"] = bitsStripped(v)
			}
		})
		rec["ok"], rec["panic"] = err == nil, pan
		if err != nil {
			rec["res"], rec["pos"] = []int{}, true
		}
		if pan {
			rec["msg"] = msg
		}
		t.emit(rec)
		if err != nil || pan {
			return // what a reader does after an error is not specified
		}
	}
}
