package main

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"strconv"

	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
)

// convert runs one conversion into a roomy destination and, with the size
// that took, again into an exact one. intact: the rest of the destination and
// the inputs are unchanged and both runs agree.
func convert(ar *arena, op string, in, extra []byte, ls int) (out []byte, ok, intact bool) {
	src, ex := ar.put(in), append([]byte{}, extra...)
	if len(extra) == 0 {
		ex = nil
	}
	run := func(dst []byte) (int, bool) {
		switch op {
		case "avcc":
			return avc.AVCC2AnnexB(dst, src, ex), true
		case "writer":
			w := bufio.NewBytesWriter(dst)
			avc.Mp4ToAnnexB(w, src, ex)
			return len(w.WrittenBytes()), true
		case "hevc":
			n, err := hevc.Mp4ToAnnexB(dst, src, ex, ls)
			return n, err == nil
		case "toavcc":
			return avc.AnnexB2AVCC(dst, src), true
		}
		panic(op)
	}
	dst := fill(len(in)*4+len(extra)*4+64, 0xA7)
	n, ok := run(dst)
	intact = bytes.Equal(src, in) && bytes.Equal(ex, extra)
	if !ok {
		return nil, false, intact
	}
	if n < 0 || n > len(dst) {
		return nil, true, false
	}
	for _, b := range dst[n:] {
		intact = intact && b == 0xA7
	}
	exact := fill(n, 0xA7)
	m, ok2 := run(exact)
	return dst[:n], ok, intact && ok2 && m == n && bytes.Equal(exact, dst[:n])
}

// matches mirrors Convert!Matches for the generated cases.
func matches(out []byte, segs []any) bool {
	for _, s := range segs {
		unit, b := s.([]any)[0].(bool), bytesOf(s.([]any)[1])
		if unit {
			if bytes.HasPrefix(out, []byte{0, 0, 1}) {
				out = out[3:]
			} else if bytes.HasPrefix(out, []byte{0, 0, 0, 1}) {
				out = out[4:]
			} else {
				return false
			}
		}
		if !bytes.HasPrefix(out, b) {
			return false
		}
		out = out[len(b):]
	}
	return len(out) == 0
}

func prefixed(units [][]byte, ls int) []byte {
	var b []byte
	for _, u := range units {
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(u)))
		b = append(append(b, l[8-ls:]...), u...)
	}
	return b
}

// huge converts a stream of units of these sizes; the output is reported as
// what is in front of each unit, whether its bytes are right, and what is left.
func huge(rec J, op string, sizes []int, ls int) {
	var units [][]byte
	var in []byte
	for i, n := range sizes {
		u := make([]byte, n)
		for j := range u {
			u[j] = byte(1 + (j*7+j>>8+j>>16+i*31)%251)
		}
		copy(u, []byte{0x41, 1})
		if op == "hevc" {
			u[0] = 2
		}
		units = append(units, u)
		in = append(in, make([]byte, i%2)...)
		in = append(append(in, 0, 0, 1), u...)
	}
	if op != "toavcc" {
		in = prefixed(units, ls)
	}
	out, ok, intact := convert(nil, op, in, nil, ls)
	fronts := [][]int{}
	for _, u := range units {
		n := 4
		if op != "toavcc" && len(out) > 2 && out[2] == 1 {
			n = 3
		}
		if len(out) < n+len(u) || !bytes.Equal(out[n:n+len(u)], u) {
			ok = false
			break
		}
		fronts, out = append(fronts, ints(out[:n])), out[n+len(u):]
	}
	rec["fronts"], rec["ok"], rec["intact"], rec["ls"] = fronts, ok, intact, len(out)
}

func init() {
	replayers["convert"] = func(b J) string {
		for _, c := range b["cases"].([]any) {
			c := c.(J)
			op, in, extra, ls := c["op"].(string), bytesOf(norm(c["in"])), bytesOf(norm(c["extra"])), num(c["ls"])
			var out []byte
			var ok, intact bool
			pan, msg := guard(func() { out, ok, intact = convert(replayArena, op, in, extra, ls) })
			what := op + " " + js(ints(in)) + ": "
			if pan {
				return what + "panics: " + msg
			}
			if ok != c["ok"].(bool) {
				return what + check("success", ok, c["ok"])
			}
			if !intact {
				return what + "bytes outside the reported output were touched, or an exactly sized destination gives another result"
			}
			if !ok {
				continue
			}
			if op == "toavcc" {
				if e := check("output", ints(out), c["out"]); e != "" {
					return what + e
				}
			} else if !matches(out, norm(c["segs"]).([]any)) {
				return what + "got " + js(ints(out)) + ", the specification demands the segments " + js(c["segs"])
			}
		}
		return ""
	}

	recorders["convert"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		ar := &arena{}
		for k := 0; k < n; k++ {
			t.episodes++
			if k == 0 {
				shard, _ := strconv.Atoi(opt["shard"])
				op := []string{"avcc", "writer", "hevc", "toavcc"}[shard%4]
				rec := J{"op": "huge", "form": op, "sizes": []int{2 + rng.Intn(300), 1<<24 - 1 + rng.Intn(70000), 65536 + rng.Intn(3), 1 << 16 * (1 + rng.Intn(100)), 2 + rng.Intn(5)},
					"panic": false, "intact": true, "ok": false, "fronts": [][]int{}, "ls": 0}
				setCur(rec)
				if pan, msg := guard(func() { huge(rec, op, rec["sizes"].([]int), 4) }); pan {
					rec["panic"], rec["msg"] = true, msg
				}
				t.emit(rec)
			}
			op := []string{"avcc", "writer", "hevc", "toavcc"}[rng.Intn(4)]
			h265 := op == "hevc" || op == "toavcc" && rng.Intn(2) == 0
			heads, least := heads264, 0
			if h265 {
				heads, least = heads265, 1
			}
			ls := 4
			if op == "hevc" {
				ls = 1 + rng.Intn(4)
			}
			var units [][]byte
			sps := false
			m := rng.Intn(8)
			if k == 1 || k == 2 { // hundreds of units
				m = 257 + rng.Intn(80)
			}
			for i := 0; i < m; i++ {
				u := []byte{heads[rng.Intn(len(heads))]}
				size := least + rng.Intn(12)
				switch rng.Intn(30 + m) {
				case 0:
					size = 250 + rng.Intn(10)
				case 1:
					size = rng.Intn(2000)
				case 2:
					size = 65530 + rng.Intn(12) // a length with several bytes
				}
				if size > 2500 && opt["tier"] == "quick" && rng.Intn(4) > 0 {
					size = 1000
				}
				if ls == 1 && size > 254 {
					size = 254
				}
				if ls == 2 && size > 65534 {
					size = 65534
				}
				if size < least {
					size = least
				}
				if !h265 && (u[0]&31 == 7 || u[0]&31 == 8) {
					if sps {
						continue
					}
					// both kinds of parameter sets or none in front of an IDR unit
					v := append([]byte{15 - u[0]&31}, nalBody(rng, 1+rng.Intn(9))...)
					units, sps = append(units, v), true
				}
				if h265 && u[0] == 0 { // first byte of a TRAIL_N unit
					units = append(units, append([]byte{0, 1}, nalBody(rng, size-least)...))
					continue
				}
				u = append(u, nalBody(rng, size)...)
				if u[len(u)-1] == 0 {
					u = append(u, 0x80)
				}
				units = append(units, u)
			}
			var extra, in []byte
			if rng.Intn(2) == 0 && op != "toavcc" {
				extra = append([]byte{0, 0, 0, 1}, append([]byte{0x67}, nalBody(rng, rng.Intn(30))...)...)
				extra = append(append(extra, 0, 0, 1, 0x68), nalBody(rng, 1+rng.Intn(5))...)
			}
			if op == "toavcc" {
				for i, u := range units {
					in = append(in, make([]byte, rng.Intn(2))...)
					if i == 0 && rng.Intn(3) == 0 {
						in = append(in, make([]byte, 1+rng.Intn(3))...)
					}
					in = append(append(in, 0, 0, 1), u...)
				}
			} else {
				in = prefixed(units, ls)
				if rng.Intn(3) == 0 {
					in = append(in, [][]byte{make([]byte, rng.Intn(9)), fill(rng.Intn(6), 255), prefixed([][]byte{{38, 1, 2, 3}}, ls)[:ls+3]}[rng.Intn(3)]...)
				}
				if m < 200 && rng.Intn(6) == 0 && len(in) > 0 {
					in = in[:rng.Intn(len(in))]
				}
			}
			rec := J{"op": op, "in": ints(in), "extra": ints(extra), "ls": ls, "out": []int{}, "back": []int{}, "ok": false, "intact": true, "panic": false}
			setCur(rec)
			pan, msg := guard(func() {
				out, ok, intact := convert(ar, op, in, extra, ls)
				rec["out"], rec["ok"], rec["intact"] = ints(out), ok, intact
				if op == "toavcc" {
					back, _, intact2 := convert(ar, []string{"writer", "hevc"}[b2i(h265)], out, nil, 4)
					rec["back"], rec["intact"] = ints(back), intact && intact2
				}
			})
			if pan {
				rec["panic"], rec["msg"] = true, msg
			}
			t.emit(rec)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
