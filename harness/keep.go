package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"time"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// keepers are further calls whose results stay in use: what they return is
// looked at again and again, and then done away with.
var keepers = []struct {
	name string
	f    func(in []byte, rng *rand.Rand) (see func() any, drop func())
}{
	{"live packet", func(in []byte, rng *rand.Rand) (func() any, func()) {
		id := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265}[len(in)%2]
		form := []avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC}[len(in)/2%2]
		c, err := avformat.NewAVCCodecData(cat(code4, okSps), cat(code4, pps4))
		if err != nil {
			panic("codec data refused: " + err.Error())
		}
		s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, id, nil, c)
		p := avformat.NewVideoPacket(in, 7, 9, len(in)%3 == 0, form, id, 3, 1000)
		b, a := avformat.AVCCPacket2AnnexB(s, p), avformat.AnnexBPacket2AVCC(p)
		return func() any {
			return []any{b, a, p.Data, p.Dts, p.Pts, p.Index, p.Key, p.CodecID, avformat.AVCCPacket2AnnexB(s, p), s.Data, c.AnnexBExtraData(), c.MP4ExtraData()}
		}, func() { avformat.FreePacket(p) }
	}},
	{"live audio packet", func(in []byte, rng *rand.Rand) (func() any, func()) {
		p, err := avformat.ExtractAudioPacket(utils.AVCodecIdAAC, in, 5, 2, 1000, len(in)%2 == 0)
		if err != nil {
			return func() any { return 1 }, func() {}
		}
		return func() any { return []any{p.Data, p.Dts, p.Pts, p.Index, p.MediaType} }, func() { avformat.FreePacket(p) }
	}},
	{"avc.Marshal", func(in []byte, rng *rand.Rand) (func() any, func()) {
		r := avc.AVCDecoderConfigurationRecord{}
		b, err := r.Marshal([][]byte{okSps, cat(okSps, in)}, [][]byte{in})
		return func() any { return []any{b, errNo(err)} }, func() {}
	}},
	{"hevc.Marshal", func(in []byte, rng *rand.Rand) (func() any, func()) {
		r := hevc.HEVCDecoderConfigurationRecord{}
		b, err := r.Marshal([][]byte{hvps}, [][]byte{cat(hvps, in)}, [][]byte{in})
		return func() any { return []any{b, errNo(err)} }, func() {}
	}},
	{"splits", func(in []byte, rng *rand.Rand) (func() any, func()) {
		var us [][]byte
		avc.SplitNalU(in, func(u []byte) { us = append(us, u) })
		return func() any { return us }, func() {}
	}},
	{"ring block", func(in []byte, rng *rand.Rand) (func() any, func()) {
		b := collections.NewRBBlockBuffer(1 + len(in)%40)
		b.Write(in)
		x := b.Fetch()
		b.Write(in)
		y := b.Fetch()
		return func() any { return [][]byte{x, y} }, func() { b.Clear() }
	}},
	{"linear block", func(in []byte, rng *rand.Rand) (func() any, func()) {
		b := collections.NewDirectBlockBuffer(1 + len(in)%40)
		b.Write(in)
		x := b.Fetch()
		b.Write(in)
		y := b.Fetch()
		return func() any { return [][]byte{x, y, b.(interface{ Data() []byte }).Data()} }, func() { b.Clear() }
	}},
	{"pipeline block", func(in []byte, rng *rand.Rand) (func() any, func()) {
		s := &avformat.StreamsBuffer{}
		_, _ = s.Write(in, 0, utils.AVMediaTypeAudio)
		x, _ := s.Fetch(0)
		return func() any { return x }, func() { s.DiscardHeadPacket(0) }
	}},
	{"direct pipeline", func(in []byte, rng *rand.Rand) (func() any, func()) {
		s := &avformat.DirectDataPipeline{}
		_, _ = s.Write(in, 0, utils.AVMediaTypeAudio)
		x, _ := s.Fetch(0)
		return func() any { return x }, func() {}
	}},
	{"queue", func(in []byte, rng *rand.Rand) (func() any, func()) {
		q := collections.NewQueue[int](1 + len(in)%3)
		for _, x := range in {
			q.Push(int(x))
		}
		return func() any { a, b := q.Data(); return []any{a, b, q.Size()} }, func() { q.Clear() }
	}},
}

func digest(v any) string {
	h := fnv.New64a()
	_, _ = h.Write([]byte(js(v)))
	return strconv.FormatUint(h.Sum64(), 16)
}

type kept struct {
	h    int
	see  func() any
	drop func()
}

func init() {
	// n episodes of calls whose results stay in use
	recorders["keep"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		rec := func(op string) J {
			return J{"op": op, "h": 0, "fn": "", "in": "", "val": "", "live": []J{}, "panic": false}
		}
		for k := 0; k < n; k++ {
			t.episodes++
			t.emit(rec("new"))
			var live []*kept
			type call struct {
				fn int
				in []byte
			}
			var past []call
			for i, steps := 0, 10+rng.Intn(60); i < steps; i++ {
				r := rec("call")
				r["h"] = i + 1
				c := call{rng.Intn(len(entries) + 2*len(keepers)), randStructure(rng)}
				if rng.Intn(4) == 0 {
					c.in = spoil(rng, c.in)
				}
				if len(past) > 0 && rng.Intn(3) == 0 { // the same call once more
					c = past[rng.Intn(len(past))]
				} else {
					past = append(past, c)
				}
				in := append([]byte{}, c.in...)
				r["in"] = digest(in)
				x := &kept{h: i + 1, drop: func() {}}
				if c.fn < len(entries) {
					r["fn"] = entries[c.fn].name
				} else {
					r["fn"] = keepers[(c.fn-len(entries))%len(keepers)].name
				}
				if len(in) == 0 {
					continue
				}
				setCur(J{"call": r["fn"], "in": ints(in)})
				pan, msg := guard(func() {
					if c.fn < len(entries) {
						var ps [][]byte
						res := entries[c.fn].f(in, &ps)
						x.see = func() any { return []any{in, res} }
					} else {
						see, drop := keepers[(c.fn-len(entries))%len(keepers)].f(in, rng)
						x.see, x.drop = func() any { return []any{in, see()} }, drop
					}
					r["val"] = digest(x.see())
				})
				if !pan {
					live = append(live, x)
					ls := []J{}
					pan, msg = guard(func() {
						for _, y := range live {
							ls = append(ls, J{"h": y.h, "val": digest(y.see())})
						}
					})
					r["live"] = ls
				}
				if pan {
					r["panic"], r["msg"] = true, msg
				}
				t.emit(r)
				if pan {
					return
				}
				for len(live) > 12 || len(live) > 0 && rng.Intn(6) == 0 {
					j := rng.Intn(len(live))
					d := rec("drop")
					d["h"] = live[j].h
					pan, msg := guard(live[j].drop)
					if pan {
						d["panic"], d["msg"] = true, msg
					}
					t.emit(d)
					if pan {
						return
					}
					live = append(live[:j], live[j+1:]...)
				}
			}
		}
	}
}

// nearby changes little of the input: same length, one or two bytes differ.
func nearby(rng *rand.Rand, in []byte) []byte {
	b := append([]byte{}, in...)
	for i := rng.Intn(2); i >= 0; i-- {
		p := rng.Intn(len(b))
		if rng.Intn(2) == 0 { // rather behind what a glance would see
			p = len(b) - 1 - rng.Intn(1+len(b)/2)
		}
		b[p] ^= 1 << rng.Intn(8)
	}
	return b
}

// asked is what one process answers to families of calls that differ little.
type asked struct {
	Family      int
	Fn, In, Val string
	Panic       bool
	Msg         string
}

// askFamilies makes the calls of n families, in one order or the opposite one.
func askFamilies(seed int64, n int, reverse bool) []asked {
	type call struct {
		family, fn int
		in         []byte
		ar         *arena
	}
	var calls []call
	rng := rand.New(rand.NewSource(seed))
	ar := &arena{}
	for k := 0; k < n; k++ {
		kit := &dmKit{rng: rng}
		fn := rng.Intn(len(entries))
		var ins [][]byte
		switch fam := rng.Intn(3); {
		case fam == 0: // parameter sets of one stream after another
			make, src := nearSps264, rng.Int63()
			if rng.Intn(2) == 0 {
				make = nearSps265
			}
			sc := [][]byte{nil, code4, {0, 0, 1}}[rng.Intn(3)]
			for i := 0; i < 4; i++ {
				s, _, _ := make(rand.New(rand.NewSource(src)), i)
				ins = append(ins, cat(sc, s))
			}
			for i, e := range entries {
				if e.name == "avc.ParseSPS" && ins[0][len(sc)]&0x1F == 7 || e.name == "hevc.ParseSPS" && ins[0][len(sc)] == 0x42 {
					fn = i
				}
			}
		case fam == 1: // access units and records around them
			codec := pick(rng, "h264", "h265")
			for i := 0; i < 4; i++ {
				s := kit.freshSets(codec)
				switch {
				case fn%2 == 0:
					ins = append(ins, kit.flat(append(append([][]byte{}, s.sets...), []byte{[]byte{0x65, 0x26}[b2i(codec == "h265")], 1, 0xAF}), false))
				case codec == "h264":
					ins = append(ins, avccRecord(s.sets[0], s.sets[1]))
				default:
					ins = append(ins, hvccRecord(s.sets[0], s.sets[1], s.sets[2]))
				}
			}
		default:
			in := randStructure(rng)
			for len(in) == 0 {
				in = randStructure(rng)
			}
			ins = [][]byte{in, nearby(rng, in), nearby(rng, in), nearby(rng, in)}
		}
		var a *arena
		if rng.Intn(3) > 0 {
			a = ar
		}
		for i := 0; i < 14; i++ {
			calls = append(calls, call{k, fn, ins[rng.Intn(len(ins))], a})
		}
	}
	var r []asked
	for i := range calls {
		c := calls[i]
		if reverse {
			c = calls[len(calls)-1-i]
		}
		x := asked{Family: c.family, Fn: entries[c.fn].name, In: digest(c.in)}
		setCur(J{"call": x.Fn, "in": ints(c.in)})
		in := c.ar.put(c.in)
		x.Panic, x.Msg = guard(func() {
			var ps [][]byte
			x.Val = digest([]any{entries[c.fn].f(in, &ps), in})
		})
		r = append(r, x)
	}
	return r
}

func init() {
	// n families of calls, made by this process and, in the opposite order, by another one
	recorders["twins"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		seed, err := strconv.ParseInt(opt["half"], 10, 64)
		if err == nil {
			for _, x := range askFamilies(seed, n, true) {
				t.emit(x)
			}
			return
		}
		seed = rng.Int63()
		dir, err := os.MkdirTemp("", "verif-twins-")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(dir)
		exe, err := os.Executable()
		if err != nil {
			fatal(err)
		}
		file := filepath.Join(dir, "half")
		cmd := exec.Command(exe, "record", "twins", "-n", strconv.Itoa(n), "-out", file, "-opt", fmt.Sprintf(`{"half":"%d"}`, seed))
		said := make(chan string, 1)
		go func() {
			out, err := cmd.CombinedOutput()
			if err != nil {
				said <- fmt.Sprintf("the other process fails: %v %s", err, out)
				return
			}
			said <- ""
		}()
		here := askFamilies(seed, n, false)
		msg := <-said
		var there []asked
		if msg == "" {
			f, err := os.Open(file)
			if err != nil {
				fatal(err)
			}
			for d := json.NewDecoder(f); d.More(); {
				var x asked
				if err := d.Decode(&x); err != nil {
					fatal(err)
				}
				there = append(there, x)
			}
			_ = f.Close()
		} else {
			there = []asked{{Fn: "all", Panic: true, Msg: msg}}
		}
		rec := func(op string) J {
			return J{"op": op, "h": 0, "fn": "", "in": "", "val": "", "live": []J{}, "panic": false}
		}
		for k := 0; k < n; k++ {
			t.episodes++
			t.emit(rec("new"))
			for half, xs := range [][]asked{here, there} {
				if half == 1 {
					t.emit(rec("again"))
				}
				for _, x := range xs {
					if x.Family == k {
						r := rec("ask")
						r["fn"], r["in"], r["val"], r["panic"], r["msg"] = x.Fn, x.In, x.Val, x.Panic, x.Msg
						t.emit(r)
					}
				}
			}
		}
	}
}

// ladder is one call after another that succeeds: failing ones make the library
// format errors, which brings an order between clients (fmt's pools) and hides
// what they write at first use.
func ladder(rng *rand.Rand) (names []string, ins [][]byte, calls []func() any, free int) {
	kit := &dmKit{rng: rng}
	add := func(name string, in []byte, f func() any) {
		names, ins, calls = append(names, name), append(ins, in), append(calls, f)
	}
	on := func(in []byte, which ...string) {
		for _, w := range which {
			for _, e := range entries {
				if e := e; e.name == w {
					add(w, in, func() any { var ps [][]byte; return e.f(in, &ps) })
				}
			}
			for _, k := range keepers {
				if k := k; k.name == w {
					add(w, in, func() any {
						see, drop := k.f(in, rng)
						defer drop()
						return digest(see())
					})
				}
			}
		}
	}
	a, h := kit.freshSets("h264"), kit.freshSets("h265")
	idr, irap := cat([]byte{0x65}, kit.body(9)), cat([]byte{0x26, 1}, kit.body(9))
	au, hau := kit.flat(append(append([][]byte{}, a.sets...), idr), false), kit.flat(append(append([][]byte{}, h.sets...), irap), false)
	ar, hr := avccRecord(a.sets[0], a.sets[1]), hvccRecord(h.sets[0], h.sets[1], h.sets[2])
	on(a.sets[0], "avc.ParseSPS")
	on(cat(code4, a.sets[0]), "NewAVCCodecData")
	on(h.sets[1], "hevc.ParseSPS")
	on(cat(code4, h.sets[1]), "NewHEVCCodecData")
	for _, x := range [][]byte{au, hau} {
		on(x, "avc.FindStartCode", "avc.FindStartCode2", "avc.FindStartCodeWithReader", "avc.ParseNalUnits", "avc.RemoveStartCode", "avc.SplitNalU", "IsKeyFrame",
			"avc.AnnexB2AVCC", "splits", "ring block", "linear block", "pipeline block", "direct pipeline", "queue")
	}
	on(au, "avc.ParseExtraDataFromKeyNALU", "CreateAVCStreamFromKeyFrame")
	on(hau, "hevc.ParseExtraDataFromKeyNALU", "CreateHevcStreamFromKeyFrame")
	on(ar, "avc.Unmarshal", "avc.NewCodecDataFromRecord", "ParseAVCDecoderConfigurationRecord", "avc.ExtraDataToAnnexB", "avc.M4VCExtraDataToAnnexB")
	on(hr, "hevc.Unmarshal", "hevc.NewCodecDataFromRecord", "ParseHEVCDecoderConfigurationRecord", "hevc.ExtraDataToAnnexB")
	on(prefixed(append(append([][]byte{}, a.sets...), idr), 4), "avc.AVCC2AnnexB", "avc.AVCC2AnnexB with extra", "avc.Mp4ToAnnexB")
	on(a.sets[1], "avc.Marshal")
	on(h.sets[2], "hevc.Marshal")
	on(kit.audio("aac", "adts", 12), "utils.ReadADtsFixedHeader")
	on([]byte{0x12, 0x10}, "utils.ParseMpeg4AudioConfig")
	i := rng.Intn(13)
	bits := randBytes(rng, 12)
	add("hevc.Mp4ToAnnexB", prefixed(append(append([][]byte{}, h.sets...), irap), 4), func() any {
		in := prefixed(append(append([][]byte{}, h.sets...), irap), 4)
		d := room(in)
		n, err := hevc.Mp4ToAnnexB(d, in, nil, 4)
		return []any{wrote(d, n), errNo(err)}
	})
	add("adts", []byte{byte(i)}, func() any {
		b := make([]byte, 7)
		utils.SetADtsHeader(b, 0, 1, i, 2, 100)
		r, ok := utils.GetSampleRateFromFrequency(i)
		x, err := utils.ReadADtsFixedHeader(b)
		e, n, cfg, err2 := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, b)
		return []any{b, r, ok, utils.GetSampleRateIndex(r), adtsFields(x), errNo(err), e, n, cfg, errNo(err2)}
	})
	add("times", []byte{byte(i)}, func() any {
		p := avformat.AVPacket{Dts: 9000, Pts: 18000, Duration: 3600, Timebase: 90000}
		return []any{avformat.ConvertTs(int64(i)*44100, 44100, 90000), p.ConvertDts(1000), p.ConvertPts(48000), p.GetDuration(1000), p.GetPtsDtsDelta(1000)}
	})
	add("bits", bits, func() any {
		b := append([]byte{}, bits...)
		bufio.WriteBits(b, 5, 7, 99)
		g := bufio.GolombBitReader{R: bytes.NewReader(b)}
		u, err := g.ReadExponentialGolombCode()
		s, err2 := g.ReadSE()
		return []any{b, bufio.ReadBits(b, 3, 17), u, s, errNo(err), errNo(err2)}
	})
	add("muxer", nil, func() any {
		m := &avformat.BaseMuxer{}
		x, err := m.AddTrack(&avformat.SimpleTrack{Stream: avformat.NewAVStream(utils.AVMediaTypeAudio, 0, utils.AVCodecIdAAC, nil, nil)})
		return []any{x, errNo(err), utils.AVCodecIdAAC.String(), utils.AVMediaTypeAudio.String()}
	})
	free = len(calls) // the rest shares a pool of packets
	for _, x := range [][]byte{au, hau} {
		on(x, "packet views", "live packet")
	}
	on(kit.audio("aac", "adts", 12), "live audio packet")
	return
}

func init() {
	// what several clients do for the first time, with nothing in common
	recorders["ladder"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		start := rng.Intn(1 << 20)
		for k := 0; k < n; k++ {
			t.episodes++
			names, ins, calls, free := ladder(rand.New(rand.NewSource(int64(k) + 1)))
			vals := make([]string, len(calls))
			const tick = int64(60 * time.Millisecond) // all at the same time, without telling each other
			for next := (time.Now().UnixNano()/tick + 1) * tick; time.Now().UnixNano() < next; {
			}
			pan, msg := guard(func() {
				for j := range calls {
					i := j
					if j < free {
						i = (j + start) % free
					}
					vals[i] = digest(calls[i]())
				}
			})
			t.emit(J{"op": "again", "h": 0, "fn": "", "in": "", "val": "", "live": []J{}, "panic": pan, "msg": msg})
			for i := range calls {
				t.emit(J{"op": "ask", "h": 0, "fn": names[i], "in": strconv.Itoa(k) + digest(ins[i]), "val": vals[i], "live": []J{}, "panic": pan, "msg": msg})
			}
			if pan {
				return
			}
		}
	}
}
