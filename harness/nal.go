package main

import (
	"math/rand"
	"strconv"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// nalScan observes everything the library says about the bytes p.
func nalScan(ar *arena, p []byte) J {
	in := ar.put(p)
	o := J{}
	i, n := avc.FindStartCode(in)
	o["first"] = []int{i, n}
	o["start"] = avc.FindStartCode2(in)
	r := bufio.NewBytesReader(in)
	h := avc.FindStartCodeWithReader(r)
	o["reader"] = []int{h, r.Offset()}
	o["count"] = avc.ParseNalUnits(in)
	o["strip"] = ints(avc.RemoveStartCode(in))
	o["key264"] = avc.IsKeyFrame(in) && avformat.IsKeyFrame(utils.AVCodecIdH264, in)
	o["key265"] = hevc.IsKeyFrame(in) && avformat.IsKeyFrame(utils.AVCodecIdH265, in)
	if avc.IsKeyFrame(in) != avformat.IsKeyFrame(utils.AVCodecIdH264, in) {
		o["key264"] = "differs"
	}
	if hevc.IsKeyFrame(in) != avformat.IsKeyFrame(utils.AVCodecIdH265, in) {
		o["key265"] = "differs"
	}
	o["keyother"] = avformat.IsKeyFrame(utils.AVCodecIdAAC, in) || avformat.IsKeyFrame(utils.AVCodecIdVP8, in)
	pieces := [][]int{}
	avc.SplitNalU(in, func(u []byte) { pieces = append(pieces, ints(u)) })
	o["pieces"] = pieces
	o["sets264"], o["sets265"] = [][]int{}, [][]int{}
	if sps, pps, err := avc.ParseExtraDataFromKeyNALU(in); err == nil {
		o["sets264"] = [][]int{ints(sps), ints(pps)}
	}
	if vps, sps, pps, err := hevc.ParseExtraDataFromKeyNALU(in); err == nil {
		o["sets265"] = [][]int{ints(vps), ints(sps), ints(pps)}
	}
	o["extra264"], o["extra265"] = []int{}, []int{}
	if e, err := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, in); err == nil {
		o["extra264"] = ints(e)
	}
	if e, err := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, in); err == nil {
		o["extra265"] = ints(e)
	}
	for k := range p {
		if in[k] != p[k] {
			o["first"] = "the input was changed"
		}
	}
	return o
}

func noScan() J {
	return J{"first": []int{}, "start": 0, "reader": []int{}, "count": 0, "strip": []int{}, "key264": false, "key265": false, "keyother": false,
		"pieces": [][]int{}, "sets264": [][]int{}, "sets265": [][]int{}, "extra264": []int{}, "extra265": []int{}}
}

var (
	heads264 = []byte{0x65, 0x25, 0x41, 0x01, 0x06, 0x67, 0x27, 0x68, 0x28, 0x09, 0x0C, 0x05, 0x1F, 0x0A}
	heads265 = []byte{0x40, 0x42, 0x44, 0x46, 0x4E, 0x50, 0x20, 0x26, 0x28, 0x2A, 0x2E, 0x1E, 0x30, 0x02, 0x00, 0x3E}
)

// nalBody is payload free of start codes that does not end in zero.
func nalBody(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	zeros := 0
	for i := range b {
		switch rng.Intn(4) {
		case 0:
			b[i] = 0
		case 1:
			b[i] = byte(1 + rng.Intn(3))
		default:
			b[i] = byte(rng.Intn(256))
		}
		if zeros >= 2 && b[i] <= 3 {
			b[i] = 3
		}
		if b[i] == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if n > 0 && b[n-1] == 0 {
		b[n-1] = 0x80
	}
	return b
}

func init() {
	replayers["nal"] = func(b J) string {
		p, e := bytesOf(norm(b["p"])), b["e"].(J)
		var o J
		if pan, msg := guard(func() { o = nalScan(replayArena, p) }); pan {
			return "panics: " + msg
		}
		flat := []int{}
		for _, u := range o["pieces"].([][]int) {
			if len(u) == 0 {
				return "SplitNalU reports an empty piece"
			}
			flat = append(flat, u...)
		}
		if m := check("concatenated pieces", flat, ints(p)); m != "" {
			return m
		}
		for k, want := range e {
			if k == "annexb" {
				continue
			}
			if !e["annexb"].(bool) && (k == "pieces" || k[:3] == "set" || k[:3] == "ext") {
				continue
			}
			if m := check(k, o[k], want); m != "" {
				return m
			}
		}
		return ""
	}

	recorders["nal"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		ar := &arena{}
		big := opt["tier"] != "quick"
		shard, _ := strconv.Atoi(opt["shard"])
		for k := 0; k < n; k++ {
			t.episodes++
			var p []byte
			mode := rng.Intn(8)
			if k >= 1 && k <= 3 { // a large unit among others
				mode = 7
			}
			if k%12 == 4 { // what decides about the access unit comes late
				mode = 8
			}
			switch {
			case mode == 8:
				skip, key, other := []byte{0x06, 0x67, 0x68, 0x09}, []byte{0x65, 0x25}, []byte{0x41, 0x01}
				if rng.Intn(2) == 0 {
					skip, key, other = []byte{0x40, 0x42, 0x44, 0x4E, 0x46}, []byte{0x26, 0x2A, 0x20, 0x2E}, []byte{0x02, 0x30}
				}
				size := 1 << uint(6+rng.Intn(7))
				if k == 4 {
					size = 66000
				}
				m := 1 + rng.Intn(6)
				if rng.Intn(3) == 0 {
					m = 60 + rng.Intn(40)
				}
				unit := func(h []byte, n int) {
					p = cat(p, [][]byte{{0, 0, 1}, code4}[rng.Intn(2)], h[rng.Intn(len(h)):][:1], nalBody(rng, n))
				}
				for i := 0; i < m; i++ {
					unit(skip, size/m+rng.Intn(4))
				}
				if rng.Intn(4) == 0 {
					unit(other, 3)
				}
				if rng.Intn(4) > 0 {
					unit(key, rng.Intn(6))
				}
			case mode == 0: // anything
				p = randBytes(rng, rng.Intn(40))
			case mode <= 2: // small alphabet
				p = make([]byte, rng.Intn(60))
				for i := range p {
					p[i] = []byte{0, 0, 0, 1, 1, 0x65, 0x67, 0x68, 0x40, 0x26}[rng.Intn(10)]
				}
			default: // access units, some with header-less codes, extra zeros, cut off
				heads := heads264
				if rng.Intn(2) == 0 {
					heads = heads265
				}
				m := rng.Intn(9)
				if k == 1 {
					m = 4
				}
				if k == 2 || k == 3 { // hundreds of units
					m = 257 + rng.Intn(80)
				}
				for i := 0; i < m; i++ {
					p = append(p, [][]byte{{0, 0, 1}, {0, 0, 0, 1}}[rng.Intn(2)]...)
					if rng.Intn(12) == 0 {
						continue
					}
					p = append(p, heads[rng.Intn(len(heads))])
					if rng.Intn(4) == 0 {
						p[len(p)-1] = byte(rng.Intn(256))
					}
					size := rng.Intn(20)
					if m > 200 {
						size = rng.Intn(4)
					}
					if k == 1 && i == 1 {
						size = 65500 + rng.Intn(100)
					}
					if big && rng.Intn(20) == 0 {
						size = rng.Intn(1500)
					} else if rng.Intn(40) == 0 {
						size = 255 + rng.Intn(20)
					}
					p = append(p, nalBody(rng, size)...)
					if rng.Intn(10) == 0 {
						p = append(p, make([]byte, rng.Intn(4))...)
					}
				}
				if m < 200 && rng.Intn(6) == 0 && len(p) > 0 {
					p = p[:rng.Intn(len(p))]
				}
				if rng.Intn(8) == 0 {
					p = append([]byte{byte(rng.Intn(3))}, p...)
				}
			}
			if k == 0 { // every header byte once
				p = nil
				for h := shard; h < 256; h += 4 {
					q := append([]byte{0, 0, 1, byte(h), 9, 0, 0, 1}, heads265[h%len(heads265)])
					rec := J{"op": "new", "p": ints(q), "panic": false, "o": noScan()}
					setCur(rec)
					if pan, msg := guard(func() { rec["o"] = nalScan(ar, q) }); pan {
						rec["panic"], rec["msg"] = true, msg
					}
					t.emit(rec)
				}
			}
			rec := J{"op": "new", "p": ints(p), "panic": false, "o": noScan()}
			setCur(rec)
			if pan, msg := guard(func() { rec["o"] = nalScan(ar, p) }); pan {
				rec["panic"], rec["msg"] = true, msg
			}
			t.emit(rec)
		}
	}
}
