package main

import (
	"encoding/binary"
	"math/rand"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
)

func lists(ls ...[][]byte) [][][]int {
	r := [][][]int{}
	for _, l := range ls {
		k := [][]int{}
		for _, b := range l {
			k = append(k, ints(b))
		}
		r = append(r, k)
	}
	return r
}

func noConfig() J {
	return J{"ok": false, "header": []int{}, "kinds": [][][]int{}, "annexb": J{"ok": false, "bytes": []int{}}, "m4vc": J{"ok": false, "bytes": []int{}},
		"data": J{"ok": false, "annexb": []int{}, "mp4": []int{}, "kinds": [][][]int{}}}
}

// configRead observes everything the library says about record bytes.
func configRead(ar *arena, codec string, in []byte) J {
	o := noConfig()
	d := ar.put(in)
	var c avformat.CodecData
	var err error
	if codec == "avc" {
		r := avc.AVCDecoderConfigurationRecord{}
		for i := len(in) % 3; i > 0; i-- { // a record may be used again
			_ = r.Unmarshal(d)
		}
		if r.Unmarshal(d) == nil {
			o["ok"], o["kinds"] = true, lists(r.SPSList, r.PPSList)
			o["header"] = []int{int(r.ConfigurationVersion), int(r.AVCProfileIndication), int(r.ProfileCompatibility), int(r.AVCLevelIndication), int(r.LengthSizeMinusOne)}
		}
		if b, err := avc.ExtraDataToAnnexB(d); err == nil {
			o["annexb"] = J{"ok": true, "bytes": ints(b)}
		}
		if b, err := avc.M4VCExtraDataToAnnexB(d); err == nil {
			o["m4vc"] = J{"ok": true, "bytes": ints(b)}
		}
		c, err = avformat.ParseAVCDecoderConfigurationRecord(d)
	} else {
		r := hevc.HEVCDecoderConfigurationRecord{}
		for i := len(in) % 3; i > 0; i-- { // a record may be used again
			_ = r.Unmarshal(d)
		}
		if r.Unmarshal(d) == nil {
			o["ok"], o["kinds"] = true, lists(r.VPSList, r.SPSList, r.PPSList)
			h := []int{int(r.ConfigurationVersion), int(r.GeneralProfileSpace), int(r.GeneralTierFlag), int(r.GeneralProfileIdc)}
			h = append(h, ints(binary.BigEndian.AppendUint32(nil, r.GeneralProfileCompatibilityFlags))...)
			h = append(h, ints(binary.BigEndian.AppendUint64(nil, r.GeneralConstraintIndicatorFlags)[2:])...)
			h = append(h, int(r.GeneralLevelIdc), int(r.MinSpatialSegmentationIdc), int(r.ParallelismType), int(r.ChromaFormat), int(r.BitDepthLumaMinus8),
				int(r.BitDepthChromaMinus8), int(r.AvgFrameRate), int(r.ConstantFrameRate), int(r.NumTemporalLayers), int(r.TemporalIdNested),
				int(r.LengthSizeMinusOne), int(r.NumOfArrays))
			if r.GeneralConstraintIndicatorFlags>>48 != 0 {
				h = nil
			}
			o["header"] = h
		}
		if b, err := hevc.ExtraDataToAnnexB(d); err == nil {
			o["annexb"] = J{"ok": true, "bytes": ints(b)}
		}
		c, err = avformat.ParseHEVCDecoderConfigurationRecord(d)
	}
	if err == nil {
		k := lists(c.SPS(), c.PPS())
		if h, ok := c.(*avformat.HEVCCodecData); ok {
			k = lists(h.VPS(), c.SPS(), c.PPS())
		}
		o["data"] = J{"ok": true, "annexb": ints(c.AnnexBExtraData()), "mp4": ints(c.MP4ExtraData()), "kinds": k}
	}
	for i := range d {
		if d[i] != in[i] {
			o["header"] = "the record was changed"
		}
	}
	return o
}

func init() {
	replayers["decconfig"] = func(b J) string {
		codec, rec, e := b["codec"].(string), bytesOf(b["rec"]), b["e"].(J)
		kinds := []any{}
		if k, ok := e["kinds"]; ok {
			for _, sets := range norm(k).([]any) {
				c := [][]int{}
				for _, s := range sets.([]any) {
					c = append(c, ints(cat(code4, bytesOf(s))))
				}
				kinds = append(kinds, c)
			}
		}
		whole := rec
		for i := 0; i <= len(rec); i++ {
			ok := e["ok"].(bool)
			if i < len(rec) {
				whole, ok = rec[:i], b["cut"].([]any)[i].(bool)
			} else {
				whole = rec
			}
			var o J
			if pan, msg := guard(func() { o = configRead(replayArena, codec, whole) }); pan {
				return "panics: " + msg
			}
			if m := check("accepted "+js(ints(whole)), o["ok"], ok); m != "" {
				return m
			}
			if m := check("Annex-B accepted "+js(ints(whole)), o["annexb"].(J)["ok"], ok); m != "" {
				return m
			}
			if ok {
				if m := check("header", o["header"], e["header"]); m != "" {
					return m
				}
				if m := check("sets", o["kinds"], kinds); m != "" {
					return m
				}
			}
		}
		return ""
	}

	recorders["decconfig"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		ar := &arena{}
		big := opt["tier"] != "quick"
		for k := 0; k < n; k++ {
			t.episodes++
			codec := []string{"avc", "hevc"}[rng.Intn(2)]
			heads := []byte{0x67, 0x68}
			if codec == "hevc" {
				heads = []byte{0x40, 0x42, 0x44}
			}
			valid := rng.Intn(3) == 0
			count := func(max int) int {
				switch rng.Intn(12) {
				case 0:
					return rng.Intn(max + 1)
				case 1:
					return 0
				}
				return 1 + rng.Intn(3)
			}
			huge := 2
			body := func() []byte {
				size := 4 + rng.Intn(20)
				switch rng.Intn(15) {
				case 0:
					size = 240 + rng.Intn(40)
				case 1:
					if big {
						size = 4 + rng.Intn(3000)
					} else {
						size = 4 + rng.Intn(700)
					}
				case 2:
					if k%20 == 0 && huge > 0 {
						size = 65530
						huge--
					}
				}
				return randBytes(rng, size)
			}
			var sets [][][]byte
			for i, h := range heads {
				l := [][]byte{}
				max := 31
				if i != 0 && codec == "avc" {
					max = 255
				} else if codec == "hevc" && k%15 == 0 {
					max = 300
				}
				c := count(max)
				if valid && c == 0 {
					c = 1
				}
				for ; c > 0; c-- {
					u := append([]byte{h}, body()...)
					if codec == "hevc" {
						u = append([]byte{h, 1}, u[1:]...)
					}
					sps := i == len(heads)-2
					if valid && sps {
						if codec == "avc" {
							u, _, _ = randSps264(rng)
						} else {
							u, _, _ = randSps265(rng)
						}
					}
					l = append(l, u)
				}
				sets = append(sets, l)
			}
			edge := k%25 == 7 // as much as a record can hold, or just too much
			if edge {
				over, size := rng.Intn(2), 4+rng.Intn(3)
				i, m := rng.Intn(len(heads)), 1
				switch {
				case codec == "hevc" || k%50 == 7 && k < 200:
					size = 65535 + over
				case i == 0:
					m = 31 + over
				default:
					m = 255 + over
				}
				var l [][]byte
				for ; m > 0; m-- {
					l = append(l, append([]byte{heads[i], 1}, randBytes(rng, size-2)...))
				}
				sets[i], valid = l, false
				for j := range sets {
					if len(sets[j]) == 0 {
						sets[j] = [][]byte{append([]byte{heads[j], 1}, randBytes(rng, 5)...)}
					}
				}
			}
			rec := J{"op": "parse", "codec": codec, "valid": valid, "d": []int{}, "o": noConfig(), "panic": false,
				"made": J{"ok": false, "bytes": []int{}}, "sets": [][][]int{}}
			if edge || rng.Intn(3) > 0 { // build
				rec["op"] = "build"
				prefixedSets := [][][]byte{}
				for _, l := range sets {
					p := [][]byte{}
					for _, u := range l {
						p = append(p, cat([][]byte{nil, {0, 0, 1}, code4}[rng.Intn(3)], u))
					}
					prefixedSets = append(prefixedSets, p)
				}
				rec["sets"] = lists(prefixedSets...)
				setCur(rec)
				one := valid && rng.Intn(2) == 0
				if one {
					for i := range prefixedSets {
						prefixedSets[i] = [][]byte{cat(code4, sets[i][0])}
					}
					rec["sets"] = lists(prefixedSets...)
				}
				pan, msg := guard(func() {
					var made []byte
					var err error
					if one { // through the codec data
						var c avformat.CodecData
						if codec == "avc" {
							c, err = avformat.NewAVCCodecData(prefixedSets[0][0], prefixedSets[1][0])
						} else {
							c, err = avformat.NewHEVCCodecData(prefixedSets[0][0], prefixedSets[1][0], prefixedSets[2][0])
						}
						if err == nil {
							made = c.MP4ExtraData()
						}
					} else if codec == "avc" {
						made, err = (&avc.AVCDecoderConfigurationRecord{}).Marshal(prefixedSets[0], prefixedSets[1])
					} else {
						made, err = (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(prefixedSets[0], prefixedSets[1], prefixedSets[2])
					}
					if err == nil && (!one || len(made) > 0) {
						rec["made"] = J{"ok": true, "bytes": ints(made)}
						rec["o"] = configRead(ar, codec, made)
					}
				})
				if pan {
					rec["panic"], rec["msg"] = true, msg
				}
				t.emit(rec)
				continue
			}
			// a record with all header bits, arrays in any order, perhaps truncated or with trailing bytes
			var d []byte
			if codec == "avc" {
				d = append(randBytes(rng, 5), byte(rng.Intn(8)<<5|len(sets[0])))
				for _, s := range sets[0] {
					d = append(d, len16(s)...)
				}
				d = append(d, byte(len(sets[1])))
				for _, s := range sets[1] {
					d = append(d, len16(s)...)
				}
			} else {
				d = append(randBytes(rng, 22), 0)
				type array struct {
					t    int
					sets [][]byte
				}
				var as []array
				for i, l := range sets {
					for len(l) > 0 && rng.Intn(3) == 0 {
						as = append(as, array{32 + i, l[:1]})
						l = l[1:]
					}
					as = append(as, array{32 + i, l})
				}
				for rng.Intn(2) == 0 {
					as = append(as, array{rng.Intn(64) | 35&rng.Intn(64), [][]byte{body()}})
					if tt := as[len(as)-1].t; tt >= 32 && tt <= 34 {
						as = as[:len(as)-1]
					}
				}
				if k%9 == 0 { // as many arrays as there may be
					for m := 100 + rng.Intn(156-len(as)%50); len(as) < m && len(as) < 255; {
						switch rng.Intn(4) {
						case 0: // one more of a needed kind
							i := rng.Intn(3)
							as = append(as, array{32 + i, [][]byte{append([]byte{heads[i], 1}, randBytes(rng, 4)...)}})
						case 1: // an empty one
							as = append(as, array{rng.Intn(64), nil})
						default:
							as = append(as, array{48 + rng.Intn(16), [][]byte{randBytes(rng, 1+rng.Intn(4))}})
						}
					}
				}
				rng.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
				d[22] = byte(len(as))
				for _, a := range as {
					d = append(d, byte(rng.Intn(4)<<6|a.t), byte(len(a.sets)>>8), byte(len(a.sets)))
					for _, s := range a.sets {
						d = append(d, len16(s)...)
					}
				}
				rec["valid"] = false // the first SPS need not be the parsable one
			}
			if rng.Intn(3) == 0 {
				d = d[:rng.Intn(len(d)+1)]
				rec["valid"] = false
			} else if rng.Intn(4) == 0 {
				d = append(d, randBytes(rng, rng.Intn(6))...)
			}
			rec["d"] = ints(d)
			setCur(rec)
			if pan, msg := guard(func() { rec["o"] = configRead(ar, codec, d) }); pan {
				rec["panic"], rec["msg"] = true, msg
			}
			t.emit(rec)
		}
	}
}
