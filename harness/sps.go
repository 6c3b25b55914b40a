package main

import (
	"math/rand"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
)

var (
	code4      = []byte{0, 0, 0, 1}
	pps4       = []byte{0x68, 0xCE, 0x3C, 0x80}
	hvps       = []byte{0x40, 0x01, 0x0C, 0x01}
	startCodes = [][]byte{nil, code4[1:], code4}
	hpps       = []byte{0x44, 0x01, 0xC1, 0x73}
)

func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func len16(b []byte) []byte { return cat([]byte{byte(len(b) >> 8), byte(len(b))}, b) }

// avccRecord and hvccRecord are minimal decoder configuration records.
func avccRecord(sps, pps []byte) []byte {
	return cat([]byte{1, 66, 0, 30, 0xFF, 0xE1}, len16(sps), []byte{1}, len16(pps))
}

func hvccRecord(vps, sps, pps []byte) []byte {
	h := make([]byte, 23)
	h[0], h[21], h[22] = 1, 3, 3
	return cat(h, []byte{0xA0, 0, 1}, len16(vps), []byte{0xA1, 0, 1}, len16(sps), []byte{0xA2, 0, 1}, len16(pps))
}

// spsViews parses a sequence parameter set every way the library offers.
// codes: the start codes put in front; alone: nothing but that.
func spsViews(ar *arena, codec string, sps []byte, alone bool, codes ...[]byte) []J {
	seen := []J{}
	add := func(how string, ok, full bool, v ...int) {
		o := J{"how": how, "ok": ok, "full": full, "width": 0, "height": 0, "profile": 0, "level": 0, "id": 0, "fps": 0, "coded": []int{}}
		if ok {
			o["width"], o["height"] = v[0], v[1]
			if full {
				o["profile"], o["level"], o["id"], o["fps"] = v[2], v[3], v[4], v[5]
			}
		}
		seen = append(seen, o)
	}
	coded := func(v ...uint) { // what the last one says about the coded picture
		if o := seen[len(seen)-1]; o["ok"] == true {
			c := []int{}
			for _, x := range v {
				c = append(c, int(small(int64(x))))
			}
			o["coded"] = c
		}
	}
	coded264 := func(s *avc.SPS) {
		coded(s.ConstraintSetFlag, s.MbWidth, s.MbHeight, s.CropLeft, s.CropRight, s.CropTop, s.CropBottom)
	}
	data := func(how string, c avformat.CodecData, err error) {
		if err != nil {
			add(how, false, false)
			return
		}
		add(how, true, false, c.Width(), c.Height())
	}
	unit := len(sps) > 2 && sps[len(sps)-1] != 0
	for _, sc := range codes {
		how := "ParseSPS behind a start code of " + string(rune('0'+len(sc)))
		if codec == "avc" {
			s, err := avc.ParseSPS(ar.put(cat(sc, sps)))
			add(how, err == nil, true, s.Width, s.Height, int(s.ProfileIdc), int(s.LevelIdc), int(s.Id), s.FPS)
			coded264(&s)
		} else {
			s, err := hevc.ParseSPS(ar.put(cat(sc, sps)))
			add(how, err == nil, false, s.Width, s.Height)
			coded(s.PicWidthInLumaSamples, s.PicHeightInLumaSamples)
		}
	}
	if alone {
		return seen
	}
	if codec == "avc" {
		c, err := avformat.NewAVCCodecData(cat(code4, sps), cat(code4, pps4))
		data("NewAVCCodecData", c, err)
		c, err = avformat.ParseAVCDecoderConfigurationRecord(ar.put(avccRecord(sps, pps4)))
		data("ParseAVCDecoderConfigurationRecord", c, err)
		_, s, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(ar.put(avccRecord(sps, pps4)))
		if err == nil {
			add("NewCodecDataFromAVCDecoderConfigurationRecord", true, true, s.Width, s.Height, int(s.ProfileIdc), int(s.LevelIdc), int(s.Id), s.FPS)
			coded264(s)
		} else {
			add("NewCodecDataFromAVCDecoderConfigurationRecord", false, true)
		}
		if unit {
			st, err := avformat.CreateAVCStreamFromKeyFrame(cat(code4, sps, code4, pps4, code4, []byte{0x65, 0x88, 0x84}), 0)
			if err != nil {
				data("CreateAVCStreamFromKeyFrame", nil, err)
			} else {
				data("CreateAVCStreamFromKeyFrame", st.CodecParameters, nil)
			}
		}
	} else {
		c, err := avformat.NewHEVCCodecData(cat(code4, hvps), cat(code4, sps), cat(code4, hpps))
		data("NewHEVCCodecData", c, err)
		c, err = avformat.ParseHEVCDecoderConfigurationRecord(ar.put(hvccRecord(hvps, sps, hpps)))
		data("ParseHEVCDecoderConfigurationRecord", c, err)
		_, s, err := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(ar.put(hvccRecord(hvps, sps, hpps)))
		if err == nil {
			add("NewCodecDataFromHEVCDecoderConfigurationRecord", true, false, s.Width, s.Height)
			coded(s.PicWidthInLumaSamples, s.PicHeightInLumaSamples)
		} else {
			add("NewCodecDataFromHEVCDecoderConfigurationRecord", false, false)
		}
		if unit {
			st, err := avformat.CreateHevcStreamFromKeyFrame(cat(code4, hvps, code4, sps, []byte{0, 0, 1}, hpps, code4, []byte{0x26, 1, 0xAF}), 0)
			if err != nil {
				data("CreateHevcStreamFromKeyFrame", nil, err)
			} else {
				data("CreateHevcStreamFromKeyFrame", st.CodecParameters, nil)
			}
		}
	}
	return seen
}

func escapeRbsp(b []byte) []byte {
	r, z := []byte{}, 0
	for _, x := range b {
		if z >= 2 && x <= 3 {
			r, z = append(r, 3), 0
		}
		r = append(r, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return r
}

var highProfiles = []int{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

// dimension is mostly small, sometimes around a power of two.
func dimension(rng *rand.Rand, max int) int {
	switch rng.Intn(3) {
	case 0:
		return 1 + rng.Intn(max)
	case 1:
		return 1 << uint(rng.Intn(11))
	}
	return 1 + rng.Intn(120)
}

func crops(rng *rand.Rand, s *bitString, w, h int) (x, y int) {
	if rng.Intn(2) == 0 {
		s.put(0, 1)
		return
	}
	s.put(1, 1)
	for i := 0; i < 4; i++ {
		v := 0
		max := w
		if i >= 2 {
			max = h
		}
		if rng.Intn(2) == 0 && max > 0 {
			v = rng.Intn(max)
		}
		s.ue(uint64(v))
		if i < 2 {
			x += v
		} else {
			y += v
		}
	}
	return
}

func randSe(rng *rand.Rand) int64 {
	switch rng.Intn(3) {
	case 0:
		return int64(rng.Intn(7)) - 3
	case 1:
		return int64(rng.Intn(1<<20)) - 1<<19
	}
	v := int64(1) << uint(rng.Intn(29))
	if rng.Intn(2) == 0 {
		return -v
	}
	return v
}

// randSps264 is a valid H.264 set and its picture size.
func randSps264(rng *rand.Rand) ([]byte, int, int) { return nearSps264(rng, 0) }

// nearSps264 differs from what the same rng gives for near = 0 in its height.
func nearSps264(rng *rand.Rand, near int) ([]byte, int, int) {
	s := &bitString{}
	profile := []int{66, 77, 88, 100}[rng.Intn(4)]
	if rng.Intn(2) == 0 {
		profile = highProfiles[rng.Intn(len(highProfiles))]
	}
	s.put(uint64(profile), 8)
	s.put(uint64(rng.Intn(2)*rng.Intn(256))&0xFC, 8)
	s.put(uint64(rng.Intn(256)), 8)
	s.ue(uint64(rng.Intn(32)))
	high := false
	for _, p := range highProfiles {
		high = high || p == profile
	}
	chroma := 1
	array := 1
	if high {
		chroma = rng.Intn(4)
		array = chroma
		s.ue(uint64(chroma))
		if chroma == 3 {
			b := rng.Intn(2)
			s.put(uint64(b), 1)
			if b == 1 {
				array = 0
			}
		}
		s.ue(uint64(rng.Intn(7)))
		s.ue(uint64(rng.Intn(7)))
		s.put(uint64(rng.Intn(2)), 1)
		if rng.Intn(2) == 0 {
			s.put(0, 1)
		} else {
			s.put(1, 1)
			n := 8
			if chroma == 3 {
				n = 12
			}
			for k := 0; k < n; k++ {
				if rng.Intn(2) == 0 {
					s.put(0, 1)
					continue
				}
				s.put(1, 1)
				size := 16
				if k >= 6 {
					size = 64
				}
				last, stop := 8, rng.Intn(2*size)
				for j := 0; j < size; j++ {
					next := 1 + rng.Intn(255)
					if rng.Intn(3) > 0 {
						next = last
					}
					if j == stop {
						next = 0
					}
					d := next - last
					if d < -128 {
						d += 256
					} else if d > 127 {
						d -= 256
					}
					s.se(int64(d))
					if next == 0 {
						break
					}
					last = next
				}
			}
		}
	}
	s.ue(uint64(rng.Intn(13)))
	poc := rng.Intn(3)
	s.ue(uint64(poc))
	switch poc {
	case 0:
		s.ue(uint64(rng.Intn(13)))
	case 1:
		s.put(uint64(rng.Intn(2)), 1)
		s.se(randSe(rng))
		s.se(randSe(rng))
		n := rng.Intn(5)
		if rng.Intn(8) == 0 {
			n = 255
		}
		s.ue(uint64(n))
		for i := 0; i < n; i++ {
			s.se(randSe(rng))
		}
	}
	s.ue(uint64(rng.Intn(17)))
	s.put(uint64(rng.Intn(2)), 1)
	w, h := dimension(rng, 1000), dimension(rng, 1000)+near
	s.ue(uint64(w - 1))
	s.ue(uint64(h - 1))
	fmo := rng.Intn(2)
	s.put(uint64(fmo), 1)
	if fmo == 0 {
		s.put(uint64(rng.Intn(2)), 1)
	}
	s.put(uint64(rng.Intn(2)), 1)
	cx, cy := crops(rng, s, 4*w, 4*h)
	ux, uy := 1, 2-fmo
	if array == 1 || array == 2 {
		ux = 2
	}
	if array == 1 {
		uy *= 2
	}
	bit := func() int {
		b := rng.Intn(2)
		s.put(uint64(b), 1)
		return b
	}
	if bit() == 1 {
		if bit() == 1 {
			if rng.Intn(2) == 0 {
				s.put(255, 8)
				s.put(uint64(rng.Intn(65536)), 16)
				s.put(uint64(rng.Intn(65536)), 16)
			} else {
				s.put(uint64(rng.Intn(17)), 8)
			}
		}
		if bit() == 1 {
			bit()
		}
		if bit() == 1 {
			s.put(uint64(rng.Intn(8)), 3)
			bit()
			if bit() == 1 {
				s.put(uint64(rng.Intn(1<<24)), 24)
			}
		}
		if bit() == 1 {
			s.ue(uint64(rng.Intn(6)))
			s.ue(uint64(rng.Intn(6)))
		}
		if bit() == 1 {
			u := []int{1, 1000, 1001, 1 + rng.Intn(1<<16), 1 << uint(rng.Intn(30))}[rng.Intn(5)]
			s.put(uint64(u), 32)
			ts := []int{50, 60, 25, 24000, 30000, 60000, 120000, rng.Intn(1 << 30), 2 * u * (1 + rng.Intn(3))}[rng.Intn(9)]
			if ts >= 1<<30 {
				ts = 1<<30 - 1
			}
			s.put(uint64(ts), 32)
			bit()
		}
		s.put(0, 4)
	}
	s.put(1, 1)
	return append([]byte{[]byte{0x67, 0x27, 0x47}[rng.Intn(3)]}, escapeRbsp(s.b)...), 16*w - ux*cx, 16*h*(2-fmo) - uy*cy
}

// randSps265 is a valid H.265 set and its picture size.
func randSps265(rng *rand.Rand) ([]byte, int, int) { return nearSps265(rng, 0) }

func nearSps265(rng *rand.Rand, near int) ([]byte, int, int) {
	s := &bitString{}
	s.put(uint64(rng.Intn(16)), 4)
	sub := rng.Intn(7)
	if rng.Intn(2) == 0 {
		sub = rng.Intn(2)
	}
	s.put(uint64(sub), 3)
	s.put(uint64(rng.Intn(2)), 1)
	zeros := rng.Intn(3) == 0
	some := func(n int) {
		for ; n > 0; n-- {
			if zeros {
				s.put(0, 1)
			} else {
				s.put(uint64(rng.Intn(2)), 1)
			}
		}
	}
	some(88)
	s.put(uint64(30+rng.Intn(150)), 8)
	flags := make([]int, 2*sub)
	for i := range flags {
		flags[i] = rng.Intn(2)
		s.put(uint64(flags[i]), 1)
	}
	if sub > 0 {
		s.put(0, 16-2*sub)
	}
	for i := 0; i < sub; i++ {
		some(88 * flags[2*i])
		some(8 * flags[2*i+1])
	}
	s.ue(uint64(rng.Intn(16)))
	chroma := rng.Intn(4)
	if rng.Intn(3) == 0 {
		chroma = 1
	}
	s.ue(uint64(chroma))
	if chroma == 3 {
		s.put(uint64(rng.Intn(2)), 1)
	}
	w, h := 8*dimension(rng, 2000), 8*(dimension(rng, 2000)+near)
	s.ue(uint64(w))
	s.ue(uint64(h))
	cx, cy := crops(rng, s, w/4, h/4)
	ux, uy := 1, 1
	if chroma == 1 || chroma == 2 {
		ux = 2
	}
	if chroma == 1 {
		uy = 2
	}
	s.ue(uint64(rng.Intn(9)))
	s.ue(uint64(rng.Intn(9)))
	s.ue(uint64(rng.Intn(13)))
	info := rng.Intn(2)
	s.put(uint64(info), 1)
	n := 1
	if info == 1 {
		n = sub + 1
	}
	for i := 0; i < n; i++ {
		s.ue(uint64(rng.Intn(16)))
		s.ue(uint64(rng.Intn(16)))
		s.ue(uint64(rng.Intn(2) * rng.Intn(100000)))
	}
	for i := 0; i < 6; i++ {
		s.ue(uint64(rng.Intn(5)))
	}
	s.put(uint64(rng.Intn(8)), 4) // no scaling list; amp, sao, no pcm (even) follow
	s.ue(0)
	s.put(uint64(rng.Intn(4)), 3)
	s.put(0, 2)
	s.put(1, 1)
	return append([]byte{0x42, 1}, escapeRbsp(s.b)...), w - ux*cx, h - uy*cy
}

func init() {
	replayers["sps"] = func(b J) string {
		codec, sps := b["codec"].(string), bytesOf(b["sps"])
		size, more := b["size"].([]any), norm(b["more"]).([]any)
		var seen []J
		if pan, msg := guard(func() { seen = spsViews(replayArena, codec, sps, false, startCodes...) }); pan {
			return "panics: " + msg
		}
		for _, o := range seen {
			if !o["ok"].(bool) {
				return o["how"].(string) + " fails"
			}
			if e := check(o["how"].(string)+" size", []int{o["width"].(int), o["height"].(int)}, size); e != "" {
				return e
			}
			if o["full"].(bool) {
				if e := check(o["how"].(string)+" profile, level, id, fps", []int{o["profile"].(int), o["level"].(int), o["id"].(int), o["fps"].(int)}, more); e != "" {
					return e
				}
			}
		}
		return ""
	}

	recorders["sps"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		ar := &arena{}
		emit := func(codec string, sps []byte, cut bool, want []int, alone ...[]byte) {
			codes := startCodes
			if len(alone) > 0 {
				codes = alone
			}
			rec := J{"op": "new", "codec": codec, "sps": ints(sps), "cut": cut, "want": want, "seen": []J{}, "panic": false}
			setCur(rec)
			if pan, msg := guard(func() { rec["seen"] = spsViews(ar, codec, sps, len(alone) > 0, codes...) }); pan {
				rec["panic"], rec["msg"] = true, msg
			}
			t.emit(rec)
		}
		for k := 0; k < n; k++ {
			t.episodes++
			codec, sps, w, h := "avc", []byte(nil), 0, 0
			make, src := nearSps264, rng.Int63()
			if rng.Intn(2) == 0 {
				codec, make = "hevc", nearSps265
			}
			sps, w, h = make(rand.New(rand.NewSource(src)), 0)
			emit(codec, sps, false, []int{w, h})
			if k%4 == 1 { // sets that differ little
				sc := startCodes[rng.Intn(3)]
				for _, near := range []int{1, 0, 2, 1} {
					s, w, h := make(rand.New(rand.NewSource(src)), near)
					emit(codec, s, false, []int{w, h}, sc)
				}
			}
			if k%3 == 0 {
				emit(codec, sps[:rng.Intn(len(sps))], true, []int{})
			}
			if k%(n/4+1) == 0 {
				for i := range sps {
					if len(sps) < 80 {
						emit(codec, sps[:i], true, []int{})
					}
				}
			}
		}
	}
}
