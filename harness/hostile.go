package main

import (
	"bytes"
	"math/rand"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

// entry is one way network data gets into the library.  It returns what there
// is to see; parts are the byte strings it claims to have found in the input.
type entry struct {
	name string
	f    func(in []byte, parts *[][]byte) []any
}

func errNo(err error) int { return b2i(err != nil) }

func room(in []byte) []byte { return fill(len(in)*5+300, 0xA7) }

// wrote reports what a conversion left in its destination, 0xA7 behind it.
func wrote(dst []byte, n int) any {
	if n < 0 || n > len(dst) {
		return "wrote " + js(n)
	}
	for _, b := range dst[n:] {
		if b != 0xA7 {
			return "bytes behind the output were written"
		}
	}
	return append([]byte{}, dst[:n]...)
}

func codecSeen(c avformat.CodecData, err error) []any {
	if err != nil {
		return []any{1}
	}
	return []any{0, c.Width(), c.Height(), c.AnnexBExtraData(), c.MP4ExtraData(), c.SPS(), c.PPS()}
}

func streamSeen(s *avformat.AVStream, err error) []any {
	if err != nil {
		return []any{1}
	}
	return append(codecSeen(s.CodecParameters, nil), s.Data, s.CodecID)
}

// bare takes one start code off every unit.
func bare(lists ...[][]byte) (r [][]byte) {
	for _, l := range lists {
		for _, u := range l {
			r = append(r, bytes.TrimPrefix(u, code4))
		}
	}
	return r
}

var okSps = []byte{103, 66, 100, 56, 119, 196, 100}

func packetViews(in []byte, id utils.AVCodecID, form avformat.PacketType, key bool, c avformat.CodecData) []any {
	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, id, nil, c)
	p := avformat.NewVideoPacket(in, 1, 1, key, form, id, 0, 1000)
	defer avformat.FreePacket(p)
	b := append([]byte{}, avformat.AVCCPacket2AnnexB(s, p)...)
	a := append([]byte{}, avformat.AnnexBPacket2AVCC(p)...)
	return []any{b, a, append([]byte{}, avformat.AVCCPacket2AnnexB(s, p)...)}
}

var entries = []entry{
	{"avc.FindStartCode", func(in []byte, _ *[][]byte) []any { a, b := avc.FindStartCode(in); return []any{a, b} }},
	{"avc.FindStartCode2", func(in []byte, _ *[][]byte) []any { return []any{avc.FindStartCode2(in)} }},
	{"avc.FindStartCodeWithReader", func(in []byte, _ *[][]byte) []any {
		r := bufio.NewBytesReader(in)
		return []any{avc.FindStartCodeWithReader(r), r.Offset()}
	}},
	{"avc.ParseNalUnits", func(in []byte, _ *[][]byte) []any { return []any{avc.ParseNalUnits(in)} }},
	{"avc.RemoveStartCode", func(in []byte, p *[][]byte) []any {
		r := avc.RemoveStartCode(in)
		*p = append(*p, r)
		return []any{r}
	}},
	{"avc.SplitNalU", func(in []byte, p *[][]byte) []any {
		r := []any{}
		avc.SplitNalU(in, func(u []byte) {
			c := append([]byte{}, u...)
			*p = append(*p, c)
			r = append(r, c)
		})
		return r
	}},
	{"IsKeyFrame", func(in []byte, _ *[][]byte) []any {
		return []any{avc.IsKeyFrame(in), hevc.IsKeyFrame(in), avformat.IsKeyFrame(utils.AVCodecIdH264, in), avformat.IsKeyFrame(utils.AVCodecIdH265, in),
			avformat.IsKeyFrame(utils.AVCodecIdVP8, in), avformat.IsKeyFrame(utils.AVCodecIdAAC, in)}
	}},
	{"avc.ParseExtraDataFromKeyNALU", func(in []byte, p *[][]byte) []any {
		a, b, err := avc.ParseExtraDataFromKeyNALU(in)
		if err == nil {
			*p = append(*p, bytes.TrimPrefix(a, code4), bytes.TrimPrefix(b, code4))
		}
		return []any{a, b, errNo(err)}
	}},
	{"hevc.ParseExtraDataFromKeyNALU", func(in []byte, p *[][]byte) []any {
		v, a, b, err := hevc.ParseExtraDataFromKeyNALU(in)
		if err == nil {
			*p = append(*p, bytes.TrimPrefix(v, code4), bytes.TrimPrefix(a, code4), bytes.TrimPrefix(b, code4))
		}
		return []any{v, a, b, errNo(err)}
	}},
	{"ExtractVideoExtraDataFromKeyFrame", func(in []byte, _ *[][]byte) []any {
		a, e1 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, in)
		b, e2 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, in)
		c, e3 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdVP8, in)
		return []any{a, b, c, errNo(e1), errNo(e2), errNo(e3)}
	}},
	{"CreateAVCStreamFromKeyFrame", func(in []byte, _ *[][]byte) []any { return streamSeen(avformat.CreateAVCStreamFromKeyFrame(in, 0)) }},
	{"CreateHevcStreamFromKeyFrame", func(in []byte, _ *[][]byte) []any { return streamSeen(avformat.CreateHevcStreamFromKeyFrame(in, 0)) }},
	{"avc.ParseSPS", func(in []byte, _ *[][]byte) []any { s, err := avc.ParseSPS(in); return []any{s, errNo(err)} }},
	{"hevc.ParseSPS", func(in []byte, _ *[][]byte) []any { s, err := hevc.ParseSPS(in); return []any{s, errNo(err)} }},
	{"avc.Unmarshal", func(in []byte, p *[][]byte) []any {
		r := avc.AVCDecoderConfigurationRecord{}
		err := r.Unmarshal(in)
		if err == nil {
			*p = append(*p, bare(r.SPSList, r.PPSList)...)
		}
		return []any{r.SPSList, r.PPSList, errNo(err)}
	}},
	{"hevc.Unmarshal", func(in []byte, p *[][]byte) []any {
		r := hevc.HEVCDecoderConfigurationRecord{}
		err := r.Unmarshal(in)
		if err == nil {
			*p = append(*p, bare(r.VPSList, r.SPSList, r.PPSList)...)
		}
		return []any{r.VPSList, r.SPSList, r.PPSList, errNo(err)}
	}},
	{"avc.NewCodecDataFromRecord", func(in []byte, _ *[][]byte) []any {
		_, s, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(in)
		if err != nil {
			return []any{1}
		}
		return []any{*s}
	}},
	{"hevc.NewCodecDataFromRecord", func(in []byte, _ *[][]byte) []any {
		_, s, err := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(in)
		if err != nil {
			return []any{1}
		}
		return []any{*s}
	}},
	{"ParseAVCDecoderConfigurationRecord", func(in []byte, _ *[][]byte) []any {
		return codecSeen(avformat.ParseAVCDecoderConfigurationRecord(in))
	}},
	{"ParseHEVCDecoderConfigurationRecord", func(in []byte, _ *[][]byte) []any {
		return codecSeen(avformat.ParseHEVCDecoderConfigurationRecord(in))
	}},
	{"avc.ExtraDataToAnnexB", func(in []byte, _ *[][]byte) []any { b, err := avc.ExtraDataToAnnexB(in); return []any{b, errNo(err)} }},
	{"avc.M4VCExtraDataToAnnexB", func(in []byte, _ *[][]byte) []any {
		b, err := avc.M4VCExtraDataToAnnexB(in)
		return []any{b, errNo(err)}
	}},
	{"hevc.ExtraDataToAnnexB", func(in []byte, _ *[][]byte) []any { b, err := hevc.ExtraDataToAnnexB(in); return []any{b, errNo(err)} }},
	{"NewAVCCodecData", func(in []byte, _ *[][]byte) []any {
		return append(codecSeen(avformat.NewAVCCodecData(in, cat(code4, pps4))), codecSeen(avformat.NewAVCCodecData(cat(code4, okSps), in))...)
	}},
	{"NewHEVCCodecData", func(in []byte, _ *[][]byte) []any {
		return codecSeen(avformat.NewHEVCCodecData(cat(code4, hvps), in, cat(code4, hpps)))
	}},
	{"avc.AVCC2AnnexB", func(in []byte, _ *[][]byte) []any {
		d := room(in)
		return []any{wrote(d, avc.AVCC2AnnexB(d, in, nil))}
	}},
	{"avc.AVCC2AnnexB with extra", func(in []byte, _ *[][]byte) []any {
		d := room(in)
		e := cat(code4, okSps, code4, pps4)
		return []any{wrote(d, avc.AVCC2AnnexB(d, in, e))}
	}},
	{"avc.Mp4ToAnnexB", func(in []byte, _ *[][]byte) []any {
		w := bufio.NewBytesWriter(room(in))
		avc.Mp4ToAnnexB(w, in, nil)
		x := bufio.NewBytesWriter(room(in))
		avc.Mp4ToAnnexB(x, in, cat(code4, okSps, code4, pps4))
		return []any{w.WrittenBytes(), x.WrittenBytes()}
	}},
	{"hevc.Mp4ToAnnexB", func(in []byte, _ *[][]byte) []any {
		r := []any{}
		for ls := 1; ls <= 4; ls++ {
			for _, e := range [][]byte{nil, cat(code4, hvps, code4, hpps)} {
				d := room(in)
				n, err := hevc.Mp4ToAnnexB(d, in, e, ls)
				if err != nil {
					r = append(r, 1)
				} else {
					r = append(r, wrote(d, n))
				}
			}
		}
		return r
	}},
	{"avc.AnnexB2AVCC", func(in []byte, _ *[][]byte) []any {
		d := room(in)
		return []any{wrote(d, avc.AnnexB2AVCC(d, in))}
	}},
	{"utils.ReadADtsFixedHeader", func(in []byte, _ *[][]byte) []any {
		h, err := utils.ReadADtsFixedHeader(in)
		if err != nil {
			return []any{1}
		}
		b, e2 := utils.ADtsHeader2MpegAudioConfigData(h)
		return []any{h, b, errNo(e2)}
	}},
	{"utils.ParseMpeg4AudioConfig", func(in []byte, _ *[][]byte) []any {
		c, err := utils.ParseMpeg4AudioConfig(in)
		if err != nil {
			return []any{1}
		}
		return []any{*c}
	}},
	{"ExtractAudioExtraData", func(in []byte, _ *[][]byte) []any {
		r := []any{}
		for _, c := range []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdADPCMG726} {
			e, n, cfg, err := avformat.ExtractAudioExtraData(c, in)
			r = append(r, e, n, cfg, errNo(err))
		}
		return r
	}},
	{"ExtractAudioPacket", func(in []byte, _ *[][]byte) []any {
		r := []any{}
		for _, c := range []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW} {
			for _, adts := range []bool{true, false} {
				p, err := avformat.ExtractAudioPacket(c, in, 7, 1, 1000, adts)
				if err != nil {
					r = append(r, 1)
					continue
				}
				r = append(r, append([]byte{}, p.Data...), p.Dts, p.Index)
				avformat.FreePacket(p)
			}
		}
		return r
	}},
	{"packet views", func(in []byte, _ *[][]byte) []any {
		r := []any{}
		c4, err := avformat.NewAVCCodecData(cat(code4, okSps), cat(code4, pps4))
		if err != nil {
			panic("codec data refused: " + err.Error())
		}
		for _, form := range []avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC} {
			for _, key := range []bool{true, false} {
				r = append(r, packetViews(in, utils.AVCodecIdH264, form, key, c4)...)
				r = append(r, packetViews(in, utils.AVCodecIdH264, form, key, nil)...)
				r = append(r, packetViews(in, utils.AVCodecIdH265, form, key, nil)...)
				r = append(r, packetViews(in, utils.AVCodecIdVP8, form, key, nil)...)
			}
		}
		return r
	}},
}

// slack is the input at the start of a larger memory filled with v.
func slack(in []byte, v byte) []byte {
	return append(append(make([]byte, 0, len(in)+32), in...), fill(32, v)...)[:len(in)]
}

// assault gives the input to every entry point, three times: alone in memory,
// and with other bytes behind it.
func assault(t *tracer, in []byte) {
	r := J{"op": "new", "len": len(in), "panics": []string{}, "outside": []string{}, "changed": []string{}, "parts": [][]int{}}
	if len(in) <= 200 {
		r["in"] = ints(in)
	} else {
		r["in"] = []int{}
	}
	var panics, outside, changed []string
	parts := [][]int{}
	for _, e := range entries {
		var first string
		for k, mem := range [][]byte{append(make([]byte, 0, len(in)), in...)[:len(in):len(in)], slack(in, 0), slack(in, 0xFF)} {
			var ps [][]byte
			var res []any
			setCur(J{"entry": e.name, "in": ints(in)})
			pan, msg := guard(func() { res = e.f(mem, &ps) })
			if pan {
				panics = append(panics, e.name+": "+msg)
				break
			}
			if !bytes.Equal(mem, in) {
				changed = append(changed, e.name)
			}
			s := js(res)
			if k == 0 {
				first = s
				if len(in) <= 200 {
					for _, p := range ps {
						parts = append(parts, ints(p))
					}
				}
			} else if s != first {
				outside = append(outside, e.name)
				break
			}
		}
	}
	if panics != nil {
		r["panics"] = panics
	}
	if outside != nil {
		r["outside"] = outside
	}
	if changed != nil {
		r["changed"] = changed
	}
	r["parts"] = parts
	t.emit(r)
}

// randStructure is something real to be spoilt.
func randStructure(rng *rand.Rand) []byte {
	kit := &dmKit{rng: rng, n: uint32(rng.Intn(1 << 16))}
	codec := pick(rng, "h264", "h265")
	s := kit.freshSets(codec)
	switch rng.Intn(9) {
	case 0, 1:
		return s.sets[len(s.sets)-2]
	case 2:
		return cat(code4, s.sets[len(s.sets)-2])
	case 3, 4:
		if codec == "h264" {
			return avccRecord(s.sets[0], s.sets[1])
		}
		return hvccRecord(s.sets[0], s.sets[1], s.sets[2])
	case 5:
		return kit.video("ts", codec, true, "good", s, rng.Intn(40)).data
	case 6:
		us := append([][]byte{}, s.sets...)
		return prefixed(append(us, cat([]byte{0x65}, kit.body(rng.Intn(20))), cat([]byte{0x26, 1}, kit.body(3))), 1+rng.Intn(4))
	case 7:
		return kit.audio("aac", "adts", 4+rng.Intn(20))
	}
	return randKind(rng, false).data
}

// spoil damages a structure.
func spoil(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	vals := []byte{0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF, 0x67, 0x68, 0x42, 0x44, 0x40}
	for i, k := 0, rng.Intn(4); i <= k && len(b) > 0; i++ {
		p := rng.Intn(len(b))
		switch rng.Intn(7) {
		case 0:
			b = b[:p]
		case 1:
			b[p] = vals[rng.Intn(len(vals))]
		case 2:
			b[p] ^= 1 << rng.Intn(8)
		case 3:
			b = append(b[:p], b[p+1:]...)
		case 4:
			b = cat(b[:p], []byte{vals[rng.Intn(len(vals))]}, b[p:])
		case 5: // a run of zeros or ones: huge Exp-Golomb codes, lengths
			v := []byte{0, 0xFF}[rng.Intn(2)]
			for j := p; j < len(b) && j < p+1+rng.Intn(9); j++ {
				b[j] = v
			}
		case 6:
			q := rng.Intn(len(b))
			if p > q {
				p, q = q, p
			}
			b = cat(b[:q], b[p:])
		}
	}
	return b
}

func init() {
	recorders["hostilegen"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		behaviours(opt["in"], func(b J) {
			t.episodes++
			assault(t, bytesOf(norm(b["in"])))
		})
	}
	recorders["hostile"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		for k := 0; k < n; k++ {
			t.episodes++
			switch k % 10 {
			case 0:
				assault(t, nalBody(rng, rng.Intn(50)))
			case 1:
				b := make([]byte, rng.Intn(60))
				rng.Read(b)
				assault(t, b)
			default:
				assault(t, spoil(rng, randStructure(rng)))
			}
		}
	}
}
