package main

import (
	"math/rand"
	"strconv"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

func adtsFields(h utils.ADtsHeader) []int {
	return []int{h.SyncWord(), h.ID(), h.Layer(), h.ProtectionAbsent(), h.Profile(), h.Frequency(), h.PrivateBit(), h.Channel(),
		h.Original(), h.Home(), h.CopyrightBit(), h.CopyrightStart(), h.FrameLength(), h.Fullness(), h.Blocks()}
}

func noAsc() J {
	return J{"ok": false, "obj": 0, "idx": 0, "chan": 0, "rate": 0, "channels": 0}
}

func ascParsed(data []byte) J {
	r := noAsc()
	c, err := utils.ParseMpeg4AudioConfig(data)
	if err == nil && c != nil {
		r["ok"], r["obj"], r["idx"], r["chan"], r["rate"], r["channels"] = true, c.ObjectType, c.SamplingIndex, c.ChanConfig, c.SampleRate, c.Channels
	}
	return r
}

func noAdts() J {
	return J{"ok": false, "fields": []int{}, "asc": J{"ok": false, "bytes": []int{}, "parsed": noAsc()},
		"ext": J{"ok": false, "bytes": []int{}, "skip": 0, "rate": 0, "channels": 0, "adts": false}}
}

func adtsRead(ar *arena, data []byte) J {
	data = ar.put(data)
	r := noAdts()
	if extra, skip, cfg, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, data); err == nil {
		r["ext"] = J{"ok": true, "bytes": ints(extra), "skip": skip, "rate": cfg.SampleRate, "channels": cfg.Channels, "adts": cfg.HasADTSHeader}
	}
	h, err := utils.ReadADtsFixedHeader(data)
	if err != nil {
		return r
	}
	r["ok"], r["fields"] = true, adtsFields(h)
	if asc, err := utils.ADtsHeader2MpegAudioConfigData(h); err == nil {
		r["asc"] = J{"ok": true, "bytes": ints(asc), "parsed": ascParsed(asc)}
	}
	return r
}

func init() {
	recorders["aac"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		ar := &arena{}
		shard, _ := strconv.Atoi(opt["shard"])
		shards, _ := strconv.Atoi(opt["shards"])
		k := 0
		emit := func(op string, args []int, data []byte, f func(rec J)) {
			if k++; k%shards != shard {
				return
			}
			t.episodes++
			rec := J{"op": op, "args": args, "in": J{"ok": true, "data": ints(data)}, "panic": false, "read": noAdts(), "parsed": noAsc()}
			setCur(rec)
			if pan, msg := guard(func() { f(rec) }); pan {
				rec["panic"], rec["msg"] = true, msg
			}
			t.emit(rec)
		}
		write := func(id, profile, idx, ch, size int, bg byte) {
			emit("write", []int{id, profile, idx, ch, size}, nil, func(rec J) {
				h := fill(9, bg)
				utils.SetADtsHeader(h[:7], id, profile, idx, ch, size)
				rec["in"] = J{"ok": h[7] == bg && h[8] == bg, "data": ints(h[:7])}
				rec["read"] = adtsRead(ar, h[:7])
			})
		}
		read := func(d []byte) {
			emit("read", []int{}, d, func(rec J) { rec["read"] = adtsRead(ar, d) })
		}
		asc := func(d []byte) {
			emit("asc", []int{}, d, func(rec J) { rec["parsed"] = ascParsed(d) })
		}
		// every combination of the written fields, every frame length
		for c := 0; c < 2*4*13*8; c++ {
			for _, size := range []int{7, 8191, 1 << uint(c%13)} {
				write(c&1, c>>1&3, c>>6, c>>3&7, size, byte(c*37))
			}
		}
		step := 5
		if opt["tier"] != "quick" {
			step = 1
		}
		for size := rng.Intn(step); size < 8192; size += step {
			write(rng.Intn(2), rng.Intn(4), rng.Intn(13), rng.Intn(8), size, 0xFF)
		}
		for i := 0; i < 13; i++ {
			i := i
			emit("rate", []int{i, 0, 0}, nil, func(rec J) {
				r, ok := utils.GetSampleRateFromFrequency(i)
				if !ok {
					r = -1
				}
				rec["args"] = []int{i, r, utils.GetSampleRateIndex(r)}
			})
		}
		// every single bit of the header, set and cleared
		for b := 0; b < 56; b++ {
			for _, bg := range []byte{0, 255} {
				d := fill(7, bg)
				d[0], d[1] = 0xFF, d[1]|0xF0
				d[b/8] ^= 0x80 >> uint(b%8)
				read(d)
			}
		}
		for i := 0; i <= 8; i++ {
			read([]byte{0xFF, 0xF1, 0x50, 0x80, 0x02, 0x1F, 0xFC, 0x21}[:i])
		}
		for v := 0; v < 65536; v++ {
			if (v>>3&15) <= 13 && v&7 != 0 && opt["tier"] == "quick" && v%11 != 0 {
				continue // the bits behind the channel configuration do not matter
			}
			asc([]byte{byte(v >> 8), byte(v)})
		}
		for i := 0; i < 2; i++ {
			asc(fill(i, 0x12))
		}
		for i := 0; i < n*shards; i++ {
			d := randBytes(rng, rng.Intn(14))
			if len(d) >= 2 && rng.Intn(5) > 0 {
				d[0], d[1] = 0xFF, d[1]|0xF0
			}
			read(d)
			asc(randBytes(rng, rng.Intn(7)))
		}
	}
}
