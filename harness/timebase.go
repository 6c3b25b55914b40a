package main

import (
	"math/big"
	"math/rand"

	"github.com/lkmio/avformat"
)

func digits(v *big.Int) []int {
	r := []int{}
	x := new(big.Int).Abs(v)
	base, m := big.NewInt(10000), new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, base, m)
		r = append(r, int(m.Int64()))
	}
	return r
}

func signed(v int64) J {
	return J{"neg": v < 0, "m": digits(big.NewInt(v))}
}

func fits(ts *big.Int, src, dst int) bool {
	if src == 0 {
		return true
	}
	p := new(big.Int).Mul(ts, big.NewInt(int64(dst)))
	return p.Quo(p, big.NewInt(int64(src))).IsInt64()
}

var commonBases = []int{1, 2, 3, 24, 25, 30, 50, 60, 1000, 1001, 8000, 11025, 16000, 22050, 24000, 30000, 44100, 48000, 90000, 96000, 1000000, 10000000, 1000000000, 2147483647}

func randBase(rng *rand.Rand) int {
	if rng.Intn(3) > 0 {
		return commonBases[rng.Intn(len(commonBases))]
	}
	return 1 + rng.Intn(1<<uint(1+rng.Intn(31)))
}

func randTs(rng *rand.Rand) int64 {
	var v int64
	switch rng.Intn(6) {
	case 0:
		v = int64(rng.Intn(100))
	case 1:
		v = int64(1)<<uint(rng.Intn(63)) + int64(rng.Intn(3)) - 1
	case 2:
		v = (1 << 33) * int64(rng.Intn(4)) // MPEG-TS wrap
	case 3:
		v = 1<<53 + rng.Int63n(1<<20) - 1<<19 // where floats stop being exact
	default:
		v = rng.Int63() >> uint(rng.Intn(63))
	}
	if rng.Intn(2) == 0 {
		v = -v
	}
	if rng.Intn(40) == 0 {
		v = []int64{-1 << 63, 1<<63 - 1}[rng.Intn(2)]
	}
	return v
}

func init() {
	replayers["timebase"] = func(b J) string {
		ts, src, dst := int64(num(b["ts"])), num(b["src"]), num(b["dst"])
		var got [5]int64
		pan, msg := guard(func() {
			got[0] = avformat.ConvertTs(ts, src, dst)
			p := &avformat.AVPacket{Dts: ts, Pts: 5, Duration: 7, Timebase: src}
			got[1] = p.ConvertDts(dst)
			p = &avformat.AVPacket{Dts: 5, Pts: ts, Duration: 7, Timebase: src}
			got[2] = p.ConvertPts(dst)
			p = &avformat.AVPacket{Dts: 5, Pts: 9, Duration: ts, Timebase: src}
			got[3] = p.GetDuration(dst)
			p = &avformat.AVPacket{Dts: 11, Pts: ts + 11, Duration: 7, Timebase: src}
			got[4] = p.GetPtsDtsDelta(dst)
		})
		if pan {
			return "panics: " + msg
		}
		for i, what := range []string{"ConvertTs", "ConvertDts", "ConvertPts", "GetDuration", "GetPtsDtsDelta"} {
			if e := check(what, got[i], b["res"]); e != "" {
				return e
			}
		}
		return ""
	}

	recorders["timebase"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		for e := 0; e < n; e++ {
			t.episodes++
			src, dst := randBase(rng), randBase(rng)
			if rng.Intn(12) == 0 {
				dst = src
			}
			switch rng.Intn(60) { // not set
			case 0:
				src = 0
			case 1:
				dst = 0
			case 2:
				src, dst = 0, 0
			}
			pick := func() int64 {
				for {
					v := randTs(rng)
					if fits(big.NewInt(v), src, dst) {
						return v
					}
				}
			}
			if rng.Intn(2) == 0 {
				ts := pick()
				rec := J{"op": "conv", "ts": signed(ts), "src": digits(big.NewInt(int64(src))), "dst": digits(big.NewInt(int64(dst))), "res": signed(0), "panic": false}
				setCur(rec)
				if pan, msg := guard(func() { rec["res"] = signed(avformat.ConvertTs(ts, src, dst)) }); pan {
					rec["panic"], rec["msg"] = true, msg
				}
				t.emit(rec)
				continue
			}
			p := &avformat.AVPacket{Timebase: src, Dts: pick(), Pts: pick(), Duration: pick()}
			delta := new(big.Int).Sub(big.NewInt(p.Pts), big.NewInt(p.Dts))
			if rng.Intn(2) == 0 || !delta.IsInt64() || !fits(delta, src, dst) {
				d := int64(rng.Intn(100000)) - 50000
				for p.Dts = pick() / 2; !fits(big.NewInt(p.Dts+d), src, dst); p.Dts = pick() / 2 {
				}
				p.Pts = p.Dts + d
			}
			rec := J{"op": "pkt", "dts": signed(p.Dts), "pts": signed(p.Pts), "dur": signed(p.Duration), "delta": signed(p.Pts - p.Dts),
				"src": digits(big.NewInt(int64(src))), "dst": digits(big.NewInt(int64(dst))), "panic": false,
				"rdts": signed(0), "rpts": signed(0), "rdur": signed(0), "rdelta": signed(0)}
			setCur(rec)
			if pan, msg := guard(func() {
				rec["rdts"], rec["rpts"] = signed(p.ConvertDts(dst)), signed(p.ConvertPts(dst))
				rec["rdur"], rec["rdelta"] = signed(p.GetDuration(dst)), signed(p.GetPtsDtsDelta(dst))
			}); pan {
				rec["panic"], rec["msg"] = true, msg
			}
			t.emit(rec)
		}
	}
}
