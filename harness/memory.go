package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"strconv"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
)

// ---- how much memory is in use ----------------------------------------------

func heapNow() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// A session keeps something alive, feeds it and gives back all it was given,
// except for a bounded part it still uses.
type memSession struct {
	fed, out, peak int64 // bytes: fed so far, outstanding now, at most outstanding
}

func (m *memSession) take(n int) {
	m.fed += int64(n)
	m.out += int64(n)
	if m.out > m.peak {
		m.peak = m.out
	}
}

func (m *memSession) give(n int) { m.out -= int64(n) }

// ---- cycles: a generated behaviour over and over -----------------------------

// cycleBlocks repeats the behaviour, each time giving back what is left: the
// oldest first or the newest first.
func cycleBlocks(ops []any, unit int, oldest bool, write func(n int), fetch, pop, back, clear func(), rounds int) (warm, late, peak int64) {
	m := &memSession{}
	var blocks []int
	open := false
	gone := func(i int) {
		m.give(blocks[i])
		if i == len(blocks)-1 {
			open = false
		}
		blocks = append(blocks[:i], blocks[i+1:]...)
	}
	for k := 0; k < rounds; k++ {
		alive()
		for _, o := range ops {
			op := o.([]any)
			switch op[0] {
			case "w":
				n := num(op[1]) * unit
				write(n)
				m.take(n)
				if !open {
					blocks = append(blocks, 0)
					open = true
				}
				blocks[len(blocks)-1] += n
			case "f":
				fetch()
				open = false
			case "p":
				pop()
				gone(0)
			case "b":
				back()
				gone(len(blocks) - 1)
			case "c":
				clear()
				for len(blocks) > 0 {
					gone(0)
				}
			}
		}
		if open {
			fetch()
			open = false
		}
		for len(blocks) > 0 {
			if oldest {
				pop()
				gone(0)
			} else {
				back()
				gone(len(blocks) - 1)
			}
		}
		if k == rounds/10 {
			warm = heapNow()
		}
	}
	late = heapNow()
	return warm, late, m.peak
}

func tooMuch(what string, warm, late, peak int64) string {
	if grown := late - warm; grown > 8*peak+(16<<10) {
		return fmt.Sprintf("%s: %d bytes more in use after the last round than after the first ones, with at most %d outstanding", what, grown, peak)
	}
	return ""
}

// ---- long sessions ------------------------------------------------------------

type memBlock struct {
	buf, n int
	pkt    *avformat.AVPacket
}

// memStep does one step of a long session.
type memStep func()

func memRing(rng *rand.Rand, m *memSession) memStep {
	b := collections.NewRBBlockBuffer(1 + rng.Intn(1<<uint(rng.Intn(17))))
	return memBuffer(rng, m, b, 1+rng.Intn(8192), 1+rng.Intn(8), true)
}

// memBuffer: a block buffer whose client keeps at most depth blocks (slide: a
// sliding window of them; otherwise it now and then gives back all of them).
func memBuffer(rng *rand.Rand, m *memSession, b collections.BlockBuffer, max, depth int, slide bool) memStep {
	src := make([]byte, max)
	var blocks []int
	newest, clear := []int{0, 1, 6}[rng.Intn(3)], rng.Intn(2) // how often the newest is given back first, everything at once
	return func() {
		n := 0
		for k := 1 + rng.Intn(3); k > 0; k-- {
			x := rng.Intn(max)
			b.Write(src[:x])
			m.take(x)
			n += x
		}
		blocks = append(blocks, n)
		if rng.Intn(8) > 0 {
			b.Fetch()
		} else { // what was written is not wanted
			b.PopBack()
			m.give(n)
			blocks = blocks[:len(blocks)-1]
		}
		drain := !slide && len(blocks) >= depth || rng.Intn(200) == 0
		for len(blocks) > 0 && (drain || len(blocks) > depth || slide && rng.Intn(3) == 0) {
			switch {
			case drain && rng.Intn(6) < clear:
				b.Clear()
				for _, x := range blocks {
					m.give(x)
				}
				blocks = blocks[:0]
			case rng.Intn(6) < newest:
				b.PopBack()
				m.give(blocks[len(blocks)-1])
				blocks = blocks[:len(blocks)-1]
			default:
				b.Pop()
				m.give(blocks[0])
				blocks = blocks[1:]
			}
		}
	}
}

func memStreams(rng *rand.Rand, m *memSession) memStep {
	var p avformat.DataPipeline = &avformat.StreamsBuffer{}
	max := []int{2000, 60000, 400000}[rng.Intn(3)]
	src := make([]byte, max)
	ns, depth := 1+rng.Intn(4), 1+rng.Intn(4)
	q := make([][]int, ns)
	return func() {
		s := rng.Intn(ns)
		n := 0
		for k := 1 + rng.Intn(3); k > 0; k-- {
			x := rng.Intn(max)
			p.Write(src[:x], s, utils.AVMediaType(s%2))
			m.take(x)
			n += x
		}
		if rng.Intn(4) == 0 {
			p.DiscardBackPacket(s)
			m.give(n)
		} else {
			p.Fetch(s)
			q[s] = append(q[s], n)
		}
		for len(q[s]) > depth || len(q[s]) > 0 && rng.Intn(3) == 0 {
			if rng.Intn(6) == 0 {
				p.DiscardBackPacket(s)
				m.give(q[s][len(q[s])-1])
				q[s] = q[s][:len(q[s])-1]
			} else {
				p.DiscardHeadPacket(s)
				m.give(q[s][0])
				q[s] = q[s][1:]
			}
		}
	}
}

func memDirect(rng *rand.Rand, m *memSession) memStep {
	p := &avformat.DirectDataPipeline{}
	src := make([]byte, 4096)
	return func() {
		n := 0
		for k := 1 + rng.Intn(6); k > 0; k-- {
			x := rng.Intn(len(src))
			p.Write(src[:x], 0, utils.AVMediaTypeVideo)
			m.take(x)
			n += x
		}
		if rng.Intn(3) == 0 {
			x := rng.Intn(n + 1)
			p.Seek(int64(-x), 0)
		}
		p.Fetch(0)
		m.give(n)
	}
}

func memContainer(rng *rand.Rand, m *memSession) memStep {
	depth, size := 1+rng.Intn(20), 256<<uint(rng.Intn(4))
	held := 0
	push := func(f func([]byte)) {
		f(make([]byte, size))
		m.take(size)
		held++
	}
	drop := func() {
		m.give(size)
		held--
	}
	switch rng.Intn(3) {
	case 0:
		q := collections.NewQueue[[]byte](1 + rng.Intn(8))
		return func() {
			push(q.Push)
			for held > depth || held > 0 && rng.Intn(3) == 0 {
				if rng.Intn(3) == 0 {
					q.PopBack()
				} else {
					q.Pop()
				}
				drop()
			}
			if rng.Intn(300) == 0 {
				q.Clear()
				for held > 0 {
					drop()
				}
			}
		}
	case 1:
		r := collections.NewRingBuffer[[]byte](depth)
		return func() {
			for held >= depth || held > 0 && rng.Intn(3) == 0 {
				r.Pop()
				drop()
			}
			push(r.Push)
		}
	}
	l := &collections.LinkedList[[]byte]{}
	return func() {
		push(l.Add)
		for held > depth || held > 0 && rng.Intn(3) == 0 {
			l.Remove(rng.Intn(held))
			drop()
		}
	}
}

// memViews: packets that come and go, with both views of them made on the way.
func memViews(rng *rand.Rand, m *memSession) memStep {
	stream := memStream(rng)
	k := &dmKit{rng: rng}
	var held []*avformat.AVPacket
	codec := codecName(stream.CodecID)
	return func() {
		key := rng.Intn(4) == 0
		name, form := "ps", avformat.PacketTypeAnnexB
		if rng.Intn(2) == 0 {
			name, form = "flv", avformat.PacketTypeAVCC
		}
		d := k.video(name, codec, key, "none", dmSps{}, 200+rng.Intn(2000)).data
		p := avformat.NewVideoPacket(d, 1, 1, key, form, stream.CodecID, 0, 1000)
		m.take(3 * len(d))
		held = append(held, p)
		if rng.Intn(3) > 0 {
			avformat.AVCCPacket2AnnexB(stream, p)
			avformat.AnnexBPacket2AVCC(p)
		}
		for len(held) > 4 {
			i := rng.Intn(len(held))
			m.give(3 * len(held[i].Data))
			avformat.FreePacket(held[i])
			held = append(held[:i], held[i+1:]...)
		}
	}
}

// memStream is a video stream with parameter sets.
func memStream(rng *rand.Rand) *avformat.AVStream {
	k := &dmKit{rng: rng}
	codec := pick(rng, "h264", "h265")
	s := k.freshSets(codec)
	d := k.flat(s.sets, false)
	var st *avformat.AVStream
	var err error
	if codec == "h264" {
		st, err = avformat.CreateAVCStreamFromKeyFrame(cat(d, code4, []byte{0x65, 1, 2, 3}), 0)
	} else {
		st, err = avformat.CreateHevcStreamFromKeyFrame(cat(d, code4, []byte{0x26, 1, 2, 3}), 0)
	}
	if err != nil {
		panic(err)
	}
	return st
}

// memDemux: a session of a demuxer over the real buffers, told about its
// streams at first, then fed with packets, among them useless ones.
type memHandler struct {
	f func(p *avformat.AVPacket)
}

func (h *memHandler) OnNewTrack(t avformat.Track)        {}
func (h *memHandler) OnTrackComplete()                   {}
func (h *memHandler) OnTrackNotFind()                    {}
func (h *memHandler) OnPacket(packet *avformat.AVPacket) { h.f(packet) }

// stress: what there is most of, 1 announcements, 2 stray audio, 3 stray video,
// 4 announcements with what cannot be decoded.
func memDemux(rng *rand.Rand, m *memSession, stress int) memStep {
	name := pick(rng, "flv", "ps", "ts", "jt1078")
	mode := pick(rng, "auto", "self", "later")
	p := &avformat.StreamsBuffer{}
	d := &avformat.BaseDemuxer{Name: name, DataPipeline: p, AutoFree: mode == "auto"}
	var held []memBlock
	look := rng.Intn(2) == 0
	d.SetHandler(&memHandler{func(pkt *avformat.AVPacket) {
		n, buf := len(pkt.Data), pkt.BufferIndex
		if look && pkt.MediaType == utils.AVMediaTypeVideo {
			avformat.AVCCPacket2AnnexB(d.Tracks.Tracks[pkt.Index].GetStream(), pkt)
		}
		switch mode {
		case "self":
			d.DiscardHeadPacket(buf)
			avformat.FreePacket(pkt)
			m.give(n)
		case "later":
			held = append(held, memBlock{buf, n, pkt})
		default:
			m.give(n)
		}
	}})
	d.SetProbeDuration(100 + rng.Intn(400))
	kit := &dmKit{rng: rng}
	codecs := [][]string{{"h264", "aac"}, {"h265", "alaw"}, {"h264", "mp3"}, {"h265", "aac"}, {"h264"}, {"aac"}, {"h265"}}[rng.Intn(7)]
	sets := make([]dmSps, len(codecs))
	bufs := make([]int, len(codecs))
	for i, c := range codecs {
		bufs[i] = i
		if isVideo(c) {
			sets[i] = kit.freshSets(c)
		}
	}
	max := []int{500, 3000, 30000}[rng.Intn(3)]
	body := kit.body(max)
	put := func(b []byte, buf int, video bool) []byte {
		mt := utils.AVMediaTypeAudio
		if video {
			mt = utils.AVMediaTypeVideo
		}
		for cut := rng.Intn(3); cut > 0 && len(b) > 4; cut-- {
			n := 1 + rng.Intn(len(b)-2)
			p.Write(b[:n], buf, mt)
			m.take(n)
			b = b[n:]
		}
		p.Write(b, buf, mt)
		m.take(len(b))
		x, _ := p.Fetch(buf)
		return x
	}
	announce := func(i int) {
		c := codecs[i]
		u := kit.extra(name, c, "good", sets[i])
		if d.Completed && stress == 4 {
			u.data = body[:1+rng.Intn(max)]
		}
		n := int(m.out)
		var x []byte
		if len(u.data) > 0 {
			x = put(u.data, bufs[i], isVideo(c))
		}
		if isVideo(c) {
			d.OnNewVideoTrack(bufs[i], dmCodecs[c], d.GetTimebase(), x)
		} else {
			d.OnNewAudioTrack(bufs[i], dmCodecs[c], d.GetTimebase(), x, avformat.AudioConfig{SampleRate: 8000, SampleSize: 16, Channels: 1})
		}
		m.give(int(m.out) - n)
	}
	stray := kit.freshSets("h264")
	said := make([]bool, len(codecs))
	for i := range codecs {
		if name == "flv" || rng.Intn(2) == 0 {
			announce(i)
			said[i] = true
		}
	}
	clk, dts := 0, make([]int64, len(codecs))
	step := int64(d.GetTimebase() / 25)
	useless := 2 + rng.Intn(4)*rng.Intn(10) // every how many
	return func() {
		clk++
		i := rng.Intn(len(codecs))
		c := codecs[i]
		if d.Completed && (rng.Intn(useless) == 0 || (stress == 1 || stress == 4) && rng.Intn(2) == 0) {
			announce(i)
			return
		}
		if d.Completed && (rng.Intn(useless) == 0 || (stress == 2 || stress == 3) && rng.Intn(2) == 0) { // of a stream that never became a track
			n := len(codecs)
			if stress != 3 && (stress == 2 || rng.Intn(2) == 0) {
				x := put(body[:1+rng.Intn(max)], n, false)
				d.OnAudioPacket(n, utils.AVCodecIdPCMALAW, x, dts[i])
				m.give(len(x))
				return
			}
			key := rng.Intn(3) == 0
			u := kit.video(name, "h264", key, "none", stray, 4)
			x := put(cat(u.data, body[:1+rng.Intn(max)]), n+1, true)
			d.OnVideoPacket(n+1, utils.AVCodecIdH264, x, key, dts[i], dts[i], d.GetPackType())
			m.give(len(x))
			return
		}
		size := 1 + rng.Intn(max-8)
		var b []byte
		key := clk < 60 || rng.Intn(10) == 0
		switch {
		case isVideo(c):
			kind := "none"
			if key && name != "flv" {
				kind = "good"
			}
			u := kit.video(name, c, key, kind, sets[i], 4)
			b = cat(u.data, body[:size])
		case c == "aac" && !said[i]:
			b = kit.audio("aac", "adts", size%400+8)
		default:
			b = body[:size+4]
		}
		x := put(b, bufs[i], isVideo(c))
		if isVideo(c) {
			d.OnVideoPacket(bufs[i], dmCodecs[c], x, key, dts[i], dts[i], d.GetPackType())
		} else {
			d.OnAudioPacket(bufs[i], dmCodecs[c], x, dts[i])
		}
		dts[i] += step
		for len(held) > 4 {
			h := held[0]
			d.DiscardHeadPacket(h.buf)
			avformat.FreePacket(h.pkt)
			m.give(h.n)
			held = held[1:]
		}
	}
}

var cycles int

var memKinds = []string{"demux", "ring", "streams", "demux", "direct", "linear", "containers", "demux", "views"}

func init() {
	replayers["ringcycle"] = func(b J) string {
		const unit = 512
		cycles++
		r := collections.NewRBBlockBuffer(num(b["cap"]) * unit)
		src := make([]byte, 16*unit)
		var warm, late, peak int64
		if pan, msg := guard(func() {
			warm, late, peak = cycleBlocks(b["ops"].([]any), unit, cycles%2 == 0, func(n int) { r.Write(src[:n]) },
				func() { r.Fetch() }, r.Pop, r.PopBack, r.Clear, 100)
		}); pan {
			return "panics: " + msg
		}
		runtime.KeepAlive(r)
		return tooMuch("ring", warm, late, peak)
	}

	recorders["memory"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		demuxes, _ := strconv.Atoi(opt["shard"])
		demuxes *= 2
		for e := 0; e < n; e++ {
			t.episodes++
			kind := memKinds[e%len(memKinds)]
			if kind == "demux" {
				demuxes++
			}
			recordMemory(t, rng, kind, demuxes%5)
		}
	}
}

func kb(n int64) int { return int((n + 1023) >> 10) }

func recordMemory(t *tracer, rng *rand.Rand, kind string, stress int) {
	m := &memSession{}
	var step memStep
	rec := func(op string) J {
		return J{"op": op, "kind": kind, "held": 0, "fed": 0, "out": 0, "peak": 0, "panic": false}
	}
	before := heapNow()
	r := rec("new")
	setCur(r)
	if pan, msg := guard(func() {
		switch kind {
		case "ring":
			step = memRing(rng, m)
		case "linear":
			step = memBuffer(rng, m, collections.NewDirectBlockBuffer(1+rng.Intn(9000)), 1+rng.Intn(4096), 1+rng.Intn(8), false)
		case "streams":
			step = memStreams(rng, m)
		case "direct":
			step = memDirect(rng, m)
		case "containers":
			step = memContainer(rng, m)
		case "views":
			step = memViews(rng, m)
		default:
			step = memDemux(rng, m, stress)
		}
	}); pan {
		r["panic"], r["msg"] = true, msg
		t.emit(r)
		return
	}
	t.emit(r)
	// run until the first part of the session is over, then for many times what may be held
	goal, first := int64(0), true
	var warm int64
	for k := 0; k < 9; k++ {
		r := rec("sample")
		setCur(r)
		m.peak = m.out
		pan, msg := guard(func() {
			for i := 0; first && i < 400 || m.fed < goal; i++ {
				alive()
				step()
			}
		})
		if pan {
			r["panic"], r["msg"] = true, msg
			t.emit(r)
			return
		}
		held := heapNow() - before
		if first {
			warm = held
		}
		r["held"], r["fed"], r["out"], r["peak"] = kb(held), kb(m.fed), kb(m.out), kb(m.peak)
		t.emit(r)
		// eight stretches, each of the size a session may grow by
		goal, first = m.fed+2*warm+8*m.peak+(256<<10), false
	}
	runtime.KeepAlive(step)
}
