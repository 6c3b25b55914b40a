package main

import (
	"bytes"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
)

// pktKind describes a packet to obtain and the stream it belongs to.
type pktKind struct {
	codec  string
	form   int
	key    bool
	data   []byte
	sets   [][]byte // the stream's parameter sets, none: no codec parameters
	ls     int
	alloc  bool
	record bool // the stream is described by a decoder configuration record
	args   [4]int
}

func (k *pktKind) extra() []byte {
	e := []byte{}
	for _, s := range k.sets {
		e = cat(e, code4, s)
	}
	return e
}

func (k *pktKind) json() J {
	return J{"codec": k.codec, "form": k.form, "key": k.key, "data": ints(k.data), "has": len(k.sets) > 0, "extra": ints(k.extra()), "ls": k.ls, "alloc": k.alloc}
}

var codecIDs = map[string]utils.AVCodecID{"h264": utils.AVCodecIdH264, "h265": utils.AVCodecIdH265, "vp8": utils.AVCodecIdVP8, "aac": utils.AVCodecIdAAC}

func (k *pktKind) stream() *avformat.AVStream {
	var c avformat.CodecData
	var err error
	if len(k.sets) > 0 {
		switch {
		case k.codec == "h264" && k.record:
			c, err = avformat.ParseAVCDecoderConfigurationRecord(avccRecord(k.sets[0], k.sets[1]))
		case k.codec == "h264":
			c, err = avformat.NewAVCCodecData(cat(code4, k.sets[0]), cat(code4, k.sets[1]))
		case k.record || k.ls != 4:
			r := hvccRecord(k.sets[0], k.sets[1], k.sets[2])
			r[21] = byte(k.ls - 1)
			c, err = avformat.ParseHEVCDecoderConfigurationRecord(r)
		default:
			c, err = avformat.NewHEVCCodecData(cat(code4, k.sets[0]), cat(code4, k.sets[1]), cat(code4, k.sets[2]))
		}
		if err != nil { // how parameter sets are parsed is another matter
			panic("codec data refused: " + err.Error())
		}
	}
	return avformat.NewAVStream(utils.AVMediaTypeVideo, 0, codecIDs[k.codec], nil, c)
}

// at0 is where the slice's memory begins.
func at0(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}

// heldPkt is a packet its holder may use, with what it must look like.
type heldPkt struct {
	pkt    *avformat.AVPacket
	kind   *pktKind
	stream *avformat.AVStream
	data   []byte // the packet's memory, with a guard behind it
	snap   []int
	bufs   [][]byte // what the allocator gave, with a guard behind
	a, b   []byte
	ca, cb []byte
	ia, ib int
}

const guardLen = 24

func (h *heldPkt) fields() []int {
	p := h.pkt
	return []int{int(p.Dts), int(p.Pts), int(p.Duration), int(p.CreatedTime), p.BufferIndex, p.Index, p.Timebase, 1 - int(p.MediaType), b2i(p.Key), int(p.PacketType)}
}

// obtain takes a packet from the pool; rec gets what it looks like.
func obtain(k *pktKind, rec J) *heldPkt {
	h := &heldPkt{kind: k, stream: k.stream()}
	h.data = append(append([]byte{}, k.data...), fill(guardLen, 0xA7)...)
	d := h.data[:len(k.data)]
	if k.codec == "aac" {
		h.pkt = avformat.NewAudioPacket(d, int64(k.args[0]), codecIDs[k.codec], k.args[2], k.args[3])
	} else {
		h.pkt = avformat.NewVideoPacket(d, int64(k.args[0]), int64(k.args[1]), k.key, avformat.PacketType(k.form), codecIDs[k.codec], k.args[2], k.args[3])
	}
	rec["shown"] = h.fields()
	rec["fresh"] = h.pkt.OnBufferAlloc == nil && bytes.Equal(h.pkt.Data, k.data) && h.pkt.CodecID == codecIDs[k.codec]
	if k.alloc {
		h.pkt.OnBufferAlloc = func(size int) []byte {
			b := fill(size+guardLen, 0xA7)
			h.bufs = append(h.bufs, b)
			return b[:size]
		}
	}
	// the holder's own settings
	h.pkt.Duration, h.pkt.CreatedTime, h.pkt.BufferIndex = 77, 88, 9
	h.snap = h.fields()
	return h
}

// intact: nothing but what the holder did has happened to the packet.
func (h *heldPkt) intact() bool {
	ok := bytes.Equal(h.data[:len(h.kind.data)], h.kind.data) && bytes.Equal(h.pkt.Data, h.kind.data) &&
		bytes.Equal(h.a, h.ca) && bytes.Equal(h.b, h.cb) && h.pkt.CodecID == codecIDs[h.kind.codec] && (h.pkt.OnBufferAlloc != nil) == h.kind.alloc
	for _, b := range append(h.bufs, h.data) {
		ok = ok && bytes.Equal(b[len(b)-guardLen:], fill(guardLen, 0xA7))
	}
	f := h.fields()
	for i := range f {
		ok = ok && f[i] == h.snap[i]
	}
	if h.stream.CodecParameters != nil {
		ok = ok && bytes.Equal(h.stream.CodecParameters.AnnexBExtraData(), h.kind.extra())
	}
	return ok
}

// view asks for a view; nv numbers the views.
func (h *heldPkt) view(annexb bool, rec J, nv *int64) {
	old, id := h.a, &h.ia
	var v []byte
	if annexb {
		old, id = h.b, &h.ib
		v = avformat.AVCCPacket2AnnexB(h.stream, h.pkt)
	} else {
		v = avformat.AnnexBPacket2AVCC(h.pkt)
	}
	if *id == 0 || at0(v) != at0(old) || len(v) != len(old) {
		*id = int(atomic.AddInt64(nv, 1))
	}
	src := "other"
	if at0(v) == at0(h.data) {
		src = "data"
	}
	for _, b := range h.bufs {
		at, from := at0(v), at0(b)
		if at >= from && at+uintptr(len(v)) <= from+uintptr(len(b)-guardLen) {
			src = "alloc"
		}
	}
	if annexb {
		h.b, h.cb = v, append([]byte{}, v...)
	} else {
		h.a, h.ca = v, append([]byte{}, v...)
	}
	rec["out"], rec["view"], rec["src"] = ints(v), *id, src
}

func viewRec(op string) J {
	return J{"op": op, "id": 0, "p": (&pktKind{}).json(), "args": []int{}, "shown": []int{}, "fresh": true, "out": []int{}, "view": 0, "src": "data",
		"intact": true, "panic": false}
}

// randKind: any packet whose units are well formed.
func randKind(rng *rand.Rand, big bool) *pktKind {
	k := randKind1(rng, big)
	if pan, _ := guard(func() { k.stream() }); pan {
		k.sets, k.ls = nil, 4
		if k.form == 2 && k.codec == "h265" {
			k.data = prefixed([][]byte{{0x26, 1, 2}}, 4)
		}
	}
	return k
}

func randKind1(rng *rand.Rand, big bool) *pktKind {
	k := &pktKind{codec: []string{"h264", "h264", "h265", "h265", "vp8", "aac"}[rng.Intn(6)], form: 1 + rng.Intn(2), ls: 4,
		key: rng.Intn(2) == 0, alloc: rng.Intn(2) == 0, record: rng.Intn(2) == 0,
		args: [4]int{rng.Intn(1000) - 300, rng.Intn(1000) - 300, rng.Intn(9), 1 + rng.Intn(90000)}}
	if k.codec == "aac" || k.codec == "vp8" {
		k.data = randBytes(rng, 1+rng.Intn(60))
		if k.codec == "aac" {
			k.key, k.form, k.alloc, k.args[1] = false, 3, false, k.args[0]
		} else if rng.Intn(2) == 0 {
			k.form = 3
		}
		return k
	}
	heads, least := heads264, 0
	if k.codec == "h265" {
		heads, least = heads265, 1
	}
	if rng.Intn(4) > 0 {
		if k.codec == "h264" {
			sps, _, _ := randSps264(rng)
			k.sets = [][]byte{sps, append([]byte{0x68}, nalBody(rng, 1+rng.Intn(6))...)}
		} else {
			sps, _, _ := randSps265(rng)
			k.sets = [][]byte{append([]byte{0x40}, nalBody(rng, 1+rng.Intn(20))...), sps, append([]byte{0x44}, nalBody(rng, 1+rng.Intn(6))...)}
			if k.form == 2 && k.record {
				k.ls = []int{1, 2, 3, 4}[rng.Intn(4)]
			}
		}
	}
	var units [][]byte
	many := false
	for i, m := 0, 1+rng.Intn(6); i < m; i++ {
		u := []byte{heads[rng.Intn(len(heads))]}
		if u[0] == 0 {
			u[0] = 2 // first byte zero is C09's concern
		}
		size := least + rng.Intn(10)
		switch rng.Intn(12) {
		case 0:
			size = 240 + rng.Intn(30)
		case 1:
			if big {
				size = rng.Intn(3000)
			}
		}
		if k.ls == 1 && size > 254 {
			size = 254
		}
		units = append(units, append(u, nalBody(rng, size)...))
	}
	if rng.Intn(9) == 0 { // very many very small units
		many = true
		m := 400
		if rng.Intn(9) == 0 {
			m = 1500 + rng.Intn(1500)
		}
		for i := 0; i < m; i++ {
			units = append(units, append([]byte{heads[0]}, fill(least, 7)...))
		}
	}
	if len(k.sets) > 0 && rng.Intn(4) == 0 { // in-band sets
		units = append(append([][]byte{}, k.sets...), units...)
	}
	if k.form == 2 {
		k.data = prefixed(units, k.ls)
	} else {
		for _, u := range units {
			k.data = cat(k.data, [][]byte{{0, 0, 1}, code4}[b2i(!many && rng.Intn(2) == 0)], u)
		}
	}
	return k
}

func init() {
	replayers["views"] = func(b J) string {
		slots := map[int]*heldPkt{}
		var nv int64
		defer func() {
			for _, h := range slots {
				if h != nil {
					avformat.FreePacket(h.pkt)
				}
			}
		}()
		for i, o := range b["ops"].([]any) {
			o := o.(J)
			s, op, kj := num(o["s"]), o["op"].(string), o["k"].(J)
			rec := J{}
			why := ""
			pan, msg := guard(func() {
				switch op {
				case "get":
					k := &pktKind{codec: kj["codec"].(string), form: num(kj["form"]), key: kj["key"].(bool), data: bytesOf(kj["data"]), ls: num(kj["ls"]),
						alloc: kj["alloc"].(bool), args: [4]int{100 + i, 200 + i, s, 1000}}
					k.record = k.form == 2
					for _, u := range bytes.Split(bytesOf(norm(kj["extra"])), code4) {
						if len(u) > 0 {
							k.sets = append(k.sets, u)
						}
					}
					h := obtain(k, rec)
					for t, g := range slots {
						if g != nil && g.pkt == h.pkt {
							why = "the pool handed out the packet held in slot " + js(t)
						}
					}
					slots[s] = h
					pts, ptype := 200+i, k.form
					if k.codec == "aac" {
						pts = 100 + i
						if rec["shown"].([]int)[9] == 0 {
							ptype = 0
						}
					}
					want := []int{100 + i, pts, 0, 0, 0, s, 1000, b2i(k.codec != "aac"), b2i(k.key), ptype}
					if e := check("fields of the new packet", rec["shown"], want); e != "" {
						why = e
					} else if !rec["fresh"].(bool) {
						why = "the new packet has other data, another codec or an allocator"
					}
				case "free":
					avformat.FreePacket(slots[s].pkt)
					slots[s] = nil
				default:
					h := slots[s]
					was := h.ib
					if op == "viewa" {
						was = h.ia
					}
					h.view(op == "viewb", rec, &nv)
					out := bytesOf(viaJSON(rec["out"]))
					ok := false
					for _, a := range norm(o["alts"]).([]any) {
						ok = ok || matches(out, a.([]any))
					}
					if !ok {
						why = "view " + js(rec["out"]) + ", the specification allows " + js(o["alts"])
					} else if was != 0 && rec["view"] != was {
						why = "asking again gave another view"
					} else if rec["src"] == "other" && h.kind.alloc {
						why = "the view is not in a buffer of the packet's allocator"
					}
				}
			})
			if pan {
				return "step " + js(i) + " panics: " + msg
			}
			for t, h := range slots {
				if h != nil && why == "" && !h.intact() {
					why = "the packet in slot " + js(t) + " changed"
				}
			}
			if why != "" {
				return "step " + js(i) + " (" + op + "): " + why
			}
		}
		return ""
	}

	type event struct {
		seq int64
		rec J
	}
	// n episodes; opt procs > 1: as many goroutines share the pool
	recorders["views"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		procs := 1
		if opt["procs"] != "" {
			procs = int(opt["procs"][0] - '0')
			runtime.GOMAXPROCS(procs)
		}
		var seq, nv, ids int64
		var idOf sync.Map
		for e := 0; e < n; e++ {
			t.episodes++
			var mu sync.Mutex
			var all []event
			var wg sync.WaitGroup
			atomic.StoreInt64(&seq, 0)
			worker := func(rng *rand.Rand) {
				defer wg.Done()
				var held []*heldPkt
				put := func(s int64, rec J) {
					mu.Lock()
					all = append(all, event{s, rec})
					mu.Unlock()
				}
				id := func(h *heldPkt) int {
					v, ok := idOf.Load(h.pkt)
					if !ok {
						v, _ = idOf.LoadOrStore(h.pkt, int(atomic.AddInt64(&ids, 1)))
					}
					return v.(int)
				}
				steps := 12 + rng.Intn(20)
				for i := 0; i < steps || len(held) > 0; i++ {
					op := []string{"get", "viewb", "viewa", "viewb", "viewa", "free"}[rng.Intn(6)]
					if i >= steps {
						op = "free"
					}
					if len(held) == 0 {
						op = "get"
					} else if len(held) > 5 {
						op = "free"
					}
					rec := viewRec(op)
					var s int64
					run := func(f func()) {
						if procs > 1 {
							defer func() {
								if r := recover(); r != nil {
									rec["panic"] = true
								}
							}()
							f()
							return
						}
						setCur(rec)
						if pan, msg := guard(f); pan {
							rec["panic"], rec["msg"] = true, msg
						}
					}
					switch op {
					case "get":
						k := randKind(rng, opt["tier"] != "quick")
						rec["p"], rec["args"] = k.json(), k.args[:]
						run(func() {
							h := obtain(k, rec)
							s = atomic.AddInt64(&seq, 1)
							rec["id"] = id(h)
							held = append(held, h)
						})
						if rec["panic"] == true && s == 0 {
							s = atomic.AddInt64(&seq, 1)
						}
					default:
						j := rng.Intn(len(held))
						h := held[j]
						rec["id"] = id(h)
						s = atomic.AddInt64(&seq, 1)
						if op == "free" {
							rec["intact"] = h.intact()
							held = append(held[:j], held[j+1:]...)
							run(func() { avformat.FreePacket(h.pkt) })
						} else if h.kind.codec == "aac" {
							continue
						} else {
							run(func() { h.view(op == "viewb", rec, &nv) })
						}
					}
					for _, h := range held {
						if !h.intact() {
							rec["intact"] = false
						}
					}
					put(s, rec)
					if rec["panic"] == true {
						return
					}
					if procs > 1 && rng.Intn(4) == 0 {
						runtime.Gosched()
					}
				}
			}
			for i := 0; i < procs; i++ {
				wg.Add(1)
				if procs == 1 {
					worker(rng)
				} else {
					go worker(rand.New(rand.NewSource(rng.Int63())))
				}
			}
			wg.Wait()
			sort.Slice(all, func(i, j int) bool { return all[i].seq < all[j].seq })
			t.emit(viewRec("new"))
			for _, ev := range all {
				t.emit(ev.rec)
			}
		}
	}
}
