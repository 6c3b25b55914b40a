package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"runtime"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
)

// tagged is a track that can be recognised.
type tagged struct {
	avformat.SimpleTrack
	tag int
}

func newTagged(tag, codec, typ int) *tagged {
	return &tagged{avformat.SimpleTrack{Stream: avformat.NewAVStream(utils.AVMediaType(typ), tag, utils.AVCodecID(codec), nil, nil)}, tag}
}

func tagOf(t avformat.Track) int {
	if t == nil {
		return -1
	}
	if x, ok := t.(*tagged); ok {
		return x.tag
	}
	return -2
}

func registrySeen(m *avformat.TrackManager, done bool, qc, qt []int) J {
	tags, codecs, types := []int{}, []int{}, []int{}
	for i := 0; i < m.Size(); i++ {
		tags = append(tags, tagOf(m.Get(i)))
	}
	for _, c := range qc {
		codecs = append(codecs, tagOf(m.Find(utils.AVCodecID(c))))
	}
	for _, t := range qt {
		types = append(types, tagOf(m.FindTrackWithType(utils.AVMediaType(t))))
	}
	return J{"tags": tags, "codecs": codecs, "types": types, "done": done}
}

func numsOf(v any) []int {
	r := []int{}
	for _, x := range norm(v).([]any) {
		r = append(r, num(x))
	}
	return r
}

func init() {
	replayers["registry"] = func(b J) string {
		qc, qt := numsOf(b["qc"]), numsOf(b["qt"])
		var m avformat.TrackManager
		var x avformat.BaseMuxer
		var d avformat.BaseDemuxer
		kind := b["kind"].(string)
		for i, o := range b["ops"].([]any) {
			o := o.(J)
			res := 0
			seen := J{}
			pan, msg := guard(func() {
				switch o["op"].(string) {
				case "add":
					t := newTagged(i, num(o["x"]), num(o["y"]))
					if kind == "registry" {
						if !m.Add(t) {
							res = -1
							break
						}
						res = m.Size() - 1
					} else {
						n, err := x.AddTrack(t)
						res = n
						if (err == nil) != (n >= 0) {
							res = -3
						}
						if err != nil {
							res = -1
						}
					}
				case "header":
					if _, err := x.WriteHeader(nil); err != nil {
						res = -1
					}
				case "mark":
					res = d.FindBufferIndex(num(o["x"]))
				}
				switch kind {
				case "registry":
					seen = registrySeen(&m, false, qc, qt)
				case "muxer":
					seen = registrySeen(&x.Tracks, x.Completed, qc, qt)
				}
			})
			if pan {
				return "panics: " + msg
			}
			if e := check("result of step "+js(i), res, o["res"]); e != "" {
				return e
			}
			if kind != "markers" {
				if e := check("registry after step "+js(i), seen, o["seen"]); e != "" {
					return e
				}
			}
		}
		return ""
	}

	recorders["registry"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		dir, err := os.MkdirTemp("", "verif-dump")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(dir)
		rec := func(op string) J {
			return J{"op": op, "tag": 0, "codec": 0, "type": 0, "res": 0, "seen": J{}, "qc": []int{}, "qt": []int{}, "p": (&pktKind{}).json(), "out": []int{}, "panic": false}
		}
		run := func(r J, f func()) bool {
			setCur(r)
			if pan, msg := guard(f); pan {
				r["panic"], r["msg"] = true, msg
			}
			t.emit(r)
			return r["panic"] == false
		}
		codecs := []int{int(utils.AVCodecIdH264), int(utils.AVCodecIdH265), int(utils.AVCodecIdAAC), int(utils.AVCodecIdPCMALAW), 0, 12345}
		types := []int{-1, 0, 1, 2, 3, 4}
		for e := 0; e < n; e++ {
			t.episodes++
			t.emit(rec("new"))
			steps := 1 + rng.Intn(25)
			if e/4 == 2 {
				steps = 260 + rng.Intn(20)
			}
			switch e % 4 {
			case 0:
				var m avformat.TrackManager
				for i := 0; i < steps; i++ {
					r := rec("add")
					c, y := codecs[rng.Intn(len(codecs))], types[rng.Intn(len(types))]
					r["tag"], r["codec"], r["type"], r["qc"], r["qt"] = i, c, y, codecs, types
					if !run(r, func() {
						if m.Add(newTagged(i, c, y)) {
							r["res"] = m.Size() - 1
						}
						r["seen"] = registrySeen(&m, false, codecs, types)
					}) {
						break
					}
				}
			case 1:
				var x avformat.BaseMuxer
				for i := 0; i < steps; i++ {
					r := rec("muxadd")
					if rng.Intn(8) == 0 {
						r = rec("header")
					}
					c, y := codecs[rng.Intn(len(codecs))], types[rng.Intn(len(types))]
					r["tag"], r["codec"], r["type"], r["qc"], r["qt"] = i, c, y, codecs, types
					if !run(r, func() {
						if r["op"] == "header" {
							if _, err := x.WriteHeader(make([]byte, 16)); err != nil {
								r["res"] = -1
							}
						} else if n, err := x.AddTrack(newTagged(i, c, y)); err != nil {
							r["res"] = -1
						} else {
							r["res"] = n
						}
						r["seen"] = registrySeen(&x.Tracks, x.Completed, codecs, types)
					}) {
						break
					}
				}
			case 2:
				var d avformat.BaseDemuxer
				for i := 0; i < steps*2; i++ {
					r := rec("mark")
					m := rng.Intn(12) - 3
					if rng.Intn(4) == 0 {
						m = rng.Intn(1 << 20)
					}
					r["codec"] = m
					if !run(r, func() {
						if m >= 0 && m <= 1 && rng.Intn(2) == 0 {
							r["res"] = d.FindBufferIndexByMediaType(utils.AVMediaType(m))
						} else {
							r["res"] = d.FindBufferIndex(m)
						}
					}) {
						break
					}
				}
			case 3:
				if e%8 == 7 {
					chainEpisode(t, rng, dir, rec, run)
					continue
				}
				dumpEpisode(t, rng, dir, e, rec, run, opt["tier"] != "quick")
			}
		}
	}
}

// dumpEpisode: several tracks dumped to files of a scratch directory.
func dumpEpisode(t *tracer, rng *rand.Rand, dir string, e int, rec func(string) J, run func(J, func()) bool, big bool) {
	sub := filepath.Join(dir, "e")
	_ = os.Mkdir(sub, 0o755)
	old := map[string]bool{}
	list := func() (fresh []string) {
		es, _ := os.ReadDir(sub)
		for _, f := range es {
			if !old[f.Name()] {
				fresh = append(fresh, f.Name())
			}
		}
		return
	}
	rounds := 1 + rng.Intn(2) // the second dump replaces the first one's files
	var protos []*pktKind
	most := 1 + rng.Intn(4)
	if e%6 == 5 {
		most = 9 + rng.Intn(4)
	}
	many := e%24 == 11
	if many {
		most = 17 + rng.Intn(30)
	}
	for i := 0; i < most; i++ {
		if many && i > 0 && rng.Intn(3) > 0 {
			protos = append(protos, protos[rng.Intn(i)])
			continue
		}
		protos = append(protos, randKind(rng, false))
	}
	names := make([]string, len(protos))
	for round := 0; round < rounds; round++ {
		if round > 0 {
			t.emit(rec("new"))
		}
		h := &avformat.OnUnpackStream2FileHandler{Path: filepath.Join(sub, "dump")}
		var streams []*avformat.AVStream
		for i, k := range protos {
			s := k.stream()
			s.Index = i
			if k.codec == "aac" {
				s.MediaType = utils.AVMediaTypeAudio
			}
			streams = append(streams, s)
			r := rec("track")
			if !run(r, func() {
				h.OnNewTrack(&avformat.SimpleTrack{Stream: s})
				if round > 0 {
					r["res"] = 1
				} else if f := list(); len(f) == 1 {
					r["res"], old[f[0]], names[i] = 1, true, f[0]
				}
			}) {
				return
			}
			if r["res"] != 1 {
				return
			}
		}
		guard(func() { h.OnTrackComplete() })
		for i, m := 0, rng.Intn(20+b2i(many)*80)/(1+round*3); i < m; i++ {
			j := rng.Intn(len(protos))
			k := protos[j]
			q := randKind(rng, big)
			for q.codec != k.codec || q.form != k.form || q.form == 2 && (q.ls != k.ls) {
				q = randKind(rng, big)
			}
			q.sets, q.record, q.alloc = k.sets, k.record, false
			r := rec("packet")
			r["res"], r["p"] = j, q.json()
			d := append([]byte{}, q.data...)
			if !run(r, func() {
				var p *avformat.AVPacket
				if q.codec == "aac" {
					p = avformat.NewAudioPacket(d, 5, codecIDs[q.codec], j, 1000)
				} else {
					p = avformat.NewVideoPacket(d, 5, 6, q.key, avformat.PacketType(q.form), codecIDs[q.codec], j, 1000)
				}
				h.OnPacket(p)
				avformat.FreePacket(p)
			}) {
				return
			}
		}
		for i := range protos {
			r := rec("file")
			r["res"] = i
			b, err := os.ReadFile(filepath.Join(sub, names[i]))
			r["out"] = ints(b)
			if err != nil {
				r["out"] = []int{-1}
			}
			t.emit(r)
		}
	}
	_ = os.RemoveAll(sub)
	if e%200 < 4 { // the handler never closes its files
		runtime.GC()
	}
}

// chainHandler hands everything to the dump and notes which file is whose.
type chainHandler struct {
	avformat.OnUnpackStream2FileHandler
	fresh func() []string
	names []string
}

func (h *chainHandler) OnNewTrack(t avformat.Track) {
	h.OnUnpackStream2FileHandler.OnNewTrack(t)
	if f := h.fresh(); len(f) == 1 {
		h.names = append(h.names, f[0])
	}
}

// chainEpisode: all parts together. Payloads go through a pipeline and a
// demuxer into the dump; every file must be the playable form of what was
// input for its track, but for the newest packet.
func chainEpisode(t *tracer, rng *rand.Rand, dir string, rec func(string) J, run func(J, func()) bool) {
	sub := filepath.Join(dir, "c")
	_ = os.Mkdir(sub, 0o755)
	defer os.RemoveAll(sub)
	old := map[string]bool{}
	h := &chainHandler{fresh: func() (r []string) {
		es, _ := os.ReadDir(sub)
		for _, f := range es {
			if !old[f.Name()] {
				old[f.Name()] = true
				r = append(r, f.Name())
			}
		}
		return
	}}
	h.Path = filepath.Join(sub, "x")
	name := pick(rng, "flv", "ps", "ts", "jt1078")
	var mem memory = &streamBuffers{&avformat.StreamsBuffer{}}
	if rng.Intn(2) == 0 {
		mem = &smallRings{[]int{1, 50, 400}[rng.Intn(3)], map[int]*collections.RBBlockBuffer{}}
	}
	s := newDmSession(name, 0, "auto", mem, false)
	s.dm.SetHandler(h)
	kit := &dmKit{rng: rng}
	type stream struct {
		codec string
		sets  dmSps
		in    []J
	}
	var streams []*stream
	for i, m := 0, 1+rng.Intn(4); i < m; i++ {
		c := pick(rng, "h264", "h264", "h265", "vp8", "aac", "alaw")
		for _, x := range streams {
			if isVideo(x.codec) == isVideo(c) && name != "ts" || x.codec == c {
				c = ""
				break
			}
		}
		if c == "" {
			continue
		}
		x := &stream{codec: c}
		if isCoded(c) {
			x.sets = kit.freshSets(c)
		}
		streams = append(streams, x)
	}
	put := func(i int, data []byte, video bool) []byte { return s.put(J{}, i, data, video) }
	dts := 0
	input := func(i int) func() {
		x := streams[i]
		size := 1 + rng.Intn(60)
		if rng.Intn(12) == 0 {
			size = 300 + rng.Intn(700)
		}
		dts += rng.Intn(30) * s.dm.GetTimebase() / 1000
		if !isVideo(x.codec) {
			data := kit.audio(x.codec, map[string]string{"aac": "adts"}[x.codec], 4+size)
			x.in = append(x.in, (&pktKind{codec: "aac", form: 3, data: data, ls: 4}).json())
			return func() { s.dm.OnAudioPacket(i, dmCodecs[x.codec], put(i, data, false), int64(dts)) }
		}
		key := len(x.in) == 0 || rng.Intn(3) == 0
		kind := "none"
		if len(x.in) == 0 || key && rng.Intn(2) == 0 {
			kind = "good"
		}
		data := kit.video(name, x.codec, key, kind, x.sets, size).data
		k := &pktKind{codec: x.codec, form: 1 + b2i(name == "flv"), key: key, data: data, ls: 4}
		j := k.json()
		j["has"], j["extra"] = isCoded(x.codec), ints(kit.flat(x.sets.sets, false))
		x.in = append(x.in, j)
		return func() {
			s.dm.OnVideoPacket(i, dmCodecs[x.codec], put(i, data, true), key, int64(dts), int64(dts), s.dm.GetPackType())
		}
	}
	ok := run(rec("input"), func() {
		for i, x := range streams {
			if name != "flv" && isCoded(x.codec) && rng.Intn(2) == 0 {
				continue // its first key frame tells
			}
			if !isVideo(x.codec) {
				continue // its first packet tells
			}
			u := kit.extra(name, x.codec, "good", x.sets)
			var d []byte
			if len(u.data) > 0 {
				d = put(i, u.data, true)
			}
			s.dm.OnNewVideoTrack(i, dmCodecs[x.codec], s.dm.GetTimebase(), d)
		}
	})
	order := []int{} // buffers in track order: the announced ones come first
	for _, tr := range s.dm.Tracks.Tracks {
		for i, x := range streams {
			if dmCodecs[x.codec] == tr.GetStream().CodecID {
				order = append(order, i)
			}
		}
	}
	for i := range streams {
		if ok && len(order) < len(streams) {
			known := false
			for _, o := range order {
				known = known || o == i
			}
			if !known {
				order = append(order, i)
			}
		}
		ok = ok && run(rec("input"), input(i))
	}
	for i, m := 0, rng.Intn(30); i < m && ok; i++ {
		ok = run(rec("input"), input(rng.Intn(len(streams))))
		if i == 7 && ok {
			ok = run(rec("input"), func() { s.dm.ProbeComplete() })
		}
	}
	if !ok || !run(rec("input"), func() { s.dm.ProbeComplete() }) {
		return
	}
	for range order {
		r := rec("track")
		r["res"] = b2i(len(h.names) == len(order))
		t.emit(r)
	}
	if len(h.names) != len(order) {
		return
	}
	for n, i := range order {
		for _, j := range streams[i].in[:len(streams[i].in)-1] {
			r := rec("packet")
			r["res"], r["p"] = n, j
			t.emit(r)
		}
	}
	for n := range order {
		r := rec("file")
		r["res"] = n
		b, err := os.ReadFile(filepath.Join(sub, h.names[n]))
		r["out"] = ints(b)
		if err != nil {
			r["out"] = []int{-1}
		}
		t.emit(r)
	}
}
