package main

import (
	"bytes"
	"math/rand"
	"sort"
	"strconv"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
)

// ---- the data pipeline under the demuxer -----------------------------------

// memory is what stores the blocks of one session.
type memory interface {
	write(data []byte, index int, video bool) []byte
	back(index int)
	head(index int)
}

// ownBlocks: every block has its own memory, destroyed when it is given back.
type ownBlocks struct{ q map[int][][]byte }

func (o *ownBlocks) write(data []byte, i int, _ bool) []byte {
	b := append([]byte{}, data...)
	o.q[i] = append(o.q[i], b)
	return b
}

func destroy(b []byte) {
	for i := range b {
		b[i] = 0xDD
	}
}

func (o *ownBlocks) back(i int) {
	q := o.q[i]
	destroy(q[len(q)-1])
	o.q[i] = q[:len(q)-1]
}

func (o *ownBlocks) head(i int) {
	destroy(o.q[i][0])
	o.q[i] = o.q[i][1:]
}

// smallRings: the library's ring buffers, so small that they wrap and grow all the time.
type smallRings struct {
	size int
	q    map[int]*collections.RBBlockBuffer
}

func (s *smallRings) write(data []byte, i int, _ bool) []byte {
	if s.q[i] == nil {
		s.q[i] = collections.NewRBBlockBuffer(s.size)
	}
	h := len(data) / 2
	s.q[i].Write(data[:h])
	s.q[i].Write(data[h:])
	return s.q[i].Fetch()
}
func (s *smallRings) back(i int) { s.q[i].PopBack() }
func (s *smallRings) head(i int) { s.q[i].Pop() }

// streamBuffers: the library's pipeline.
type streamBuffers struct{ p avformat.DataPipeline }

func (s *streamBuffers) write(data []byte, i int, video bool) []byte {
	m := utils.AVMediaTypeAudio
	if video {
		m = utils.AVMediaTypeVideo
	}
	_, _ = s.p.Write(data, i, m)
	b, _ := s.p.Fetch(i)
	return b
}
func (s *streamBuffers) back(i int) { s.p.DiscardBackPacket(i) }
func (s *streamBuffers) head(i int) { s.p.DiscardHeadPacket(i) }

// dmPipe is the data pipeline the demuxer sees: it keeps the books.
type dmPipe struct {
	s   *dmSession
	mem memory
	q   map[int][]int // ids of the outstanding blocks of each stream, oldest first
}

func (p *dmPipe) Write(data []byte, i int, m utils.AVMediaType) (int, error) { return len(data), nil }
func (p *dmPipe) Fetch(i int) ([]byte, error)                                { return nil, nil }
func (p *dmPipe) PendingBlockSize(i int) int                                 { return 0 }

func (p *dmPipe) DiscardBackPacket(i int) {
	q := p.q[i]
	if len(q) == 0 {
		p.s.event(J{"e": "under"})
		return
	}
	p.s.event(J{"e": "free", "id": q[len(q)-1]})
	p.q[i] = q[:len(q)-1]
	p.mem.back(i)
}

func (p *dmPipe) DiscardHeadPacket(i int) {
	q := p.q[i]
	if len(q) == 0 {
		p.s.event(J{"e": "under"})
		return
	}
	p.s.event(J{"e": "free", "id": q[0]})
	p.q[i] = q[1:]
	p.mem.head(i)
}

// ---- the session -------------------------------------------------------------

// dmOwned is a delivered packet its handler has not given back.
type dmOwned struct {
	pkt  *avformat.AVPacket
	data []byte
	buf  int
	id   int
	f    []int
}

type dmSession struct {
	dm     *avformat.BaseDemuxer
	pipe   *dmPipe
	ev     []J
	ids    map[string]int // newest block of each content
	data   map[int]string // block contents
	seen   map[int]bool   // delivered
	nextID int
	owned  []*dmOwned
	tracks []avformat.Track
	look   bool // the handler converts every packet it sees
	self   bool // the handler itself gives back each packet in its callback
	auto   bool
	lies   bool  // the caller names other packing forms than the container's
	nag    bool  // the handler asks for the end of probing in its callbacks
	over   bool  // probing has ended
	base   int64 // timestamps are this much later than recorded
	shift  int64 // the preprocess hook moves video packets by this much

	handler *dmHandler
}

func (s *dmSession) event(e J) {
	s.ev = append(s.ev, e)
	s.over = s.over || e["e"] == "complete" || e["e"] == "notfound"
}

// idOf is the block with these bytes: of the blocks of its stream that are
// outstanding the oldest undelivered one, or (newest) the newest.
func (s *dmSession) idOf(b []byte, buf int, newest bool) int {
	id := 0
	for _, x := range s.pipe.q[buf] {
		if !s.seen[x] && s.data[x] == string(b) && (newest || id == 0) {
			id = x
		}
	}
	if id > 0 {
		s.seen[id] = s.seen[id] || !newest
		return id
	}
	if id, ok := s.ids[string(b)]; ok {
		return id
	}
	return -1
}

var dmCodecs = map[string]utils.AVCodecID{
	"h264": utils.AVCodecIdH264, "h265": utils.AVCodecIdH265, "vp8": utils.AVCodecIdVP8, "aac": utils.AVCodecIdAAC,
	"pcm": utils.AVCodecIdPCMS16LE, "g726": utils.AVCodecIdADPCMG726, "alaw": utils.AVCodecIdPCMALAW, "mp3": utils.AVCodecIdMP3,
	"vp9": utils.AVCodecIdVP9, "av1": utils.AVCodecIdAV1, "mulaw": utils.AVCodecIdPCMMULAW, "opus": utils.AVCodecIdOPUS, "g722": utils.AVCodecIdADPCMG722,
}

func codecName(id utils.AVCodecID) string {
	for n, i := range dmCodecs {
		if i == id {
			return n
		}
	}
	return "?"
}

func mediaNum(m utils.AVMediaType) int {
	switch m {
	case utils.AVMediaTypeVideo:
		return 0
	case utils.AVMediaTypeAudio:
		return 1
	}
	return -1
}

// sameSets gives every unit of an Annex-B string a start code of 4 bytes.
func sameSets(b []byte) []byte {
	if !bytes.HasPrefix(b, code4) && !bytes.HasPrefix(b, code4[1:]) {
		return b
	}
	return bytes.ReplaceAll(bytes.ReplaceAll(b, code4, code4[1:]), code4[1:], code4)
}

func describe(t avformat.Track) J {
	s := t.GetStream()
	e := J{"e": "track", "index": s.Index, "media": mediaNum(s.MediaType), "codec": codecName(s.CodecID), "tb": s.Timebase,
		"extra": ints(sameSets(s.Data)), "rate": s.SampleRate, "chans": s.Channels, "adts": s.HasADTSHeader, "bits": s.BitRate, "depth": s.SampleSize,
		"sets": []int{}, "w": 0, "h": 0}
	if s.CodecParameters != nil {
		e["sets"], e["w"], e["h"] = ints(sameSets(s.CodecParameters.AnnexBExtraData())), s.CodecParameters.Width(), s.CodecParameters.Height()
	}
	return e
}

// dmHandler is what the demuxer calls; the newest one is in charge.
type dmHandler struct{ *dmSession }

func (h *dmHandler) stale() bool {
	if h != h.handler {
		h.event(J{"e": "stale"})
	}
	return h != h.handler
}

// nagged: a handler may ask for what has long happened, in the middle of a callback.
func (h *dmHandler) nagged() {
	if !h.nag {
		return
	}
	h.dm.ProbeComplete()
	h.dm.TryCompleteProbe()
	if h.dm.OnNewAudioTrack(99, utils.AVCodecIdMP3, 1000, nil, avformat.AudioConfig{}) != nil {
		h.event(J{"e": "late"})
	}
}

func (h *dmHandler) OnNewTrack(t avformat.Track) {
	if h.stale() {
		return
	}
	h.tracks = append(h.tracks, t)
	h.event(describe(t))
	h.nagged()
}
func (h *dmHandler) OnTrackComplete() {
	if !h.stale() {
		h.event(J{"e": "complete"})
		h.nagged()
	}
}
func (h *dmHandler) OnTrackNotFind() {
	if !h.stale() {
		h.event(J{"e": "notfound"})
		h.nagged()
	}
}

// small is what TLC can count with; nothing that is input is as far away as what is not.
func small(v int64) int64 {
	if v > 2147483640 || v < -2147483640 {
		return 2147483647
	}
	return v
}

func pktFields(p *avformat.AVPacket) []int {
	return []int{int(p.Dts), int(p.Pts), int(p.Duration), p.BufferIndex, p.Index, p.Timebase, mediaNum(p.MediaType), b2i(p.Key), int(p.CodecID), int(p.PacketType)}
}

func (s *dmHandler) OnPacket(p *avformat.AVPacket) {
	if s.stale() {
		return
	}
	id := s.idOf(p.Data, p.BufferIndex, false)
	form := int(p.PacketType)
	if p.MediaType != utils.AVMediaTypeVideo {
		form = 0 // says nothing about audio
	}
	s.event(J{"e": "pkt", "id": id, "dts": small(p.Dts - s.base), "pts": small(p.Pts - s.base), "key": p.Key, "dur": small(p.Duration), "index": p.Index, "codec": codecName(p.CodecID),
		"tb": p.Timebase, "media": mediaNum(p.MediaType), "form": form, "buf": p.BufferIndex})
	s.nagged()
	if s.look && p.Index >= 0 && p.Index < len(s.tracks) && p.MediaType == utils.AVMediaTypeVideo {
		avformat.AVCCPacket2AnnexB(s.tracks[p.Index].GetStream(), p)
		avformat.AnnexBPacket2AVCC(p)
	}
	switch {
	case s.self:
		s.dm.DiscardHeadPacket(p.BufferIndex)
		avformat.FreePacket(p)
	case !s.auto:
		s.owned = append(s.owned, &dmOwned{p, append([]byte{}, p.Data...), p.BufferIndex, id, pktFields(p)})
	}
}

func (s *dmSession) intact() bool {
	for _, o := range s.owned {
		if !bytes.Equal(o.pkt.Data, o.data) {
			return false
		}
		for i, v := range pktFields(o.pkt) {
			if v != o.f[i] {
				return false
			}
		}
	}
	return true
}

func newDmSession(name string, pd int, mode string, mem memory, pre bool) *dmSession {
	s := &dmSession{ids: map[string]int{}, data: map[int]string{}, seen: map[int]bool{}, self: mode == "self", auto: mode == "auto"}
	s.pipe = &dmPipe{s, mem, map[int][]int{}}
	s.dm = &avformat.BaseDemuxer{Name: name, DataPipeline: s.pipe, AutoFree: mode == "auto"}
	s.handler = &dmHandler{s}
	s.dm.SetHandler(s.handler)
	s.dm.SetProbeDuration(pd)
	if pre {
		s.dm.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) {
			s.event(J{"e": "pre", "id": s.idOf(p.Data, p.BufferIndex, true), "dts": small(p.Dts - s.base), "pts": small(p.Pts - s.base), "dur": small(p.Duration)})
			p.Dts += s.shift
			p.Pts += s.shift
		})
	}
	return s
}

func dmRec(op string) J {
	return J{"op": op, "name": "", "size": 0, "auto": true, "pre": false, "buf": 0, "codec": "", "key": false, "dts": 0, "pts": 0, "id": 0, "tb": 0,
		"extra": []int{}, "adts": false, "rate": 0, "chans": 0, "bits": 0, "depth": 0, "good": false, "sets": []int{}, "w": 0, "h": 0, "head": []int{},
		"ev": []J{}, "res": -1, "out": []int{}, "intact": true, "panic": false, "junk": false, "taken": false}
}

// put writes a block into the stream's memory and returns it as the pipeline holds it.
func (s *dmSession) put(r J, buf int, data []byte, video bool) []byte {
	s.nextID++
	s.ids[string(data)], s.data[s.nextID] = s.nextID, string(data)
	r["id"] = s.nextID
	s.pipe.q[buf] = append(s.pipe.q[buf], s.nextID)
	return s.pipe.mem.write(data, buf, video)
}

// perform runs f as operation r and completes the record.
func (s *dmSession) perform(t *tracer, r J, f func()) bool {
	s.ev = nil
	setCur(r)
	if pan, msg := guard(f); pan {
		r["panic"], r["msg"] = true, msg
	}
	if s.ev != nil {
		r["ev"] = s.ev
	}
	out := []int{}
	for _, q := range s.pipe.q {
		out = append(out, q...)
	}
	sort.Ints(out)
	r["out"] = out
	r["intact"] = s.intact()
	t.emit(r)
	return r["panic"] == false
}

// dmUnit is a payload or extra data with what is true of it.
type dmUnit struct {
	data []byte
	good bool
	junk bool   // anything at all
	sets []byte // Annex-B
	w, h int
}

// dmKit makes payloads; every payload is unique.
type dmKit struct {
	rng *rand.Rand
	n   uint32
	sps map[string]dmSps

	setSeed int64
	near    int
}

type dmSps struct {
	sets [][]byte
	w, h int
}

func (k *dmKit) count() []byte {
	k.n++
	// no zero bytes: nothing that looks like a start code
	return []byte{byte(1 + k.n/(250*250*250)%250), byte(1 + k.n/(250*250)%250), byte(1 + k.n/250%250), byte(1 + k.n%250)}
}

func (k *dmKit) body(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + k.rng.Intn(255))
	}
	return b
}

// freshSets chooses the parameter sets of a stream.
func (k *dmKit) freshSets(codec string) dmSps {
	// often sets that differ little from the last ones
	if k.near++; k.near > 3 || k.setSeed == 0 || k.rng.Intn(2) == 0 {
		k.setSeed, k.near = k.rng.Int63(), 0
	}
	src := rand.New(rand.NewSource(k.setSeed))
	if codec == "h264" {
		sps, w, h := nearSps264(src, k.near)
		return dmSps{[][]byte{sps, cat(pps4, k.body(k.rng.Intn(5)))}, w, h}
	}
	sps, w, h := nearSps265(src, k.near)
	return dmSps{[][]byte{cat(hvps, k.body(k.rng.Intn(4))), sps, cat(hpps, k.body(k.rng.Intn(5)))}, w, h}
}

// flat joins units, each behind a start code of 4 or (sc3) mixed 3 and 4 bytes.
func (k *dmKit) flat(us [][]byte, sc3 bool) []byte {
	b := []byte{}
	for _, u := range us {
		if sc3 && k.rng.Intn(2) == 0 {
			b = cat(b, code4[1:], u)
		} else {
			b = cat(b, code4, u)
		}
	}
	return b
}

// wrong spoils parameter sets so that they cannot be decoded.
func (k *dmKit) wrong(codec string, sets [][]byte, whole bool) [][]byte {
	i := len(sets) - 2 // the SPS
	if whole && k.rng.Intn(2) == 0 {
		return append(append([][]byte{}, sets[:i]...), sets[i+1:]...)
	}
	r := append([][]byte{}, sets...)
	r[i] = r[i][:2+k.rng.Intn(2)]
	return r
}

// extra makes the extra data of an announcement. kind: "good", "bad", "none".
func (k *dmKit) extra(name, codec, kind string, s dmSps) dmUnit {
	switch {
	case codec == "aac":
		switch kind {
		case "none":
			return dmUnit{}
		case "bad":
			return dmUnit{data: k.body(1)}
		}
		rate, ch := k.rng.Intn(13), 1+k.rng.Intn(7)
		v := (1+k.rng.Intn(4))<<11 | rate<<7 | ch<<3
		return dmUnit{data: cat([]byte{byte(v >> 8), byte(v)}, k.body(k.rng.Intn(3)*k.rng.Intn(2))), good: true}
	case codec != "h264" && codec != "h265":
		if kind == "none" {
			return dmUnit{good: true}
		}
		return dmUnit{data: cat(k.count(), k.body(k.rng.Intn(6))), good: true}
	case kind == "none":
		return dmUnit{}
	}
	sets := s.sets
	if kind == "bad" {
		sets = k.wrong(codec, sets, name != "flv")
	}
	if name == "flv" {
		d := []byte{}
		if codec == "h264" {
			d = avccRecord(sets[0], sets[1])
		} else {
			d = hvccRecord(sets[0], sets[1], sets[2])
		}
		return dmUnit{d, kind == "good", false, k.flat(s.sets, false), s.w, s.h}
	}
	return dmUnit{k.flat(sets, true), kind == "good", false, k.flat(s.sets, false), s.w, s.h}
}

// video makes a video payload. kind: "none" (no parameter sets), "good", "bad", "part".
func (k *dmKit) video(name, codec string, key bool, kind string, s dmSps, size int) dmUnit {
	if codec == "vp8" || codec == "vp9" || codec == "av1" {
		return dmUnit{data: cat([]byte{0x11}, k.count(), k.body(size))}
	}
	head := map[string][]byte{"h264": {0x41}, "h265": {0x02, 1}}[codec]
	if key {
		head = map[string][]byte{"h264": {0x65}, "h265": {0x26, 1}}[codec]
	}
	slice := cat(head, k.count(), k.body(size))
	if name == "flv" {
		return dmUnit{data: prefixed([][]byte{slice}, 4)}
	}
	us, u := [][]byte{}, dmUnit{}
	if k.rng.Intn(4) == 0 {
		us = append(us, map[string][]byte{"h264": {0x09, 0xF0}, "h265": {0x46, 1, 0x50}}[codec])
	}
	switch kind {
	case "good":
		us = append(us, s.sets...)
		u.good, u.sets, u.w, u.h = true, k.flat(s.sets, false), s.w, s.h
	case "bad":
		us = append(us, k.wrong(codec, s.sets, false)...)
	case "part":
		us = append(us, s.sets[:len(s.sets)-1]...)
	}
	if k.rng.Intn(5) == 0 {
		us = append(us, map[string][]byte{"h264": {0x06, 0x05, 0x04, 0x99}, "h265": {0x4E, 1, 0x05, 0x99}}[codec])
	}
	u.data = k.flat(append(us, slice), true)
	return u
}

// audio makes an audio payload of size bytes (at least 4). kind: "adts", "bad", "plain".
func (k *dmKit) audio(codec, kind string, size int) []byte {
	if codec == "aac" && kind == "bad" {
		if k.rng.Intn(2) == 0 {
			return cat([]byte{0xFF, 0xF1}, k.count())
		}
		return cat([]byte{0xFF, 0x71, 0x50}, k.count(), k.body(8))
	}
	if codec == "aac" && kind == "adts" {
		pa := k.rng.Intn(2)
		pl := cat(k.body(2*(1-pa)), k.count(), k.body(size))
		n := 7 + len(pl)
		f, c := k.rng.Intn(13), 1+k.rng.Intn(7)
		h := []byte{0xFF, byte(0xF0 | k.rng.Intn(2)<<3 | pa), byte(k.rng.Intn(4)<<6 | f<<2 | k.rng.Intn(2)<<1 | c>>2),
			byte(c&3<<6 | n>>11), byte(n >> 3), byte(n<<5 | 0x1F), 0xFC}
		return cat(h, pl)
	}
	return cat(k.count(), k.body(size-4))
}

func isVideo(codec string) bool {
	switch codec {
	case "h264", "h265", "vp8", "vp9", "av1":
		return true
	}
	return false
}

// ---- operations ---------------------------------------------------------------

// announce, packet, control and release perform one operation each; false: stop.
func isCoded(codec string) bool { return codec == "h264" || codec == "h265" }

func (s *dmSession) announce(t *tracer, buf int, codec string, tb int, u dmUnit, cfg avformat.AudioConfig) (int, bool) {
	op := "newaudio"
	if isVideo(codec) {
		op = "newvideo"
	}
	r := dmRec(op)
	r["buf"], r["codec"], r["tb"], r["extra"], r["good"], r["junk"] = buf, codec, tb, ints(sameSets(u.data)), u.good, u.junk
	if u.good {
		r["sets"], r["w"], r["h"] = ints(u.sets), u.w, u.h
	}
	r["adts"], r["rate"], r["chans"], r["bits"], r["depth"] = cfg.HasADTSHeader, cfg.SampleRate, cfg.Channels, cfg.BitRate, cfg.SampleSize
	var d []byte
	if len(u.data) > 0 {
		d = s.put(r, buf, u.data, isVideo(codec))
	}
	res := -1
	ok := s.perform(t, r, func() {
		var tr avformat.Track
		if isVideo(codec) {
			tr = s.dm.OnNewVideoTrack(buf, dmCodecs[codec], tb, d)
		} else {
			tr = s.dm.OnNewAudioTrack(buf, dmCodecs[codec], tb, d, cfg)
		}
		if tr != nil {
			res = tr.GetStream().Index
		}
		r["res"], r["taken"] = res, res >= 0
	})
	return res, ok
}

func (s *dmSession) packet(t *tracer, buf int, codec string, key bool, dts, pts int, u dmUnit) bool {
	op := "audio"
	if isVideo(codec) {
		op = "video"
	}
	r := dmRec(op)
	r["buf"], r["codec"], r["key"], r["dts"], r["pts"], r["size"], r["good"] = buf, codec, key, dts, pts, len(u.data), u.good
	if u.good {
		r["sets"], r["extra"], r["w"], r["h"] = ints(u.sets), ints(u.sets), u.w, u.h
	}
	if !isVideo(codec) {
		r["key"], r["pts"] = false, dts
		h := u.data
		if len(h) > 9 {
			h = h[:9]
		}
		r["head"] = ints(h)
	}
	d := s.put(r, buf, u.data, isVideo(codec))
	r["junk"] = u.junk
	return s.perform(t, r, func() {
		defer func() { r["taken"] = !s.gaveBack(r["id"].(int)) }()
		if isVideo(codec) {
			s.dm.OnVideoPacket(buf, dmCodecs[codec], d, key, s.base+int64(dts), s.base+int64(pts), s.claimed())
		} else {
			s.dm.OnAudioPacket(buf, dmCodecs[codec], d, s.base+int64(dts))
		}
	})
}

// claimed is the packing form the caller names; the container decides.
func (s *dmSession) claimed() avformat.PacketType {
	if s.lies && s.nextID%3 == 0 {
		return []avformat.PacketType{avformat.PacketTypeNONE, avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC}[s.nextID/3%3]
	}
	return s.dm.GetPackType()
}

// gaveBack: the running operation gave this block back.
func (s *dmSession) gaveBack(id int) bool {
	for _, e := range s.ev {
		if e["e"] == "free" && e["id"] == id {
			return true
		}
	}
	return false
}

func (s *dmSession) control(t *tracer, op string, size int) bool {
	r := dmRec(op)
	r["size"] = size
	return s.perform(t, r, func() {
		switch op {
		case "probe":
			s.dm.ProbeComplete()
		case "try":
			s.dm.TryCompleteProbe()
		case "setpd":
			s.dm.SetProbeDuration(size)
		case "handover":
			s.handler = &dmHandler{s}
			s.dm.SetHandler(s.handler)
		}
	})
}

// drop: whoever wrote a block gives it up again.
func (s *dmSession) drop(t *tracer, buf int, data []byte) bool {
	r := dmRec("drop")
	r["buf"] = buf
	s.put(r, buf, data, false)
	return s.perform(t, r, func() { s.dm.DiscardBackPacket(buf) })
}

// release: the handler gives back the oldest block of a stream, if it owns it.
func (s *dmSession) release(t *tracer, k int) bool {
	var cand []*dmOwned
	for _, o := range s.owned {
		if q := s.pipe.q[o.buf]; len(q) > 0 && q[0] == o.id {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		return true
	}
	return s.releaseOf(t, cand[k%len(cand)])
}

func (s *dmSession) releaseOf(t *tracer, o *dmOwned) bool {
	keep := []*dmOwned{}
	for _, x := range s.owned {
		if x != o {
			keep = append(keep, x)
		}
	}
	s.owned = keep
	r := dmRec("release")
	r["id"], r["buf"] = o.id, o.buf
	return s.perform(t, r, func() {
		s.dm.DiscardHeadPacket(o.buf)
		avformat.FreePacket(o.pkt)
	})
}

// again describes the announced tracks once more.
func (s *dmSession) again(t *tracer) bool {
	return s.perform(t, dmRec("end"), func() {
		for _, tr := range s.tracks {
			s.event(describe(tr))
		}
	})
}

func (s *dmSession) begin(t *tracer, pd int, pre bool) {
	t.episodes++
	r := dmRec("new")
	r["name"], r["size"], r["auto"], r["pre"], r["dts"] = s.dm.Name, pd, s.auto || s.self, pre, s.shift
	t.emit(r)
}

// ---- random sessions ------------------------------------------------------------

// dmStream is one elementary stream of a random session.
type dmStream struct {
	buf    int
	codec  string
	tb     int
	unit   int // one whole millisecond, or a multiple, in every time base the track may get
	dts    int
	step   int // in units
	sps    dmSps
	said   bool // announced successfully
	fed    int
	alone  bool // the only stream of its codec
	perMs  int
	adts   bool
	kindOf string
}

func lcm(a, b int) int {
	x, y := a, b
	for y > 0 {
		x, y = y, x%y
	}
	return a / x * b
}

func pick(rng *rand.Rand, xs ...string) string { return xs[rng.Intn(len(xs))] }

func randMemory(rng *rand.Rand, big bool) memory {
	switch {
	case big:
		return &streamBuffers{&avformat.StreamsBuffer{}}
	case rng.Intn(3) == 0:
		return &ownBlocks{map[int][][]byte{}}
	}
	return &smallRings{[]int{1, 16, 64, 150, 400}[rng.Intn(5)], map[int]*collections.RBBlockBuffer{}}
}

// junk is anything but nothing.
func (k *dmKit) junk() dmUnit {
	for {
		b := spoil(k.rng, randStructure(k.rng))
		if k.rng.Intn(6) == 0 {
			b = nalBody(k.rng, 1+k.rng.Intn(12))
		}
		if len(b) > 0 {
			return dmUnit{data: b, junk: true}
		}
	}
}

// dense: hundreds of packets are held back while probing; very long: tens of
// thousands of packets follow.
func randSession(t *tracer, rng *rand.Rand, big, junk, dense bool, veryLong int) {
	name := pick(rng, "flv", "ps", "ts", "jt1078")
	pd := []int{0, 0, 100, 200, 250, 500, 1000, -5, 3000}[rng.Intn(9)]
	slow := rng.Intn(16) == 0 // probing takes very long
	if slow {
		pd = []int{12000, 33000, 66000, 100000}[rng.Intn(4)]
	}
	wide := !big && rng.Intn(20) == 0 // very many streams
	if dense {
		pd, slow, wide = []int{0, 250, 300, 420}[rng.Intn(4)], false, false
	}
	mode := pick(rng, "auto", "auto", "self", "hold", "hold")
	pre := rng.Intn(3) == 0
	s := newDmSession(name, pd, mode, randMemory(rng, big), pre)
	s.look = junk
	s.nag = rng.Intn(3) == 0
	s.lies = rng.Intn(3) == 0
	s.base = []int64{0, 0, 0, 1 << 31, 1<<32 - 3000, 1<<33 - 90000, 1<<53 - 777, -1 << 31, -100000, -1 << 40, 1<<62 + 12345}[rng.Intn(11)]
	long := !big && rng.Intn(25) == 0
	whole := rng.Intn(3) > 0 // every timestamp is a whole millisecond
	if pre && rng.Intn(2) == 0 {
		s.shift = int64(rng.Intn(2000)-1000) * 90
		if !whole {
			s.shift += int64(rng.Intn(90))
		}
	}
	s.begin(t, pd, pre)
	kit := &dmKit{rng: rng, n: uint32(rng.Intn(1 << 20))}

	def := 90000
	if name == "flv" || name == "jt1078" {
		def = 1000
	}
	var streams []*dmStream
	bufs := rng.Perm(12)
	if wide {
		bufs = rng.Perm(80)
	}
	raws := map[string]bool{}
	start := rng.Intn(2) * rng.Intn(1<<16)
	most := 1 + rng.Intn(4)
	if !big && rng.Intn(6) == 0 {
		most = 5 + rng.Intn(7)
	}
	if wide {
		most = 12 + rng.Intn(60)
	}
	if dense {
		most = 1 + rng.Intn(2)
	}
	for i := 0; i < most; i++ {
		x := &dmStream{buf: bufs[i], codec: pick(rng, "h264", "h264", "h265", "vp8", "aac", "aac", "pcm", "g726", "alaw", "mp3", pick(rng, "vp9", "av1", "mulaw", "opus", "g722"))}
		if x.codec == "pcm" || x.codec == "g726" {
			if raws[x.codec] {
				continue
			}
			raws[x.codec] = true
		}
		x.tb = []int{1000, 90000, 8000, 48000}[rng.Intn(4)]
		if rng.Intn(3) > 0 {
			x.tb = def
		}
		x.unit = lcm(lcm(x.tb/1000, def/1000), 1)
		x.dts = start * x.unit
		x.step = []int{0, 1, 7, 20, 33, 40, 100}[rng.Intn(7)]
		if slow && x.codec != "pcm" && x.codec != "g726" && rng.Intn(4) > 0 {
			x.step = rng.Intn(2*pd/(1+rng.Intn(60)) + 1)
		}
		if dense {
			x.step = []int{1, 1, 2, 3}[rng.Intn(4)]
		}
		x.perMs = []int{1, 2, 3, 4, 5, 6}[rng.Intn(6)]
		x.adts = rng.Intn(3) > 0
		x.kindOf = pick(rng, "announce", "packets", "mixed")
		if x.codec == "h264" || x.codec == "h265" {
			x.sps = kit.freshSets(x.codec)
		}
		streams = append(streams, x)
	}
	if len(streams) == 0 {
		return
	}
	for _, x := range streams {
		x.alone = true
		for _, y := range streams {
			x.alone = x.alone && (x == y || x.codec != y.codec)
		}
	}
	done := false
	steps := 4 + rng.Intn(70)
	if long {
		steps = 300 + rng.Intn(200)
	}
	if wide {
		steps = len(streams) * (2 + rng.Intn(4))
	}
	if dense {
		steps = 250 + rng.Intn(250)
		if veryLong > 0 {
			steps = veryLong
		}
	}
	patient := long || slow || wide || dense
	if big {
		steps = 30 + rng.Intn(40)
	}
	uneven, busy := rng.Intn(2) == 0 && !dense, rng.Intn(6) == 0
	for i := 0; i < steps; i++ {
		ok := true
		x := streams[rng.Intn(len(streams))]
		if busy && rng.Intn(8) > 0 { // one stream has far more packets than the others
			x = streams[0]
		}
		q := rng.Intn(100)
		if x.kindOf == "packets" && q < 20 {
			q += 20
		}
		if x.kindOf == "announce" && !x.said && x.fed == 0 && rng.Intn(2) == 0 {
			q = 0
		}
		switch {
		case q < 6 && (!x.said && x.fed == 0 || name != "ts" || done):
			kind := pick(rng, "good", "good", "good", "bad", "none")
			cfg := avformat.AudioConfig{}
			if !isVideo(x.codec) {
				cfg = avformat.AudioConfig{SampleRate: []int{0, 8000, 16000, 44100}[rng.Intn(4)], Channels: rng.Intn(3), SampleSize: []int{16, 16, 8, 0}[rng.Intn(4)], BitRate: rng.Intn(3) * 16000}
				cfg.HasADTSHeader = x.codec == "aac" && x.adts
			}
			var res int
			u := kit.extra(name, x.codec, kind, x.sps)
			if junk && rng.Intn(2) == 0 {
				u = kit.junk()
			}
			res, ok = s.announce(t, x.buf, x.codec, x.tb, u, cfg)
			x.said = x.said || res >= 0
		case patient && q >= 20 && q < 25 && rng.Intn(20) > 0:
			// goes on for long
		case q == 20 && i > 3, q == 21 && i > 10 && !done:
			ok = s.control(t, "probe", 0)
		case q == 22 || q == 23:
			ok = s.control(t, "try", 0)
		case q == 24:
			ok = s.control(t, "setpd", []int{0, 50, 300, 800, 2000}[rng.Intn(5)])
		case q == 25:
			ok = s.control(t, "handover", 0)
		case q == 26:
			ok = s.drop(t, x.buf, kit.body(1+rng.Intn(50)))
		case q < 36:
			ok = s.release(t, rng.Intn(4))
			for n := 0; veryLong > 0 && ok && n < 20; n++ { // a client that keeps up
				ok = s.release(t, rng.Intn(4))
			}
		case q == 36:
			ok = s.again(t)
		default:
			d := x.step
			if done && d > 1000 {
				d = rng.Intn(1000)
			}
			if uneven && !slow && (x.codec != "g726" && x.codec != "pcm" || x.fed > 1) {
				d = []int{0, 0, 1, 5, 40, 90, 199, 200, 201}[rng.Intn(9)]
			}
			if done && rng.Intn(6) == 0 || !done && mode == "hold" && whole && rng.Intn(12) == 0 && x.codec != "g726" && x.codec != "pcm" {
				d = rng.Intn(300) - 250
			}
			if x.fed > 0 {
				x.dts += d * x.unit
			}
			if !whole && d >= 0 && x.codec != "g726" && x.codec != "pcm" {
				x.dts += rng.Intn(x.unit + 1)
			}
			if done && rng.Intn(40) == 0 {
				x.dts = rng.Intn(1<<31) - 1<<30
			}
			size := rng.Intn(40)
			if rng.Intn(15) == 0 {
				size = rng.Intn(300)
			}
			if big && rng.Intn(4) == 0 {
				size = 300000 + rng.Intn(600000)
				if !isVideo(x.codec) {
					size = 100000 + rng.Intn(200000)
				}
			}
			pts := x.dts + (rng.Intn(6)-2)*rng.Intn(2)*40*x.unit
			if junk && rng.Intn(3) == 0 {
				ok = s.packet(t, x.buf, x.codec, rng.Intn(2) == 0, x.dts, pts, kit.junk())
			} else if isVideo(x.codec) {
				key := rng.Intn(3) == 0
				kind := "none"
				if name != "flv" && isCoded(x.codec) && (key || rng.Intn(6) == 0) {
					kind = pick(rng, "good", "good", "none", "part")
					if x.alone && !x.said && rng.Intn(4) == 0 {
						kind = "bad"
					}
				}
				ok = s.packet(t, x.buf, x.codec, key, x.dts, pts, kit.video(name, x.codec, key, kind, x.sps, size))
			} else {
				kind := "plain"
				if x.codec == "aac" && x.adts {
					kind = "adts"
				}
				if rng.Intn(8) == 0 {
					kind = "bad"
				}
				n := 4 + size
				if (x.codec == "g726" || x.codec == "pcm") && x.fed < 3 {
					n = x.step * x.perMs
					if x.codec == "pcm" {
						n = x.step*[]int{8, 16, 17, 32, 33, 64, 65, 96, 97}[(x.perMs+x.buf)%9] + rng.Intn(x.step+1)
					}
					if n < 4 {
						n = 8
					}
				}
				ok = s.packet(t, x.buf, x.codec, false, x.dts, x.dts, dmUnit{data: kit.audio(x.codec, kind, n)})
			}
			x.fed++
		}
		if !ok {
			return
		}
		done = s.over
	}
	s.again(t)
}

// genSession performs one generated history.
func genSession(t *tracer, b J, k int) {
	rng := rand.New(rand.NewSource(int64(k)))
	name, pd, mode := b["name"].(string), num(b["pd"]), "hold"
	if b["auto"].(bool) {
		mode = []string{"auto", "self"}[b2i(k%5 == 0)]
	}
	var mem memory = &smallRings{[]int{8, 40, 90}[k%3], map[int]*collections.RBBlockBuffer{}}
	if k%4 == 0 {
		mem = &ownBlocks{map[int][][]byte{}}
	}
	s := newDmSession(name, pd, mode, mem, k%3 == 0)
	s.nag = k%7 == 0
	s.begin(t, pd, k%3 == 0)
	kit := &dmKit{rng: rng}
	def := 90
	if name == "flv" || name == "jt1078" {
		def = 1
	}
	var codecs []string
	var sps []dmSps
	for _, c := range b["codecs"].([]any) {
		codecs = append(codecs, c.(string))
		x := dmSps{}
		if c == "h264" || c == "h265" {
			x = kit.freshSets(c.(string))
		}
		sps = append(sps, x)
	}
	clk, fed, said := make([]int, len(codecs)), make([]int, len(codecs)), make([]bool, len(codecs))
	for _, o := range b["ops"].([]any) {
		o := o.(J)
		i, kind := num(o["s"])-1, o["kind"].(string)
		ok := true
		switch o["op"].(string) {
		case "new":
			cfg := avformat.AudioConfig{}
			if !isVideo(codecs[i]) {
				cfg = avformat.AudioConfig{SampleRate: 8000, Channels: 1, SampleSize: 16}
			}
			if said[i] && name == "ts" && !s.over { // junk was taken after all
				continue
			}
			u := kit.extra(name, codecs[i], kind, sps[i])
			if kind == "junk" {
				s.look, u = true, kit.junk()
			}
			var res int
			res, ok = s.announce(t, i, codecs[i], def*1000, u, cfg)
			said[i] = said[i] || res >= 0
		case "pkt":
			clk[i] += num(o["dt"])
			dts, size := clk[i]*def, rng.Intn(30)
			if kind == "junk" {
				s.look = true
				ok = s.packet(t, i, codecs[i], rng.Intn(2) == 0, dts, dts, kit.junk())
			} else if isVideo(codecs[i]) {
				sets := map[string]string{"key": "good", "keybad": "bad"}[kind]
				ok = s.packet(t, i, codecs[i], kind != "delta", dts, dts+(rng.Intn(3)-1)*40*def, kit.video(name, codecs[i], kind != "delta", sets, sps[i], size))
			} else {
				n := 4 + size
				if codecs[i] == "g726" {
					n = []int{100, 200, 300, 400, 500, 600}[rng.Intn(6)]
				} else if codecs[i] == "pcm" {
					n = []int{800, 1600, 1699, 1700, 3299, 3300, 6500, 9600, 9700}[rng.Intn(9)]
				}
				k := map[string]string{"good": "adts", "bad": "bad"}[kind]
				ok = s.packet(t, i, codecs[i], false, dts, dts, dmUnit{data: kit.audio(codecs[i], k, n)})
			}
			fed[i]++
		case "release":
			for _, x := range s.owned {
				if q := s.pipe.q[i]; x.buf == i && len(q) > 0 && q[0] == x.id {
					ok = s.releaseOf(t, x)
					break
				}
			}
		case "setpd":
			ok = s.control(t, "setpd", 9)
		default:
			ok = s.control(t, o["op"].(string), 0)
		}
		if !ok {
			return
		}
	}
	s.again(t)
}

func init() {
	recorders["demuxgen"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		k := 0
		behaviours(opt["in"], func(b J) {
			genSession(t, b, k)
			k++
		})
	}
	recorders["demux"] = func(t *tracer, rng *rand.Rand, n int, opt map[string]string) {
		long, _ := strconv.Atoi(opt["long"])
		for k := 0; k < n; k++ {
			randSession(t, rng, opt["big"] != "" && k%4 == 0, opt["junk"] != "", opt["dense"] != "", long)
		}
	}
}
