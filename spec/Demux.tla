------------------------------- MODULE Demux --------------------------------
(* The demuxer as its client and its handler see it.  A demuxer d is          *)
(*  [name, pd, auto, pre, shift, done, tracks, pend, owned]:                      *)
(*  tracks - descriptions in index order, each with its buffer index;         *)
(*  pend   - per track the packets still held back, oldest first;             *)
(*  owned  - blocks the handler owns (auto-free off).                         *)
(* Step(d, r, ends) is what input r does: the demuxer afterwards and what is  *)
(* observable: protocol callbacks, packets delivered (per track, in order),   *)
(* blocks given back.  ends: probing ends with this input.  Junk input        *)
(* (r.junk) may be taken or refused as far as its bytes decide (r.taken); a   *)
(* track made of it is wild: its description is its own affair.               *)
EXTENDS Aac, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Video == {"h264", "h265", "vp8", "vp9", "av1"}
Media(c) == IF c \in Video THEN 0 ELSE 1
Raw == {"pcm", "g726"}
Coded == {"h264", "h265"}

DefaultTb(name) == IF name \in {"flv", "jt1078"} THEN 1000 ELSE 90000
Form(name) == IF name = "flv" THEN 2 ELSE 1

NewD(name, pd, auto, pre, shift) == [name |-> name, pd |-> pd, auto |-> auto, pre |-> pre, shift |-> shift, done |-> FALSE,
                              tracks |-> << >>, pend |-> << >>, owned |-> {}]

TrackOf(d, buf) == LET s == SelectSeq([i \in 1..Len(d.tracks) |-> IF d.tracks[i].buf = buf THEN i ELSE 0], LAMBDA x : x > 0) IN
                   IF s = << >> THEN 0 ELSE s[1]
WithCodec(d, c) == LET s == SelectSeq([i \in 1..Len(d.tracks) |-> IF d.tracks[i].codec = c THEN i ELSE 0], LAMBDA x : x > 0) IN
                   IF s = << >> THEN 0 ELSE s[1]
HasMedia(d, m) == \E i \in 1..Len(d.tracks) : Media(d.tracks[i].codec) = m

\* ---- how a stream becomes a track ------------------------------------------
\* extra: the extra data (with AAC made from a packet: what it must say); sets: parameter sets in Annex-B form
Desc(buf, codec, tb, extra, sets, w, h, rate, chans, adts, bits) ==
  [buf |-> buf, codec |-> codec, tb |-> tb, extra |-> extra, asc |-> << >>, sets |-> sets, w |-> w, h |-> h,
   rate |-> rate, chans |-> chans, adts |-> adts, bits |-> bits,
   depth |-> IF Media(codec) = 1 THEN 16 ELSE 0, wild |-> FALSE]

AscGood(x) == Len(x) >= 2 /\ AscPlain(x) /\ KnownRate(AscFields(x)[2]) /\ KnownChan(AscFields(x)[3])

AnnounceOk(d, r) ==
  /\ ~d.done
  /\ d.name = "ts" \/ ~HasMedia(d, Media(r.codec))
  /\ CASE r.junk -> r.taken
       [] r.codec = "aac" -> r.adts \/ AscGood(r.extra)
       [] r.codec \in Coded -> r.good       \* its parameter sets can be decoded
       [] OTHER -> TRUE
Announced(r) ==
  CASE r.junk -> [Desc(r.buf, r.codec, r.tb, << >>, << >>, 0, 0, 0, 0, FALSE, 0) EXCEPT !.wild = TRUE]
    [] r.codec = "aac" /\ ~r.adts -> [Desc(r.buf, r.codec, r.tb, r.extra, << >>, 0, 0, Rate(AscFields(r.extra)[2]),
                                           Chans(AscFields(r.extra)[3]), FALSE, r.bits) EXCEPT !.depth = r.depth]
    [] Media(r.codec) = 1 -> [Desc(r.buf, r.codec, r.tb, r.extra, << >>, 0, 0, r.rate, r.chans, r.adts, r.bits)
                              EXCEPT !.depth = r.depth]
    [] OTHER -> Desc(r.buf, r.codec, r.tb, r.extra, r.sets, r.w, r.h, 0, 0, FALSE, 0)

\* r.head: the first bytes of an audio packet; r.good: its parameter sets are complete and can be decoded
FirstOk(d, r) ==
  CASE r.junk /\ r.codec = "aac" -> r.taken
    [] r.junk /\ r.codec \in Coded -> d.name # "flv" /\ r.taken
    [] r.codec = "aac" -> AdtsOk(r.head)
    [] Media(r.codec) = 1 -> TRUE
    [] OTHER -> d.name # "flv" /\ (\/ r.codec \in Coded /\ r.key /\ r.good
                                   \/ WithCodec(d, r.codec) > 0)
FirstDesc(d, r) ==
  LET tb == DefaultTb(d.name) IN
  CASE r.junk /\ (r.codec = "aac" \/ r.codec \in Coded) ->
         [Desc(r.buf, r.codec, tb, << >>, << >>, 0, 0, 0, 0, FALSE, 0) EXCEPT !.wild = TRUE]
    [] r.codec = "aac" ->
         LET f == AdtsFields(r.head) IN
         [Desc(r.buf, r.codec, tb, << >>, << >>, 0, 0, Rate(f[6]), Chans(f[8]), TRUE, 0)
          EXCEPT !.asc = << f[5] + 1, f[6], f[8] >>]
    [] Media(r.codec) = 1 -> Desc(r.buf, r.codec, tb, << >>, << >>, 0, 0, 8000, 1, FALSE, 0)
    [] r.codec \in Coded /\ r.key /\ r.good -> Desc(r.buf, r.codec, tb, r.sets, r.sets, r.w, r.h, 0, 0, FALSE, 0)
    [] OTHER -> LET o == d.tracks[WithCodec(d, r.codec)] IN
                [Desc(r.buf, r.codec, tb, o.extra, o.sets, o.w, o.h, 0, 0, FALSE, 0) EXCEPT !.wild = o.wild]

\* ---- raw audio: parameters inferred when probing ends -----------------------
Ms(dt, tb) == (dt \div tb) * 1000 + ((dt % tb) * 1000) \div tb        \* timestamps are whole milliseconds
PerMs(p, tb) == IF Len(p) < 2 \/ Ms(p[2].dts - p[1].dts, tb) < 1 THEN 0 - 1
                ELSE p[1].size \div Ms(p[2].dts - p[1].dts, tb)
PcmRate(b, old) == IF b < 0 THEN old ELSE IF b <= 16 THEN 8000 ELSE IF b <= 32 THEN 16000
                   ELSE IF b <= 64 THEN 32000 ELSE IF b <= 96 THEN 48000 ELSE old
G726Bits(b, old) == IF b < 0 THEN old ELSE LET k == b * 8 IN
                    IF k <= 16 THEN 16000 ELSE IF k <= 24 THEN 24000 ELSE IF k <= 32 THEN 32000
                    ELSE IF k <= 40 THEN 40000 ELSE old
Inferred(t, p) == CASE t.codec = "pcm" -> [t EXCEPT !.rate = PcmRate(PerMs(p, t.tb), @)]
                    [] t.codec = "g726" -> [t EXCEPT !.bits = G726Bits(PerMs(p, t.tb), @)]
                    [] OTHER -> t

\* ---- packets ----------------------------------------------------------------
\* a preprocess hook may move a video packet in time
Moved(d, r) == IF d.pre /\ Media(r.codec) = 0 THEN d.shift ELSE 0
Packet(d, r) == [id |-> r.id, dts |-> r.dts + Moved(d, r), pts |-> r.pts + Moved(d, r), key |-> r.key, size |-> r.size]
\* all but the newest, with their durations
Ready(p) == [i \in 1..Max2(Len(p) - 1, 0) |-> [id |-> p[i].id, dts |-> p[i].dts, pts |-> p[i].pts, key |-> p[i].key,
                                        dur |-> p[i + 1].dts - p[i].dts]]
Newest(p) == IF p = << >> THEN << >> ELSE << p[Len(p)] >>
\* how far the packets of a track reach, in milliseconds: exactly for whole
\* milliseconds, otherwise each duration may have been rounded down
RECURSIVE Whole(_, _, _)
Whole(p, tb, k) == IF k < 2 THEN 0 ELSE Ms(p[k].dts - p[k - 1].dts, tb) + Whole(p, tb, k - 1)
Span(p, tb) == Ms(p[Len(p)].dts - p[1].dts, tb)
\* what may be found: enough, not enough or (at the edge) either
Enough(d, i) == LET p == d.pend[i]
                    tb == d.tracks[i].tb
                    need == Max2(d.pd, 200) IN
                IF Len(p) < 2 THEN {FALSE}
                ELSE IF Span(p, tb) < need THEN {FALSE}
                ELSE IF Whole(p, tb, Len(p)) >= need THEN {TRUE} ELSE {TRUE, FALSE}

Ids(lists) == UNION {{lists[i][k].id : k \in 1..Len(lists[i])} : i \in 1..Len(lists)}
Held(d) == UNION {{d.pend[i][k].id : k \in 1..Len(d.pend[i])} : i \in 1..Len(d.pend)}
\* blocks outstanding: held back or owned by the handler
Outstanding(d) == Held(d) \cup d.owned

Nothing == [calls |-> << >>, lists |-> << >>, freed |-> {}, res |-> 0 - 1, pre |-> {}]

\* delivery of everything but the newest packet of each track
Deliver(d, o) ==
  LET lists == [i \in 1..Len(d.pend) |-> Ready(d.pend[i])] IN
  [d |-> [d EXCEPT !.pend = [i \in 1..Len(@) |-> Newest(@[i])],
                   !.owned = IF d.auto THEN @ ELSE @ \cup Ids(lists)],
   o |-> [o EXCEPT !.lists = lists]]

Finish(d, o) ==
  IF d.done THEN [d |-> d, o |-> o]
  ELSE IF d.tracks = << >> THEN [d |-> [d EXCEPT !.done = TRUE], o |-> [o EXCEPT !.calls = << "notfound" >>]]
  ELSE LET d1 == [d EXCEPT !.done = TRUE, !.tracks = [i \in 1..Len(@) |-> Inferred(@[i], d.pend[i])]] IN
       Deliver(d1, [o EXCEPT !.calls = [i \in 1..(Len(d.tracks) + 1) |-> IF i <= Len(d.tracks) THEN "track" ELSE "complete"]])

Add(d, desc) == [d EXCEPT !.tracks = Append(@, desc), !.pend = Append(@, << >>)]

Input(d, r, ends(_)) ==
  LET t0 == TrackOf(d, r.buf)
      create == t0 = 0 /\ ~d.done /\ FirstOk(d, r)
      d1 == IF create THEN Add(d, FirstDesc(d, r)) ELSE d
      t == IF create THEN Len(d1.tracks) ELSE t0 IN
  IF t = 0 THEN [d |-> d, o |-> [Nothing EXCEPT !.freed = {r.id}]]        \* dropped
  ELSE LET d2 == [d1 EXCEPT !.pend[t] = Append(@, Packet(d, r))]
           o == [Nothing EXCEPT !.pre = IF d.pre /\ Media(r.codec) = 0 THEN {r.id} ELSE {}] IN
       IF d.done THEN Deliver(d2, o)
       ELSE IF ends(Enough(d2, t)) THEN Finish(d2, o)
       ELSE [d |-> d2, o |-> o]

\* a raw audio track needs two packets for its parameters to be known
TryOk(d) == \A i \in 1..Len(d.tracks) : d.tracks[i].codec \in Raw => Len(d.pend[i]) >= 2

\* ends(x): does probing end here, x being what the rules allow
Step(d, r, ends(_)) ==
  CASE r.op \in {"newaudio", "newvideo"} ->
         LET ok == AnnounceOk(d, r) IN
         [d |-> IF ok THEN Add(d, Announced(r)) ELSE d,
          o |-> [Nothing EXCEPT !.res = IF ok THEN Len(d.tracks) ELSE 0 - 1, !.freed = IF r.extra = << >> THEN {} ELSE {r.id}]]
    [] r.op \in {"audio", "video"} -> Input(d, r, ends)
    [] r.op = "probe" -> IF ends({~d.done}) THEN Finish(d, Nothing) ELSE [d |-> d, o |-> Nothing]
    [] r.op = "try" -> IF ends({~d.done /\ TryOk(d)}) THEN Finish(d, Nothing) ELSE [d |-> d, o |-> Nothing]
    [] r.op = "handover" -> [d |-> d, o |-> Nothing]      \* another handler takes over
    [] r.op = "drop" -> [d |-> d, o |-> [Nothing EXCEPT !.freed = {r.id}]]     \* its writer gives up a block it has just written
    [] r.op = "setpd" -> [d |-> [d EXCEPT !.pd = r.size], o |-> Nothing]
    \* the handler gives back the oldest block of a stream, which it owns
    [] r.op = "release" -> [d |-> [d EXCEPT !.owned = @ \ {r.id}], o |-> [Nothing EXCEPT !.freed = {r.id}]]
=============================================================================
