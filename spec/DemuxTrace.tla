----------------------------- MODULE DemuxTrace -----------------------------
(* Recorded sessions of the real demuxer.  Props selects the properties that  *)
(* are demanded.  When probing ends is a matter of C01; the others take it    *)
(* from the trace.                                                            *)
EXTENDS Demux, TraceLib

CONSTANT Props

VARIABLES l, d
Init == l = 1 /\ d = NewD("flv", 0, TRUE, FALSE, 0)

OfKind(r, ks) == SelectSeq(r.ev, LAMBDA e : e.e \in ks)
Kinds(s) == [i \in 1..Len(s) |-> s[i].e]

\* ---- C01: the callback protocol --------------------------------------------
Protocol(r, s) ==
  LET calls == OfKind(r, {"track", "complete", "notfound"})
      all == OfKind(r, {"track", "complete", "notfound", "pkt"}) IN
  /\ Demand(OfKind(r, {"stale"}) = << >>, l, "C01 the handler in charge is called")
  /\ Demand(OfKind(r, {"late"}) = << >>, l, "C01 no track once probing has ended")
  /\ Demand(Kinds(calls) = s.o.calls, l, <<"C01 callbacks", s.o.calls>>)
  /\ Demand(SubSeq(all, 1, Len(calls)) = calls, l, "C01 packets only after the tracks")
  /\ Demand(\A i \in 1..Len(calls) : calls[i].e = "track" => calls[i].index = i - 1, l, "C01 tracks in index order")
  /\ Demand(Len(all) > Len(calls) => s.d.done /\ s.d.tracks # << >>, l, "C01 no packets while probing")
  /\ Demand(\A i \in (Len(calls) + 1)..Len(all) : all[i].index \in 0..(Len(s.d.tracks) - 1), l, "C01 packets of announced tracks")
  /\ Demand(r.op \in {"newaudio", "newvideo"} => r.res = s.o.res, l, <<"C01 registered as", s.o.res>>)

\* ---- C02: packets -----------------------------------------------------------
Seen(e) == [id |-> e.id, dts |-> e.dts, pts |-> e.pts, key |-> e.key, dur |-> e.dur]
RECURSIVE Flat(_, _)
Flat(ls, i) == IF i > Len(ls) THEN << >> ELSE ls[i] \o Flat(ls, i + 1)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 2..Len(s) : s[i - 1].dts <= s[i].dts
Merge(pk, lists) ==
  LET of(i) == SelectSeq(pk, LAMBDA e : e.index = i - 1)
      seen(i) == [k \in 1..Len(of(i)) |-> Seen(of(i)[k])] IN
  /\ Len(pk) = Len(Flat(lists, 1)) /\ Sorted(pk)
  /\ \A i \in 1..Len(lists) :
       IF Sorted(lists[i]) THEN seen(i) = lists[i]
       ELSE \* timestamps went backwards while probing: ascending, equal ones in arrival order
            /\ SetOf(seen(i)) = SetOf(lists[i])
            /\ \A x \in {lists[i][k].dts : k \in 1..Len(lists[i])} :
                 SelectSeq(seen(i), LAMBDA e : e.dts = x) = SelectSeq(lists[i], LAMBDA e : e.dts = x)
Packets(r, s) ==
  LET pk == OfKind(r, {"pkt"})
      pre == OfKind(r, {"pre"}) IN
  /\ Demand(Merge(pk, s.o.lists), l, <<"C02 packets of each track", s.o.lists>>)
  /\ Demand(\A i \in 1..Len(pk) : LET t == s.d.tracks[pk[i].index + 1] IN
              pk[i].codec = t.codec /\ pk[i].tb = t.tb /\ pk[i].media = Media(t.codec)
              /\ (Media(t.codec) = 0 => pk[i].form = Form(d.name)), l, "C02 codec, media type, time base and form of its track")
  /\ Demand(Len(pre) = Cardinality(s.o.pre) /\ {pre[i].id : i \in 1..Len(pre)} = s.o.pre
            /\ (Len(pre) > 0 => r.ev[1].e = "pre" /\ r.ev[1].dts = r.dts /\ r.ev[1].pts = r.pts /\ r.ev[1].dur = 0), l, <<"C02 preprocessed", s.o.pre>>)

\* ---- C03: blocks ------------------------------------------------------------
Blocks(r, s) ==
  LET fr == OfKind(r, {"free", "under"})
      both == OfKind(r, {"pkt", "free", "under"})
      auto == s.o.lists # << >> /\ d.auto IN
  /\ Demand(\A i \in 1..Len(fr) : fr[i].e = "free", l, "C03 a discard without a block")
  /\ IF auto
     THEN Demand(/\ Len(both) % 2 = 0
                 /\ \A i \in 1..Len(both) : IF i % 2 = 1 THEN both[i].e = "pkt" ELSE both[i].e = "free" /\ both[i].id = both[i - 1].id,
                 l, "C03 every packet's block is given back right after its callback")
     ELSE Demand(Len(fr) = Cardinality(s.o.freed) /\ {fr[i].id : i \in 1..Len(fr)} = s.o.freed, l, <<"C03 given back", s.o.freed>>)
  /\ Demand(\A i \in 1..Len(both) : both[i].e = "pkt" => both[i].buf = s.d.tracks[both[i].index + 1].buf, l, "C03 the packet's buffer index")
  /\ Demand(SetOf(r.out) = Outstanding(s.d) /\ Len(r.out) = Cardinality(Outstanding(s.d)), l, <<"C03 outstanding", Outstanding(s.d)>>)
  /\ Demand(r.intact, l, "C03 bytes of every packet its handler owns")
  /\ Demand(\A i \in 1..Len(both) : both[i].e = "pkt" => both[i].id > 0, l, "C03 bytes of the packet")

\* ---- C04: track descriptions --------------------------------------------------
Same(e, t) ==
  /\ e.media = Media(t.codec) /\ e.codec = t.codec /\ e.tb = t.tb
  /\ t.wild \/
     /\ IF t.asc # << >> THEN Len(e.extra) >= 2 /\ AscFields(e.extra) = t.asc ELSE e.extra = t.extra
     /\ Media(t.codec) = 1 => e.rate = t.rate /\ e.chans = t.chans /\ e.adts = t.adts
     /\ Media(t.codec) = 1 => e.bits = t.bits /\ e.depth = t.depth
     /\ t.codec \in Coded => e.sets = t.sets /\ e.w = t.w /\ e.h = t.h
Described(r, s) ==
  LET tr == OfKind(r, {"track"}) IN
  Demand(Len(tr) <= Len(s.d.tracks) /\ \A i \in 1..Len(tr) : tr[i].index = i - 1 /\ Same(tr[i], s.d.tracks[i]), l, <<"C04", s.d.tracks>>)

Ok(r, s) ==
  /\ Demand(~r.panic, l, "no panic")
  /\ "C01" \in Props => Protocol(r, s)
  /\ "C02" \in Props => Packets(r, s)
  /\ "C03" \in Props => Blocks(r, s)
  /\ "C04" \in Props => Described(r, s)

Ends(r, x) == IF "C01" \in Props /\ x # BOOLEAN THEN TRUE \in x ELSE \E i \in 1..Len(r.ev) : r.ev[i].e \in {"complete", "notfound"}

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
     IF r.op = "new" THEN d' = NewD(r.name, r.size, r.auto, r.pre, r.dts)
     ELSE IF r.op = "end"      \* the announced tracks described once more
     THEN d' = d /\ ("C04" \in Props => Described(r, [d |-> d])) = TRUE
     ELSE LET s == Step(d, r, LAMBDA x : Ends(r, x)) IN
          /\ Ok(r, s) = TRUE
          /\ d' = s.d
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, d>>
=============================================================================
