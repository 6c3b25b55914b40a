------------------------------ MODULE DemuxGen ------------------------------
(* Sessions of a demuxer over a few small streams: every order of             *)
(* announcements, packets (good, undecodable, tied and spaced timestamps),    *)
(* completion requests and releases.  The log kept beside the demuxer is what *)
(* its handler and its pipeline have seen; the invariants are the properties. *)
EXTENDS Demux, TLC, Json

CONSTANTS Name, Autos, Codecs, Steps, Depth, MaxPend, Pd, Extra, Bug, Full

VARIABLES d, clk, fed, ops, log, acc, got, given, bufof
vars == <<d, clk, fed, ops, log, acc, got, given, bufof>>

Streams == 1..Len(Codecs)
Junk == Extra \cap {"junk"}      \* the model refuses junk where its bytes decide
TbMs == DefaultTb(Name) \div 1000

AacAvc == << "aac", "h264" >>
AvcAvc == << "h264", "h264" >>
PcmHevc == << "pcm", "h265" >>
AacAac == << "aac", "aac" >>
Three == << "g726", "h264", "aac" >>
VpVp == << "vp8", "vp8" >>

Init == /\ \E a \in Autos : d = NewD(Name, Pd, a, FALSE, 0)
        /\ clk = [s \in Streams |-> 0] /\ fed = [s \in Streams |-> 0]
        /\ ops = << >> /\ log = << >>
        /\ acc = << >> /\ got = << >> /\ given = << >>      \* per track: accepted, delivered; blocks given back
        /\ bufof = << >>                                     \* block id to stream

AdtsHead == << 255, 241, 80, 128, 1, 95, 252 >>
\* what a generated operation is to the demuxer
R(op, s, kind, dts, id) ==
  LET c == IF s = 0 THEN "" ELSE Codecs[s] IN
  [op |-> op, name |-> "", size |-> 9, auto |-> TRUE, pre |-> FALSE, buf |-> s - 1, codec |-> c, key |-> kind \in {"key", "keybad", "idr"},
   dts |-> dts, pts |-> dts, id |-> id, tb |-> DefaultTb(Name), adts |-> FALSE, rate |-> 8000, chans |-> 1, bits |-> 0, depth |-> 16, junk |-> kind = "junk", taken |-> FALSE,
   extra |-> CASE c = "aac" -> IF kind = "good" THEN << 18, 16 >> ELSE << 1 >>
               [] c \in Coded -> << s, IF kind = "bad" THEN 0 ELSE 1 >>
               [] OTHER -> IF kind = "none" THEN << >> ELSE << s >>,
   good |-> kind \in {"good", "key"}, sets |-> << s >>, w |-> 16, h |-> 16, head |-> IF kind = "good" THEN AdtsHead ELSE << 255, 241 >>]

Want(x) == x = {TRUE}
Stepped(r) ==
  LET s == Step(d, r, Want) IN
  CASE Bug = "late" /\ r.op \in {"newaudio", "newvideo"} -> Step([d EXCEPT !.done = FALSE], r, Want)
    [] Bug = "lost" /\ s.o.calls # << >> -> [s EXCEPT !.o.lists = [i \in 1..Len(@) |-> << >>]]
    [] Bug = "leak" /\ r.op \in {"audio", "video"} -> [s EXCEPT !.o.freed = {}]
    [] Bug = "eager" /\ d.done /\ s.o.lists # << >> ->
         [s EXCEPT !.d.pend = [i \in 1..Len(@) |-> << >>],
                   !.o.lists = [i \in 1..Len(@) |-> @[i] \o [k \in 1..Len(s.d.pend[i]) |-> [id |-> s.d.pend[i][k].id, dts |-> s.d.pend[i][k].dts,
                                     pts |-> s.d.pend[i][k].pts, key |-> s.d.pend[i][k].key, dur |-> 0]]]]
    [] OTHER -> s

Fresh == Len(bufof) + 1
Grown(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE << >>]
IdsOf(list) == [k \in 1..Len(list) |-> list[k].id]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN << x >> \o SeqOf(S \ {x})

Do(r0, o, writes) == \E r \in {r0} : \E s \in {Stepped(r)} :   \* evaluated once
  LET n == Len(s.d.tracks)
      t == TrackOf(s.d, r.buf)
      taken == r.op \in {"audio", "video"} /\ r.id \notin s.o.freed /\ t > 0
      lists == Grown(s.o.lists, n)
      some == \E i \in 1..n : lists[i] # << >> IN
  /\ d' = [s.d EXCEPT !.done = s.d.done \/ d.done]
  /\ ops' = Append(ops, o)
  /\ log' = log \o s.o.calls \o (IF some THEN << "pkt" >> ELSE << >>)
  /\ acc' = LET a == Grown(acc, n) IN IF taken THEN [a EXCEPT ![t] = Append(@, r.id)] ELSE a
  /\ got' = LET g == Grown(got, n) IN [i \in 1..n |-> g[i] \o IdsOf(lists[i])]
  /\ given' = given \o SeqOf(s.o.freed) \o (IF d.auto THEN SeqOf(Ids(lists)) ELSE << >>)
  /\ bufof' = IF writes THEN Append(bufof, r.buf + 1) ELSE bufof

O(op, s, kind, dt) == [op |-> op, s |-> s, kind |-> kind, dt |-> dt]

Announce(s) ==
  \* a track is announced once, except where it has no effect
  /\ \/ fed[s] = 0 /\ TrackOf(d, s - 1) = 0
     \/ TrackOf(d, s - 1) > 0 /\ (Name # "ts" \/ d.done)
  /\ \E kind \in {"good", "bad"} \cup Junk :
       /\ kind = "bad" => Codecs[s] \in Coded \cup {"aac"}
       /\ Do(R(IF Media(Codecs[s]) = 0 THEN "newvideo" ELSE "newaudio", s, kind, 0, Fresh), O("new", s, kind, 0), TRUE)
  /\ UNCHANGED <<clk, fed>>

PktKinds(c) == CASE c = "aac" -> {"good", "bad"}
                 [] c \in Coded -> IF Name = "flv" THEN {"idr", "delta"} ELSE {"key", "keybad", "idr", "delta"}
                 [] OTHER -> {"good"}
PktOp(s) ==
  \E kind \in PktKinds(Codecs[s]) \cup Junk : \E dt \in IF fed[s] = 0 THEN {0} ELSE Steps :
    LET now == clk[s] + dt IN
    \* undecodable parameter sets only without an earlier track of the codec
    /\ kind = "keybad" => WithCodec(d, Codecs[s]) = 0 \/ TrackOf(d, s - 1) > 0
    /\ kind = "bad" => TrackOf(d, s - 1) = 0
    /\ Do(R(IF Media(Codecs[s]) = 0 THEN "video" ELSE "audio", s, kind, now * TbMs, Fresh), O("pkt", s, kind, dt), TRUE)
    /\ clk' = [clk EXCEPT ![s] = now] /\ fed' = [fed EXCEPT ![s] = 1]

Control(op) == Do(R(op, 0, "", 0, 0), O(op, 0, "", 0), FALSE) /\ UNCHANGED <<clk, fed>>

Mine(s) == {i \in Outstanding(d) : bufof[i] = s}
Release(s) ==
  /\ ~d.auto /\ Mine(s) # {}
  /\ LET m == CHOOSE x \in Mine(s) : \A y \in Mine(s) : x <= y IN
     m \in d.owned /\ Do(R("release", s, "", 0, m), O("release", s, "", 0), FALSE)
  /\ UNCHANGED <<clk, fed>>

Next == \/ \E s \in Streams : Announce(s) \/ PktOp(s) \/ Release(s)
        \/ \E op \in Extra \ Junk : Control(op)
Spec == Init /\ [][Next]_vars

Bound == Len(ops) <= Depth /\ \A i \in 1..Len(d.pend) : Len(d.pend[i]) <= MaxPend

\* ---- the properties ------------------------------------------------------------
RECURSIVE AllPkt(_)
AllPkt(q) == q = << >> \/ (Head(q) = "pkt" /\ AllPkt(Tail(q)))
\* C01
OneProtocol ==
  IF ~d.done THEN log = << >>
  ELSE \/ log = << "notfound" >> /\ d.tracks = << >>
       \/ LET n == Len(d.tracks) IN
          /\ n > 0 /\ Len(log) > n
          /\ SubSeq(log, 1, n + 1) = [i \in 1..(n + 1) |-> IF i <= n THEN "track" ELSE "complete"]
          /\ AllPkt(SubSeq(log, n + 2, Len(log)))
\* C02
OnceInOrder == \A i \in 1..Len(d.tracks) : i <= Len(acc) => got[i] \o IdsOf(d.pend[i]) = acc[i]
OneHeldBack == d.done => \A i \in 1..Len(acc) : Len(d.pend[i]) = IF acc[i] = << >> THEN 0 ELSE 1
NothingEarly == ~d.done => \A i \in 1..Len(got) : got[i] = << >>
\* C03
Conserved == LET g == {given[i] : i \in 1..Len(given)} IN
             /\ Cardinality(g) = Len(given)
             /\ g \cap Outstanding(d) = {}
             /\ g \cup Outstanding(d) = 1..Len(bufof)
HandlerOwns == IF d.auto THEN d.owned = {}
               ELSE UNION {{got[i][k] : k \in 1..Len(got[i])} : i \in 1..Len(got)} = d.owned \cup ({given[i] : i \in 1..Len(given)} \cap UNION {{got[i][k] : k \in 1..Len(got[i])} : i \in 1..Len(got)})
\* probing never goes on once a track spans the window
WindowClosed == ~d.done => \A i \in 1..Len(d.pend) : Enough(d, i) = {FALSE}

\* ---- generation ------------------------------------------------------------------
Base == CHOOSE m \in {clk[s] : s \in Streams} : \A s \in Streams : m <= clk[s]
Shape(i) == [k \in 1..Len(d.pend[i]) |-> d.pend[i][k].dts - Base * TbMs]
View == IF Full THEN <<ops>> ELSE
        << <<d.auto, d.done>>, d.tracks, [i \in 1..Len(d.pend) |-> Shape(i)], [s \in Streams |-> clk[s] - Base], fed,
           LET out == SeqOf(Outstanding(d)) IN
           [s \in Streams |-> LET m == SelectSeq(out, LAMBDA i : bufof[i] = s) IN [k \in 1..Len(m) |-> m[k] \in d.owned]] >>
Emit == PrintT("@@" \o ToJson([name |-> Name, auto |-> d.auto, pd |-> Pd, codecs |-> Codecs, ops |-> ops']))
=============================================================================
