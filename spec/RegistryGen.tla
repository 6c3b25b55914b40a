---------------------------- MODULE RegistryGen -----------------------------
(* Every sequence of additions to a registry, of additions to a muxer with    *)
(* its header written at any time, and of markers asked for, up to a depth.   *)
EXTENDS Registry, Json

CONSTANTS Kind, Codecs, Types, Depth

VARIABLES ts, ms, done, ops
vars == <<ts, ms, done, ops>>

Init == ts = << >> /\ ms = << >> /\ done = FALSE /\ ops = << >>

QC == SetToSortSeq(Codecs, <)
QT == SetToSortSeq(Types, <)
Seen(t, d) == [tags |-> Tags(t), codecs |-> ByCodec(t, QC), types |-> ByType(t, QT), done |-> d]
Log(o, x, y, res, t, d) == ops' = Append(ops, [op |-> o, x |-> x, y |-> y, res |-> res, seen |-> Seen(t, d)])

Add(c, t) == LET tr == [tag |-> Len(ops), codec |-> c, type |-> t] IN
  IF Kind = "registry" THEN /\ ts' = Append(ts, tr) /\ Log("add", c, t, Len(ts), ts', done) /\ UNCHANGED <<ms, done>>
  ELSE /\ ts' = MuxAdd(ts, tr) /\ Log("add", c, t, MuxRes(ts, tr), ts', done) /\ UNCHANGED <<ms, done>>
Header == /\ Kind = "muxer" /\ done' = TRUE /\ Log("header", 0, 0, 0, ts, TRUE) /\ UNCHANGED <<ts, ms>>
Mark(m) == /\ Kind = "markers" /\ ms' = MarkAdd(ms, m) /\ Log("mark", m, 0, IndexOf(ms, m), << >>, FALSE) /\ UNCHANGED <<ts, done>>

Next == /\ Len(ops) < Depth
        /\ \/ Kind # "markers" /\ \E c \in Codecs, t \in Types : Add(c, t)
           \/ Header
           \/ \E m \in Codecs : Mark(m)
Spec == Init /\ [][Next]_vars

OnePerType == Kind = "muxer" => \A i, j \in 1..Len(ts) : ts[i].type = ts[j].type => i = j
Distinct == \A i, j \in 1..Len(ms) : ms[i] = ms[j] => i = j
Stable == \A i \in 1..Len(ops) : ops[i].op = "mark" => ms[ops[i].res + 1] = ops[i].x
Emit == PrintT("@@" \o ToJson([kind |-> Kind, qc |-> QC, qt |-> QT, ops |-> ops']))
=============================================================================
