----------------------------- MODULE TimeBaseGen ----------------------------
(* The definition has the properties the statement lists (checked by TLC on   *)
(* all small numbers) and every one of these conversions is replayed.         *)
EXTENDS TimeBase, TLC, Json

CONSTANTS MaxTs, MaxBase

VARIABLES ts, src, dst, done
vars == <<ts, src, dst, done>>

Init == ts \in (0 - MaxTs)..MaxTs /\ src \in 1..MaxBase /\ dst \in 1..MaxBase /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<ts, src, dst>>
Spec == Init /\ [][Next]_vars

Dig(x) == [neg |-> x < 0, m |-> << Abs(x) % Base, Abs(x) \div Base >>]

Identity == src = dst => Conv(ts, src, dst) = ts
Mirror == Conv(0 - ts, src, dst) = 0 - Conv(ts, src, dst)
Ordered == Conv(ts, src, dst) <= Conv(ts + 1, src, dst)
ThereAndBack == (ts * dst) % src = 0 => Conv(Conv(ts, src, dst), dst, src) = ts
\* both definitions agree, and the exact value is the only one accepted
Agree == \A d \in {-1, 0, 1} :
           Exact(Dig(ts), << src >>, << dst >>, Dig(Conv(ts, src, dst) + d)) <=> (d = 0)
DiffOk == \A d \in {-1, 0, 1} : Minus(Dig(ts), Dig(src), Dig(ts - src + d)) <=> (d = 0)

Emit == PrintT("@@" \o ToJson([ts |-> ts, src |-> src, dst |-> dst, res |-> Conv(ts, src, dst)]))
=============================================================================
