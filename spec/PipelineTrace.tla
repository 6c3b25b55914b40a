---------------------------- MODULE PipelineTrace ---------------------------
EXTENDS Pipeline, TraceLib

VARIABLES l, kind, st

Init == l = 1 /\ kind = "" /\ st = << >>

NextSt(r) == IF r.op = "new" THEN << >> ELSE After(kind, st, r.op, r.s, r.v, r.n)
NextKind(r) == IF r.op = "new" THEN r.kind ELSE kind

Expected(r) ==
  LET t == NextSt(r)  k == NextKind(r) IN
  [panic |-> FALSE,
   res  |-> IF r.op = "new" THEN << >> ELSE Result(kind, st, r.op, r.s),
   pend |-> [j \in 1..Len(r.pend) |-> <<r.pend[j][1], Pending(k, t, r.pend[j][1])>>],
   live |-> [j \in 1..Len(r.live) |-> <<r.live[j][1], Live(k, t, r.live[j][1])>>]]

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
       /\ Demand([panic |-> r.panic, res |-> r.res, pend |-> r.pend, live |-> r.live] = Expected(r), l, Expected(r))
       /\ kind' = NextKind(r)
       /\ st' = NextSt(r)
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, kind, st>>
=============================================================================
