---------------------------- MODULE HostileTrace ----------------------------
EXTENDS Hostile, TraceLib

VARIABLE l
Init == l = 1
Ok(r) ==
  /\ Demand(r.panics = << >>, l, "every call returns")
  /\ Demand(r.outside = << >>, l, "results depend on the input alone")
  /\ Demand(r.changed = << >>, l, "the input is left alone")
  /\ Demand(\A i \in 1..Len(r.parts) : Within(r.parts[i], r.in), l, "what was found lies in the input")
Next == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
