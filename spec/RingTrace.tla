----------------------------- MODULE RingTrace ------------------------------
(* Validates recorded histories of a real block buffer against BlockQueue.   *)
EXTENDS BlockQueue, TraceLib

VARIABLES l, blocks

Init == l = 1 /\ blocks = << >>

After(r) ==
  CASE r.op = "new"     -> << >>
    [] r.op = "write"   -> BQWrite(blocks, r.v, r.n)
    [] r.op = "fetch"   -> BQFetch(blocks)
    [] r.op = "pop"     -> BQPop(blocks)
    [] r.op = "popback" -> BQPopBack(blocks)
    [] r.op = "clear"   -> << >>

\* what the step must have shown to the caller
Expected(r) ==
  LET b == After(r)
  IN [live |-> BQLive(b), pend |-> BQPending(b),
      res |-> IF r.op = "fetch" THEN BQFetchRes(blocks) ELSE << >>]

Seen(r) == [live |-> r.live, pend |-> r.pend, res |-> r.res]

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l]
     IN /\ Demand(~r.panic /\ Seen(r) = Expected(r), l, <<Expected(r), blocks>>)
        /\ blocks' = After(r)
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, blocks>>
=============================================================================
