------------------------------ MODULE RingGen -------------------------------
(* Transition cover of the ring's layout graph: every reachable transition   *)
(* of RingLayout (modulo the values stored) is printed once, as the shortest *)
(* operation sequence leading to it, with the result the specification       *)
(* demands after its last step.                                              *)
EXTENDS RingLayout, Json

VARIABLE hist

GInit == Init /\ hist = << >>

Log(e) == hist' = Append(hist, e)

GNext ==
  \/ \E n \in Sizes : Write(n) /\ Log(<<"w", n>>)
  \/ Fetch /\ Log(<<"f">>)
  \/ blocks # << >> /\ ~HasPending(blocks) /\ UNCHANGED lvars /\ Log(<<"f">>)   \* nothing to fetch
  \/ Pop /\ Log(<<"p">>)
  \/ PopBack /\ Log(<<"b">>)
  \/ Clear /\ Log(<<"c">>)

GSpec == GInit /\ [][GNext]_<<lvars, hist>>

View == <<Cap, capEnd, res, disc, Len(blocks)>>

LastRes == IF hist'[Len(hist')][1] = "f" THEN BQFetchRes(blocks) ELSE << >>

Emit == PrintT("@@" \o ToJson([ops |-> hist', res |-> LastRes,
                               cap |-> InitCap, live |-> BQLive(blocks'), pend |-> BQPending(blocks')]))
=============================================================================
