--------------------------- MODULE RefCountTrace ----------------------------
(* Recorded histories (invocations and returns in real-time order) are        *)
(* linearizable with respect to the counter: TLC looks for a moment between   *)
(* invocation and return at which each call can have taken effect.            *)
EXTENDS TraceLib, FiniteSets

VARIABLES l, cnt, pending    \* pending: calls in progress, [p, call, done, res]

Init == l = 1 /\ cnt = 0 /\ pending = {}

Res(call, c) == CASE call = "refer" -> 0 [] call = "use" -> c [] call = "release" -> (IF c - 1 = 0 THEN 1 ELSE 0)
After(call, c) == CASE call = "refer" -> c + 1 [] call = "use" -> c [] call = "release" -> c - 1

\* the return value is known in advance (it is in the trace), so only matching effects are explored
Linearize == \E c \in pending :
  /\ ~c.done
  /\ Res(c.call, cnt) = c.res
  /\ cnt' = After(c.call, cnt)
  /\ pending' = (pending \ {c}) \cup {[c EXCEPT !.done = TRUE]}
  /\ l' = l

Step ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
     CASE r.op = "new" -> cnt' = r.n /\ pending' = {}
       [] r.op = "inv" -> cnt' = cnt /\ pending' = pending \cup {[p |-> r.p, call |-> r.call, res |-> r.n, done |-> FALSE]}
       [] r.op = "ret" -> /\ [p |-> r.p, call |-> r.call, res |-> r.n, done |-> TRUE] \in pending
                          /\ pending' = pending \ {[p |-> r.p, call |-> r.call, res |-> r.n, done |-> TRUE]}
                          /\ cnt' = cnt
       \* quiescent end: count, number of releases that saw zero, the wrapped value
       [] r.op = "end" -> pending = {} /\ r.n = cnt /\ r.trues = (IF cnt = 0 THEN 1 ELSE 0) /\ r.value /\ UNCHANGED <<cnt, pending>>
  /\ l' = l + 1

Next == Linearize \/ Step
Spec == Init /\ [][Next]_<<l, cnt, pending>>

\* several interleavings reach each line: the furthest line decides (see TLC register 1)
Reached == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Complete == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"MISMATCH", TLCGet(1), "not linearizable">>) /\ FALSE
ASSUME TLCSet(1, 0)
=============================================================================
