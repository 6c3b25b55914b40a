----------------------------- MODULE MemoryTrace ----------------------------
(* Long recorded sessions of the real code: memory in use (after collection)  *)
(* at several points, with what the client had outstanding (in KB).           *)
EXTENDS Memory, TraceLib

VARIABLES l, warm, peak

Init == l = 1 /\ warm = 0 - 1 /\ peak = 0
Max2(a, b) == IF a > b THEN a ELSE b

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
     /\ Demand(~r.panic, l, "no panic")
     /\ peak' = IF r.op = "new" THEN 0 ELSE Max2(peak, r.peak)
     /\ warm' = IF r.op = "new" THEN 0 - 1 ELSE IF warm < 0 THEN Max2(r.held, 0) ELSE warm
     /\ IF r.op = "new" \/ warm < 0 THEN TRUE
        ELSE Demand(r.held <= Allowed(warm, peak', 256), l, <<"KB in use", Allowed(warm, peak', 256)>>)
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, warm, peak>>
=============================================================================
