---------------------------- MODULE TimeBaseTrace ---------------------------
EXTENDS TimeBase, TraceLib

VARIABLE l
Init == l = 1

\* a packet without a time base has no time to convert: only its own numbers are its times
Ok(r) ==
  CASE r.op = "pkt" /\ IsZero(r.src) /\ IsZero(r.dst) ->
         Same(r.rdts, r.dts) /\ Same(r.rpts, r.pts) /\ Same(r.rdur, r.dur) /\ Same(r.rdelta, r.delta)
    [] IsZero(r.src) -> TRUE
    [] r.op = "conv" -> Exact(r.ts, r.src, r.dst, r.res)
    [] r.op = "pkt" -> /\ Exact(r.dts, r.src, r.dst, r.rdts)
                       /\ Exact(r.pts, r.src, r.dst, r.rpts)
                       /\ Exact(r.dur, r.src, r.dst, r.rdur)
                       /\ Minus(r.pts, r.dts, r.delta)
                       /\ Exact(r.delta, r.src, r.dst, r.rdelta)

Next == /\ l <= Len(Trace)
        /\ Demand(~Trace[l].panic /\ Ok(Trace[l]), l, "the exact value, truncated toward zero")
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
