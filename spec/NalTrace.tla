------------------------------ MODULE NalTrace ------------------------------
EXTENDS NalUnits, TraceLib

VARIABLE l
Init == l = 1

Flat(s) == FlattenSeq(s)

Ok(r) ==
  LET e == Scan(r.p)
      o == r.o IN
  /\ Demand(o.first = e.first /\ o.start = e.start /\ o.reader = e.reader, l, <<"scan", e.first, e.start, e.reader>>)
  /\ Demand(o.count = e.count, l, <<"units", e.count>>)
  /\ Demand(o.strip = e.strip, l, <<"strip", e.strip>>)
  /\ Demand(o.key264 = e.key264 /\ o.key265 = e.key265 /\ ~o.keyother, l, <<"key", e.key264, e.key265>>)
  /\ Demand(Flat(o.pieces) = r.p /\ << >> \notin Range(o.pieces), l, "the pieces make up the input")
  /\ e.annexb =>
       /\ Demand(o.pieces = e.pieces, l, <<"pieces", e.pieces>>)
       /\ Demand(o.sets264 = e.sets264 /\ o.extra264 = e.extra264, l, <<"H.264 parameter sets", e.sets264>>)
       /\ Demand(o.sets265 = e.sets265 /\ o.extra265 = e.extra265, l, <<"H.265 parameter sets", e.sets265>>)

Next == /\ l <= Len(Trace)
        /\ Demand(~Trace[l].panic, l, "no panic")
        /\ Ok(Trace[l]) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
