---------------------------- MODULE ConvertTrace ----------------------------
EXTENDS Convert, TraceLib

VARIABLE l
Init == l = 1

Segs(r) == CASE r.op = "avcc" -> Avcc(r.in, r.extra)
             [] r.op = "writer" -> AvccWriter(r.in, r.extra)
             [] r.op = "hevc" -> Hevc(r.in, r.extra, r.ls)

\* units too large to be shown: what is in front of each, and nothing behind the last
Bytes4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Huge(r) == /\ r.ok /\ r.ls = 0 /\ Len(r.fronts) = Len(r.sizes)
           /\ \A i \in 1..Len(r.sizes) : IF r.form = "toavcc" THEN r.fronts[i] = Bytes4(r.sizes[i])
                                          ELSE r.fronts[i] \in {<< 0, 0, 1 >>, << 0, 0, 0, 1 >>}

Ok(r) ==
  CASE r.op = "huge" -> Demand(Huge(r), l, "every unit behind its length or start code, nothing else")
    [] r.op \in {"avcc", "writer"} ->
         Demand(r.ok /\ Is(r.out, Segs(r)), l, Segs(r))
    [] r.op = "hevc" ->
         IF HevcOk(r.in, r.ls) THEN Demand(r.ok /\ Is(r.out, Segs(r)), l, Segs(r))
         ELSE Demand(~r.ok, l, "an error")
    [] r.op = "toavcc" ->   \* r.in: Annex-B, r.extra: nothing; the units are those between the start codes
         LET us == Units(Lead(r.in)) IN
         /\ Demand(r.ok /\ r.out = Prefix(us, 4), l, Prefix(us, 4))
         /\ Demand(Is(r.back, [i \in 1..Len(us) |-> << TRUE, us[i] >>]), l, <<"back", us>>)

Next == /\ l <= Len(Trace)
        /\ Demand(~Trace[l].panic, l, "no panic")
        /\ Demand(Trace[l].intact, l, "nothing but the reported output is written, the input is unchanged")
        /\ Ok(Trace[l]) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
