------------------------------ MODULE SpsTrace ------------------------------
EXTENDS Sps, TraceLib

VARIABLE l
Init == l = 1

\* r.sps: the set without start code, perhaps truncated (r.cut); r.seen: what
\* each way of parsing it said; r.want: the size the generator meant, or << >>
Ok(r) ==
  LET d == IF r.codec = "avc" THEN Decode264(r.sps) ELSE Decode265(r.sps) IN
  /\ r.want # << >> => Assert(d.ok /\ << d.width, d.height >> = r.want, <<"generator and specification disagree", l, d, r.want>>)
  /\ \A i \in 1..Len(r.seen) :
       LET o == r.seen[i] IN
       IF ~d.ok THEN Demand(~o.ok, l, <<o.how, "an error: the set is truncated">>)
       ELSE /\ r.cut \/ Demand(o.ok, l, <<o.how, "a size">>)
            /\ o.ok => Demand(<< o.width, o.height >> = << d.width, d.height >>, l, <<o.how, d>>)
            /\ o.ok /\ o.full => Demand(<< o.profile, o.level, o.id >> = << d.profile, d.level, d.id >> /\ FpsOk(d.timing, o.fps),
                                        l, <<o.how, d>>)
            /\ o.ok /\ o.coded # << >> => Demand(o.coded = d.coded, l, <<o.how, "constraint flags, coded size and cropping", d.coded>>)

Next == /\ l <= Len(Trace)
        /\ Demand(~Trace[l].panic, l, "no panic")
        /\ Ok(Trace[l]) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
