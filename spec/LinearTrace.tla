---------------------------- MODULE LinearTrace -----------------------------
EXTENDS LinearBuffer, TraceLib

VARIABLES l, bs, avail

Init == l = 1 /\ bs = << >> /\ avail = << >>

NextBs(r) == IF r.op = "new" THEN << Fresh >> ELSE After(bs, r.id, r.op, r.v, r.n)

Expected(r) ==
  LET s == NextBs(r) IN
  [panic |-> r.op # "new" /\ Refused(bs[r.id], r.op),
   res   |-> IF r.op = "new" THEN << >> ELSE Result(bs[r.id], r.op),
   all   |-> [i \in 1..Len(s) |-> Shown(s[i])]]

Seen(r) ==
  [panic |-> r.panic, res |-> r.res,
   all |-> [i \in 1..Len(r.all) |-> [live |-> r.all[i].live, data |-> r.all[i].data,
                                     pend |-> r.all[i].pend, size |-> r.all[i].size]]]

\* AvailableBytes: free memory is used up exactly by writes that fit; how much
\* growth adds is free; a split-off gets no more than was free.
AvailOk(r) ==
  LET a == r.avail IN
  /\ \A i \in 1..Len(a) : a[i] >= 0
  /\ r.op = "new" => a[1] = r.n
  /\ r.op = "write" /\ ~r.panic /\ r.n <= avail[r.id] => a[r.id] = avail[r.id] - r.n
  /\ r.op = "split" => a[Len(a)] <= avail[r.id]
  /\ \A i \in 1..Len(avail) : r.op # "new" /\ i # r.id => a[i] = avail[i]

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l]
     IN /\ Demand(Seen(r) = Expected(r), l, Expected(r))
        /\ Demand(AvailOk(r), l, <<"available bytes", avail>>)
        /\ bs' = NextBs(r)
        /\ avail' = r.avail
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, bs, avail>>
=============================================================================
