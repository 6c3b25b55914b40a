---------------------------- MODULE CursorsTrace ----------------------------
EXTENDS Cursors, TraceLib

VARIABLES l, kind, data, off

Init == l = 1 /\ kind = "" /\ data = << >> /\ off = 0

ByteOk(r, e) ==
  /\ Demand(r.ok = e.ok /\ r.off = e.off /\ r.data = e.data /\ r.res = e.res, l, e)
  /\ Demand(r.rem = Remaining(e.data, e.off) /\ r.readable = Len(e.data) - e.off, l, <<"remaining", e>>)
  /\ Demand(kind # "w" \/ r.written = Written(e.data, e.off), l, <<"written", e>>)

BitStep(r) ==
  CASE r.op = "seek" -> [data |-> data, off |-> off + r.n, res |-> << >>]
    [] r.op = "write" -> [data |-> PutBits(data, off, Suffix(r.in, r.n)), off |-> off + r.n, res |-> << >>]
    [] r.op = "wbytes" -> [data |-> Overwrite(data, off \div 8, r.in), off |-> off + 8 * r.n, res |-> << >>]
    [] r.op = "read" -> [data |-> data, off |-> off + r.n, res |-> Strip(<< 0 >> \o BitsAt(data, off, r.n))]
    [] r.op = "safe" -> IF off + r.n > 8 * Len(data) THEN [data |-> data, off |-> off, res |-> << >>]
                        ELSE [data |-> data, off |-> off + r.n, res |-> Strip(<< 0 >> \o BitsAt(data, off, r.n))]
    [] r.op = "rbytes" -> [data |-> data, off |-> off + 8 * r.n, res |-> SubSeq(data, (off \div 8) + 1, (off \div 8) + r.n)]

\* Exp-Golomb reader: off bits were consumed
Rest == BitsAt(data, off, 8 * Len(data) - off)
GStep(r) ==
  IF r.op \in {"bits", "bits32", "bits64"}
  THEN IF r.n > Len(Rest) THEN [ok |-> FALSE, res |-> << >>, pos |-> TRUE, off |-> 8 * Len(data)]
       ELSE [ok |-> TRUE, res |-> Strip(<< 0 >> \o SubSeq(Rest, 1, r.n)), pos |-> TRUE, off |-> off + r.n]
  ELSE LET g == Golomb(Rest) IN
       IF ~g.ok THEN [ok |-> FALSE, res |-> << >>, pos |-> TRUE, off |-> 8 * Len(data)]
       ELSE IF r.op = "ue" THEN [ok |-> TRUE, res |-> g.num, pos |-> TRUE, off |-> off + g.used]
       ELSE \* se: the value v is reported as bits of 2v (v > 0) or 2|v| + 1
            [ok |-> TRUE, res |-> g.num, pos |-> g.num[Len(g.num)] = 0, off |-> off + g.used]

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
     /\ Demand(~r.panic, l, "no panic")
     /\ CASE r.op = "new" ->
              /\ kind' = r.kind /\ data' = r.in /\ off' = 0
              /\ Demand(r.data = r.in, l, r.in)
          [] r.op = "put24" ->
              /\ UNCHANGED <<kind, data, off>>
              /\ Demand(r.res = r.in /\ r.data = r.in, l, r.in)
          [] kind \in {"r", "w"} /\ r.op # "new" ->
              LET e == ByteStep(kind, data, off, r.op, r.n, r.in) IN
              /\ ByteOk(r, e)
              /\ kind' = kind /\ data' = e.data /\ off' = e.off
          [] kind \in {"br", "bw"} /\ r.op # "new" ->
              LET e == BitStep(r) IN
              /\ Demand(r.data = e.data /\ r.off = e.off /\ r.res = e.res, l, e)
              /\ Demand(r.op = "safe" => r.ok = (off + r.n <= 8 * Len(data)), l, "an error exactly when there are too few bits")
              /\ kind' = kind /\ data' = e.data /\ off' = e.off
          [] kind = "g" /\ r.op # "new" ->
              LET e == GStep(r) IN
              /\ Demand(r.ok = e.ok /\ r.res = e.res /\ r.pos = e.pos, l, e)
              /\ kind' = kind /\ data' = data /\ off' = e.off
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, kind, data, off>>
=============================================================================
