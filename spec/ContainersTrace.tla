--------------------------- MODULE ContainersTrace --------------------------
EXTENDS Containers, TraceLib

VARIABLES l, kind, cap, s

Init == l = 1 /\ kind = "" /\ cap = 0 /\ s = << >>

Check(r, t, k, c) ==
  /\ Demand(~r.panic, l, "no panic")
  /\ Demand(r.op = "new" \/ r.res = Result(s, r.op, r.i), l, Result(s, r.op, r.i))
  /\ Demand(r.size = Len(t) /\ r.data = t, l, t)
  /\ Demand(\A j \in 1..Len(r.peek) : r.peek[j][2] = t[r.peek[j][1] + 1], l, t)
  /\ Demand(k = "list" \/ r.empty = (t = << >>), l, <<"empty", t = << >> >>)
  /\ Demand(t = << >> \/ k = "list" \/ (r.head = t[1] /\ r.tail = Back(t)), l, <<"head, tail", t>>)
  /\ Demand(k # "ring" \/ r.cap = c, l, <<"capacity", c>>)
  /\ Demand(k # "queue" \/ (r.cap >= Len(t) /\ (t = << >> => r.cap > 0)), l, "capacity >= size")
  /\ Demand(k = "list" \/ r.full = (Len(t) = r.cap), l, "full iff size = capacity")

Next ==
  /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
       IF r.op = "new"
       THEN /\ kind' = r.kind /\ cap' = r.i /\ s' = << >>
            /\ Check(r, << >>, r.kind, r.i)
       ELSE /\ UNCHANGED <<kind, cap>>
            /\ s' = After(kind, cap, s, r.op, r.v, r.i)
            /\ Check(r, After(kind, cap, s, r.op, r.v, r.i), kind, cap)
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, kind, cap, s>>
=============================================================================
