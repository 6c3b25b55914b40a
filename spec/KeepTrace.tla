------------------------------ MODULE KeepTrace ------------------------------
EXTENDS Keep, TraceLib

VARIABLES l, s
Fresh == [kept |-> NothingKept, said |-> NothingKept]
Init == l = 1 /\ s = Fresh
After(r) == CASE r.op = "new" -> Fresh
              [] r.op = "call" -> Call(s, r.h, r.fn, r.in, r.val)
              [] r.op = "ask" -> Ask(s, r.fn, r.in, r.val)
              [] r.op = "again" -> Again(s)
              [] r.op = "drop" -> Drop(s, r.h)
Ok(r, n) ==
  /\ Demand(~r.panic, l, "no panic")
  /\ r.op = "call" =>
       /\ Demand(Repeats(s, r.fn, r.in, r.val), l, "the same call says the same")
       /\ Demand(\A i \in 1..Len(r.live) : r.live[i].val = n.kept[r.live[i].h], l, <<"kept results", n.kept>>)
       /\ Demand({r.live[i].h : i \in 1..Len(r.live)} = DOMAIN n.kept, l, <<"kept results", n.kept>>)
  /\ r.op = "ask" => Demand(Repeats(s, r.fn, r.in, r.val), l, "the same call says the same")
Next == /\ l <= Len(Trace)
        /\ \E n \in {After(Trace[l])} : Ok(Trace[l], n) = TRUE /\ s' = n
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
