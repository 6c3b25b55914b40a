----------------------------- MODULE ViewsTrace -----------------------------
(* Histories of pooled packets, possibly of several goroutines (a packet      *)
(* counts as held from when it was obtained to when freeing it begins).       *)
EXTENDS Views, TraceLib

VARIABLES l, held
Init == l = 1 /\ held = << >>     \* << >>: nothing held; otherwise a function from ids

Ids == DOMAIN held
Put(f, i, v) == [x \in (DOMAIN f) \cup {i} |-> IF x = i THEN v ELSE f[x]]
Drop(f, i) == [x \in (DOMAIN f) \ {i} |-> f[x]]

\* dts, pts, duration, created, buffer index, index, time base, media type, key, packet type
Fresh(r) ==
  /\ SubSeq(r.shown, 1, 8) = << r.args[1], r.args[2], 0, 0, 0, r.args[3], r.args[4], IF r.p.codec = "aac" THEN 0 ELSE 1 >>
  /\ r.shown[9] = (IF r.p.key THEN 1 ELSE 0)
  /\ IF r.p.codec = "aac" THEN r.shown[10] \in {0, 3} ELSE r.shown[10] = r.p.form
  /\ r.fresh                      \* its data and codec are the given ones, it has no allocator

View(r, old, alts) ==
  /\ Demand(\E a \in alts : Is(r.out, a), l, alts)
  /\ Demand(old = 0 \/ r.view = old, l, "the same view again")
  /\ Demand(r.src # "data" \/ r.out = held[r.id].p.data, l, "the packet's own data only as it is")
  /\ Demand(r.src = "other" => ~held[r.id].p.alloc, l, "a buffer of the packet's allocator")

Ok(r) ==
  /\ Demand(~r.panic, l, "no panic")
  /\ Demand(r.intact, l, "every other packet, the packet's data and earlier views are unchanged")
  /\ CASE r.op = "new" -> TRUE
       [] r.op = "get" -> /\ Demand(r.id \notin Ids, l, "an object nobody holds")
                          /\ Demand(Fresh(r), l, "the given fields and nothing else")
       [] r.op = "viewb" -> View(r, held[r.id].b, AnnexB(held[r.id].p))
       [] r.op = "viewa" -> View(r, held[r.id].a, {Avcc1(held[r.id].p)})
       [] r.op = "free" -> TRUE

After(r) ==
  CASE r.op = "new" -> << >>
    [] r.op = "get" -> Put(held, r.id, [p |-> r.p, a |-> 0, b |-> 0])
    [] r.op = "viewb" -> [held EXCEPT ![r.id].b = r.view]
    [] r.op = "viewa" -> [held EXCEPT ![r.id].a = r.view]
    [] r.op = "free" -> Drop(held, r.id)

Next == /\ l <= Len(Trace)
        /\ Ok(Trace[l]) = TRUE
        /\ held' = After(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, held>>
=============================================================================
