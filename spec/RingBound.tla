------------------------------ MODULE RingBound -----------------------------
(* C21 on the ring design: as long as at most MaxLive units are outstanding,  *)
(* the array never exceeds a bound, however long the session lasts (there is  *)
(* no bound on the length of behaviours, and the layout graph is finite).     *)
EXTENDS RingLayout

CONSTANTS MaxLive, LEAK     \* LEAK: what growth left behind is never given back

RECURSIVE Live(_)
Live(bs) == IF bs = << >> THEN 0 ELSE Length(bs[1].c) + Live(Tail(bs))

\* a ring that takes every pop for one of a block left behind, once there was growth
Leak == /\ LEAK /\ disc > 0 /\ blocks # << >>
        /\ blocks' = BQPop(blocks) /\ UNCHANGED <<mem, capEnd, res, disc, vcount>>

BNext == \/ \E n \in Sizes : Live(blocks) + n <= MaxLive /\ Write(n)
         \/ Fetch \/ (IF LEAK /\ disc > 0 THEN Leak ELSE Pop) \/ PopBack \/ Clear
BSpec == Init /\ [][BNext]_lvars

Limit == 3 * InitCap + 6 * MaxLive
Bounded == Cap <= Limit
BBound == Len(blocks) <= MaxBlocks /\ Cap <= Limit
LayoutView == <<Cap, capEnd, res, disc, [i \in 1..Len(blocks) |-> <<Length(blocks[i].c), blocks[i].done>>]>>
=============================================================================
