------------------------------ MODULE RefCount ------------------------------
(* The reference counter as clients see it: calls are invoked, take effect    *)
(* atomically at some moment, and return.  Every process starts with one      *)
(* reference, refers only while holding one and releases only what it holds.  *)
(* SPLIT = TRUE models a defective release that decrements and looks at the   *)
(* count in two steps.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, MaxCalls, SPLIT

VARIABLES cnt,        \* the counter
          own,        \* references held by each process (given up when a release is invoked)
          pc,         \* "idle" or the call in progress and how far it is
          calls,      \* calls made by each process
          trues       \* releases that reported being the last

vars == <<cnt, own, pc, calls, trues>>

Init == /\ cnt = Cardinality(Procs)
        /\ own = [p \in Procs |-> 1] /\ pc = [p \in Procs |-> "idle"]
        /\ calls = [p \in Procs |-> 0] /\ trues = 0

Invoke(p, c) == /\ pc[p] = "idle" /\ calls[p] < MaxCalls /\ own[p] > 0
                /\ own' = [own EXCEPT ![p] = @ - (IF c = "release" THEN 1 ELSE 0)]
                /\ pc' = [pc EXCEPT ![p] = c] /\ calls' = [calls EXCEPT ![p] = @ + 1]
                /\ UNCHANGED <<cnt, trues>>
Refer(p) == pc[p] = "refer" /\ cnt' = cnt + 1 /\ own' = [own EXCEPT ![p] = @ + 1]
            /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<calls, trues>>
Release(p) == /\ pc[p] = "release" /\ cnt' = cnt - 1
              /\ IF SPLIT THEN pc' = [pc EXCEPT ![p] = "look"] /\ UNCHANGED trues
                 ELSE pc' = [pc EXCEPT ![p] = "idle"] /\ trues' = trues + (IF cnt' = 0 THEN 1 ELSE 0)
              /\ UNCHANGED <<own, calls>>
Look(p) == /\ pc[p] = "look" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ trues' = trues + (IF cnt = 0 THEN 1 ELSE 0) /\ UNCHANGED <<cnt, own, calls>>

Next == \E p \in Procs : Invoke(p, "refer") \/ Invoke(p, "release") \/ Refer(p) \/ Release(p) \/ Look(p)
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN f[p] + Sum(f, S \ {p})

Counted == cnt = Sum(own, Procs) + Cardinality({p \in Procs : pc[p] = "release"})
OneLast == /\ trues <= 1
           /\ (trues = 1 => Sum(own, Procs) = 0)
           /\ (Sum(own, Procs) = 0 /\ (\A p \in Procs : pc[p] = "idle") => trues = 1)
=============================================================================
