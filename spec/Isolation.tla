------------------------------ MODULE Isolation ------------------------------
(* Why clients cannot disturb each other: a call works in steps, each client  *)
(* in memory of its own, and returns memory nobody writes again.              *)
(* SHARED = TRUE: calls work in one common scratch memory (a race);           *)
(* REUSED = TRUE: a result is the client's scratch memory itself (stale as    *)
(* soon as the next call begins).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Clients, Inputs, Len0, MaxCalls, SHARED, REUSED
Cell(c) == IF SHARED THEN 0 ELSE c
Said(x) == [i \in 1..Len0 |-> x]          \* what the call must return

VARIABLES mem,     \* scratch memory of each client (0: the common one)
          at,      \* << input, steps done >> of the running call, << >> if none
          kept,    \* results: << input, bytes, scratch it lives in (0 - 1: its own memory) >>
          calls
vars == <<mem, at, kept, calls>>
Blank == [i \in 1..Len0 |-> 0]
Init == /\ mem = [c \in {0} \cup Clients |-> Blank] /\ at = [c \in Clients |-> << >>]
        /\ kept = [c \in Clients |-> << >>] /\ calls = [c \in Clients |-> 0]

Begin(c, x) == at[c] = << >> /\ calls[c] < MaxCalls /\ at' = [at EXCEPT ![c] = << x, 0 >>]
               /\ calls' = [calls EXCEPT ![c] = @ + 1] /\ UNCHANGED <<mem, kept>>
Work(c) == at[c] # << >> /\ at[c][2] < Len0
           /\ mem' = [mem EXCEPT ![Cell(c)][at[c][2] + 1] = at[c][1]]
           /\ at' = [at EXCEPT ![c] = << @[1], @[2] + 1 >>] /\ UNCHANGED <<kept, calls>>
Return(c) == at[c] # << >> /\ at[c][2] = Len0
             /\ kept' = [kept EXCEPT ![c] = Append(@, << at[c][1], mem[Cell(c)], IF REUSED THEN Cell(c) ELSE 0 - 1 >>)]
             /\ at' = [at EXCEPT ![c] = << >>] /\ UNCHANGED <<mem, calls>>
Next == \E c \in Clients : (\E x \in Inputs : Begin(c, x)) \/ Work(c) \/ Return(c)
Spec == Init /\ [][Next]_vars

Now(k) == IF k[3] < 0 THEN k[2] ELSE mem[k[3]]
Unchanged == \A c \in Clients : \A i \in 1..Len(kept[c]) : Now(kept[c][i]) = Said(kept[c][i][1])
=============================================================================
