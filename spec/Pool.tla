-------------------------------- MODULE Pool --------------------------------
(* The packet pool with cached views, abstractly: objects are handed out to   *)
(* one holder at a time, views are computed once from the current content     *)
(* and a freed object keeps nothing.  STALE = TRUE forgets to drop one view   *)
(* when an object is freed; SHARE = TRUE makes freeing twice hand an object   *)
(* out twice.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objects, Contents, Depth, STALE, SHARE
None == "none"

VARIABLES pool,      \* bag of free objects: how often each lies in the pool
          content,   \* what each held object holds (None: free)
          viewB, viewA,
          holders,   \* how many hold the object
          seen,      \* every view that was returned: << content, view >>
          n
vars == <<pool, content, viewB, viewA, holders, seen, n>>

Init == /\ pool = [o \in Objects |-> 1] /\ content = [o \in Objects |-> None]
        /\ viewB = [o \in Objects |-> None] /\ viewA = [o \in Objects |-> None]
        /\ holders = [o \in Objects |-> 0] /\ seen = {} /\ n = 0

Get(o, c) == /\ pool[o] > 0 /\ pool' = [pool EXCEPT ![o] = @ - 1]
             /\ content' = [content EXCEPT ![o] = c] /\ holders' = [holders EXCEPT ![o] = @ + 1]
             /\ UNCHANGED <<viewB, viewA, seen>>
View(o, which) ==
  /\ holders[o] > 0
  /\ LET v == IF which = "b" THEN viewB[o] ELSE viewA[o]
         w == IF v = None THEN content[o] ELSE v IN
     /\ seen' = seen \cup {<< content[o], w >>}
     /\ IF which = "b" THEN viewB' = [viewB EXCEPT ![o] = w] /\ UNCHANGED viewA
        ELSE viewA' = [viewA EXCEPT ![o] = w] /\ UNCHANGED viewB
  /\ UNCHANGED <<pool, content, holders>>
Free(o) == /\ holders[o] > 0 /\ holders' = [holders EXCEPT ![o] = @ - 1]
           /\ pool' = [pool EXCEPT ![o] = @ + (IF SHARE THEN 2 ELSE 1)]
           /\ content' = [content EXCEPT ![o] = None]
           /\ viewB' = [viewB EXCEPT ![o] = None]
           /\ viewA' = IF STALE THEN viewA ELSE [viewA EXCEPT ![o] = None]
           /\ UNCHANGED seen

Next == /\ n < Depth /\ n' = n + 1
        /\ \E o \in Objects : \/ \E c \in Contents : Get(o, c)
                              \/ View(o, "b") \/ View(o, "a") \/ Free(o)
Spec == Init /\ [][Next]_vars

Faithful == \A s \in seen : s[1] = s[2]
Exclusive == \A o \in Objects : holders[o] <= 1
FreeIsClean == \A o \in Objects : holders[o] = 0 => viewB[o] = None /\ viewA[o] = None /\ content[o] = None
=============================================================================
