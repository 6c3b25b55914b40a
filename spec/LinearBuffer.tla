---------------------------- MODULE LinearBuffer ----------------------------
(* Meaning of the linear block buffer (C06).  A family of buffers: number 1  *)
(* is the one created, each split-off adds one.  A buffer is                 *)
(*   blocks   queue of blocks (BlockQueue)                                   *)
(*   data     everything written since it was last empty or cleared          *)
(*   sealed   split off: reading only, until cleared                         *)
EXTENDS BlockQueue

Fresh == [blocks |-> << >>, data |-> << >>, sealed |-> FALSE]

\* modifying (and fetching) a sealed buffer is refused
Refused(b, op) == b.sealed /\ op \in {"write", "fetch", "pop", "popback"}

\* operations a client may call
May(b, op) ==
  CASE op = "fetch"   -> BQFetchOk(b.blocks)
    [] op = "popback" -> BQPopBackOk(b.blocks)
    [] op = "pop"     -> b.blocks # << >>
    [] OTHER          -> TRUE

Emptied(b) == IF b.blocks = << >> THEN [b EXCEPT !.data = << >>] ELSE b

AfterOn(b, op, v, n) ==
  IF Refused(b, op) THEN b
  ELSE CASE op = "write"   -> [b EXCEPT !.blocks = BQWrite(@, v, n), !.data = Cat(@, Run(v, n))]
         [] op = "fetch"   -> [b EXCEPT !.blocks = BQFetch(@)]
         [] op = "pop"     -> Emptied([b EXCEPT !.blocks = BQPop(@)])
         [] op = "popback" -> Emptied([b EXCEPT !.blocks = BQPopBack(@)])
         [] op = "clear"   -> Fresh
         [] op = "split"   -> [b EXCEPT !.sealed = TRUE]

After(bs, i, op, v, n) ==
  LET s == [bs EXCEPT ![i] = AfterOn(@, op, v, n)]
  IN IF op = "split" THEN Append(s, Fresh) ELSE s

Result(b, op) == IF op = "fetch" /\ ~Refused(b, op) THEN BQFetchRes(b.blocks) ELSE << >>

\* what can be read of one buffer at any time
Shown(b) == [live |-> BQLive(b.blocks), data |-> b.data, pend |-> BQPending(b.blocks), size |-> Len(b.blocks)]
=============================================================================
