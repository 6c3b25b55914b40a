------------------------------ MODULE Pipeline ------------------------------
(* C18: data pipelines.  The multi-stream buffer ("streams") is a block       *)
(* queue per stream; the direct pipeline ("direct") is one byte accumulator.  *)
(* A state is a sequence of block queues, stream i at position i + 1; the     *)
(* direct pipeline uses one queue whose only block is the accumulator.        *)
EXTENDS BlockQueue, Integers

Q(st, i) == IF i < Len(st) THEN st[i + 1] ELSE << >>

Put(st, i, q) ==
  [k \in 1..(IF i < Len(st) THEN Len(st) ELSE i + 1) |->
     IF k = i + 1 THEN q ELSE IF k <= Len(st) THEN st[k] ELSE << >>]

Acc(st) == IF Q(st, 0) = << >> THEN << >> ELSE Q(st, 0)[1].c
SetAcc(c) == << << [c |-> c, done |-> FALSE] >> >>

May(kind, st, op, i) ==
  CASE op \in {"fetch", "back", "head"} -> kind = "direct" \/ Q(st, i) # << >>
    [] op = "seek" -> kind = "direct"
    [] OTHER -> TRUE

Min(a, b) == IF a < b THEN a ELSE b

After(kind, st, op, i, v, n) ==
  IF kind = "direct"
  THEN CASE op = "write" -> SetAcc(Cat(Acc(st), Run(v, n)))
         [] op = "fetch" -> SetAcc(<< >>)
         [] op = "seek" -> SetAcc(Prefix(Acc(st), Length(Acc(st)) - Min(n, Length(Acc(st)))))
         [] OTHER -> st
  ELSE CASE op = "write" -> Put(st, i, BQWrite(Q(st, i), v, n))
         [] op = "fetch" -> Put(st, i, BQFetch(Q(st, i)))
         [] op = "back" -> Put(st, i, BQPopBack(Q(st, i)))
         [] op = "head" -> Put(st, i, BQPop(Q(st, i)))
         [] OTHER -> st

Result(kind, st, op, i) ==
  IF op # "fetch" THEN << >> ELSE IF kind = "direct" THEN Acc(st) ELSE BQFetchRes(Q(st, i))

Pending(kind, st, i) == IF kind = "direct" THEN Length(Acc(st)) ELSE BQPending(Q(st, i))
Live(kind, st, i) == IF kind = "direct" THEN << >> ELSE BQLive(Q(st, i))
=============================================================================
