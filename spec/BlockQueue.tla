----------------------------- MODULE BlockQueue -----------------------------
(* Abstract meaning of every block buffer of the library (C05, C06, C18):    *)
(* a queue of blocks.  Only the newest block may still be open ("pending").  *)
(* Byte strings are run-length encoded: a sequence of <<value, count>> with  *)
(* count > 0 and no two neighbours with the same value.                      *)
EXTENDS Naturals, Sequences

\* ---- run-length encoded byte strings -------------------------------------
Run(v, n) == IF n = 0 THEN << >> ELSE << <<v, n>> >>

Cat(a, b) ==
  IF a = << >> THEN b
  ELSE IF b = << >> THEN a
  ELSE LET x == a[Len(a)]
           y == b[1]
       IN IF x[1] = y[1]
          THEN SubSeq(a, 1, Len(a) - 1) \o << <<x[1], x[2] + y[2]>> >> \o SubSeq(b, 2, Len(b))
          ELSE a \o b

RECURSIVE Length(_)
Length(c) == IF c = << >> THEN 0 ELSE c[1][2] + Length(Tail(c))

\* first n bytes of c
RECURSIVE Prefix(_, _)
Prefix(c, n) ==
  IF n = 0 \/ c = << >> THEN << >>
  ELSE IF c[1][2] >= n THEN << <<c[1][1], n>> >>
  ELSE << c[1] >> \o Prefix(Tail(c), n - c[1][2])

\* ---- queue of blocks: each block is [c |-> content, done |-> closed] ------
Newest(bs) == bs[Len(bs)]
HasPending(bs) == bs # << >> /\ ~Newest(bs).done

BQWrite(bs, v, n) ==
  IF HasPending(bs)
  THEN [bs EXCEPT ![Len(bs)].c = Cat(@, Run(v, n))]
  ELSE Append(bs, [c |-> Run(v, n), done |-> FALSE])

\* Fetch closes the pending block and returns it; with nothing pending it
\* returns nothing.  It may not be called on an empty queue.
BQFetchOk(bs) == bs # << >>
BQFetchRes(bs) == IF HasPending(bs) THEN Newest(bs).c ELSE << >>
BQFetch(bs) == IF bs = << >> THEN bs ELSE [bs EXCEPT ![Len(bs)].done = TRUE]

BQPop(bs) == IF bs = << >> THEN bs ELSE Tail(bs)

BQPopBackOk(bs) == bs # << >>
BQPopBack(bs) == SubSeq(bs, 1, Len(bs) - 1)

BQPending(bs) == IF HasPending(bs) THEN Length(Newest(bs).c) ELSE 0

\* contents of the closed blocks, oldest first: what the user may still read
BQLive(bs) ==
  LET n == IF HasPending(bs) THEN Len(bs) - 1 ELSE Len(bs)
  IN [i \in 1..n |-> bs[i].c]
=============================================================================
