----------------------------- MODULE RingLayout -----------------------------
(* Implementation-shaped design of the ring block buffer                     *)
(* (collections/buffer_rb.go).  `blocks` is the abstract queue (BlockQueue), *)
(* the other variables are how it is laid out in one array:                  *)
(*   mem      the array, cell -> value last written                          *)
(*   capEnd   usable end of the array (shortened when the ring wraps)        *)
(*   res      resident blocks [idx, size, done], oldest first                *)
(*   disc     number of older outstanding blocks left behind in an array     *)
(*            that growth replaced (they can never be overwritten)           *)
(* FULLBUG / DISCBUG re-introduce the two defects of the original code (full *)
(* ring taken for an empty tail; second growth forgets the first), EMPTYBUG  *)
(* takes a ring of empty blocks for a full one, so that the invariants can   *)
(* be shown not to be vacuous.                                               *)
EXTENDS BlockQueue, TLC

CONSTANTS InitCap, Sizes, MaxCap, MaxBlocks, MaxDisc, FULLBUG, DISCBUG, EMPTYBUG

VARIABLES mem, capEnd, res, disc, blocks, vcount

lvars == <<mem, capEnd, res, disc, blocks, vcount>>

Cap == Len(mem)          \* mem is a sequence; cell i of the code is mem[i+1]

Init ==
  /\ mem = [i \in 1..InitCap |-> 0]
  /\ capEnd = InitCap
  /\ res = << >>
  /\ disc = 0
  /\ blocks = << >>
  /\ vcount = 0

Fill(m, from, n, v) == [i \in 1..Len(m) |-> IF i > from /\ i <= from + n THEN v ELSE m[i]]
Move(m, dst, src, n) == [i \in 1..Len(m) |-> IF i > dst /\ i <= dst + n THEN m[i - dst + src] ELSE m[i]]

Write(n) ==
  LET v == vcount + 1
      k == Len(res)
      head == IF k = 0 THEN 0 ELSE res[1].idx
      tail == IF k = 0 THEN 0 ELSE res[k].idx + res[k].size
      ce == IF k <= 1 THEN Cap ELSE capEnd
      r1 == IF k = 0 \/ res[k].done
            THEN Append(res, [idx |-> tail, size |-> 0, done |-> FALSE])
            ELSE res
      m == Len(r1)
      b == r1[m]
      full == k > 1 /\ tail = head /\ (EMPTYBUG \/ \E i \in 1..k : res[i].size > 0)
      over == tail < head \/ (~FULLBUG /\ full)
  IN /\ vcount' = v
     /\ blocks' = BQWrite(blocks, v, n)
     /\ IF (over /\ head - tail >= n) \/ (~over /\ tail + n <= ce)
        THEN \* room behind the newest block
             /\ mem' = Fill(mem, tail, n, v)
             /\ capEnd' = ce
             /\ res' = [r1 EXCEPT ![m].size = @ + n]
             /\ disc' = disc
        ELSE IF ~over /\ head >= b.size + n
        THEN \* wrap: move the open block to the front
             /\ mem' = Fill(Move(mem, 0, b.idx, b.size), b.size, n, v)
             /\ capEnd' = tail - b.size
             /\ res' = [r1 EXCEPT ![m] = [idx |-> 0, size |-> b.size + n, done |-> FALSE]]
             /\ disc' = disc
        ELSE \* grow: a new array that keeps only the open block
             LET nc == ((Cap + n) * 3) \div 2
                 fresh == [i \in 1..nc |-> IF i <= b.size THEN mem[i + b.idx] ELSE 0]
             IN /\ mem' = Fill(fresh, b.size, n, v)
                /\ capEnd' = nc
                /\ res' = << [idx |-> 0, size |-> b.size + n, done |-> FALSE] >>
                /\ disc' = (IF DISCBUG THEN 0 ELSE disc) + (m - 1)

Fetch ==
  /\ HasPending(blocks)
  /\ blocks' = BQFetch(blocks)
  /\ res' = [res EXCEPT ![Len(res)].done = TRUE]
  /\ UNCHANGED <<mem, capEnd, disc, vcount>>

Pop ==
  /\ blocks # << >>
  /\ blocks' = BQPop(blocks)
  /\ IF disc > 0
     THEN disc' = disc - 1 /\ UNCHANGED <<mem, capEnd, res, vcount>>
     ELSE /\ res' = (IF res = << >> THEN << >> ELSE Tail(res))
          /\ capEnd' = IF res' = << >> \/ res'[1].idx = 0 THEN Cap ELSE capEnd
          /\ UNCHANGED <<mem, disc, vcount>>

PopBack ==
  /\ blocks # << >>
  /\ blocks' = BQPopBack(blocks)
  /\ IF res = << >>
     THEN disc' = disc - 1 /\ UNCHANGED <<mem, capEnd, res, vcount>>
     ELSE /\ res' = SubSeq(res, 1, Len(res) - 1)
          /\ UNCHANGED <<mem, capEnd, disc, vcount>>

Clear ==
  /\ blocks # << >>
  /\ blocks' = << >> /\ res' = << >> /\ disc' = 0 /\ capEnd' = Cap
  /\ UNCHANGED <<mem, vcount>>

Next == (\E n \in Sizes : Write(n)) \/ Fetch \/ Pop \/ PopBack \/ Clear

Spec == Init /\ [][Next]_lvars

Bound == Cap <= MaxCap /\ Len(blocks) <= MaxBlocks /\ disc <= MaxDisc

\* ---- design-level properties ---------------------------------------------
Cells(b) == (b.idx + 1)..(b.idx + b.size)

\* every abstract block is either resident or in memory left behind
Refines ==
  /\ Len(blocks) = Len(res) + disc
  /\ \A i \in 1..Len(res) :
        /\ res[i].size = Length(blocks[disc + i].c)
        /\ res[i].done = blocks[disc + i].done

InBounds == \A i \in 1..Len(res) : res[i].idx + res[i].size <= Cap

NoOverlap ==
  \A i, j \in 1..Len(res) : i # j => Cells(res[i]) \cap Cells(res[j]) = {}

\* the bytes of every resident block are the ones written to it
RECURSIVE Expand(_)
Expand(c) == IF c = << >> THEN << >>
             ELSE [i \in 1..c[1][2] |-> c[1][1]] \o Expand(Tail(c))

Intact ==
  \A i \in 1..Len(res) :
     [k \in 1..res[i].size |-> mem[res[i].idx + k]] = Expand(blocks[disc + i].c)

\* Written values are all different and never influence the layout, so states
\* that agree on the layout and on being intact are alike.
DesignView == <<Cap, capEnd, res, disc, Len(blocks), Refines, Intact>>
=============================================================================
