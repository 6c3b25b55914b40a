---------------------------- MODULE ContainersGen ---------------------------
(* Design of the queue and the ring - an array with a head, a tail and a      *)
(* count - refining the sequence, and the transition cover replayed on the    *)
(* real containers: every array position of head, every fill, every growth.   *)
(* GROWBUG re-introduces a growth that copies only the part up to the end.    *)
EXTENDS Containers, TLC, Json, Integers

CONSTANTS Kinds, Caps, MaxCap, MaxLen, GROWBUG

VARIABLES kind, cap0, s, arr, head, tail, size, hist, vc

vars == <<kind, cap0, s, arr, head, tail, size, hist, vc>>

Cap == Len(arr)
Blank(n) == [i \in 1..n |-> Zero]

Init == /\ kind \in Kinds /\ cap0 \in Caps
        /\ s = << >> /\ arr = Blank(cap0) /\ head = 0 /\ tail = 0 /\ size = 0
        /\ hist = << >> /\ vc = 0

\* the elements in array order from head
Stored == [i \in 1..size |-> arr[((head + i - 1) % Cap) + 1]]

Grown == LET n == 2 * Cap IN [i \in 1..n |->
           IF i <= size /\ (~GROWBUG \/ head + i <= Cap) THEN arr[((head + i - 1) % Cap) + 1] ELSE Zero]

Put(a, h, t, n, v) == /\ arr' = [a EXCEPT ![t + 1] = v]
                      /\ head' = h /\ tail' = (t + 1) % Len(a) /\ size' = n + 1

ArrOp(op, v) ==
  IF kind = "list" THEN UNCHANGED <<arr, head, tail, size>>
  ELSE CASE op = "push" /\ size < Cap -> Put(arr, head, tail, size, v)
    [] op = "push" /\ kind = "queue" -> Put(Grown, 0, size, size, v)
    [] op = "push" /\ kind = "ring" /\ Cap = 1 -> Put(arr, 0, 0, 0, v)
    [] op = "push" /\ kind = "ring" -> Put(arr, (head + 1) % Cap, tail, size - 1, v)
    [] op = "pop" /\ size > 0 ->
         /\ arr' = [arr EXCEPT ![head + 1] = Zero]
         /\ size' = size - 1
         /\ IF size = 1 THEN head' = 0 /\ tail' = 0 ELSE head' = (head + 1) % Cap /\ tail' = tail
    [] op = "popback" ->
         /\ arr' = arr
         /\ size' = size - 1
         /\ IF size = 1 THEN head' = 0 /\ tail' = 0 ELSE head' = head /\ tail' = (tail - 1 + Cap) % Cap
    [] op = "clear" -> arr' = arr /\ head' = 0 /\ tail' = 0 /\ size' = 0
    [] OTHER -> UNCHANGED <<arr, head, tail, size>>

Do(op, i) ==
  LET v == vc + 1 IN
  /\ May(kind, s, op, i)
  /\ s' = After(kind, cap0, s, op, v, i)
  /\ ArrOp(op, v)
  /\ vc' = IF op = "push" THEN v ELSE vc
  /\ hist' = Append(hist, <<op, i>>)
  /\ UNCHANGED <<kind, cap0>>

Next == \/ \E op \in {"push", "pop", "popback", "clear"} : Do(op, 0)
        \/ \E i \in 0..(MaxLen - 1) : Do("remove", i)

Spec == Init /\ [][Next]_vars

Bound == Cap <= MaxCap /\ Len(s) <= MaxLen

Refines == kind = "list" \/ Stored = s
Sane == kind = "list" \/ (size <= Cap /\ tail = (head + size) % Cap)

LastWas(op) == hist # << >> /\ hist[Len(hist)][1] = op
\* which elements were removed last matters for the list's end pointers
View == <<kind, cap0, Cap, head, Len(s), kind = "list" \/ Stored = s, LastWas("remove"), IF LastWas("remove") THEN hist[Len(hist)][2] ELSE 0>>

Emit == PrintT("@@" \o ToJson([kind |-> kind, cap |-> cap0, ops |-> hist',
          res |-> Result(s, hist'[Len(hist')][1], hist'[Len(hist')][2]),
          seq |-> s']))
=============================================================================
