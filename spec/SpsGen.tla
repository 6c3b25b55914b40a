------------------------------- MODULE SpsGen -------------------------------
(* Every combination of the features of a sequence parameter set; TLC checks  *)
(* that the decoder yields the size the parameters define and each encoded    *)
(* set is given to the real parsers.                                          *)
EXTENDS Sps, TLC, Json

CONSTANTS Profiles,     \* H.264 profiles
          Chromas, Pocs, Vuis, ListKinds, Subs,
          Codecs

VARIABLES q, codec, done
vars == <<q, codec, done>>

\* deltas of a whole list; one that ends early (scale 0 after three); none
FullList(n) == [j \in 1..n |-> IF j = 2 THEN 0 - 3 ELSE IF j = 5 THEN 120 ELSE j % 3]
EarlyList == << 2, 0 - 5, 0 - 5 >>     \* 8+2-5-5 = 0
Lists(kind, chroma) ==
  LET n == IF chroma = 3 THEN 12 ELSE 8 IN
  CASE kind = "none" -> << >>
    [] kind = "empty" -> [k \in 1..n |-> << >>]
    [] kind = "early" -> [k \in 1..n |-> IF k % 2 = 0 THEN EarlyList ELSE << >>]
    [] kind = "full" -> [k \in 1..n |-> FullList(IF k <= 6 THEN 16 ELSE 64)]

Q264 == UNION {{
   [profile |-> p, level |-> 30 + (p % 4), id |-> p % 3, chroma |-> c, sep |-> s, lists |-> Lists(lk, c), frameNum |-> 4,
    poc |-> po, cycle |-> IF po = 1 THEN << 5, 0 - 7, 0 >> ELSE << >>, mbw |-> 11 + c, mbh |-> 9 + po, fmo |-> f, crop |-> cr,
    vui |-> v, timing |-> t]
   : s \in (IF c = 3 /\ p \in High THEN BOOLEAN ELSE {FALSE}), po \in Pocs, f \in {0, 1}, cr \in {<< >>, << 1, 2, 3, 1 >>, << 0, 4, 0, 0 >>},
     v \in Vuis, t \in {<< >>, << 1, 50 >>, << 1001, 60000 >>}}
   : p \in Profiles, c \in Chromas, lk \in ListKinds}
Valid264(r) == /\ (r.profile \notin High => r.chroma = 1 /\ r.lists = << >>)
               /\ (r.vui = "none" => r.timing = << >>)

Q265 == UNION {{
   [sub |-> s, flags |-> fl, compat |-> cm, id |-> s % 2, chroma |-> c, sep |-> sp, w |-> 176 + 8 * s, h |-> 144 + c, crop |-> cr, info |-> i]
   : fl \in (IF s = 0 THEN {<< >>} ELSE IF s <= 2 THEN [1..(2 * s) -> {0, 1}]
             ELSE {[k \in 1..(2 * s) |-> 0], [k \in 1..(2 * s) |-> 1], [k \in 1..(2 * s) |-> k % 2], [k \in 1..(2 * s) |-> IF k \div 2 % 2 = 0 THEN 1 ELSE 0]}),
     cm \in {0, 24576}, sp \in (IF c = 3 THEN BOOLEAN ELSE {FALSE}), cr \in {<< >>, << 1, 2, 3, 1 >>, << 0, 4, 0, 0 >>}, i \in BOOLEAN}
   : s \in Subs, c \in Chromas}

Init == /\ codec \in Codecs /\ done = FALSE
        /\ q \in IF codec = "avc" THEN {r \in Q264 : Valid264(r)} ELSE Q265
Next == ~done /\ done' = TRUE /\ UNCHANGED <<q, codec>>
Spec == Init /\ [][Next]_vars

Enc == IF codec = "avc" THEN Encode264(q) ELSE Encode265(q)
Size == IF codec = "avc" THEN Size264(q) ELSE Size265(q)
Decoded == IF codec = "avc" THEN Decode264(Enc) ELSE Decode265(Enc)
\* decoder against parameters
Agree == done => LET d == Decoded IN
  /\ d.ok /\ << d.width, d.height >> = Size
  /\ codec = "avc" => /\ << d.profile, d.level, d.id >> = << q.profile, q.level, q.id >>
                      /\ d.timing = (IF q.timing = << >> THEN << >> ELSE [i \in 1..2 |-> << 0, q.timing[i] >>])
Emit == PrintT("@@" \o ToJson([codec |-> codec, sps |-> Enc, size |-> Size,
          more |-> IF codec = "avc" THEN << q.profile, q.level, q.id,
                         IF q.timing = << >> THEN 0 ELSE q.timing[2] \div (2 * q.timing[1]) >> ELSE << >>]))
=============================================================================
