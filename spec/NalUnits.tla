------------------------------ MODULE NalUnits ------------------------------
(* Annex-B byte streams, by definition and without any search strategy: where *)
(* start codes are, which units lie between them, what kind of access unit it *)
(* is and which parameter sets it carries.  Positions are 0-based like in the *)
(* code under test; p[i + 1] is byte i.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

From(p, i) == SubSeq(p, i + 1, Len(p))
Cut(p, i, j) == SubSeq(p, i + 1, j)          \* bytes i .. j-1

\* first byte of every 00 00 01 that is followed by a NAL header
CodeAt(p, k) == k >= 1 /\ k + 3 <= Len(p) /\ p[k] = 0 /\ p[k + 1] = 0 /\ p[k + 2] = 1
Codes(p) == SetToSortSeq({k \in 1..Len(p) : CodeAt(p, k)}, <)
Headers(p) == LET c == Codes(p) IN [i \in 1..Len(c) |-> c[i] + 2]   \* 0-based position of the header

\* size of the start code in front of the header at position h
CodeSize(p, h) == IF h >= 4 /\ p[h - 3] = 0 THEN 4 ELSE 3

\* (header position, start code size) of the first unit
First(p) == LET hs == Headers(p) IN
            IF hs = << >> THEN << -1, -1 >> ELSE << hs[1], CodeSize(p, hs[1]) >>

StartsWithCode(p) == \/ Len(p) >= 3 /\ SubSeq(p, 1, 3) = << 0, 0, 1 >>
                     \/ Len(p) >= 4 /\ SubSeq(p, 1, 4) = << 0, 0, 0, 1 >>

Strip(p) == IF Len(p) >= 3 /\ SubSeq(p, 1, 3) = << 0, 0, 1 >> THEN From(p, 3)
            ELSE IF Len(p) >= 4 /\ SubSeq(p, 1, 4) = << 0, 0, 0, 1 >> THEN From(p, 4)
            ELSE p

\* the pieces of a buffer that begins with a start code: a cut in front of every start code
Pieces(p) ==
  LET hs == Headers(p)
      cuts == SelectSeq([i \in 1..Len(hs) |-> hs[i] - CodeSize(p, hs[i])], LAMBDA c : c > 0)
      b == << 0 >> \o cuts \o << Len(p) >> IN
  IF p = << >> THEN << >> ELSE [i \in 1..(Len(b) - 1) |-> Cut(p, b[i], b[i + 1])]

Stripped(ps) == SelectSeq([i \in 1..Len(ps) |-> Strip(ps[i])], LAMBDA u : u # << >>)
Units(p) == Stripped(Pieces(p))

Type264(h) == h % 32
Type265(h) == (h \div 2) % 64

\* a key frame: the first unit that is not one of `skip` exists and is one of `key`
KeyBy(p, type(_), skip, key) ==
  LET hs == Headers(p)
      ts == [i \in 1..Len(hs) |-> type(p[hs[i] + 1])]
      rest == SelectSeq(ts, LAMBDA t : t \notin skip) IN
  rest # << >> /\ rest[1] \in key
Key264(p) == KeyBy(p, Type264, {6, 7, 8, 9}, {5})
Key265(p) == KeyBy(p, Type265, {32, 33, 34, 35, 39, 40}, 16..23)

Code4 == << 0, 0, 0, 1 >>

\* the last unit of each kind, behind a 4-byte start code; nothing if one is missing
Sets(us, type(_), kinds) ==
  LET of(t) == SelectSeq(us, LAMBDA u : type(u[1]) = t)
      last == [i \in 1..Len(kinds) |-> of(kinds[i])] IN
  IF \E i \in 1..Len(kinds) : last[i] = << >> THEN << >>
  ELSE [i \in 1..Len(kinds) |-> Code4 \o last[i][Len(last[i])]]
Sets264(us) == Sets(us, Type264, << 7, 8 >>)
Sets265(us) == Sets(us, Type265, << 32, 33, 34 >>)

\* everything observable about the bytes p
Scan(p) ==
  LET f == First(p)
      annexb == StartsWithCode(p)
      pieces == IF annexb THEN Pieces(p) ELSE << >>
      us == Stripped(pieces)
      s264 == Sets264(us)
      s265 == Sets265(us) IN
  [first |-> f,
   start |-> IF f[1] < 0 THEN -1 ELSE f[1] - f[2],
   reader |-> IF f[1] < 0 THEN << -1, 0 >> ELSE << p[f[1] + 1], f[1] + 1 >>,
   count |-> Len(Codes(p)),
   strip |-> Strip(p),
   key264 |-> Key264(p), key265 |-> Key265(p), keyother |-> FALSE,
   annexb |-> annexb, pieces |-> pieces,      \* what follows says something only if annexb
   sets264 |-> s264, sets265 |-> s265, extra264 |-> FlattenSeq(s264), extra265 |-> FlattenSeq(s265)]
=============================================================================
