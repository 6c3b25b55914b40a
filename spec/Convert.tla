------------------------------ MODULE Convert ------------------------------
(* Conversion of access units between length-prefixed (AVCC / MP4) and        *)
(* Annex-B form.  Annex-B output is described by segments: << TRUE, b >> is a *)
(* NAL unit behind a 3- or 4-byte start code, << FALSE, b >> are bytes copied *)
(* as they are (extra data in Annex-B form).                                  *)
EXTENDS NalUnits

BytesBE(v, n) == [i \in 1..n |-> (v \div (256 ^ (n - i))) % 256]
ValueBE(b) == FoldLeft(LAMBDA a, x : a * 256 + x, 0, b)

\* a length of 2^31 and more does not fit TLC's integers: it overruns anyway
Big == 2147483647
LenAt(d, i, ls) == LET b == SubSeq(d, i + 1, i + ls) IN
                   IF ls = 4 /\ b[1] >= 128 THEN Big ELSE ValueBE(b)

\* units of a length-prefixed buffer: complete ones in order, and whether the whole buffer was consumed
RECURSIVE Prefixed(_, _, _, _)
Prefixed(d, i, ls, acc) ==
  IF i = Len(d) THEN [units |-> acc, clean |-> TRUE]
  ELSE IF i + ls > Len(d) THEN [units |-> acc, clean |-> FALSE]
  ELSE LET n == LenAt(d, i, ls) IN
       IF n = 0 \/ n > Len(d) - i - ls THEN [units |-> acc, clean |-> FALSE]
       ELSE Prefixed(d, i + ls + n, ls, Append(acc, SubSeq(d, i + ls + 1, i + ls + n)))
UnitsOf(d, ls) == Prefixed(d, 0, ls, << >>)

\* index of the first unit of a kind, 0 if there is none
FirstOf(us, Want(_)) == LET s == SelectSeq([i \in 1..Len(us) |-> IF Want(us[i]) THEN i ELSE 0], LAMBDA x : x > 0) IN
                      IF s = << >> THEN 0 ELSE s[1]
Some(us, Want(_)) == \E i \in 1..Len(us) : Want(us[i])

\* segments of the units us with `extra` put in front of unit at (0: nowhere); Keep selects units
Segments(us, at, extra, Keep(_)) ==
  FlattenSeq([i \in 1..Len(us) |->
    (IF i = at /\ extra # << >> THEN << << FALSE, extra >> >> ELSE << >>) \o
    (IF Keep(us[i]) THEN << << TRUE, us[i] >> >> ELSE << >>)])

IsIdr(u) == Type264(u[1]) = 5
IsSet(u) == Type264(u[1]) \in {7, 8}
IsIrap(u) == Type265(u[1]) \in 16..23

\* where H.264 extra data goes: in front of the first IDR unit, unless parameter sets came before it
At264(us) == LET i == FirstOf(us, IsIdr) IN
             IF i > 0 /\ ~Some(SubSeq(us, 1, i - 1), IsSet) THEN i ELSE 0

\* the buffer conversion leaves SEI units out, the writer conversion keeps them
Avcc(d, extra) == LET us == UnitsOf(d, 4).units IN
                  Segments(us, At264(us), extra, LAMBDA u : Type264(u[1]) # 6)
AvccWriter(d, extra) == LET us == UnitsOf(d, 4).units IN Segments(us, At264(us), extra, LAMBDA u : TRUE)

\* H.265: the whole buffer must be well formed; extra data once in front of the first random access unit
HevcOk(d, ls) == UnitsOf(d, ls).clean /\ \A i \in 1..Len(UnitsOf(d, ls).units) : Len(UnitsOf(d, ls).units[i]) >= 2
Hevc(d, extra, ls) == LET us == UnitsOf(d, ls).units IN Segments(us, FirstOf(us, IsIrap), extra, LAMBDA u : TRUE)

\* the Annex-B bytes out are exactly the segments
RECURSIVE Matches(_, _, _, _)
Matches(out, i, segs, k) ==
  IF k > Len(segs) THEN i = Len(out)
  ELSE LET b == segs[k][2]
           at(j) == j + Len(b) <= Len(out) /\ SubSeq(out, j + 1, j + Len(b)) = b IN
       IF ~segs[k][1] THEN at(i) /\ Matches(out, i + Len(b), segs, k + 1)
       ELSE IF i + 3 <= Len(out) /\ SubSeq(out, i + 1, i + 3) = << 0, 0, 1 >>
            THEN at(i + 3) /\ Matches(out, i + 3 + Len(b), segs, k + 1)
       ELSE /\ i + 4 <= Len(out) /\ SubSeq(out, i + 1, i + 4) = Code4
            /\ at(i + 4) /\ Matches(out, i + 4 + Len(b), segs, k + 1)
Is(out, segs) == Matches(out, 0, segs, 1)

\* further zero bytes in front of the first start code mean nothing
RECURSIVE Lead(_)
Lead(p) == IF Len(p) >= 4 /\ SubSeq(p, 1, 4) = << 0, 0, 0, 0 >> THEN Lead(Tail(p)) ELSE p

\* the length-prefixed form of units
Prefix(us, ls) == FlattenSeq([i \in 1..Len(us) |-> BytesBE(Len(us[i]), ls) \o us[i]])
\* an Annex-B form of units, cs[i] the size of the i-th start code
Annexed(us, cs) == FlattenSeq([i \in 1..Len(us) |-> (IF cs[i] = 4 THEN << 0 >> ELSE << >>) \o << 0, 0, 1 >> \o us[i]])
=============================================================================
