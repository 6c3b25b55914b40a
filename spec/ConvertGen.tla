----------------------------- MODULE ConvertGen -----------------------------
(* All short sequences of a few units, each under every start code or length  *)
(* prefix, with and without extra data, whole or broken at the end.           *)
EXTENDS Convert, Json

CONSTANTS Codec,      \* "avc" or "hevc"
          UnitSet,    \* the units sequences are built of
          MaxUnits,
          LenSizes,   \* H.265 length sizes
          Extras

VARIABLES us, cs
vars == <<us, cs>>

Init == us = << >> /\ cs = << >>
Next == /\ Len(us) < MaxUnits
        /\ \E u \in UnitSet, c \in {3, 4} : us' = Append(us, u) /\ cs' = Append(cs, c)
Spec == Init /\ [][Next]_vars

\* ways a buffer ends: clean, a zero length, an overrunning length, a part of a length
Ends(ls) == {<< >>, BytesBE(0, ls), BytesBE(0, ls) \o << 9 >>, BytesBE(3, ls) \o << 38, 1 >>, << 0 >>,
             [i \in 1..ls |-> 255] \o << 38 >>, [i \in 1..ls |-> 255]}

\* when exactly one kind of parameter set precedes the IDR unit nothing is specified
KindsSeen(v) == LET i == FirstOf(v, IsIdr) IN {Type264(v[k][1]) : k \in 1..(i - 1)} \cap {7, 8}
Specified(v) == FirstOf(v, IsIdr) = 0 \/ Cardinality(KindsSeen(v)) # 1

\* 4-byte codes everywhere for the prefixed direction: the codes do not matter there
Cases ==
  {[op |-> "toavcc", in |-> Annexed(us', cs'), segs |-> << >>, out |-> Prefix(us', 4), ok |-> TRUE, extra |-> << >>, ls |-> 4]}
  \cup (IF \E i \in 1..Len(cs') : cs'[i] = 3 THEN {}
        ELSE IF Codec = "avc"
        THEN {[op |-> o, in |-> Prefix(us', 4) \o e, out |-> << >>, ok |-> TRUE, extra |-> x, ls |-> 4,
               segs |-> IF o = "avcc" THEN Avcc(Prefix(us', 4) \o e, x) ELSE AvccWriter(Prefix(us', 4) \o e, x)]
              : o \in {"avcc", "writer"}, e \in Ends(4), x \in {y \in Extras : y = << >> \/ Specified(us')}}
        ELSE {[op |-> "hevc", in |-> Prefix(us', n) \o e, out |-> << >>, ok |-> HevcOk(Prefix(us', n) \o e, n),
               extra |-> x, ls |-> n, segs |-> Hevc(Prefix(us', n) \o e, x, n)]
              : n \in LenSizes, e \in UNION {Ends(m) : m \in LenSizes}, x \in Extras})

\* round trip: what the definitions produce reads back as the same units
Back == UnitsOf(Prefix(us, 4), 4) = [units |-> us, clean |-> TRUE]
BackB == us # << >> => Units(Annexed(us, cs)) = us
Fits == Is(Annexed(us, cs), [i \in 1..Len(us) |-> << TRUE, us[i] >>])

Emit == PrintT("@@" \o ToJson([cases |-> SetToSeq(Cases)]))
=============================================================================
