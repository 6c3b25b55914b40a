---------------------------- MODULE DecConfigGen ----------------------------
(* Records with every small number of sets of each kind (H.265: every order   *)
(* and repetition of arrays), whole and truncated at every byte.              *)
EXTENDS DecConfig, TLC, Json

CONSTANTS MaxSets, MaxArrays, Types, Codec

VARIABLES a, b      \* AVC: numbers of SPS and PPS; HEVC: a is the list of << type, number >>
vars == <<a, b>>

Init == a = (IF Codec = "avc" THEN 0 ELSE << >>) /\ b = 0
Next == IF Codec = "avc"
        THEN \/ a < MaxSets /\ a' = a + 1 /\ b' = b
             \/ b < MaxSets /\ b' = b + 1 /\ a' = a
        ELSE Len(a) < MaxArrays /\ b' = 0 /\ \E t \in Types, n \in 0..MaxSets : a' = Append(a, << t, n >>)
Spec == Init /\ [][Next]_vars

\* distinct sets of lengths 0 .. 4
Sps(k) == SubSeq(<< 103, 66, k, 30, 200 + k >>, 1, 3 + (k % 3))
Pps(k) == SubSeq(<< 104, k, 0, 1 >>, 1, (k + 1) % 5)
Hset(t, i, k) == SubSeq(<< 2 * t, 1, i, k, 9 >>, 1, (i + k) % 6)
ListOf(n, E(_)) == [k \in 1..n |-> E(k)]
Hdr == << 1, 228, 96, 1, 2, 255, 144, 1, 2, 3, 4, 5, 93, 253, 7, 254, 253, 250, 253, 1, 2, 119 >>
Sets(s) == ListOf(Len(s), LAMBDA k : << s[k][1], ListOf(s[k][2], LAMBDA j : Hset(s[k][1], k, j)) >>)

Rec == IF Codec = "avc" THEN BuildAvc(<< 1, 66, 2, 30, 3 >>, ListOf(a, Sps), ListOf(b, Pps)) ELSE BuildHevc(Hdr, Sets(a))
Parse(d) == IF Codec = "avc" THEN ParseAvc(d) ELSE ParseHevc(d)
Expect(d) == LET p == Parse(d) IN
  IF ~p.ok THEN [ok |-> FALSE, why |-> p.why]
  ELSE [ok |-> TRUE, header |-> p.header, kinds |-> IF Codec = "avc" THEN << p.sps, p.pps >> ELSE << p.vps, p.sps, p.pps >>]

\* what was built is what is parsed
BackAvc == Codec = "avc" => LET p == ParseAvc(Rec) IN
             IF a = 0 \/ b = 0 THEN ~p.ok ELSE p.ok /\ p.sps = ListOf(a, Sps) /\ p.pps = ListOf(b, Pps) /\ p.used = Len(Rec)
BackHevc == Codec = "hevc" => LET p == ParseHevc(Rec) IN
             (p.ok <=> \A t \in {32, 33, 34} : OfType(Sets(a), t) # << >>) /\ (p.ok => p.used = Len(Rec))
\* a truncated record is never accepted unless only bytes behind it are missing
Cuts == LET d == Rec IN \A i \in 0..(Len(d) - 1) : ~Parse(SubSeq(d, 1, i)).ok

Case(d) == [codec |-> Codec, rec |-> d, e |-> Expect(d), cut |-> [i \in 1..Len(d) |-> Parse(SubSeq(d, 1, i - 1)).ok]]
Emit == PrintT("@@" \o ToJson(Case(Rec')))
=============================================================================
