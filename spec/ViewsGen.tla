------------------------------ MODULE ViewsGen ------------------------------
(* Histories of a few pooled packets: obtain one of every kind, ask for       *)
(* either view any number of times, free it, obtain the next.                 *)
EXTENDS Views, Json

CONSTANTS Kinds, Slots, Depth

VARIABLES held, ops
vars == <<held, ops>>

Init == held = [s \in Slots |-> << >>] /\ ops = << >>

Get(s, k) == held[s] = << >> /\ held' = [held EXCEPT ![s] = << k >>] /\ ops' = Append(ops, [op |-> "get", s |-> s, k |-> k, alts |-> {}])
ViewB(s) == /\ held[s] # << >> /\ UNCHANGED held
            /\ ops' = Append(ops, [op |-> "viewb", s |-> s, k |-> held[s][1], alts |-> AnnexB(held[s][1])])
ViewA(s) == /\ held[s] # << >> /\ UNCHANGED held
            /\ ops' = Append(ops, [op |-> "viewa", s |-> s, k |-> held[s][1], alts |-> {Avcc1(held[s][1])}])
Free(s) == held[s] # << >> /\ held' = [held EXCEPT ![s] = << >>] /\ ops' = Append(ops, [op |-> "free", s |-> s, k |-> held[s][1], alts |-> {}])

Next == Len(ops) < Depth /\ \E s \in Slots : (\E k \in Kinds : Get(s, k)) \/ ViewB(s) \/ ViewA(s) \/ Free(s)
Spec == Init /\ [][Next]_vars

\* both views hold the same units, up to what may be added or left out
SameUnits == \A s \in Slots : held[s] # << >> =>
  LET p == held[s][1] IN
  Coded(p) => /\ \A a \in AnnexB(p) : LET us == Units(FlattenSeq([i \in 1..Len(a) |-> IF a[i][1] THEN Code4 \o a[i][2] ELSE a[i][2]])) IN
                    \/ us = UnitsIn(p) \/ us = WithoutSei(UnitsIn(p))
                    \/ us = ExtraUnits(p) \o UnitsIn(p) \/ us = ExtraUnits(p) \o WithoutSei(UnitsIn(p))
              /\ AnnexB(p) # {}

P(c, f, k, d, h, x, l, a) == [codec |-> c, form |-> f, key |-> k, data |-> d, has |-> h, extra |-> x, ls |-> l, alloc |-> a]
B(us) == FlattenSeq([i \in 1..Len(us) |-> (IF i = 1 THEN << 0 >> ELSE << >>) \o << 0, 0, 1 >> \o us[i]])
Idr == << 101, 136, 7 >>
Sps4 == << 103, 66, 100, 56, 119, 196, 100 >>
Pps4 == << 104, 206, 60 >>
X4 == Code4 \o Sps4 \o Code4 \o Pps4
Irap == << 38, 1, 175 >>
V5 == << 64, 1, 12 >>
S5 == << 66, 1, 96, 11, 29, 49, 142, 67, 176, 62, 52, 7, 186, 27, 63, 80, 136, 159, 204, 36, 63, 222, 146, 8 >>
P5 == << 68, 1, 193 >>
X5 == Code4 \o V5 \o Code4 \o S5 \o Code4 \o P5
Sei == << 6, 5, 1 >>

KindsV == {
  P("h264", 1, TRUE, B(<< Idr >>), TRUE, X4, 4, FALSE),
  P("h264", 1, TRUE, B(<< Sps4, Pps4, Idr >>), TRUE, X4, 4, TRUE),
  P("h264", 1, TRUE, B(<< << 39, 66 >>, Pps4, Idr >>), TRUE, X4, 4, FALSE),
  P("h264", 1, FALSE, B(<< << 65, 9 >>, << 1 >> >>), TRUE, X4, 4, FALSE),
  P("h264", 2, TRUE, Prefix(<< Sei, Idr, << 37 >> >>, 4), TRUE, X4, 4, TRUE),
  P("h264", 2, TRUE, Prefix(<< Sps4, Pps4, Idr >>, 4), FALSE, << >>, 4, FALSE),
  P("h264", 2, FALSE, Prefix(<< << 65, 0, 0, 3, 1, 9 >> >>, 4), TRUE, X4, 4, FALSE),
  P("h265", 1, TRUE, B(<< Irap, << 2, 1 >> >>), TRUE, X5, 4, TRUE),
  P("h265", 1, TRUE, B(<< V5, S5, P5, Irap >>), TRUE, X5, 4, FALSE),
  P("h265", 2, TRUE, Prefix(<< Irap, << 2, 1 >> >>, 1), TRUE, X5, 1, FALSE),
  P("h265", 2, FALSE, Prefix(<< << 2, 1 >>, << 2, 1, 9 >> >>, 2), TRUE, X5, 2, TRUE),
  P("vp8", 3, TRUE, << 1, 2, 3 >>, FALSE, << >>, 4, FALSE),
  P("aac", 3, FALSE, << 4, 5 >>, FALSE, << >>, 4, FALSE)}
\* audio packets have no views; a history ends in something to look at
Sane == \A i \in 1..Len(ops) : ops[i].op \in {"viewa", "viewb"} => ops[i].k.codec # "aac"
Emit == IF Len(ops') > 1 /\ ops'[Len(ops')].op \in {"viewa", "viewb"} THEN PrintT("@@" \o ToJson([ops |-> ops'])) ELSE TRUE
=============================================================================
