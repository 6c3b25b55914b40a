------------------------------- MODULE Views -------------------------------
(* What a packet's Annex-B and length-prefixed views are.  A packet p is a    *)
(* record [codec, form, key, data, has, extra, ls]: codec "h264", "h265" or   *)
(* another; form 1 Annex-B, 2 length-prefixed; has: the stream has codec      *)
(* parameters, whose sets in Annex-B form are `extra` and whose units are     *)
(* prefixed with ls bytes.  Views are given as alternatives, each a list of   *)
(* segments (see Convert).                                                    *)
EXTENDS Convert

Coded(p) == p.codec \in {"h264", "h265"}
TypeOf(p, h) == IF p.codec = "h264" THEN Type264(h) ELSE Type265(h)

Whole(us) == [i \in 1..Len(us) |-> << TRUE, us[i] >>]
SizeOfLen(p) == IF p.codec = "h264" THEN 4 ELSE IF p.has THEN p.ls ELSE 4
UnitsIn(p) == IF p.form = 2 THEN UnitsOf(p.data, SizeOfLen(p)).units ELSE Units(Lead(p.data))

WithoutSei(us) == SelectSeq(us, LAMBDA u : Type264(u[1]) # 6)

\* the stream's sets go in front of a key frame that does not already begin with the first of them
ExtraUnits(p) == Units(p.extra)
Begins(p, us) == us # << >> /\ ExtraUnits(p) # << >> /\ TypeOf(p, us[1][1]) = TypeOf(p, ExtraUnits(p)[1][1])
SameHeader(p, us) == us # << >> /\ ExtraUnits(p) # << >> /\ us[1][1] = ExtraUnits(p)[1][1]

AnnexB(p) ==
  LET us == UnitsIn(p)
      bodies == {Whole(us)} \cup (IF p.form = 2 /\ p.codec = "h264" THEN {Whole(WithoutSei(us))} ELSE {})
      front == {<< << FALSE, p.extra >> >> \o b : b \in bodies} IN
  IF ~Coded(p) \/ (p.form # 2 /\ ~(p.key /\ p.has)) THEN {<< << FALSE, p.data >> >>}
  ELSE IF ~(p.key /\ p.has) THEN bodies
  ELSE IF ~Begins(p, us) THEN front
  ELSE IF p.form # 2 /\ SameHeader(p, us) THEN {<< << FALSE, p.data >> >>}   \* as it is
  ELSE front \cup bodies

Avcc1(p) == IF ~Coded(p) \/ p.form # 1 THEN << << FALSE, p.data >> >>
            ELSE << << FALSE, Prefix(UnitsIn(p), 4) >> >>
=============================================================================
