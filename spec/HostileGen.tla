----------------------------- MODULE HostileGen -----------------------------
EXTENDS Hostile, TLC, Json

CONSTANTS Which, Values, Edits, Alphabet, MaxLen

VARIABLES s, n
Init == n = 0 /\ s \in {Structures[k] : k \in Which}
EditedOnce ==
  \/ \E i \in 0..(Len(s) - 1) : s' = Cut(s, i)
  \/ \E i \in 1..Len(s) : \/ \E v \in Values : s' = Put(s, i, v)
                          \/ s' = Drop(s, i)
  \/ \E i \in 0..Len(s), v \in Values : s' = Insert(s, i, v)
Next == n < Edits /\ n' = n + 1 /\ EditedOnce
Spec == Init /\ [][Next]_<<s, n>>

\* every short string
SInit == n = 0 /\ s = << >>
SNext == Len(s) < MaxLen /\ n' = 0 /\ \E v \in Alphabet : s' = Append(s, v)
SSpec == SInit /\ [][SNext]_<<s, n>>

View == s
Emit == PrintT("@@" \o ToJson([in |-> s']))
=============================================================================
