----------------------------- MODULE LinearGen ------------------------------
(* Transition cover of small linear buffers.  caps simulates the capacity so *)
(* that states before and after a growth are told apart.                     *)
EXTENDS LinearBuffer, TLC, Json

CONSTANTS InitCap, Sizes, MaxCap, MaxBlocks, MaxBufs

VARIABLES bs, caps, hist, vc

Init == bs = << Fresh >> /\ caps = << InitCap >> /\ hist = << >> /\ vc = 0

Do(i, op, n) ==
  LET b == bs[i]
      v == vc + 1
      used == Length(b.data)
  IN /\ May(b, op)
     /\ bs' = After(bs, i, op, v, n)
     /\ vc' = IF op = "write" THEN v ELSE vc
     /\ hist' = Append(hist, <<op, i, n>>)
     /\ caps' = CASE op = "write" /\ ~Refused(b, op) /\ used + n > caps[i] ->
                       [caps EXCEPT ![i] = ((used + n) * 3) \div 2]
                  [] op = "split" -> Append([caps EXCEPT ![i] = used], caps[i] - used)
                  [] OTHER -> caps

Next == \E i \in 1..Len(bs) :
          \/ \E n \in Sizes : Do(i, "write", n)
          \/ \E op \in {"fetch", "pop", "popback", "clear"} : Do(i, op, 0)
          \/ Len(bs) < MaxBufs /\ Do(i, "split", 0)

Spec == Init /\ [][Next]_<<bs, caps, hist, vc>>

Bound == \A i \in 1..Len(bs) : caps[i] <= MaxCap /\ Len(bs[i].blocks) <= MaxBlocks

Abs(b) == <<[k \in 1..Len(b.blocks) |-> <<Length(b.blocks[k].c), b.blocks[k].done>>], Length(b.data), b.sealed>>
View == <<caps, [i \in 1..Len(bs) |-> Abs(bs[i])]>>

LastOp == hist'[Len(hist')]
Emit == PrintT("@@" \o ToJson([cap |-> InitCap, ops |-> hist',
            panic |-> Refused(bs[LastOp[2]], LastOp[1]),
            res |-> Result(bs[LastOp[2]], LastOp[1]),
            all |-> [i \in 1..Len(bs') |-> Shown(bs'[i])]]))
=============================================================================
