----------------------------- MODULE CursorsGen -----------------------------
(* Every position of short byte cursors and every operation there, including  *)
(* the ones that do not fit, followed by one more operation.                  *)
EXTENDS Cursors, TLC, Json

CONSTANTS Lens, Args

VARIABLES kind, len0, data, off, hist, vc, last

vars == <<kind, len0, data, off, hist, vc, last>>

Init == /\ kind \in {"r", "w"} /\ len0 \in Lens
        /\ data = [i \in 1..len0 |-> 100 + i] /\ off = 0 /\ hist = << >> /\ vc = 0 /\ last = << >>

In(op, n) == [i \in 1..(IF op \in Reads THEN Width(op, n) ELSE 0) |-> vc + i]

Do(op, n) ==
  LET e == ByteStep(kind, data, off, op, n, In(op, n)) IN
  /\ kind = "w" => op # "u24"
  /\ data' = e.data /\ off' = e.off
  /\ vc' = (vc + Len(In(op, n))) % 90
  /\ hist' = Append(hist, <<op, n, In(op, n)>>)
  /\ last' = <<op, e.ok>>
  /\ UNCHANGED <<kind, len0>>

Next == \/ \E op \in {"u8", "u16", "u24", "u32", "u64", "clear"} : Do(op, 0)
        \/ \E op \in {"bytes", "seek", "back"}, n \in Args : Do(op, n)

Spec == Init /\ [][Next]_vars
View == <<kind, len0, off, last>>

Emit == PrintT("@@" \o ToJson([kind |-> kind, len |-> len0, ops |-> hist', ok |-> last'[2], off |-> off',
          data |-> data', res |-> ByteStep(kind, data, off, hist'[Len(hist')][1], hist'[Len(hist')][2], hist'[Len(hist')][3]).res,
          rem |-> Remaining(data', off'), written |-> Written(data', off')]))
=============================================================================
