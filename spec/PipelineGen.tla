----------------------------- MODULE PipelineGen ----------------------------
(* Every sequence of operations up to a depth: streams first used in any      *)
(* order and with any media types, every interleaving of their operations.    *)
(* A size unit stands for a quarter of the stream's real buffer.              *)
EXTENDS Pipeline, TLC, Json

CONSTANTS Small, Kinds, Streams, Types, Sizes, Depth, MaxBlocks

VARIABLES kind, types, st, hist, vc

vars == <<kind, types, st, hist, vc>>

Init == /\ kind \in Kinds
        /\ types \in [Streams -> Types]
        /\ (kind = "direct" => \A s, t \in Streams : types[s] = types[t])
        /\ st = << >> /\ hist = << >> /\ vc = 0

Do(op, i, n) ==
  LET v == vc + 1 IN
  /\ May(kind, st, op, i)
  /\ st' = After(kind, st, op, i, v, n)
  /\ vc' = IF op = "write" THEN v ELSE vc
  /\ hist' = Append(hist, <<op, i, n>>)
  /\ UNCHANGED <<kind, types>>

Next == Len(hist) < Depth /\ \E i \in Streams :
          /\ kind = "direct" => i = 0
          /\ \/ \E n \in Sizes : Do("write", i, n)
             \/ Do("fetch", i, 0)
             \/ kind = "direct" /\ \E n \in Sizes : Do("seek", i, n)
             \/ kind # "direct" /\ (Do("back", i, 0) \/ Do("head", i, 0) \/ Do("pending", i, 0))

Spec == Init /\ [][Next]_vars
Bound == Len(hist) <= Depth /\ \A k \in 1..Len(st) : Len(st[k]) <= MaxBlocks

Emit ==
        PrintT("@@" \o ToJson([kind |-> kind, small |-> Small, types |-> [s \in 1..3 |-> IF s - 1 \in Streams THEN types[s - 1] ELSE 0], ops |-> hist',
          res |-> Result(kind, st, hist'[Len(hist')][1], hist'[Len(hist')][2]),
          pend |-> [k \in 1..Len(st') |-> Pending(kind, st', k - 1)],
          live |-> [k \in 1..Len(st') |-> Live(kind, st', k - 1)]]))
=============================================================================
