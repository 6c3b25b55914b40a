------------------------------ MODULE TraceLib ------------------------------
(* Common part of the trace-validation modules: the recorded trace (one JSON *)
(* record per line, one state per record) and how a deviation is reported.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* TRUE iff ok; otherwise the offending line and what was expected are printed
\* and the step is disabled, so the trace is rejected.
Demand(ok, l, expected) ==
  IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, expected>>) /\ FALSE

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
