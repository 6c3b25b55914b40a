------------------------------- MODULE Memory -------------------------------
(* C21: what is given back is used again.  A session's memory depends on what *)
(* is outstanding, not on how much has passed through.                        *)
EXTENDS Integers, Sequences

\* What a session that held `warm` at first may hold while at most `peak` is
\* outstanding (any unit).  RingBound shows that the ring design stays far
\* below; the slack is for what is not payload.
Allowed(warm, peak, slack) == 3 * warm + 8 * peak + slack
=============================================================================
