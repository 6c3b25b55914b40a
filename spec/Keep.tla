-------------------------------- MODULE Keep --------------------------------
(* Results in use.  A client makes calls and keeps what they return; nothing  *)
(* anybody does - the same client, another client, the owner of a result it   *)
(* has done with - changes what a kept result says, and the same call on the  *)
(* same input says the same again.                                            *)
(*  kept  - what each kept result said when it was returned                   *)
(*  said  - what each call (function and input) returned                      *)
EXTENDS TLC

NothingKept == << >>
Call(s, h, fn, in, val) == [kept |-> (h :> val) @@ s.kept, said |-> (<< fn, in >> :> val) @@ s.said]
\* a result looked at and done with at once
Ask(s, fn, in, val) == [s EXCEPT !.said = (<< fn, in >> :> val) @@ @]
\* another process: nothing is kept there, but calls say the same
Again(s) == [s EXCEPT !.kept = NothingKept]
Drop(s, h) == [s EXCEPT !.kept = [x \in DOMAIN @ \ {h} |-> @[x]]]
Repeats(s, fn, in, val) == << fn, in >> \in DOMAIN s.said => s.said[<< fn, in >>] = val
=============================================================================
