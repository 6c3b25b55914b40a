----------------------------- MODULE Containers -----------------------------
(* C07: abstract meaning of the growing queue ("queue"), the fixed ring       *)
(* ("ring") and the linked list ("list"): a sequence of elements.             *)
EXTENDS Naturals, Sequences

Zero == 0

Back(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Without(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))   \* i is 0-based

\* operations a client may call
May(kind, s, op, i) ==
  CASE op = "push" -> TRUE
    [] op = "pop" -> kind = "ring" \/ (kind = "queue" /\ s # << >>)
    [] op = "popback" -> kind = "queue" /\ s # << >>
    [] op = "clear" -> kind # "list"
    [] op = "remove" -> kind = "list" /\ i < Len(s)
    [] OTHER -> FALSE

\* what the operation returns (Zero when it returns nothing)
Result(s, op, i) ==
  CASE op = "pop" -> IF s = << >> THEN Zero ELSE s[1]
    [] op = "popback" -> Back(s)
    [] op = "remove" -> s[i + 1]
    [] OTHER -> Zero

After(kind, cap, s, op, v, i) ==
  CASE op = "push" /\ kind = "ring" /\ Len(s) = cap -> Append(Tail(s), v)
    [] op = "push" -> Append(s, v)
    [] op = "pop" -> IF s = << >> THEN s ELSE Tail(s)
    [] op = "popback" -> Front(s)
    [] op = "clear" -> << >>
    [] op = "remove" -> Without(s, i)
    [] OTHER -> s
=============================================================================
