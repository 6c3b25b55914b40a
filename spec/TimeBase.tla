------------------------------ MODULE TimeBase ------------------------------
(* C15: converting a timestamp between time bases (ticks per second).         *)
EXTENDS Integers, Sequences

\* ---- definition on TLC's integers ------------------------------------------
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Conv(ts, src, dst) ==
  LET q == (Abs(ts) * dst) \div src IN IF ts < 0 THEN 0 - q ELSE q

\* ---- the same on numbers of any size: little-endian base-10000 digits -------
Base == 10000

D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Norm(_, _)            \* propagate carries
Norm(a, c) ==
  IF a = << >> THEN IF c = 0 THEN << >> ELSE << c % Base >> \o Norm(<< >>, c \div Base)
  ELSE LET x == a[1] + c IN << x % Base >> \o Norm(Tail(a), x \div Base)

Max(a, b) == IF a > b THEN a ELSE b
Add(a, b) == Norm([i \in 1..Max(Len(a), Len(b)) |-> D(a, i) + D(b, i)], 0)

RECURSIVE Sum(_, _, _, _)
Sum(a, b, k, i) == IF i > k THEN 0 ELSE D(a, i) * D(b, k + 1 - i) + Sum(a, b, k, i + 1)
Mul(a, b) == Norm([k \in 1..(Len(a) + Len(b)) |-> Sum(a, b, k, 1)], 0)

RECURSIVE Below(_, _, _)        \* a < b, from the i-th digit down
Below(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF D(a, i) # D(b, i) THEN D(a, i) < D(b, i) ELSE Below(a, b, i - 1)
Less(a, b) == Below(a, b, Max(Len(a), Len(b)))
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* a signed number is [neg |-> BOOLEAN, m |-> magnitude]; res is the exact value
\* truncated toward zero:  |res| * src <= |ts| * dst < (|res| + 1) * src
Exact(ts, src, dst, res) ==
  LET p == Mul(ts.m, dst)
      q == Mul(res.m, src)
  IN /\ ~Less(p, q)
     /\ Less(p, Add(q, src))
     /\ IsZero(res.m) \/ res.neg = ts.neg

Same(a, b) == ~Less(a.m, b.m) /\ ~Less(b.m, a.m) /\ (a.neg = b.neg \/ IsZero(a.m))

\* difference of signed numbers: d = a - b  <=>  d + b = a
Minus(a, b, d) ==
  LET Plus(x, y, z) ==  \* x + y = z, with signs
        IF x.neg = y.neg THEN Same([neg |-> x.neg, m |-> Add(x.m, y.m)], z)
        ELSE IF ~Less(x.m, y.m) THEN Same([neg |-> x.neg, m |-> Add(y.m, z.m)], x) /\ (z.neg = x.neg \/ IsZero(z.m))
        ELSE Same([neg |-> y.neg, m |-> Add(x.m, z.m)], y) /\ (z.neg = y.neg \/ IsZero(z.m))
  IN Plus(d, b, a)
=============================================================================
