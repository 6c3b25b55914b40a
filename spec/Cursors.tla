------------------------------ MODULE Cursors -------------------------------
(* C16: byte cursors ("r" reading, "w" writing), bit cursors ("br", "bw") and *)
(* the Exp-Golomb bit reader ("g").  Bytes are 0..255; numbers are sequences  *)
(* of bytes or bits, most significant first, so no arithmetic is needed.      *)
EXTENDS Integers, Sequences

\* ---- byte cursors ---------------------------------------------------------
\* width of an operation's operand in bytes; "bytes"/"seek"/"back" take n
Width(op, n) ==
  CASE op = "u8" -> 1 [] op = "u16" -> 2 [] op = "u24" -> 3 [] op = "u32" -> 4 [] op = "u64" -> 8
    [] op \in {"bytes", "seek"} -> n
    [] op = "back" -> 0 - n
    [] OTHER -> 0

Reads == {"u8", "u16", "u24", "u32", "u64", "bytes"}

Fits(len, off, w) == off + w >= 0 /\ off + w <= len

\* data with the bytes `in` written at off
Overwrite(data, off, in) ==
  [i \in 1..Len(data) |-> IF i > off /\ i <= off + Len(in) THEN in[i - off] ELSE data[i]]

\* [ok, off, data, res] after an operation
ByteStep(kind, data, off, op, n, in) ==
  IF op = "reset" THEN [ok |-> TRUE, off |-> 0, data |-> in, res |-> << >>]
  ELSE IF op = "clear" THEN [ok |-> TRUE, off |-> 0, data |-> data, res |-> << >>]
  ELSE LET w == Width(op, n) IN
    IF ~Fits(Len(data), off, w)
    THEN [ok |-> FALSE, off |-> off, data |-> data, res |-> << >>]
    ELSE [ok |-> TRUE, off |-> off + w,
          data |-> IF kind = "w" /\ op \in Reads THEN Overwrite(data, off, in) ELSE data,
          res |-> IF kind = "r" /\ op \in Reads THEN SubSeq(data, off + 1, off + w) ELSE << >>]

Remaining(data, off) == SubSeq(data, off + 1, Len(data))
Written(data, off) == SubSeq(data, 1, off)

\* ---- bits -----------------------------------------------------------------
Pow2 == << 128, 64, 32, 16, 8, 4, 2, 1 >>
BitOf(byte, i) == (byte \div Pow2[i]) % 2                        \* i in 1..8
Bit(data, i) == BitOf(data[(i \div 8) + 1], (i % 8) + 1)         \* i 0-based
BitsAt(data, off, n) == [i \in 1..n |-> Bit(data, off + i - 1)]
ByteOf(bits) == bits[1] * 128 + bits[2] * 64 + bits[3] * 32 + bits[4] * 16
                + bits[5] * 8 + bits[6] * 4 + bits[7] * 2 + bits[8]
Suffix(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
PutBits(data, off, bits) ==
  [k \in 1..Len(data) |->
     ByteOf([i \in 1..8 |-> LET p == 8 * (k - 1) + i - 1 - off IN
               IF p >= 0 /\ p < Len(bits) THEN bits[p + 1] ELSE BitOf(data[k], i)])]
\* a bit string without leading zeros ("0" for zero)
RECURSIVE Strip(_)
Strip(b) == IF Len(b) > 1 /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b

\* ---- Exp-Golomb: bits is the rest of the input ----------------------------
RECURSIVE Zeros(_, _)
Zeros(bits, i) == IF i < Len(bits) /\ bits[i + 1] = 0 THEN Zeros(bits, i + 1) ELSE i

\* codeNum + 1 as bits ("1" and the suffix), and how many bits were used
Golomb(bits) ==
  LET k == Zeros(bits, 0) IN
  IF 2 * k + 1 > Len(bits) THEN [ok |-> FALSE, num |-> << >>, used |-> 0]
  ELSE [ok |-> TRUE, num |-> SubSeq(bits, k + 1, 2 * k + 1), used |-> 2 * k + 1]
=============================================================================
