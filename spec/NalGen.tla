------------------------------- MODULE NalGen -------------------------------
(* Exhaustive small inputs: all byte strings over a small alphabet, and all   *)
(* access units built of a few unit tokens (start code size x unit bytes).    *)
EXTENDS NalUnits, Json

CONSTANTS Alphabet,     \* bytes
          MaxLen,       \* longest byte string
          Heads,        \* NAL header bytes of the token part
          MaxUnits

VARIABLES p, n, mode
vars == <<p, n, mode>>

Init == p = << >> /\ n = 0 /\ mode \in {"bytes", "units"}
Byte == mode = "bytes" /\ n < MaxLen /\ \E b \in Alphabet : p' = Append(p, b)
\* unit bodies: nothing, a zero byte inside, and (for H.265) a second header byte
Unit == /\ mode = "units" /\ n < MaxUnits
        /\ \E h \in Heads, c \in {<< 0, 0, 1 >>, << 0, 0, 0, 1 >>}, short \in BOOLEAN :
             /\ short => h # 0
             /\ p' = p \o c \o << h >> \o (IF short THEN << >> ELSE << 1, 0, 200 + n >>)
Next == (Byte \/ Unit) /\ n' = n + 1 /\ UNCHANGED mode
Spec == Init /\ [][Next]_vars

\* the definitions agree with each other
Concat == StartsWithCode(p) => FlattenSeq(Pieces(p)) = p
OnePerUnit == StartsWithCode(p) =>
                /\ \A i \in 1..Len(Pieces(p)) : StartsWithCode(Pieces(p)[i])
                /\ \A i \in 2..Len(Pieces(p)) : First(Pieces(p)[i])[1] >= 0
                /\ Len(Pieces(p)) >= Len(Codes(p))
Counted == mode = "units" => Len(Codes(p)) = n /\ Len(Units(p)) = n

Emit == PrintT("@@" \o ToJson([p |-> p', e |-> Scan(p')]))
=============================================================================
