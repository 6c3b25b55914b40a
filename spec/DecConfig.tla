----------------------------- MODULE DecConfig ------------------------------
(* Decoder configuration records (ISO/IEC 14496-15): what the bytes of an     *)
(* AVCDecoderConfigurationRecord / HEVCDecoderConfigurationRecord contain.    *)
(* p.i is the number of bytes consumed, -1 when the record ended too early.   *)
EXTENDS Integers, Sequences, SequencesExt

Code4 == << 0, 0, 0, 1 >>
Coded(sets) == [k \in 1..Len(sets) |-> Code4 \o sets[k]]
Strip(p) == IF Len(p) >= 3 /\ SubSeq(p, 1, 3) = << 0, 0, 1 >> THEN SubSeq(p, 4, Len(p))
            ELSE IF Len(p) >= 4 /\ SubSeq(p, 1, 4) = Code4 THEN SubSeq(p, 5, Len(p))
            ELSE p
Stripped(sets) == [k \in 1..Len(sets) |-> Strip(sets[k])]
Len16(b) == << Len(b) \div 256, Len(b) % 256 >> \o b

Short == [i |-> -1, sets |-> << >>]
\* n sets, each behind its 16-bit length, from byte position i (0-based) on
RECURSIVE SetsAt(_, _, _, _)
SetsAt(d, i, n, acc) ==
  IF n = 0 THEN [i |-> i, sets |-> acc]
  ELSE IF i + 2 > Len(d) THEN Short
  ELSE LET z == d[i + 1] * 256 + d[i + 2] IN
       IF i + 2 + z > Len(d) THEN Short
       ELSE SetsAt(d, i + 2 + z, n - 1, Append(acc, SubSeq(d, i + 3, i + 2 + z)))

Reject(w) == [ok |-> FALSE, why |-> w]

ParseAvc(d) ==
  IF Len(d) < 6 THEN Reject("short")
  ELSE LET ns == d[6] % 32
           s == SetsAt(d, 6, ns, << >>) IN
       IF ns = 0 THEN Reject("no sps")
       ELSE IF s.i < 0 THEN Reject("short")
       ELSE IF s.i + 1 > Len(d) THEN Reject(IF s.i = Len(d) THEN "no pps count" ELSE "short")
       ELSE LET np == d[s.i + 1]
                p == SetsAt(d, s.i + 1, np, << >>) IN
            IF np = 0 THEN Reject("no pps")
            ELSE IF p.i < 0 THEN Reject("short")
            ELSE [ok |-> TRUE, header |-> << d[1], d[2], d[3], d[4], d[5] % 4 >>, sps |-> s.sets, pps |-> p.sets, used |-> p.i]

\* arrays << type, sets >>
RECURSIVE ArraysAt(_, _, _, _)
ArraysAt(d, i, n, acc) ==
  IF n = 0 THEN [i |-> i, arrays |-> acc]
  ELSE IF i + 3 > Len(d) THEN [i |-> -1, arrays |-> << >>]
  ELSE LET s == SetsAt(d, i + 3, d[i + 2] * 256 + d[i + 3], << >>) IN
       IF s.i < 0 THEN [i |-> -1, arrays |-> << >>]
       ELSE ArraysAt(d, s.i, n - 1, Append(acc, << d[i + 1] % 64, s.sets >>))

OfType(arrays, t) == FlattenSeq([k \in 1..Len(arrays) |-> IF arrays[k][1] = t THEN arrays[k][2] ELSE << >>])

ParseHevc(d) ==
  IF Len(d) < 23 THEN Reject("short")
  ELSE LET a == ArraysAt(d, 23, d[23], << >>) IN
       IF a.i < 0 THEN Reject("short")
       ELSE LET vps == OfType(a.arrays, 32)  sps == OfType(a.arrays, 33)  pps == OfType(a.arrays, 34) IN
            IF << >> \in {vps, sps, pps} THEN Reject("a kind is missing")
            ELSE [ok |-> TRUE,
                  header |-> << d[1], d[2] \div 64, (d[2] \div 32) % 2, d[2] % 32 >> \o SubSeq(d, 3, 6) \o SubSeq(d, 7, 12) \o
                             << d[13], (d[14] % 16) * 256 + d[15], d[16] % 4, d[17] % 4, d[18] % 8, d[19] % 8,
                                d[20] * 256 + d[21], d[22] \div 64, (d[22] \div 8) % 8, (d[22] \div 4) % 2,
                                (d[22] % 4) + 1,        \* the size of a length, not minus one
                                d[23] >>,
                  vps |-> vps, sps |-> sps, pps |-> pps, used |-> a.i]

\* writers
BuildAvc(h, sps, pps) ==
  << h[1], h[2], h[3], h[4], 252 + h[5], 224 + Len(sps) >> \o FlattenSeq([k \in 1..Len(sps) |-> Len16(sps[k])]) \o
  << Len(pps) >> \o FlattenSeq([k \in 1..Len(pps) |-> Len16(pps[k])])
BuildHevc(h, arrays) ==   \* h: the 22 bytes in front of the number of arrays
  h \o << Len(arrays) >> \o
  FlattenSeq([k \in 1..Len(arrays) |-> << 128 + arrays[k][1], Len(arrays[k][2]) \div 256, Len(arrays[k][2]) % 256 >> \o
                                        FlattenSeq([j \in 1..Len(arrays[k][2]) |-> Len16(arrays[k][2][j])])])

\* Annex-B form of the sets
AnnexB(kinds) == FlattenSeq([k \in 1..Len(kinds) |-> FlattenSeq(Coded(kinds[k]))])
=============================================================================
