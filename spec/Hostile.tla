------------------------------ MODULE Hostile -------------------------------
(* C17: bytes from the network at every entry point.  Structures are the real *)
(* ones; an input is a structure with a few edits, or any short string of     *)
(* significant bytes.  Whatever the input, every call returns, says the same  *)
(* whatever lies behind the input in memory, leaves the input alone, and what *)
(* it claims to have found lies in the input.                                 *)
EXTENDS Integers, Sequences

Sps4 == << 103, 66, 100, 56, 119, 196, 100 >>
Pps4 == << 104, 206, 60, 128 >>
Vps5 == << 64, 1, 12, 1 >>
Sps5 == << 66, 1, 1, 1, 96, 0, 0, 3, 0, 144, 0, 0, 3, 0, 0, 3, 0, 93, 160, 2, 128, 128, 45, 22, 89, 89, 164, 147, 43, 128, 64, 0, 0, 3, 0, 64, 0, 0, 7, 130 >>
Pps5 == << 68, 1, 193, 115 >>
L2(s) == << Len(s) \div 256, Len(s) % 256 >>
L4(s) == << 0, 0 >> \o L2(s)
Sc3 == << 0, 0, 1 >>
Sc4 == << 0, 0, 0, 1 >>
Adts == << 255, 241, 80, 128, 1, 95, 252 >>

Structures == <<
  Sps4, Sps5,
  << 1, 66, 0, 30, 255, 225 >> \o L2(Sps4) \o Sps4 \o << 1 >> \o L2(Pps4) \o Pps4,
  << 1, 1, 96, 0, 0, 0, 144, 0, 0, 0, 0, 0, 93, 240, 0, 252, 253, 248, 248, 0, 0, 15, 3 >>
    \o << 160, 0, 1 >> \o L2(Vps5) \o Vps5 \o << 161, 0, 1 >> \o L2(Sps5) \o Sps5 \o << 162, 0, 1 >> \o L2(Pps5) \o Pps5,
  Sc4 \o Sps4 \o Sc4 \o Pps4 \o Sc3 \o << 101, 136, 132 >>,
  Sc4 \o Vps5 \o Sc4 \o Sps5 \o Sc3 \o Pps5 \o Sc4 \o << 38, 1, 175 >>,
  L4(Sps4) \o Sps4 \o L4(Pps4) \o Pps4 \o L4(<< 101, 136, 132 >>) \o << 101, 136, 132 >>,
  L2(Vps5) \o Vps5 \o L2(<< 38, 1, 175 >>) \o << 38, 1, 175 >>,
  Adts \o << 33, 16 >>,
  << 18, 16, 86, 229, 0 >> >>

Cut(s, i) == SubSeq(s, 1, i)
Put(s, i, v) == [s EXCEPT ![i] = v]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, v) == SubSeq(s, 1, i) \o << v >> \o SubSeq(s, i + 1, Len(s))

Within(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
=============================================================================
