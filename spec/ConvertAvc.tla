----------------------------- MODULE ConvertAvc -----------------------------
EXTENDS ConvertGen
\* slice, IDR (two headers), SEI, SPS, PPS, AUD; with zeros and ones inside, a one-byte unit
UnitSetV == {<< 65, 1, 0, 0, 3, 1 >>, << 101, 136 >>, << 37 >>, << 6, 5, 1 >>, << 103, 66, 0, 1 >>, << 104, 206 >>, << 9, 240 >>}
ExtrasV == {<< >>, << 0, 0, 0, 1, 103, 7, 0, 0, 1, 104, 8 >>}
=============================================================================
