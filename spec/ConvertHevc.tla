---------------------------- MODULE ConvertHevc -----------------------------
EXTENDS ConvertGen
\* TRAIL_N (first byte zero), TRAIL_R, IDR, CRA, BLA, type 23 and its neighbour 24, VPS
UnitSetV == {<< 0, 1, 7 >>, << 2, 1 >>, << 38, 1, 175, 0, 0, 3 >>, << 42, 1, 9 >>, << 32, 1 >>, << 46, 1 >>, << 48, 1 >>, << 64, 1, 12 >>}
ExtrasV == {<< >>, << 0, 0, 0, 1, 64, 1, 0, 0, 1, 66, 1, 0, 0, 1, 68, 1 >>}
=============================================================================
