-------------------------------- MODULE Sps ---------------------------------
(* H.264 (ITU-T H.264 7.3.2.1.1) and H.265 (ITU-T H.265 7.3.2.2) sequence     *)
(* parameter sets at bit level: an encoder from a record of parameters, a     *)
(* decoder, and the picture size the standards define.  The decoder stops     *)
(* where the size (and for H.264 the timing) is complete; what follows does   *)
(* not matter for it.                                                         *)
EXTENDS Integers, Sequences, SequencesExt

\* ---- bits, emulation prevention -------------------------------------------
RECURSIVE NumBits(_, _)
NumBits(v, n) == IF n = 0 THEN << >> ELSE NumBits(v \div 2, n - 1) \o << v % 2 >>
RECURSIVE Width(_)
Width(v) == IF v = 0 THEN 0 ELSE 1 + Width(v \div 2)
Zero(n) == [i \in 1..n |-> 0]
Ue(v) == LET w == Width(v + 1) IN Zero(w - 1) \o NumBits(v + 1, w)
Se(v) == Ue(IF v > 0 THEN 2 * v - 1 ELSE 0 - 2 * v)
Flag(b) == << IF b THEN 1 ELSE 0 >>

\* stop bit and alignment, then bytes
Bytes(bits) ==
  LET b == bits \o << 1 >>
      p == b \o Zero((8 - (Len(b) % 8)) % 8) IN
  [i \in 1..(Len(p) \div 8) |-> FoldLeft(LAMBDA a, x : 2 * a + x, 0, SubSeq(p, 8 * i - 7, 8 * i))]
Bits(bytes) == FlattenSeq([i \in 1..Len(bytes) |-> NumBits(bytes[i], 8)])

RECURSIVE Esc(_, _, _, _)
Esc(d, i, z, acc) == IF i > Len(d) THEN acc
                     ELSE IF z >= 2 /\ d[i] <= 3 THEN Esc(d, i + 1, IF d[i] = 0 THEN 1 ELSE 0, acc \o << 3, d[i] >>)
                     ELSE Esc(d, i + 1, IF d[i] = 0 THEN z + 1 ELSE 0, Append(acc, d[i]))
Escape(d) == Esc(d, 1, 0, << >>)
RECURSIVE Une(_, _, _, _)
Une(d, i, z, acc) == IF i > Len(d) THEN acc
                     ELSE IF z >= 2 /\ d[i] = 3 THEN Une(d, i + 1, 0, acc)
                     ELSE Une(d, i + 1, IF d[i] = 0 THEN z + 1 ELSE 0, Append(acc, d[i]))
Unescape(d) == Une(d, 1, 0, << >>)

\* ---- a reader: i bits consumed (-1: ran out), v the value just read --------
R0 == [i |-> 0, v |-> 0]
Bad == [i |-> -1, v |-> 0]
Val(b, i, n) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, SubSeq(b, i + 1, i + n))
Skip(b, s, n) == IF s.i < 0 \/ s.i + n > Len(b) THEN Bad ELSE [i |-> s.i + n, v |-> 0]
U(b, s, n) == IF s.i < 0 \/ s.i + n > Len(b) THEN Bad ELSE [i |-> s.i + n, v |-> Val(b, s.i, n)]
\* a value of up to 32 bits as two halves
U32(b, s) == IF s.i < 0 \/ s.i + 32 > Len(b) THEN [i |-> -1, v |-> << 0, 0 >>]
             ELSE [i |-> s.i + 32, v |-> << Val(b, s.i, 16), Val(b, s.i + 16, 16) >>]
RECURSIVE Lead0(_, _, _)
Lead0(b, i, n) == IF i < Len(b) /\ b[i + 1] = 0 THEN Lead0(b, i + 1, n + 1) ELSE n
UE(b, s) == IF s.i < 0 THEN Bad
            ELSE LET k == Lead0(b, s.i, 0) IN
                 IF s.i + 2 * k + 1 > Len(b) THEN Bad
                 ELSE [i |-> s.i + 2 * k + 1, v |-> IF k > 29 THEN -1 ELSE Val(b, s.i + k, k + 1) - 1]
SE(b, s) == LET u == UE(b, s) IN
            [i |-> u.i, v |-> IF u.v % 2 = 1 THEN (u.v + 1) \div 2 ELSE 0 - u.v \div 2]
When(c, t, s) == IF c /\ s.i >= 0 THEN t ELSE s

RECURSIVE UEs(_, _, _)
UEs(b, s, n) == IF n <= 0 \/ s.i < 0 THEN s ELSE UEs(b, UE(b, s), n - 1)

\* ---- H.264 ----------------------------------------------------------------
High == {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

\* a scaling list: deltas are coded until the scale becomes zero
RECURSIVE ScalingList(_, _, _, _, _)
ScalingList(b, s, left, last, next) ==
  IF left = 0 \/ s.i < 0 \/ next = 0 THEN s
  ELSE LET d == SE(b, s)
           n == (last + d.v + 256) % 256 IN
       ScalingList(b, d, left - 1, IF n = 0 THEN last ELSE n, n)
RECURSIVE ScalingLists(_, _, _, _)
ScalingLists(b, s, k, n) ==
  IF k > n \/ s.i < 0 THEN s
  ELSE LET f == U(b, s, 1) IN
       ScalingLists(b, IF f.i >= 0 /\ f.v = 1 THEN ScalingList(b, f, IF k <= 6 THEN 16 ELSE 64, 8, 8) ELSE f, k + 1, n)

CropX264(chroma) == IF chroma \in {1, 2} THEN 2 ELSE 1
CropY264(chroma, fmo) == (IF chroma = 1 THEN 2 ELSE 1) * (2 - fmo)

Decode264(nal) ==
  LET b == Bits(Unescape(nal))
      hdr == Skip(b, R0, 8)
      profile == U(b, hdr, 8)
      cons == U(b, profile, 8)
      level == U(b, cons, 8)
      id == UE(b, level)
      high == profile.i >= 0 /\ profile.v \in High
      chroma == IF high THEN UE(b, id) ELSE [i |-> id.i, v |-> 1]
      sep == When(high /\ chroma.v = 3, U(b, chroma, 1), chroma)
      depth == When(high, UEs(b, sep, 2), sep)
      bypass == When(high, U(b, depth, 1), depth)
      matrix == IF high THEN U(b, bypass, 1) ELSE [i |-> id.i, v |-> 0]
      lists == When(high /\ matrix.v = 1, ScalingLists(b, matrix, 1, IF chroma.v = 3 THEN 12 ELSE 8), matrix)
      frameNum == UE(b, lists)
      poc == UE(b, frameNum)
      poc0 == When(poc.v = 0, UE(b, poc), poc)
      poc1 == When(poc.v = 1, UEs(b, U(b, poc0, 1), 2), poc0)
      cycle == IF poc.v = 1 THEN UE(b, poc1) ELSE [i |-> poc1.i, v |-> 0]
      poc2 == UEs(b, cycle, cycle.v)
      refs == UE(b, poc2)
      gaps == U(b, refs, 1)
      mbw == UE(b, gaps)
      mbh == UE(b, mbw)
      fmo == U(b, mbh, 1)
      mbaff == When(fmo.v = 0, U(b, fmo, 1), fmo)
      direct == U(b, mbaff, 1)
      crop == U(b, direct, 1)
      c1 == IF crop.v = 1 THEN UE(b, crop) ELSE [i |-> crop.i, v |-> 0]
      c2 == IF crop.v = 1 THEN UE(b, c1) ELSE [i |-> crop.i, v |-> 0]
      c3 == IF crop.v = 1 THEN UE(b, c2) ELSE [i |-> crop.i, v |-> 0]
      c4 == IF crop.v = 1 THEN UE(b, c3) ELSE [i |-> crop.i, v |-> 0]
      vui == U(b, c4, 1)
      v == vui.i >= 0 /\ vui.v = 1
      Opt(s, body(_)) == LET f == U(b, s, 1) IN IF f.i >= 0 /\ f.v = 1 THEN body(f) ELSE f
      Aspect(s) == LET a == U(b, s, 8) IN When(a.v = 255, Skip(b, a, 32), a)
      Colour(s) == Opt(Skip(b, s, 4), LAMBDA f : Skip(b, f, 24))
      v1 == When(v, Opt(vui, Aspect), vui)
      v2 == When(v, Opt(v1, LAMBDA f : Skip(b, f, 1)), v1)
      v3 == When(v, Opt(v2, Colour), v2)
      v4 == When(v, Opt(v3, LAMBDA f : UEs(b, f, 2)), v3)
      timing == IF v THEN U(b, v4, 1) ELSE [i |-> v4.i, v |-> 0]
      t == timing.i >= 0 /\ timing.v = 1
      units == IF t THEN U32(b, timing) ELSE [i |-> timing.i, v |-> << 0, 0 >>]
      scale == IF t THEN U32(b, units) ELSE [i |-> units.i, v |-> << 0, 0 >>]
      fixed == When(t, U(b, scale, 1), [i |-> scale.i, v |-> 0]) IN
  IF fixed.i < 0 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE,
        width |-> 16 * (mbw.v + 1) - CropX264(chroma.v) * (c1.v + c2.v),
        height |-> 16 * (2 - fmo.v) * (mbh.v + 1) - CropY264(chroma.v, fmo.v) * (c3.v + c4.v),
        profile |-> profile.v, level |-> level.v, id |-> id.v,
        coded |-> << cons.v \div 4, mbw.v + 1, mbh.v + 1, c1.v, c2.v, c3.v, c4.v >>,
        timing |-> IF t THEN << units.v, scale.v >> ELSE << >>]

\* fps is time_scale / (2 num_units_in_tick), truncated: for halves h = << hi, lo >>
Num(h) == h[1] * 65536 + h[2]
Small(h) == h[1] < 16384       \* less than 2^30: fits TLC's integers with room for products by two
FpsOk(timing, fps) ==
  IF timing = << >> THEN fps = 0
  ELSE IF ~Small(timing[1]) \/ ~Small(timing[2]) \/ Num(timing[1]) = 0 THEN TRUE
  ELSE fps = Num(timing[2]) \div (2 * Num(timing[1]))

\* encoder: q is a record of parameters
EncLists(q) == \* q.lists: for each list << >> (absent) or the deltas
  FlattenSeq([k \in 1..Len(q.lists) |-> Flag(q.lists[k] # << >>) \o FlattenSeq([j \in 1..Len(q.lists[k]) |-> Se(q.lists[k][j])])])
EncVui264(q) ==
  IF q.vui = "none" THEN << 0 >>
  ELSE << 1 >> \o
       (IF q.vui = "full" THEN << 1 >> \o NumBits(255, 8) \o NumBits(40, 16) \o NumBits(33, 16) \o << 1, 1 >> \o
                               << 1 >> \o NumBits(5, 3) \o << 1, 1 >> \o NumBits(65793, 24) \o << 1 >> \o Ue(2) \o Ue(5)
        ELSE IF q.vui = "part" THEN << 1 >> \o NumBits(1, 8) \o << 0 >> \o << 1 >> \o NumBits(5, 3) \o << 0, 0 >> \o << 0 >>
        ELSE << 0, 0, 0, 0 >>) \o
       (IF q.timing = << >> THEN << 0 >> ELSE << 1 >> \o NumBits(q.timing[1], 32) \o NumBits(q.timing[2], 32) \o << 1 >>) \o
       << 0, 0, 0, 0 >>
Encode264(q) == << 103 >> \o Escape(Bytes(
  NumBits(q.profile, 8) \o NumBits(0, 8) \o NumBits(q.level, 8) \o Ue(q.id) \o
  (IF q.profile \in High
   THEN Ue(q.chroma) \o (IF q.chroma = 3 THEN Flag(q.sep) ELSE << >>) \o Ue(0) \o Ue(2) \o << 0 >> \o
        Flag(q.lists # << >>) \o EncLists(q)
   ELSE << >>) \o
  Ue(q.frameNum) \o Ue(q.poc) \o
  (CASE q.poc = 0 -> Ue(q.frameNum)
     [] q.poc = 1 -> << 0 >> \o Se(0 - 3) \o Se(4) \o Ue(Len(q.cycle)) \o FlattenSeq([i \in 1..Len(q.cycle) |-> Se(q.cycle[i])])
     [] q.poc = 2 -> << >>) \o
  Ue(4) \o << 0 >> \o Ue(q.mbw - 1) \o Ue(q.mbh - 1) \o << q.fmo >> \o (IF q.fmo = 0 THEN << 1 >> ELSE << >>) \o << 1 >> \o
  (IF q.crop = << >> THEN << 0 >> ELSE << 1 >> \o FlattenSeq([i \in 1..4 |-> Ue(q.crop[i])])) \o
  EncVui264(q)))

Chroma264(q) == IF q.profile \in High THEN q.chroma ELSE 1
Size264(q) ==
  LET c == IF q.crop = << >> THEN << 0, 0, 0, 0 >> ELSE q.crop
      \* the standard's CropUnitX / CropUnitY, from SubWidthC / SubHeightC of the chroma array
      array == IF Chroma264(q) = 3 /\ q.sep THEN 0 ELSE Chroma264(q)
      ux == CASE array = 0 -> 1 [] array = 1 -> 2 [] array = 2 -> 2 [] array = 3 -> 1
      uy == (CASE array = 0 -> 1 [] array = 1 -> 2 [] array = 2 -> 1 [] array = 3 -> 1) * (2 - q.fmo) IN
  << 16 * q.mbw - ux * (c[1] + c[2]), 16 * q.mbh * (2 - q.fmo) - uy * (c[3] + c[4]) >>

\* ---- H.265 ----------------------------------------------------------------
RECURSIVE SubLayers(_, _, _, _)
SubLayers(b, s, flags, k) ==   \* flags: profile and level present flag of each sub-layer
  IF k > Len(flags) \div 2 THEN s
  ELSE SubLayers(b, Skip(b, s, 88 * flags[2 * k - 1] + 8 * flags[2 * k]), flags, k + 1)

Decode265(nal) ==   \* nal begins with its 2-byte header
  LET b == Bits(Unescape(SubSeq(nal, 3, Len(nal))))
      vps == Skip(b, R0, 4)
      sub == U(b, vps, 3)
      nest == Skip(b, sub, 1)
      ptl == Skip(b, nest, 96)
      flags == IF ptl.i < 0 \/ sub.v = 0 THEN [i |-> ptl.i, v |-> << >>]
               ELSE IF ptl.i + 16 > Len(b) THEN [i |-> -1, v |-> << >>]
               ELSE [i |-> ptl.i + 16, v |-> SubSeq(b, ptl.i + 1, ptl.i + 2 * sub.v)]
      layers == SubLayers(b, [i |-> flags.i, v |-> 0], flags.v, 1)
      id == UE(b, layers)
      chroma == UE(b, id)
      sep == When(chroma.v = 3, U(b, chroma, 1), chroma)
      w == UE(b, sep)
      h == UE(b, w)
      win == U(b, h, 1)
      o1 == IF win.v = 1 THEN UE(b, win) ELSE [i |-> win.i, v |-> 0]
      o2 == IF win.v = 1 THEN UE(b, o1) ELSE [i |-> win.i, v |-> 0]
      o3 == IF win.v = 1 THEN UE(b, o2) ELSE [i |-> win.i, v |-> 0]
      o4 == IF win.v = 1 THEN UE(b, o3) ELSE [i |-> win.i, v |-> 0]
      depth == UEs(b, o4, 3)
      info == U(b, depth, 1)
      order == UEs(b, info, 3 * (IF info.v = 1 THEN sub.v + 1 ELSE 1))
      rest == UEs(b, order, 6)
      ux == IF chroma.v \in {1, 2} THEN 2 ELSE 1
      uy == IF chroma.v = 1 THEN 2 ELSE 1 IN
  IF rest.i < 0 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, width |-> w.v - ux * (o1.v + o2.v), height |-> h.v - uy * (o3.v + o4.v),
        coded |-> << w.v, h.v >>]

Encode265(q) == << 66, 1 >> \o Escape(Bytes(
  NumBits(0, 4) \o NumBits(q.sub, 3) \o << 1 >> \o NumBits(1, 8) \o NumBits(q.compat, 16) \o NumBits(0, 64) \o NumBits(93, 8) \o
  (IF q.sub = 0 THEN << >>
   ELSE q.flags \o Zero(16 - 2 * q.sub) \o
        FlattenSeq([k \in 1..q.sub |-> (IF q.flags[2 * k - 1] = 1 THEN NumBits(q.compat, 16) \o Zero(71) \o << 1 >> ELSE << >>) \o
                                       (IF q.flags[2 * k] = 1 THEN NumBits(k, 8) ELSE << >>)])) \o
  Ue(q.id) \o Ue(q.chroma) \o (IF q.chroma = 3 THEN Flag(q.sep) ELSE << >>) \o Ue(q.w) \o Ue(q.h) \o
  (IF q.crop = << >> THEN << 0 >> ELSE << 1 >> \o FlattenSeq([i \in 1..4 |-> Ue(q.crop[i])])) \o
  Ue(0) \o Ue(2) \o Ue(4) \o Flag(q.info) \o
  FlattenSeq([k \in 1..(IF q.info THEN q.sub + 1 ELSE 1) |-> Ue(4) \o Ue(k) \o Ue(0)]) \o
  Ue(0) \o Ue(3) \o Ue(0) \o Ue(3) \o Ue(1) \o Ue(1) \o << 0, 1, 1, 0 >> \o Ue(0) \o << 0, 1, 1, 0, 0 >>))

Size265(q) ==
  LET c == IF q.crop = << >> THEN << 0, 0, 0, 0 >> ELSE q.crop
      sw == CASE q.chroma \in {0, 3} -> 1 [] q.chroma \in {1, 2} -> 2
      sh == CASE q.chroma = 1 -> 2 [] q.chroma # 1 -> 1 IN
  << q.w - sw * (c[1] + c[2]), q.h - sh * (c[3] + c[4]) >>
=============================================================================
