------------------------------ MODULE Registry ------------------------------
(* Track registry, muxer tracks, stream buffer indices and the file dump.     *)
(* A track is [tag, codec, type]; registries are sequences of tracks.         *)
EXTENDS Views

Tags(ts) == [i \in 1..Len(ts) |-> ts[i].tag]
\* tag of the first track for which Is holds, -1 if there is none
FirstTag(ts, OfThis(_)) == LET s == SelectSeq(ts, OfThis) IN IF s = << >> THEN 0 - 1 ELSE s[1].tag
ByCodec(ts, qs) == [i \in 1..Len(qs) |-> FirstTag(ts, LAMBDA x : x.codec = qs[i])]
ByType(ts, qs) == [i \in 1..Len(qs) |-> FirstTag(ts, LAMBDA x : x.type = qs[i])]

\* a muxer takes one track per media type
MuxOk(ts, tr) == \A i \in 1..Len(ts) : ts[i].type # tr.type
MuxAdd(ts, tr) == IF MuxOk(ts, tr) THEN Append(ts, tr) ELSE ts
MuxRes(ts, tr) == IF MuxOk(ts, tr) THEN Len(ts) ELSE 0 - 1

\* stream markers in the order they were first seen
IndexOf(ms, m) == IF \E i \in 1..Len(ms) : ms[i] = m THEN (CHOOSE i \in 1..Len(ms) : ms[i] = m) - 1 ELSE Len(ms)
MarkAdd(ms, m) == IF IndexOf(ms, m) = Len(ms) THEN Append(ms, m) ELSE ms

\* --- dump: a file holds the playable form of its packets one after another
\* position behind a segment list starting at i in out, -1 if it does not match
RECURSIVE EndOf(_, _, _, _)
EndOf(out, i, segs, k) ==
  IF k > Len(segs) THEN i
  ELSE LET b == segs[k][2]
           fits(j) == j + Len(b) <= Len(out) /\ SubSeq(out, j + 1, j + Len(b)) = b IN
       IF ~segs[k][1] THEN IF fits(i) THEN EndOf(out, i + Len(b), segs, k + 1) ELSE 0 - 1
       ELSE IF i + 3 <= Len(out) /\ SubSeq(out, i + 1, i + 3) = << 0, 0, 1 >>
            THEN IF fits(i + 3) THEN EndOf(out, i + 3 + Len(b), segs, k + 1) ELSE 0 - 1
       ELSE IF i + 4 <= Len(out) /\ SubSeq(out, i + 1, i + 4) = Code4 /\ fits(i + 4)
            THEN EndOf(out, i + 4 + Len(b), segs, k + 1) ELSE 0 - 1

\* what may be written for packet p: its data (audio) or its Annex-B view, the
\* stream's parameter sets possibly once more in front of a converted key frame
Playable(p) ==
  IF p.codec \notin {"h264", "h265"} THEN {<< << FALSE, p.data >> >>}
  ELSE AnnexB(p) \cup (IF p.form = 2 /\ p.key /\ p.has
                       THEN {<< << FALSE, p.extra >> >> \o a : a \in AnnexB(p)} ELSE {})

RECURSIVE Reach(_, _, _, _)
Reach(out, ps, k, at) ==
  IF k > Len(ps) THEN at
  ELSE LET alts == Playable(ps[k]) IN
       Reach(out, ps, k + 1, {e \in {EndOf(out, i, a, 1) : i \in at, a \in alts} : e >= 0})
FileOk(out, ps) == Len(out) \in Reach(out, ps, 1, {0})
=============================================================================
