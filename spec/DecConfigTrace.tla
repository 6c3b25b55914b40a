--------------------------- MODULE DecConfigTrace ---------------------------
EXTENDS DecConfig, TraceLib

VARIABLE l
Init == l = 1

Kinds(r, p) == IF r.codec = "avc" THEN << p.sps, p.pps >> ELSE << p.vps, p.sps, p.pps >>
Parse(r, d) == IF r.codec = "avc" THEN ParseAvc(d) ELSE ParseHevc(d)
CodedAll(ks) == [k \in 1..Len(ks) |-> Coded(ks[k])]

\* what the library says about the record bytes d: o
Read(r, d, o) ==
  LET p == Parse(r, d) IN
  IF ~p.ok
  THEN /\ Demand(~o.ok, l, <<"an error", p.why>>)
       /\ Demand(~o.annexb.ok, l, <<"no Annex-B form", p.why>>)
       /\ Demand(p.why # "short" \/ ~o.m4vc.ok, l, <<"no Annex-B form (m4vc)", p.why>>)
       /\ Demand(~o.data.ok, l, <<"no codec data", p.why>>)
  ELSE LET k == Kinds(r, p) IN
       /\ Demand(o.ok /\ o.header = p.header, l, <<"header", p.header>>)
       /\ Demand(o.kinds = CodedAll(k), l, <<"sets", k>>)
       /\ Demand(o.annexb.ok /\ o.annexb.bytes = AnnexB(k), l, <<"Annex-B", k>>)
       /\ Demand(r.codec # "avc" \/ (o.m4vc.ok /\ o.m4vc.bytes = AnnexB(k)), l, <<"Annex-B (m4vc)", k>>)
       /\ Demand(~r.valid \/ o.data.ok, l, "codec data")
       /\ Demand(~o.data.ok \/ (/\ o.data.annexb = AnnexB(k) /\ o.data.mp4 = d
                                /\ o.data.kinds = CodedAll(k)), l, <<"codec data", k>>)

\* what a record can hold: 16-bit lengths, 5-bit and 8-bit counts (H.264), 16-bit counts (H.265)
Fits(codec, want) ==
  /\ \A k \in 1..Len(want) : \A j \in 1..Len(want[k]) : Len(want[k][j]) <= 65535
  /\ IF codec = "avc" THEN Len(want[1]) <= 31 /\ Len(want[2]) <= 255
     ELSE \A k \in 1..Len(want) : Len(want[k]) <= 65535

Build(r) ==
  LET want == [k \in 1..Len(r.sets) |-> Stripped(r.sets[k])] IN
  IF << >> \in Range(r.sets) THEN Demand(~r.made.ok, l, "an error: a kind is missing")
  ELSE IF ~Fits(r.codec, want) THEN Demand(~r.made.ok, l, "an error: a record cannot hold that")
  ELSE /\ Demand(r.made.ok, l, "a record")
       /\ LET p == Parse(r, r.made.bytes) IN
          /\ Demand(p.ok /\ Kinds(r, p) = want /\ p.used = Len(r.made.bytes), l, <<"a record of", want>>)
          /\ r.codec = "avc" =>
               Demand(/\ p.header[1] = 1 /\ p.header[5] = 3
                      /\ \E k \in 1..Len(want[1]) : SubSeq(p.header, 2, 4) = SubSeq(want[1][k], 2, 4), l, "version 1, the profile bytes of the SPS, 4-byte lengths")
          /\ r.codec = "hevc" => Demand(p.header[1] = 1 /\ p.header[25] = 4, l, "version 1, 4-byte lengths")
          /\ Read(r, r.made.bytes, r.o)

Ok(r) == IF r.op = "parse" THEN Read(r, r.d, r.o) ELSE Build(r)

Next == /\ l <= Len(Trace)
        /\ Demand(~Trace[l].panic, l, "no panic")
        /\ Ok(Trace[l]) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
