------------------------------ MODULE AacTrace ------------------------------
EXTENDS Aac, TraceLib

VARIABLE l
Init == l = 1

RateOk(idx, r) == KnownRate(idx) => r = Rate(idx)
ChanOk(c, n) == KnownChan(c) => n = Chans(c)

\* what the library makes of the AudioSpecificConfig bytes d
ParseOk(d, r) ==
  IF Len(d) < 2 THEN Demand(~r.ok, l, "an error: too short")
  ELSE IF ~AscPlain(d) THEN TRUE
  ELSE IF AscFields(d)[3] \in {0, 14, 15} /\ ~r.ok THEN TRUE
  ELSE /\ Demand(r.ok, l, "no error")
       /\ Demand(<< r.obj, r.idx, r.chan >> = AscFields(d), l, AscFields(d))
       /\ Demand(RateOk(AscFields(d)[2], r.rate) /\ ChanOk(AscFields(d)[3], r.channels), l,
                 <<"rate, channels of", AscFields(d)>>)

\* header -> configuration -> parameters
FromAdts(d, r) ==
  LET f == AdtsFields(d)
      a == r.asc IN
  /\ Demand(r.fields = f, l, f)
  /\ Demand(a.ok /\ Len(a.bytes) >= 2, l, "an AudioSpecificConfig")
  /\ Demand(AscFields(a.bytes) = << f[5] + 1, f[6], f[8] >>, l, << f[5] + 1, f[6], f[8] >>)
  /\ ParseOk(a.bytes, a.parsed)
  \* parameters extracted from the packet
  /\ Demand(r.ext.ok, l, "extraction succeeds")
  /\ Demand(r.ext.bytes = a.bytes, l, a.bytes)
  /\ Demand(r.ext.skip = HeaderLen(f), l, HeaderLen(f))
  /\ Demand(r.ext.adts /\ RateOk(f[6], r.ext.rate) /\ ChanOk(f[8], r.ext.channels), l, <<"rate, channels of", f>>)
  /\ Demand(r.ext.channels = a.parsed.channels /\ (KnownRate(f[6]) => r.ext.rate = a.parsed.rate), l, "the configuration's parameters")

Ok(r) ==
  CASE r.op = "write" ->
         /\ Demand(r.in.ok, l, "a header")
         /\ LET d == r.in.data  f == AdtsFields(d) IN
            /\ Demand(AdtsOk(d), l, "a sync word")
            /\ Demand(<< f[2], f[5], f[6], f[8], f[13] >> = r.args /\ f[4] = 1, l, r.args)
            \* one frame of AAC at a variable rate and nothing else
            /\ Demand(<< f[3], f[7], f[9], f[10], f[11], f[12], f[14], f[15] >> = << 0, 0, 0, 0, 0, 0, 2047, 0 >>,
                      l, "layer 0, no flags, fullness 2047, one block")
            /\ Demand(r.read.ok, l, "the header reads back")
            /\ FromAdts(d, r.read)
    [] r.op = "read" ->
         IF AdtsOk(r.in.data) THEN Demand(r.read.ok, l, "the header reads") /\ FromAdts(r.in.data, r.read)
         ELSE Demand(~r.read.ok /\ ~r.read.ext.ok, l, "an error")
    [] r.op = "asc" -> ParseOk(r.in.data, r.parsed)
    [] r.op = "rate" ->   \* args = << index, rate of index, index of that rate >>
         Demand(r.args = << r.args[1], Rate(r.args[1]), r.args[1] >>, l, Rate(r.args[1]))

Next == /\ l <= Len(Trace)
        /\ Demand(~Trace[l].panic, l, "no panic")
        /\ Ok(Trace[l]) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
