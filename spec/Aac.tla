-------------------------------- MODULE Aac ---------------------------------
(* C13: ADTS headers and AudioSpecificConfigs, by their bit layout.           *)
EXTENDS Cursors

RECURSIVE ValueOf(_)
ValueOf(b) == IF b = << >> THEN 0 ELSE 2 * ValueOf(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Field(data, off, n) == ValueOf(BitsAt(data, off, n))

\* fields of an ADTS header, in order of the bits (offset, width):
\* sync 12, id 1, layer 2, protection_absent 1, profile 2, sampling index 4,
\* private 1, channel configuration 3, original 1, home 1, copyright bit 1,
\* copyright start 1, frame length 13, fullness 11, blocks 2
AdtsFields(d) ==
  << Field(d, 0, 12), Field(d, 12, 1), Field(d, 13, 2), Field(d, 15, 1), Field(d, 16, 2),
     Field(d, 18, 4), Field(d, 22, 1), Field(d, 23, 3), Field(d, 26, 1), Field(d, 27, 1),
     Field(d, 28, 1), Field(d, 29, 1), Field(d, 30, 13), Field(d, 43, 11), Field(d, 54, 2) >>

AdtsOk(d) == Len(d) >= 7 /\ Field(d, 0, 12) = 4095
HeaderLen(f) == IF f[4] = 1 THEN 7 ELSE 9

Rates == << 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 >>
KnownRate(i) == i < Len(Rates)
Rate(i) == Rates[i + 1]
RateIndex(r) == (CHOOSE k \in 1..Len(Rates) : Rates[k] = r) - 1

\* channel configurations with a defined number of channels; the others are not judged
ChannelCounts == << 1, 2, 3, 4, 5, 6, 8 >>
KnownChan(c) == (c >= 1 /\ c <= 7) \/ c \in {11, 12, 13}
Chans(c) == CASE c = 11 -> 7 [] c = 12 -> 8 [] c = 13 -> 24 [] OTHER -> ChannelCounts[c]

\* AudioSpecificConfig: object type 5, sampling index 4, channel configuration 4
AscFields(d) == << Field(d, 0, 5), Field(d, 5, 4), Field(d, 9, 4) >>
\* the escape object type and the explicit rate use a longer layout: not judged
AscPlain(d) == Field(d, 0, 5) # 31 /\ Field(d, 5, 4) # 15
=============================================================================
