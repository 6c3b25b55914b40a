--------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, TraceLib

VARIABLES l, ts, ms, done, files
vars == <<l, ts, ms, done, files>>
Init == l = 1 /\ ts = << >> /\ ms = << >> /\ done = FALSE /\ files = << >>

Tr(r) == [tag |-> r.tag, codec |-> r.codec, type |-> r.type]

Seen(r, t, d) == Demand(r.seen = [tags |-> Tags(t), codecs |-> ByCodec(t, r.qc), types |-> ByType(t, r.qt), done |-> d],
                        l, [tags |-> Tags(t), codecs |-> ByCodec(t, r.qc), types |-> ByType(t, r.qt), done |-> d])

Ok(r) ==
  /\ Demand(~r.panic, l, "no panic")
  /\ CASE r.op = "new" -> TRUE
       [] r.op = "add" -> Demand(r.res = Len(ts), l, Len(ts)) /\ Seen(r, Append(ts, Tr(r)), done)
       [] r.op = "muxadd" -> Demand(r.res = MuxRes(ts, Tr(r)), l, MuxRes(ts, Tr(r))) /\ Seen(r, MuxAdd(ts, Tr(r)), done)
       [] r.op = "header" -> Demand(r.res = 0, l, "no error") /\ Seen(r, ts, TRUE)
       [] r.op = "mark" -> Demand(r.res = IndexOf(ms, r.codec), l, IndexOf(ms, r.codec))
       \* dump: a track gets a file of its own, packets go to their track's file
       [] r.op = "track" -> Demand(r.res = 1, l, "one new file")
       [] r.op \in {"packet", "input"} -> TRUE
       [] r.op = "file" -> Demand(FileOk(r.out, files[r.res + 1]), l, <<"the playable packets of track", r.res, files[r.res + 1]>>)

Next == /\ l <= Len(Trace)
        /\ Ok(Trace[l]) = TRUE
        /\ LET r == Trace[l] IN
           /\ ts' = CASE r.op = "new" -> << >> [] r.op = "add" -> Append(ts, Tr(r)) [] r.op = "muxadd" -> MuxAdd(ts, Tr(r)) [] OTHER -> ts
           /\ ms' = CASE r.op = "new" -> << >> [] r.op = "mark" -> MarkAdd(ms, r.codec) [] OTHER -> ms
           /\ done' = CASE r.op = "new" -> FALSE [] r.op = "header" -> TRUE [] OTHER -> done
           /\ files' = CASE r.op = "new" -> << >> [] r.op = "track" -> Append(files, << >>)
                         [] r.op = "packet" -> [files EXCEPT ![r.res + 1] = Append(@, r.p)] [] OTHER -> files
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
