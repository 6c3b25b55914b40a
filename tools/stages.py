"""What is run for each property."""
from lib import Design, Explore, Generate, Validate, Run, race_harness, sched_harness


def ring_cfg(spec, cap, sizes, maxcap, blocks, disc, inv=True, full=False, lost=False, gen=False):
    s = "SPECIFICATION %s\nCONSTANTS\n InitCap = %d\n Sizes = {%s}\n MaxCap = %d\n MaxBlocks = %d\n MaxDisc = %d\n" % (
        spec, cap, ",".join(map(str, sizes)), maxcap, blocks, disc)
    s += " FULLBUG = %s\n DISCBUG = %s\n EMPTYBUG = FALSE\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n" % (
        "TRUE" if full else "FALSE", "TRUE" if lost else "FALSE")
    if inv:
        s += "INVARIANTS Refines InBounds NoOverlap Intact\n"
    if not gen:
        s += "VIEW DesignView\n"
    if gen:
        s += "VIEW View\nACTION_CONSTRAINT Emit\n"
    return s


def c05(t):
    q = t.quick
    st = [
        Design("RingLayout", ring_cfg("Spec", 4, [0, 1, 2, 3], 10 if q else 16, 3 if q else 4, 2 if q else 3)),
        Design("RingLayout", ring_cfg("Spec", 4, [1, 2, 3], 12, 3, 2, full=True), expect="violation", note="full ring taken for empty"),
        Design("RingLayout", ring_cfg("Spec", 2, [1, 2, 3], 20, 4, 3, lost=True), expect="violation", note="second growth forgets the first"),
        Generate("RingGen", ring_cfg("GSpec", 4, [0, 1, 2, 3], 10, 3, 2, inv=False, gen=True), "ring", note="cap4"),
        Validate("RingTrace", "ring", 60 if q else 3000, shards=4 if q else 16),
    ]
    if not q:
        st += [Generate("RingGen", ring_cfg("GSpec", 6, [1, 2, 3, 5], 18, 4, 3, inv=False, gen=True), "ring", note="cap6", heap="8g"),
               Generate("RingGen", ring_cfg("GSpec", 1, [0, 1, 2], 12, 4, 3, inv=False, gen=True), "ring", note="cap1")]
    return st


def lin_cfg(cap, sizes, maxcap, blocks, bufs):
    return ("SPECIFICATION Spec\nCONSTANTS\n InitCap = %d\n Sizes = {%s}\n MaxCap = %d\n MaxBlocks = %d\n MaxBufs = %d\n"
            "CONSTRAINT Bound\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
            % (cap, ",".join(map(str, sizes)), maxcap, blocks, bufs))


def c06(t):
    q = t.quick
    st = [
        Generate("LinearGen", lin_cfg(3, [0, 1, 3], 9, 3, 1), "linear", note="one"),
        Generate("LinearGen", lin_cfg(3, [1, 2], 4, 2, 2), "linear", note="split"),
        Validate("LinearTrace", "linear", 60 if q else 3000, shards=4 if q else 16),
    ]
    if not q:
        st += [Generate("LinearGen", lin_cfg(2, [0, 1, 2, 4], 16, 4, 1), "linear", note="one deep", heap="8g"),
               Generate("LinearGen", lin_cfg(4, [0, 1, 3], 7, 2, 3), "linear", note="split deep", heap="8g")]
    return st


def cont_cfg(kinds, caps, maxcap, maxlen, gen=True, bug=False):
    s = ("SPECIFICATION Spec\nCONSTANTS\n Kinds = {%s}\n Caps = {%s}\n MaxCap = %d\n MaxLen = %d\n GROWBUG = %s\n"
         "CONSTRAINT Bound\nVIEW View\nINVARIANTS Refines Sane\nCHECK_DEADLOCK FALSE\n"
         % (",".join('"%s"' % k for k in kinds), ",".join(map(str, caps)), maxcap, maxlen, "TRUE" if bug else "FALSE"))
    return s + ("ACTION_CONSTRAINT Emit\n" if gen else "")


def c07(t):
    q = t.quick
    return [
        Design("ContainersGen", cont_cfg(["queue"], [2], 8, 6, gen=False, bug=True), expect="violation", note="growth copies one part"),
        Generate("ContainersGen", cont_cfg(["queue", "ring"], [1, 2, 3, 4], 16 if q else 64, 14 if q else 40), "containers", note="array"),
        Generate("ContainersGen", cont_cfg(["list"], [1], 1, 6 if q else 12), "containers", note="list"),
        Validate("ContainersTrace", "containers", 150 if q else 3000, shards=4 if q else 16),
    ]


def pipe_cfg(kinds, streams, types, sizes, depth, blocks, small=True):
    return ("SPECIFICATION Spec\nCONSTANTS\n Small = %s\n Kinds = {%s}\n Streams = {%s}\n Types = {%s}\n Sizes = {%s}\n Depth = %d\n MaxBlocks = %d\n"
            "CONSTRAINT Bound\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
            % ("TRUE" if small else "FALSE", ",".join('"%s"' % k for k in kinds), ",".join(map(str, streams)), ",".join(map(str, types)),
               ",".join(map(str, sizes)), depth, blocks))


def c18(t):
    q = t.quick
    return [
        Generate("PipelineGen", pipe_cfg(["streams"], [0, 1, 2], [0, 1], [1], 4 if q else 5, 9), "pipeline", note="three streams"),
        Generate("PipelineGen", pipe_cfg(["streams"], [0, 1], [0, 1], [1, 3], 4 if q else 5, 9), "pipeline", note="two streams"),
        Generate("PipelineGen", pipe_cfg(["streams"], [0, 1], [0, 1], [2, 3], 3 if q else 4, 9, small=False), "pipeline", note="real sizes"),
        Generate("PipelineGen", pipe_cfg(["direct"], [0], [0], [0, 1, 2], 5 if q else 7, 9), "pipeline", note="direct"),
        Validate("PipelineTrace", "pipeline", 40 if q else 1500, shards=4 if q else 16),
    ]


def c16(t):
    q = t.quick
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n Lens = {%s}\n Args = {%s}\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           % (",".join(map(str, range(0, 11 if q else 21))), ",".join(map(str, range(0, 5 if q else 10)))))
    return [
        Generate("CursorsGen", cfg, "cursors"),
        Validate("CursorsTrace", "cursors", 60 if q else 3000, shards=6 if q else 16),
    ]


def c15(t):
    q = t.quick
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n MaxTs = %d\n MaxBase = %d\nINVARIANTS Identity Mirror Ordered ThereAndBack Agree DiffOk\n"
           "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % ((30, 9) if q else (200, 30)))
    return [
        Generate("TimeBaseGen", cfg, "timebase"),
        Validate("TimeBaseTrace", "timebase", 1500 if q else 60000, shards=6 if q else 16),
    ]


def c13(t):
    return [Validate("AacTrace", "aac", 300 if t.quick else 20000, shards=8 if t.quick else 16)]


def nal_cfg(alphabet, maxlen, heads, units):
    return ("SPECIFICATION Spec\nCONSTANTS\n Alphabet = {%s}\n MaxLen = %d\n Heads = {%s}\n MaxUnits = %d\n"
            "INVARIANTS Concat OnePerUnit Counted\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
            % (",".join(map(str, alphabet)), maxlen, ",".join(map(str, heads)), units))


def c10(t):
    q = t.quick
    h264 = [0x65, 0x41, 0x06, 0x67, 0x68, 0x09, 0x0C]
    h265 = [0x40, 0x42, 0x44, 0x46, 0x4E, 0x26, 0x2A, 0x02, 0x00]
    return [
        Generate("NalGen", nal_cfg([0, 1, 0x65], 8 if q else 10, h264, 2), "nal", note="h264", heap="4g"),
        Generate("NalGen", nal_cfg([0, 1, 0x26], 7 if q else 9, h265, 2), "nal", note="h265", heap="4g"),
        Generate("NalGen", nal_cfg([0], 1, [0x65, 0x41, 0x67, 0x68], 3 if q else 4), "nal", note="units h264", heap="4g"),
        Generate("NalGen", nal_cfg([0], 1, [0x40, 0x42, 0x44, 0x26], 3 if q else 4), "nal", note="units h265", heap="4g"),
        Validate("NalTrace", "nal", 1500 if q else 20000, shards=4 if q else 16),
    ]


def conv_cfg(codec, n, sizes):
    return ("SPECIFICATION Spec\nCONSTANTS\n Codec = \"%s\"\n UnitSet <- UnitSetV\n MaxUnits = %d\n LenSizes = {%s}\n Extras <- ExtrasV\n"
            "INVARIANTS Back BackB Fits\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (codec, n, ",".join(map(str, sizes)))
            )


def c09(t):
    q = t.quick
    return [
        Generate("ConvertAvc", conv_cfg("avc", 3 if q else 4, [4]), "convert"),
        Generate("ConvertHevc", conv_cfg("hevc", 3 if q else 4, [1, 2, 3, 4] if not q else [1, 2, 4]), "convert"),
        Validate("ConvertTrace", "convert", 300 if q else 6000, shards=4 if q else 16),
    ]


def sps_cfg(codecs, profiles, chromas, pocs, vuis, lists, subs):
    st = lambda xs: ",".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs)
    return ("SPECIFICATION Spec\nCONSTANTS\n Codecs = {%s}\n Profiles = {%s}\n Chromas = {%s}\n Pocs = {%s}\n Vuis = {%s}\n ListKinds = {%s}\n"
            " Subs = {%s}\nINVARIANTS Agree\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
            % tuple(map(st, (codecs, profiles, chromas, pocs, vuis, lists, subs))))


def c12(t):
    q = t.quick
    high = [100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135]
    vuis, lists = ["none", "bare", "part", "full"], ["none", "empty", "early", "full"]
    st = [
        Generate("SpsGen", sps_cfg(["avc"], high + [66, 77], [0, 1, 2, 3], [0], ["none"], ["none", "early"], [0]), "sps", note="profiles"),
        Generate("SpsGen", sps_cfg(["avc"], [100] if q else high, [1, 3], [1], vuis, lists, [0]), "sps", note="options"),
        Generate("SpsGen", sps_cfg(["avc"], [66], [1], [0, 1, 2], vuis, ["none"], [0]), "sps", note="baseline"),
        Generate("SpsGen", sps_cfg(["hevc"], [66], [0, 1, 2, 3] if not q else [1, 3], [0], ["none"], ["none"], range(7)), "sps", note="h265"),
        Validate("SpsTrace", "sps", 500 if q else 10000, shards=4 if q else 16),
    ]
    return st


def dec_cfg(codec, sets, arrays, types):
    return ("SPECIFICATION Spec\nCONSTANTS\n Codec = \"%s\"\n MaxSets = %d\n MaxArrays = %d\n Types = {%s}\n"
            "INVARIANTS BackAvc BackHevc Cuts\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (codec, sets, arrays, ",".join(map(str, types))))


def c11(t):
    q = t.quick
    return [
        Generate("DecConfigGen", dec_cfg("avc", 6 if q else 12, 0, [32]), "decconfig", note="avc"),
        Generate("DecConfigGen", dec_cfg("hevc", 1, 4 if q else 5, [32, 33, 34, 39]), "decconfig", note="hevc arrays"),
        Generate("DecConfigGen", dec_cfg("hevc", 2 if q else 3, 3, [32, 33, 34]), "decconfig", note="hevc sets"),
        Validate("DecConfigTrace", "decconfig", 400 if q else 6000, shards=4 if q else 16),
    ]


def c08(t):
    q = t.quick
    lin = "SPECIFICATION Spec\nCONSTRAINT Reached\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n"
    des = "SPECIFICATION Spec\nCONSTANTS\n Procs = {%s}\n MaxCalls = %d\n SPLIT = %s\nINVARIANTS Counted OneLast\nCHECK_DEADLOCK FALSE\n"
    return [
        Design("RefCount", des % ("1, 2, 3", 4 if q else 6, "FALSE")),
        Design("RefCount", des % ("1, 2", 2, "TRUE"), expect="violation", note="count looked at after the decrement"),
        Validate("RefCountTrace", "refsched", 40 if q else 4000, shards=4 if q else 8, cfg=lin, binary=sched_harness, heap="2g"),
        Validate("RefCountTrace", "refcount", 3000 if q else 100000, shards=2 if q else 4, cfg=lin, base=1, heap="2g"),
        Validate("RefCountTrace", "refcount", 1000 if q else 30000, shards=2, cfg=lin, binary=race_harness, note="race", base=2, heap="2g"),
        Validate("RefCountTrace", "refmass", 200 if q else 5000, shards=1, cfg=lin, base=3),
        Validate("RefCountTrace", "refmass", 40 if q else 500, shards=1, cfg=lin, binary=race_harness, note="race", base=4),
    ]


def c14(t):
    q = t.quick
    pool = ("SPECIFICATION Spec\nCONSTANTS\n Objects = {1, 2}\n Contents = {\"x\", \"y\"}\n Depth = %d\n STALE = %s\n SHARE = %s\n"
            "INVARIANTS Faithful Exclusive FreeIsClean\nCHECK_DEADLOCK FALSE\n")
    gen = ("SPECIFICATION Spec\nCONSTANTS\n Kinds <- KindsV\n Slots = {%s}\n Depth = %d\nINVARIANTS SameUnits\n"
           "ACTION_CONSTRAINT Emit\nCONSTRAINT Sane\nCHECK_DEADLOCK FALSE\n")
    return [
        Design("Pool", pool % (8 if q else 12, "FALSE", "FALSE")),
        Design("Pool", pool % (8, "TRUE", "FALSE"), expect="violation", note="a view survives freeing"),
        Design("Pool", pool % (8, "FALSE", "TRUE"), expect="violation", note="freed twice"),
        Generate("ViewsGen", gen % ("1", 5 if q else 6), "views", note="one packet at a time"),
        Generate("ViewsGen", gen % ("1, 2", 4 if q else 5), "views", note="two packets"),
        Validate("ViewsTrace", "views", 60 if q else 3000, shards=4 if q else 16),
        Validate("ViewsTrace", "views", 20 if q else 600, shards=2 if q else 8, opt={"procs": "4"}, binary=race_harness, note="race", base=1),
        Validate("ViewsTrace", "views", 20 if q else 600, shards=2 if q else 8, opt={"procs": "8"}, note="threads", base=2),
    ]


def c19(t):
    q = t.quick
    gen = ("SPECIFICATION Spec\nCONSTANTS\n Kind = \"%s\"\n Codecs = {%s}\n Types = {%s}\n Depth = %d\nINVARIANTS OnePerType Distinct Stable\n"
           "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    return [
        Generate("RegistryGen", gen % ("registry", "1, 2", "0, 1", 5 if q else 6), "registry", note="registry"),
        Generate("RegistryGen", gen % ("muxer", "1, 2", "0, 1, 2", 4 if q else 5), "registry", note="muxer"),
        Generate("RegistryGen", gen % ("markers", "0, 1, 2, 7", "0", 6 if q else 8), "registry", note="markers"),
        Validate("RegistryTrace", "registry", 120 if q else 4000, shards=6 if q else 16),
    ]


def dmx_cfg(name, codecs, steps, depth, maxpend, pd=0, extra='"probe", "try"', autos="TRUE, FALSE", bug="none", full=False, design=False):
    s = ("SPECIFICATION Spec\nCONSTANTS\n Name = \"%s\"\n Autos = {%s}\n Codecs <- %s\n Steps = {%s}\n Depth = %d\n MaxPend = %d\n Pd = %d\n"
         " Extra = {%s}\n Bug = \"%s\"\n Full = %s\nCONSTRAINT Bound\nVIEW View\nCHECK_DEADLOCK FALSE\n"
         % (name, autos, codecs, ",".join(map(str, steps)), depth, maxpend, pd, extra, bug, "TRUE" if full else "FALSE"))
    return s + ("INVARIANTS OneProtocol OnceInOrder OneHeldBack NothingEarly Conserved HandlerOwns WindowClosed\n" if design
                else "ACTION_CONSTRAINT Emit\n")


def demux(t, prop, bugs):
    """The demuxer: the same sessions, judged by the property at hand."""
    q = t.quick
    cfg = "SPECIFICATION Spec\nCONSTANT Props = {\"%s\"}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % prop
    st = [Design("DemuxGen", dmx_cfg("ts", "AacAvc", [0, 100], 5 if q else 7, 4, design=True), workers=2 if q else 6, heap="3g" if q else "10g")]
    st += [Design("DemuxGen", dmx_cfg("ts", "AacAvc", [0, 100], 6, 4, bug=b, design=True), expect="violation", note=b) for b in bugs]
    gens = [("ts", "AacAvc", [0, 100], 5, 4, {}), ("ps", "PcmHevc", [0, 40, 200], 5, 4, {}), ("flv", "AacAvc", [0, 100], 5, 4, {}),
            ("ts", "AvcAvc", [0, 100], 4, 4, {}), ("jt1078", "Three", [100], 5, 4, {}), ("ps", "AacAac", [0, 250], 5, 3, {"pd": 300, "extra": '"probe", "setpd"'})]
    for n, c, steps, depth, mp, kw in gens:
        st.append(Explore("DemuxGen", dmx_cfg(n, c, steps, depth + (0 if q else 2), mp + (0 if q else 1), **kw), "DemuxTrace", cfg, "demuxgen",
                          parts=1 if q else 6, heap="3g" if q else "12g", note=n + " " + c))
    if not q:
        st.append(Explore("DemuxGen", dmx_cfg("ts", "AacAvc", [0, 100], 4, 9, full=True), "DemuxTrace", cfg, "demuxgen", parts=8, heap="12g", note="every history"))
    base = int(prop[1:]) * 7
    st.append(Validate("DemuxTrace", "demux", 400 if q else 6000, shards=4 if q else 16, cfg=cfg, base=base))
    st.append(Validate("DemuxTrace", "demux", 16 if q else 300, shards=1 if q else 4, cfg=cfg, base=base + 1, opt={"big": "1"}, note="large payloads"))
    st.append(Validate("DemuxTrace", "demux", 12 if q else 200, shards=1 if q else 4, cfg=cfg, base=base + 2, opt={"dense": "1"}, note="long backlog"))
    st.append(Validate("DemuxTrace", "demux", 1 if q else 4, shards=1 if q else 4, cfg=cfg, base=base + 3, opt={"dense": "1", "long": "24000" if q else "110000"}, note="long session", heap="1200m" if q else "5g"))
    return st


def c01(t):
    return demux(t, "C01", ["late"])


def c02(t):
    return demux(t, "C02", ["lost", "eager"])


def c03(t):
    return demux(t, "C03", ["leak"])


def c04(t):
    return demux(t, "C04", [])


def hostile_cfg(spec, which="1", values="0", edits=0, alphabet="0", maxlen=0):
    return ("SPECIFICATION %s\nCONSTANTS\n Which = {%s}\n Values = {%s}\n Edits = %d\n Alphabet = {%s}\n MaxLen = %d\nVIEW View\n"
            "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (spec, which, values, edits, alphabet, maxlen))


def c17(t):
    q = t.quick
    cfg = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    st = []

    def explore(gencfg, note):
        st.append(Explore("HostileGen", gencfg, "HostileTrace", cfg, "hostilegen", parts=1 if q else 6, heap="3g" if q else "10g", note=note))
    explore(hostile_cfg("Spec", "1, 2, 3, 4, 5, 6, 7, 8, 9, 10", "0, 1, 2, 3, 127, 128, 254, 255", 1), "one edit")
    for which in ["1", "9, 10"] if q else ["1", "3", "5", "7", "8", "9, 10"]:
        explore(hostile_cfg("Spec", which, "0, 255" if q else "0, 1, 128, 255", 2), "two edits of " + which)
    for alphabet, n in [("0, 1, 3, 103", 6), ("0, 2, 38, 255", 5), ("1, 65, 66, 68", 5), ("255, 241, 80, 0", 5)]:
        explore(hostile_cfg("SSpec", alphabet=alphabet, maxlen=n + (0 if q else 2)), "strings over " + alphabet)
    st.append(Validate("HostileTrace", "hostile", 1500 if q else 60000, shards=4 if q else 16, cfg=cfg, base=119))
    # sessions of a demuxer fed junk between good data
    cfg = "SPECIFICATION Spec\nCONSTANT Props = {\"C01\", \"C02\", \"C03\", \"C04\"}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    for n, c, steps, depth in [("ts", "AacAvc", [0, 100], 4), ("flv", "AacAvc", [100], 4), ("ps", "PcmHevc", [200], 4)]:
        st.append(Explore("DemuxGen", dmx_cfg(n, c, steps, depth + (0 if q else 2), 4, extra='"probe", "junk"'), "DemuxTrace", cfg, "demuxgen",
                          parts=1 if q else 6, heap="3g" if q else "12g", note="junk " + n + " " + c))
    st.append(Validate("DemuxTrace", "demux", 400 if q else 8000, shards=4 if q else 16, cfg=cfg, base=120, opt={"junk": "1"}, note="junk"))
    return st


DEMUX_NOTE = ("TLC checks the demuxer specification against the property as an invariant over everything its handler and pipeline have seen, finds "
              "planted design errors, and enumerates histories (announcements, good and undecodable packets with tied and spaced timestamps, "
              "completion requests, releases) over two or three small streams; each is performed on the real demuxer and the recorded trace "
              "is validated. So are long random sessions of up to four streams over all demuxer names, on small wrapping rings, on blocks "
              "destroyed when given back and on the library's own pipeline with payloads up to 900 KB. Timestamps are whole milliseconds. "
              "Trusted: TLC, the harness.")

def c20(t):
    q = t.quick
    iso = ("SPECIFICATION Spec\nCONSTANTS\n Clients = {%s}\n Inputs = {1, 2}\n Len0 = 2\n MaxCalls = %d\n SHARED = %s\n REUSED = %s\n"
           "INVARIANTS Unchanged\nCHECK_DEADLOCK FALSE\n")
    st = [
        Design("Isolation", iso % ("1, 2", 2 if q else 3, "FALSE", "FALSE")),
        Design("Isolation", iso % ("1, 2", 1, "TRUE", "FALSE"), expect="violation", note="common scratch memory"),
        Design("Isolation", iso % ("1", 2, "FALSE", "TRUE"), expect="violation", note="a result is scratch memory"),
        Validate("KeepTrace", "keep", 60 if q else 3000, shards=2 if q else 16, base=1),
        Validate("KeepTrace", "twins", 120 if q else 3000, shards=2 if q else 8, base=4, note="in two processes"),
        Validate("KeepTrace", "ladder", 3 if q else 20, shards=4 if q else 12, opt={"par": "4"}, base=5, binary=race_harness, note="first calls, race"),
        Validate("KeepTrace", "keep", 30 if q else 600, shards=2 if q else 8, opt={"par": "4"}, base=2, note="at once"),
        Validate("KeepTrace", "keep", 8 if q else 200, shards=1 if q else 4, opt={"par": "4"}, base=3, binary=race_harness, note="race"),
    ]
    cfg = "SPECIFICATION Spec\nCONSTANT Props = {\"C01\", \"C02\", \"C03\", \"C04\"}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    for k, (module, rec, n) in enumerate([("DemuxTrace", "demux", 40), ("HostileTrace", "hostile", 40), ("RingTrace", "ring", 8), ("LinearTrace", "linear", 8),
                                          ("ContainersTrace", "containers", 12), ("PipelineTrace", "pipeline", 3), ("CursorsTrace", "cursors", 4),
                                          ("NalTrace", "nal", 100), ("ConvertTrace", "convert", 40), ("DecConfigTrace", "decconfig", 40), ("SpsTrace", "sps", 40),
                                          ("RegistryTrace", "registry", 10), ("TimeBaseTrace", "timebase", 100)]):
        st.append(Validate(module, rec, n if q else n * 12, shards=1 if q else 3, opt={"par": "4"}, base=10 + k, binary=race_harness, note="race",
                           cfg=cfg if module == "DemuxTrace" else None))
        if not q:
            st.append(Validate(module, rec, n * 20, shards=3, opt={"par": "8"}, base=40 + k, note="at once", cfg=cfg if module == "DemuxTrace" else None))
    return st


def bound_cfg(cap, sizes, blocks, live, leak=False, empty=False):
    return ("SPECIFICATION BSpec\nCONSTANTS\n InitCap = %d\n Sizes = {%s}\n MaxCap = 0\n MaxBlocks = %d\n MaxDisc = 0\n FULLBUG = FALSE\n DISCBUG = FALSE\n EMPTYBUG = %s\n"
            " MaxLive = %d\n LEAK = %s\nCONSTRAINT BBound\nINVARIANTS Bounded\nVIEW LayoutView\nCHECK_DEADLOCK FALSE\n"
            % (cap, ",".join(map(str, sizes)), blocks, "TRUE" if empty else "FALSE", live, "TRUE" if leak else "FALSE"))


def c21(t):
    q = t.quick
    return [
        Design("RingBound", bound_cfg(1, [0, 1, 2], 4, 4)),
        Design("RingBound", bound_cfg(4, [1, 2, 3], 4, 6)) if q else Design("RingBound", bound_cfg(3, [1, 2, 4], 5, 8), workers=4),
        Design("RingBound", bound_cfg(2, [1, 2], 4, 4, leak=True), expect="violation", note="blocks left behind are never given back"),
        Design("RingBound", bound_cfg(2, [0, 1, 2], 4, 4, empty=True), expect="violation", note="empty blocks taken for a full ring"),
        Generate("RingGen", ring_cfg("GSpec", 3, [0, 1, 2] if q else [0, 1, 2, 3], 8 if q else 10, 3, 2, inv=False, gen=True), "ringcycle", note="over and over", parts=4),
        Validate("MemoryTrace", "memory", 36 if q else 900, shards=3 if q else 6),
    ]


PROPERTIES = {
    "C01": {"stages": c01, "note": DEMUX_NOTE, "assumptions": ["one track per stream; nothing is input after Close"],
            "technique": "TLA+ demuxer spec: TLC on the design, bounded-exhaustive histories and random sessions performed and validated by TLC (callback protocol)"},
    "C02": {"stages": c02, "note": DEMUX_NOTE, "assumptions": ["one track per stream; nothing is input after Close"],
            "technique": "TLA+ demuxer spec: TLC on the design, bounded-exhaustive histories and random sessions performed and validated by TLC (packets delivered)"},
    "C03": {"stages": c03, "note": DEMUX_NOTE, "assumptions": ["the handler releases only the oldest block of a stream, and only its own"],
            "technique": "TLA+ demuxer spec: TLC on the design, bounded-exhaustive histories and random sessions performed and validated by TLC (blocks given back)"},
    "C04": {"stages": c04, "note": DEMUX_NOTE, "assumptions": ["at most one 16-bit PCM and one G.726 track; AAC rates and channel configurations with a defined meaning"],
            "technique": "TLA+ demuxer spec: TLC on the design, bounded-exhaustive histories and random sessions performed and validated by TLC (track descriptions)"},
    "C17": {"stages": c17, "assumptions": ["destinations have the room the conversions document"],
            "technique": "TLA+ spec of hostile inputs and of the demuxer under junk: bounded-exhaustive edits, strings and histories by TLC performed on the code, trace validation",
            "note": "TLC enumerates every single edit (cut, overwritten, dropped, inserted byte) of ten real structures, pairs of edits of the "
                    "short ones, and every string over significant bytes up to 5-6 bytes; each goes to some 35 entry points, alone in memory "
                    "and with other bytes behind it: every call returns, depends on its input alone, leaves it unchanged and finds only what is "
                    "in it. Demuxer histories and random sessions mixing junk with good data are validated against the demuxer specification. "
                    "Memory beyond the input is watched through spare capacity and Go's bounds checks. Trusted: TLC, the harness."},
    "C05": {
        "stages": c05,
        "technique": "TLA+ block-queue and ring-layout specs: TLC model checking, transition-cover replay, trace validation",
        "note": "TLC checks the ring layout design exhaustively within small constants (capacity, sizes, queue length); every "
                "reachable layout transition is replayed on the real ring buffer and long random histories of the real buffer "
                "are validated against the abstract block queue. Trusted: TLC, the harness' reading of the fetched slices.",
    },
    "C06": {
        "stages": c06,
        "technique": "TLA+ linear-buffer spec: transition-cover replay by TLC, trace validation",
        "note": "TLC enumerates every state of small linear buffers (capacity, sizes, blocks, split-off buffers bounded) and every "
                "transition is replayed on the real buffer; long random histories with several split-off buffers are validated "
                "against the specification, comparing all live bytes of all buffers after every call. Trusted: TLC, the harness.",
    },
    "C07": {
        "stages": c07,
        "technique": "TLA+ sequence spec with array design: TLC model checking, transition-cover replay, trace validation",
        "note": "TLC checks the head/tail/count array design against the sequence for small capacities and every transition "
                "(all head positions, fills and growths) is replayed on the real containers; long random histories are validated. "
                "Element type int; the containers are generic and do not look at values. Trusted: TLC, the harness.",
    },
    "C18": {
        "stages": c18,
        "technique": "TLA+ block-queue-per-stream spec: bounded-exhaustive behaviour replay by TLC, trace validation at real sizes",
        "note": "TLC enumerates every operation sequence up to a depth over up to three streams (all orders of first use, all media "
                "types; sizes in quarters of the real buffers) and each is replayed on the real pipelines; long random histories at "
                "megabyte sizes are validated, re-reading every undiscarded block after every call. Trusted: TLC, the harness.",
    },
    "C16": {
        "stages": c16,
        "technique": "TLA+ cursor spec: transition-cover replay by TLC, trace validation of bit fields and Exp-Golomb codes",
        "note": "TLC enumerates every position of byte cursors up to 10 bytes and every operation there; bit fields at every offset "
                "and length on both backgrounds, random field sequences and Exp-Golomb codes (random and at powers of two, truncated) "
                "are validated against a bit-level TLA+ definition. SafeRead beyond the data is refused; Read there is unspecified. Trusted: TLC, the harness.",
    },
    "C15": {
        "stages": c15,
        "technique": "TLA+ exact-rational spec (digit arithmetic): TLC proves its laws on small numbers, replay, trace validation",
        "note": "TLC checks on all small numbers that the definition is the identity on equal bases, mirrored, monotone and exact both "
                "ways; every small conversion is replayed; random 64-bit timestamps, boundaries (2^53, 2^63, wrap points) and time bases "
                "up to 2^31-1 are validated with digit arithmetic in TLA+. Trusted: TLC, the harness' decimal rendering.",
        "assumptions": ["time bases are positive and at most 2^31-1"],
    },
    "C13": {
        "stages": c13,
        "technique": "TLA+ bit-layout spec of ADTS and AudioSpecificConfig: validation of exhaustive field sweeps of the real code",
        "note": "Every combination of MPEG id, profile, sampling index and channel configuration, (thorough) every frame length, every "
                "single header bit, every two-byte AudioSpecificConfig and random data; each observation of the real code is checked by "
                "TLC against the bit layout in TLA+. Sampling indices 13-15, object type 31 and channel configurations without a defined "
                "count are not judged. Trusted: TLC, the harness.",
    },
    "C10": {
        "stages": c10,
        "technique": "TLA+ definition of Annex-B streams: bounded-exhaustive inputs by TLC replayed on the code, trace validation",
        "note": "TLC checks the definitions against each other and enumerates every byte string over {0, 1, header} up to 8 (quick) "
                "bytes and every short sequence of unit tokens; each is given to the real scanning, splitting and extraction "
                "functions. Random access units with up to 8 units and KB-size bodies are validated. Trusted: TLC, the harness.",
    },
    "C09": {
        "stages": c09,
        "technique": "TLA+ definition of both unit forms: bounded-exhaustive conversions by TLC replayed on the code, trace validation",
        "note": "TLC checks that the definitions round-trip and enumerates every sequence of up to 3 (quick) units of a small set, under "
                "every start-code size, with every kind of broken end and with or without extra data; each conversion is performed by the "
                "real code into a roomy and into an exactly sized destination. Random access units with units up to 64 KB are validated. "
                "Unspecified: exactly one kind of parameter set in front of an IDR unit; 1-byte H.265 units. Trusted: TLC, the harness.",
    },
    "C12": {
        "stages": c12,
        "technique": "TLA+ bit-level encoder/decoder of both SPS syntaxes: TLC checks them against each other, exhaustive feature combinations replayed, trace validation",
        "note": "TLC enumerates combinations of all optional parts (profiles, chroma formats, scaling lists, POC types, cropping, VUI, "
                "sub-layers) and checks that the specification decodes what it encodes; every set is given to every parsing entry point. "
                "Random sets over wide field ranges, whole and cut at every byte, and families of sets that differ in one element (in reused memory, one after another), are validated "
                "against the bit-level decoder. "
                "Field values of 2^30 and more are not generated. Trusted: TLC, the harness, our reading of the two standards.",
    },
    "C11": {
        "stages": c11,
        "technique": "TLA+ definition of both record formats: bounded-exhaustive records and truncations by TLC replayed on the code, trace validation",
        "note": "TLC checks that built records parse back and that no truncation is accepted, and enumerates every small number of sets and "
                "every order, repetition and kind of H.265 arrays; each record is parsed whole and cut at every byte. Random records with "
                "up to 31 sets and sets up to 64 KB, random header bits, foreign arrays and trailing bytes are validated, as are built "
                "records, also at and just beyond what a record can hold (31 SPS, 255 PPS, 65535 bytes). "
                "Unspecified: the lenient M4VC conversion of a record without PPS. "
                "Trusted: TLC, the harness.",
    },
    "C08": {
        "stages": c08,
        "technique": "TLA+ counter spec: TLC on the design, linearizability of recorded concurrent histories checked by TLC; controlled schedules of the instrumented code",
        "note": "The counter's source is rebuilt with a scheduling point at every statement and synchronisation operation, and every "
                "schedule with up to 3 preemptions of every pair of client programs of up to 3 calls (and most triples of up to 2) is run; "
                "each distinct history is checked by TLC for linearizability and for exactly one last release. Free-running goroutines "
                "(also under the race detector) are checked likewise. Trusted: TLC, the harness, Go's race detector; weak-memory effects "
                "beyond data races are not explored.",
        "assumptions": ["every client releases only references it holds"],
    },
    "C14": {
        "stages": c14,
        "technique": "TLA+ spec of packet views and of the packet pool: TLC on the pool design, bounded-exhaustive histories replayed, trace validation incl. concurrent use",
        "note": "TLC checks the pool design (a stale view or a doubly pooled object is found) and enumerates every history of obtaining, "
                "viewing and freeing up to two packets of 13 kinds up to a depth; each is performed on the real pool. Random packets "
                "(all forms, length sizes, in-band sets, hundreds of tiny units, allocators with guards) and goroutines sharing the pool "
                "(also under the race detector) are validated. Unspecified: views of malformed data. Trusted: TLC, the harness.",
        "assumptions": ["a packet is used by its holder only and freed once"],
    },
    "C19": {
        "stages": c19,
        "technique": "TLA+ spec of registries, muxer, marker indices and dump files: bounded-exhaustive histories by TLC replayed, trace validation",
        "note": "TLC enumerates every sequence of additions to a registry and a muxer (with all lookups after each) and of markers up to "
                "a depth; each is replayed. Random longer histories, and dumps of up to four tracks into a scratch directory (also over the "
                "files of an earlier dump), are validated: a file must be the playable forms of its packets in order. Repeated parameter "
                "sets in front of a converted key frame are accepted. File names and modes are not judged. Trusted: TLC, the harness.",
    },
    "C20": {
        "stages": c20,
        "technique": "TLA+ spec of results in use and of isolated clients: TLC on the design, trace validation of kept results and of clients running at once",
        "note": "TLC checks the isolation design (common scratch memory and reused result memory are found). Clients make calls to every entry "
                "point, keep up to a dozen results and re-read all of them after every further call, repeat earlier calls, and drop "
                "results; nearly equal inputs in reused memory are asked for in two processes in different orders and the answers compared; "
                "the very first calls of a process are made by several clients at once; several clients run at once (also under the race detector), each client's history being validated "
                "against the specification of whatever it uses (demuxer, buffers, pipelines, containers, cursors, parsers, converters, "
                "registries). Trusted: TLC, the harness, Go's race detector.",
        "assumptions": ["one object is used by one goroutine at a time (other than the reference counter and the packet pool)"],
    },
    "C21": {
        "stages": c21,
        "technique": "TLA+ ring-layout spec with bounded outstanding data: TLC model checking, generated behaviours repeated on the code, trace validation of memory use",
        "note": "TLC shows that the ring's array stays bounded in sessions of any length whose outstanding data is bounded (and finds the leak when blocks "
                "left behind by growth are never given back). Every transition of the ring's layout graph is repeated hundreds of times on the real "
                "buffer, and long sessions of buffers, pipelines, containers, packets and demuxers (with repeated announcements, stray packets and "
                "undecodable announcements) are fed several times what they may hold; memory "
                "in use after collection is validated against the specification. Trusted: TLC, the harness, Go's memory statistics.",
        "assumptions": ["what the client is given it gives back, except for a bounded part; probing ends; a linear buffer is emptied now and then"],
    },
}
