"""Driver library: python3 /verif/tools/check.py C05 [--tier quick|thorough]

Runs the stages of one property (tools/stages.py), writes evidence/<id>.json,
prints VIOLATION property=<id> replay=<path> and exits 1 when the code under
/repo does something the TLA+ specification forbids; exits 0 when everything
explored conforms; exits 2 when the check itself could not give an answer.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
GOENV = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GO111MODULE": "on"}
sys.path.insert(0, os.path.join(VERIF, "tools"))


class CheckError(Exception):
    """The check could not give an answer."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = {}
        self.samples = []
        self.stages = []
        self.violations = []
        self.errors = []
        self.n = 0
        self.deadline = time.time() + (780 if tier == "quick" else 4 * 3600)
        self.harness = None
        self.bins = {}
        self.build = threading.Lock()
        self.notes = []

    @property
    def quick(self):
        return self.tier == "quick"

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%03d-%s" % (self.n, name))

    def left(self):
        return max(5, self.deadline - time.time())


# ---- building ---------------------------------------------------------------

def build_harness(ctx, extra=(), name="harness", pkg=".", src=None):
    out = os.path.join(ctx.work, name)
    src = src or os.path.join(VERIF, "harness")
    if REPO != "/repo":  # development: check a scratch copy
        alt = ctx.path("src-" + name)
        shutil.copytree(src, alt)
        gm = os.path.join(alt, "go.mod")
        t = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(t)
        src = alt
    r = subprocess.run(["go", "build", *extra, "-o", out, pkg], cwd=src, env={**os.environ, **GOENV},
                       capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("harness does not build against %s:\n%s" % (REPO, r.stderr[-3000:]))
    return out


def race_harness(ctx):
    """The harness under the race detector."""
    with ctx.build:
        if "race" not in ctx.bins:
            ctx.bins["race"] = build_harness(ctx, extra=("-race",), name="harness-race")
        return ctx.bins["race"]


def sched_harness(ctx):
    """The harness with collections/ rebuilt so that every statement and every
    synchronisation operation of the reference counter is a scheduling point.
    None if the code at hand cannot be instrumented that way."""
    with ctx.build:
        if "sched" not in ctx.bins:
            src = os.path.join(VERIF, "harness")
            env = {**os.environ, **GOENV}
            instr, ov, d = os.path.join(ctx.work, "instr"), os.path.join(ctx.work, "ov.json"), os.path.join(ctx.work, "ov")
            os.makedirs(d)
            r = subprocess.run(["go", "build", "-o", instr, "./instr"], cwd=src, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("instrumenter does not build: " + r.stderr[-2000:])
            r = subprocess.run([instr, ov, d, os.path.join(src, "shim"), os.path.join(REPO, "collections")],
                               capture_output=True, text=True)
            out = None
            if r.returncode == 0:
                try:
                    out = build_harness(ctx, extra=("-overlay", ov, "-tags", "sched"), name="harness-sched")
                except CheckError as e:
                    with ctx.lock:
                        ctx.notes.append("controlled schedules skipped: " + str(e)[-300:])
            ctx.bins["sched"] = out
        return ctx.bins["sched"]


# ---- running the harness ----------------------------------------------------

def run_harness(ctx, args, what, binary=None, env=None):
    """Runs the harness; a hang (reproduced) or a runtime crash is a violation."""
    for attempt in (1, 2):
        hang = ctx.path("hang.json")
        try:
            r = subprocess.run([binary or ctx.harness, *args, "-hang", hang], capture_output=True, text=True,
                               timeout=ctx.left(), env={**os.environ, **(env or {})}, cwd=ctx.work)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: %s" % what)
        if r.returncode == 0:
            return r.stdout
        if r.returncode == 7:
            if attempt == 1:
                continue
            d = open(hang).read() if os.path.exists(hang) else r.stderr[-2000:]
            raise Violation("a call does not return or exhausts memory", {"stage": what, "call": d[:4000]})
        if "HARNESS ERROR" in r.stderr:
            raise CheckError("%s: %s" % (what, r.stderr[-2000:]))
        if "fatal error:" in r.stderr or "panic:" in r.stderr or "WARNING: DATA RACE" in r.stderr:
            if attempt == 1 and "DATA RACE" not in r.stderr:
                continue
            raise Violation("the code under test crashed the process", {"stage": what, "stderr": r.stderr[:4000]})
        raise CheckError("%s: harness exit %d: %s" % (what, r.returncode, r.stderr[-2000:]))


# ---- running TLC ------------------------------------------------------------

STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def run_tlc(ctx, module, cfg, env=None, workers=1, heap="1200m", args=(), out=None, simulate=False):
    meta = ctx.path("tlc-" + module)
    os.makedirs(meta)
    cfgf = ctx.path(module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    outf = out or ctx.path(module + ".out")
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta,
           "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgf, *args, module + ".tla"]
    with open(outf, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=ctx.left(),
                               env={**os.environ, **(env or {})})
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    gen = dis = 0
    size = os.path.getsize(outf)
    with open(outf, errors="replace") as f:
        if size > 1 << 20:
            f.seek(size - (1 << 20))
        tail = f.read()
    for m in STATS.finditer(tail):
        gen, dis = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    with ctx.lock:
        ctx.states += dis
        ctx.transitions += gen
    return r.returncode, outf, tail, (gen, dis)


def tla_tail(tail, n=3000):
    keep = [x for x in tail.splitlines() if not re.match(r"^(Parsing|Semantic|Linting|Warning|Running|TLC2)", x)]
    return "\n".join(keep)[-n:]


# ---- stages -----------------------------------------------------------------

class Stage:
    name = "stage"

    def jobs(self, ctx):
        raise NotImplementedError


class Design(Stage):
    """TLC on the design: invariants hold, or (expect='violation') a re-introduced
    defect is found, which shows the invariants are not vacuous."""

    def __init__(self, module, cfg, expect="ok", workers=2, heap="3g", args=(), note=""):
        self.module, self.cfg, self.expect, self.workers = module, cfg, expect, workers
        self.heap, self.args, self.note = heap, args, note
        self.name = "design:%s%s" % (module, ":" + note if note else "")

    def jobs(self, ctx):
        def f():
            rc, outf, tail, st = run_tlc(ctx, self.module, self.cfg, workers=self.workers, heap=self.heap, args=self.args)
            bad = re.search(r"(Invariant|Temporal|Action property|is violated|Assumption .* is false|Evaluating assumption)", tail)
            if self.expect == "ok" and rc != 0:
                raise CheckError("%s: design check failed:\n%s" % (self.name, tla_tail(tail)))
            if self.expect == "violation" and (rc == 0 or "is violated" not in tail):
                raise CheckError("%s: the re-introduced defect was not found:\n%s" % (self.name, tla_tail(tail)))
            return {"stage": self.name, "distinct": st[1], "generated": st[0]}
        return [f]


class Generate(Stage):
    """TLC enumerates behaviours of the specification; the harness performs each
    on the real code and compares every result with what the specification says."""

    def __init__(self, module, cfg, replayer, args=(), workers=1, heap="3g", note="", parts=2):
        self.module, self.cfg, self.replayer, self.args = module, cfg, replayer, args
        self.workers, self.heap, self.parts = workers, heap, parts
        self.name = "generate:%s%s" % (module, ":" + note if note else "")

    def jobs(self, ctx):
        def f():
            beh = ctx.path(self.module + ".beh")
            rc, outf, tail, st = run_tlc(ctx, self.module, self.cfg, workers=self.workers, heap=self.heap,
                                         args=self.args, out=beh)
            if rc != 0:
                raise CheckError("%s: %s" % (self.name, tla_tail(tail)))
            out = run_harness(ctx, ["replay", self.replayer, "-in", beh], self.name)
            rep = json.loads(out.strip().splitlines()[-1])
            if rep["replayed"] == 0:
                raise CheckError("%s: no behaviour was generated" % self.name)
            with ctx.lock:
                ctx.traces += rep["replayed"]
                if len(ctx.samples) < 4:
                    ctx.samples.append({"generated_behaviour": rep.get("sample")})
            os.unlink(beh)
            if rep["bad"]:
                bad = [json.loads(x[9:]) for x in out.splitlines() if x.startswith("MISMATCH ")]
                bad.sort(key=lambda b: len(json.dumps(b)))
                raise Violation("%d of %d specification behaviours are not reproduced: %s"
                                % (rep["bad"], rep["replayed"], bad[0]["why"][:300] if bad else "?"),
                                {"stage": self.name, "replayer": self.replayer, "mismatches": bad})
            return {"stage": self.name, "replayed": rep["replayed"], "distinct": st[1], "generated": st[0]}
        return [f]


def validate_trace(ctx, stage, module, cfg, trace, rep, args, sample):
    """TLC checks a recorded trace against a specification."""
    rc, outf, tail, st = run_tlc(ctx, module, cfg, env={"TRACE": trace}, heap=stage.heap)
    with ctx.lock:
        ctx.traces += rep["episodes"]
        ctx.events += rep["events"]
        for o, c in rep.get("ops", {}).items():
            ctx.ops[o] = ctx.ops.get(o, 0) + c
        if sample and len(ctx.samples) < 6:
            with open(trace) as f:
                ctx.samples.append({"trace_of": sample, "events": [json.loads(x) for _, x in zip(range(2), f)]})
    if rc != 0:
        with open(outf, errors="replace") as f:
            text = f.read()
        m = re.search(r"MISMATCH\W+(\d+)", text)
        if not m:
            raise CheckError("%s: TLC failed:\n%s" % (stage.name, tla_tail(text)))
        line = int(m.group(1))
        lines = open(trace).read().splitlines()
        start = line - 1
        while start > 0 and '"op":"new"' not in lines[start] and line - start < 400:
            start -= 1
        ev = [json.loads(x) for x in lines[start:line]]
        mm = text[m.start():][:3000].split("\nError:")[0].split("\nModel checking")[0]
        raise Violation("event %d of the recorded trace is not allowed: %s" % (line, json.dumps(ev[-1])[:400]),
                        {"stage": stage.name, "record_args": args, "event": ev[-1], "specification_says": mm,
                         "episode": ev if len(ev) < 400 else ev[-400:]})
    if st[1] < rep["events"]:
        raise CheckError("%s: trace not consumed:\n%s" % (stage.name, tla_tail(tail)))
    os.unlink(trace)


class Validate(Stage):
    """The harness records histories of the real code; TLC checks that each is
    a behaviour of the specification."""

    def __init__(self, module, recorder, n, shards=6, opt=None, cfg=None, note="", binary=None, heap="1200m", base=0):
        self.module, self.recorder, self.n, self.shards = module, recorder, n, shards
        self.opt, self.binary, self.heap, self.base = opt or {}, binary, heap, base
        self.cfg = cfg or "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        self.name = "validate:%s:%s%s" % (module, recorder, ":" + note if note else "")

    def jobs(self, ctx):
        return [lambda k=k: self.one(ctx, k) for k in range(self.shards)]

    def one(self, ctx, k):
        seed = ctx.seed * 1000003 + self.base * 1009 + k
        trace = ctx.path("%s.ndjson" % self.recorder)
        opt = dict(self.opt, shard=str(k), shards=str(self.shards), tier=ctx.tier)
        args = ["record", self.recorder, "-seed", str(seed), "-n", str(self.n), "-out", trace, "-opt", json.dumps(opt)]
        binary = self.binary(ctx) if self.binary else None
        if self.binary and binary is None:
            return {"stage": self.name, "skipped": 1}
        out = run_harness(ctx, args, self.name, binary)
        rep = json.loads(out.strip().splitlines()[-1])
        if rep["events"] == 0:
            if self.shards > 1 and k > 0:
                return {"stage": self.name, "shard": k, "events": 0}
            raise CheckError("%s: empty trace" % self.name)
        validate_trace(ctx, self, self.module, self.cfg, trace, rep, args, self.recorder if k == 0 else None)
        return {"stage": self.name, "shard": k, "events": rep["events"], "episodes": rep["episodes"]}


class Explore(Stage):
    """TLC enumerates histories of operations; the harness performs them on the
    real code and records what happens; TLC checks the recorded traces."""

    def __init__(self, gen, gencfg, module, cfg, recorder, parts=4, note="", heap="3g", theap="1500m"):
        self.gen, self.gencfg, self.module, self.cfg, self.recorder = gen, gencfg, module, cfg, recorder
        self.parts, self.genheap, self.heap = parts, heap, theap
        self.name = "explore:%s:%s%s" % (gen, module, ":" + note if note else "")

    def jobs(self, ctx):
        def f():
            beh = ctx.path(self.gen + ".beh")
            rc, outf, tail, st = run_tlc(ctx, self.gen, self.gencfg, heap=self.genheap, out=beh)
            if rc != 0:
                raise CheckError("%s: %s" % (self.name, tla_tail(tail)))
            names = [ctx.path("part.beh") for _ in range(self.parts)]
            files = [open(x, "w") for x in names]
            n = 0
            with open(beh) as g:
                for line in g:
                    if line.startswith('"@@'):
                        files[n % self.parts].write(line)
                        n += 1
            for x in files:
                x.close()
            os.unlink(beh)
            if n == 0:
                raise CheckError("%s: no behaviour was generated" % self.name)

            def part(k):
                trace = ctx.path("%s.ndjson" % self.recorder)
                args = ["record", self.recorder, "-out", trace, "-opt", json.dumps({"in": names[k]})]
                out = run_harness(ctx, args, self.name)
                rep = json.loads(out.strip().splitlines()[-1])
                if rep["events"] > 0:
                    validate_trace(ctx, self, self.module, self.cfg, trace, rep, args, self.recorder if k == 0 else None)
                os.unlink(names[k])
                return rep["events"]
            with cf.ThreadPoolExecutor(self.parts) as ex:
                ev = sum(ex.map(part, range(self.parts)))
            return {"stage": self.name, "histories": n, "events": ev, "distinct": st[1], "generated": st[0]}
        return [f]


class Run(Stage):
    """A harness run judged by the specification in other ways (stress etc.)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def jobs(self, ctx):
        return [lambda: self.fn(ctx)]


# ---- main -------------------------------------------------------------------

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import stages
    t0 = time.time()
    ctx = Ctx(a.prop, a.tier, seed)
    code = 2
    try:
        spec = stages.PROPERTIES[a.prop]
        ctx.harness = build_harness(ctx)
        todo = [s for s in spec["stages"](ctx) if a.only in s.name]
        jobs = [(s, j) for s in todo for j in s.jobs(ctx)]
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(j): s for s, j in jobs}
            for fu in cf.as_completed(futs):
                s = futs[fu]
                try:
                    r = fu.result()
                    if r:
                        ctx.stages.append(r)
                except cf.CancelledError:
                    pass
                except Violation as v:
                    ctx.violations.append((s.name, v))
                    for g in futs:
                        g.cancel()
                except CheckError as e:
                    ctx.errors.append("%s: %s" % (s.name, e))
                except Exception as e:  # a defect of the check
                    import traceback
                    ctx.errors.append("%s: %s" % (s.name, traceback.format_exc()))
        code = 1 if ctx.violations else 2 if ctx.errors else 0
        report(ctx, spec, time.time() - t0)
    except CheckError as e:
        print("CHECK-ERROR %s" % e)
    finally:
        if not a.keep:
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(code)


def report(ctx, spec, wall):
    for e in list(dict.fromkeys(ctx.errors))[:2]:
        print("CHECK-ERROR %s" % e[:2500])
    for i, (name, v) in enumerate(ctx.violations[:4]):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d-%d-%d.json" % (ctx.prop, re.sub(r"\W+", "_", name), ctx.seed, os.getpid(), i))
        with open(p, "w") as f:
            json.dump({"property": ctx.prop, "what": v.what, **v.detail}, f, indent=1)
        print("  %s: %s" % (name, v.what[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        if line.startswith("finding:") and ("property=%s " % ctx.prop) in line:
            print("KNOWN-FINDING: " + line[len("finding:"):].strip())
    agg = {}
    for s in ctx.stages:
        t = agg.setdefault(s["stage"], {"runs": 0})
        t["runs"] += 1
        for k, v in s.items():
            if isinstance(v, int) and k != "shard":
                t[k] = t.get(k, 0) + v
            elif k not in ("stage", "shard"):
                t[k] = v
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces, "trace_events": ctx.events,
                       "operations": ctx.ops, "stages": agg, "samples": ctx.samples, "notes": ctx.notes},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d states, %d transitions, %d traces/behaviours, %d events, %d stages, %.1fs"
          % (ctx.prop, ctx.tier, ctx.seed, ctx.states, ctx.transitions, ctx.traces, ctx.events, len(agg), wall))

