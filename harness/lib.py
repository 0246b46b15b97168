"""Shared machinery: run TLC, run drivers on the real code, report."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "harness", "drivers")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"
TLA_CP = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
BACKENDS = ("numpy", "torch")


class MachineryError(Exception):
    """Something in the checking machinery failed: not a verdict."""


# ----------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.emitted = []
        self.wall = 0.0
        self.invariant = None
        self.text = ""


_RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
_RE_SIM = re.compile(r"The number of states generated: ([\d,]+)")


def _num(s):
    return int(s.replace(",", ""))


class Tlc:
    """One TLC run started in the background; `result()` waits for it."""

    def __init__(self, module, consts=None, invariants=(), spec=("Init", "Next"),
                 scratch=None, workers=1, simulate=None, depth=None, seed=0,
                 postcondition=None, view=None, heap="3g", timeout=600, env=None,
                 properties=(), constraint=None, action_constraint=None,
                 symmetry=None):
        self.module = module
        self.timeout = timeout
        self.simulate = simulate
        self.dir = tempfile.mkdtemp(prefix="tlc_" + module + "_", dir=scratch)
        cfg = ([f"SPECIFICATION {spec[0]}"] if len(spec) == 1 else [f"INIT {spec[0]}", f"NEXT {spec[1]}"])
        cfg.append("CHECK_DEADLOCK FALSE")
        for k, v in (consts or {}).items():
            cfg.append(f"CONSTANT {k} = {v}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in properties:
            cfg.append(f"PROPERTY {i}")
        if view:
            cfg.append(f"VIEW {view}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfgp = os.path.join(self.dir, "run.cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2",
               f"-Djava.io.tmpdir={self.dir}", "-cp", TLA_CP,
               f"-DTLA-Library={SPEC}", "tlc2.TLC", "-config", cfgp,
               "-metadir", os.path.join(self.dir, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth)]
        if simulate or seed:
            cmd += ["-seed", str(seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        self.out = open(os.path.join(self.dir, "out.txt"), "w+")
        self.t0 = time.time()
        self.proc = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.STDOUT,
                                     cwd=self.dir, env=e)

    def result(self):
        try:
            self.proc.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise MachineryError(f"TLC on {self.module} exceeded {self.timeout}s")
        r = TLCResult()
        r.wall = time.time() - self.t0
        self.out.flush()
        self.out.seek(0)
        tail = []
        for line in self.out:
            if line.startswith('"'):
                try:
                    r.emitted.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            tail.append(line)
            m = _RE_STATES.search(line)
            if m:
                r.transitions, r.states = _num(m.group(1)), _num(m.group(2))
            m = _RE_SIM.search(line)
            if m:
                r.transitions = _num(m.group(1))
        self.out.close()
        r.text = "".join(tail[-200:])
        m = re.search(r"Invariant (\w+) is violated", r.text)
        if m:
            r.invariant = m.group(1)
        if self.proc.returncode != 0 and r.invariant is None:
            raise MachineryError(
                f"TLC failed on {self.module} (exit {self.proc.returncode}):\n"
                + r.text[-6000:])
        shutil.rmtree(self.dir, ignore_errors=True)
        return r


# ------------------------------------------------------------- drivers
def driver_env(backend):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("GPMP_", "PYTHON"))}
    e.update(
        GPMP_BACKEND=backend, GPMP_LOG_LEVEL="WARNING", PYTHONPATH=REPO + ":" + DRIVERS,
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
    )
    return e


class Driver:
    """A driver process on the real code; input and output are JSON files."""

    def __init__(self, name, backend, payload, ctx, timeout=600, tag=""):
        self.name, self.backend, self.timeout = name, backend, timeout
        base = os.path.join(ctx.scratch, f"{name}_{backend}{tag}")
        self.inp, self.outp, self.log = base + ".in", base + ".out", base + ".log"
        with open(self.inp, "w") as f:
            json.dump({"seed": ctx.seed, "tier": ctx.tier, "scratch": ctx.scratch,
                       "payload": payload}, f)
        env = driver_env(backend)
        env["MPLCONFIGDIR"] = os.path.join(ctx.scratch, "mpl")
        env["TMPDIR"] = ctx.scratch
        self.logf = open(self.log, "w")
        self.proc = subprocess.Popen(
            [PYTHON, os.path.join(DRIVERS, name + ".py"), self.inp, self.outp],
            stdin=subprocess.DEVNULL, stdout=self.logf, stderr=subprocess.STDOUT,
            cwd=ctx.scratch, env=env)

    def result(self):
        try:
            self.proc.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise MachineryError(f"driver {self.name}/{self.backend} exceeded {self.timeout}s")
        finally:
            self.logf.close()
        if self.proc.returncode != 0 or not os.path.exists(self.outp):
            with open(self.log) as f:
                txt = f.read()
            raise MachineryError(
                f"driver {self.name}/{self.backend} exit {self.proc.returncode}:\n{txt[-6000:]}")
        with open(self.outp) as f:
            return json.load(f)


def run_drivers(name, payload, ctx, timeout=600, backends=BACKENDS, tag="", parts=1):
    """Run `name` on all backends (cases split in `parts` per backend)."""
    ds = []
    for b in backends:
        if parts == 1:
            ds.append((b, Driver(name, b, payload, ctx, timeout, tag)))
        else:
            cases = payload["cases"]
            for k in range(parts):
                pl = dict(payload)
                pl["cases"] = cases[k::parts]
                pl["part"] = k
                ds.append((b, Driver(name, b, pl, ctx, timeout, f"{tag}_{k}")))
    res = []
    for b, d in ds:
        o = d.result()
        res.append((b, o))
        ctx.evals += o.get("evaluations", 0)
        ctx.traces += o.get("traces", 0)
        for s in o.get("samples", []):
            ctx.sample(s)
        for m in o["mismatches"]:
            m["backend"] = b
            m["driver"] = name
            ctx.mismatch(m)
    return res


def one_per_prefix(ctx, hists):
    """Simulation emits every successor of the last state: keep one for each."""
    groups = {}
    for h in sorted(hists, key=lambda h: json.dumps(h, sort_keys=True)):
        groups.setdefault(json.dumps(h[:-1], sort_keys=True), []).append(h)
    return [ctx.rng.choice(g) for g in groups.values()]


def sample_by_length(ctx, hists, budget):
    """All histories of the shorter lengths; a seeded sample of the longest."""
    top = max((len(h) for h in hists), default=0)
    short = [h for h in hists if len(h) < top]
    full = sorted((h for h in hists if len(h) == top),
                  key=lambda h: json.dumps(h, sort_keys=True))
    if len(full) > budget:
        full = ctx.rng.sample(full, budget)
    return short + full


# ------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        os.makedirs(os.path.join(self.scratch, "mpl"))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.evals = 0
        self.samples = []
        self.mismatches = []
        self.assumptions = []
        self.extra = {}
        self.level = "model_checking"
        self.rng = random.Random(seed)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def mismatch(self, m):
        self.mismatches.append(m)

    def tlc(self, *a, **k):
        k.setdefault("scratch", self.scratch)
        return Tlc(*a, **k)

    def take(self, t, allow_violation=False):
        r = t.result()
        self.states += r.states
        self.transitions += r.transitions
        if r.invariant and not allow_violation:
            raise MachineryError(
                f"invariant {r.invariant} of {t.module} fails on the specification itself:\n"
                + r.text[-4000:])
        return r

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def validate_traces(ctx, module, consts, results, key="trace", workers=2, describe=None,
                    **kw):
    """Let TLC decide recorded traces: `results` is [(backend, driver output)].

    A trace module steps through every record of every trace and prints one
    JSON verdict [trace, step, failed] per record that is not admissible.
    """
    runs = []
    for n, (backend, o) in enumerate(results):
        tr = o[key]
        if not tr:
            continue
        p = os.path.join(ctx.scratch, f"{module}_{key}_{backend}_{n}.json")
        try:
            text = json.dumps(tr, allow_nan=False)
        except ValueError:
            ctx.mismatch({"what": "recorded quantities are numbers", "backend": backend, "expected": "finite numbers",
                          "observed": json.dumps([x for x in tr if "NaN" in json.dumps(x) or "Infinity" in json.dumps(x)][:1])[:2000]})
            continue
        with open(p, "w") as f:
            f.write(text)
        runs.append((backend, tr, ctx.tlc(module, consts, ["Verdict"],
                     spec=("TInit", "TNext"), env={"TRACE": p}, workers=workers, **kw)))
    for backend, tr, t in runs:
        try:
            r = ctx.take(t)
        except MachineryError as e:
            # A record for which the conditions have no meaning is not admissible either.
            m = re.search(r"Evaluating invariant Verdict failed.*|.*verflow.*computing.*", str(e), re.S)
            if not m:
                raise
            ctx.mismatch({"what": "recorded traces have the form of the model", "backend": backend,
                          "expected": module, "observed": m.group(0)[:2000]})
            continue
        expect = sum(len(x) + 1 for x in tr)
        if r.states != expect:
            raise MachineryError(f"{module}: trace not consumed, {r.states} of {expect} states")
        ctx.evals += sum(len(x) for x in tr)
        for v in r.emitted:
            got = tr[v["trace"] - 1][v["step"] - 1]
            for f in sorted(v["failed"]):
                what = describe(v, got, f) if describe else f
                ctx.mismatch({"what": what, "backend": backend, "expected": f,
                              "observed": json.dumps(got)[:2000],
                              "context": {"trace": v["trace"], "step": v["step"]}})


def dedupe(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    out.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return out


# ------------------------------------------------------ known findings
def known_findings(prop):
    """Lines `known: property=<id> match=<regex> :: <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def finish(ctx):
    """Write evidence, print verdict lines, return the exit code."""
    known = known_findings(ctx.prop)
    hits, real = {}, []
    for m in ctx.mismatches:
        sig = f"{m.get('backend')}|{m.get('what')}"
        for rx, text in known:
            if rx.fullmatch(sig):
                hits[text] = hits.get(text, 0) + 1
                break
        else:
            real.append(m)
    cov = {
        "states": ctx.states, "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces, "evaluations": ctx.evals,
        "samples": ctx.samples,
    }
    cov.update(ctx.extra)
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level,
        "coverage": cov, "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(real),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for text, n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={ctx.prop} {text} ({n} occurrences)")
    if real:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{ctx.prop}_{ctx.tier}_{ctx.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "count": len(real),
                       "rerun": f"VERIF_SEED={ctx.seed} python3 harness/check.py "
                                f"{ctx.prop} --tier {ctx.tier}",
                       "mismatches": real[:20]}, f, indent=1)
        for m in real[:5]:
            print(f"  [{m.get('backend')}] {m.get('what')}: expected "
                  f"{str(m.get('expected'))[:300]} observed {str(m.get('observed'))[:300]}")
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    print(f"OK property={ctx.prop} states={ctx.states} transitions={ctx.transitions} "
          f"traces={ctx.traces} evaluations={ctx.evals} wall={ev['wall_s']}s")
    return 0
