"""Development helper: turn edits into seeded/<id>/ after confirming them in scratch copies.

`plant.py FILE` where FILE defines BUGS, a list of dicts with keys
id, prop, edits [(file, old, new)], needs, breaks, demo (python source).
`try.py`-like evaluation: `plant.py --try [ID...]` runs the property's check on a patched copy.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/plant"
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exit 0 when the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 GPMP_LOG_LEVEL=WARNING MPLBACKEND=Agg
export OMP_NUM_THREADS=2
for b in BACKENDS; do
  GPMP_BACKEND=$b timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py" </dev/null || exit 1
done
"""


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             GPMP_LOG_LEVEL="WARNING", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    e.update(env or {})
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, timeout=timeout,
                          stdin=subprocess.DEVNULL, capture_output=True, text=True)


def fresh(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    shutil.copytree(os.environ.get("PLANT_SRC", "/repo"), d, symlinks=True)
    return d


def stable():
    out = {"numpy": set(), "torch": set()}
    for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
        b, rest = t.split(".", 1)
        out[b].add(rest.split("::")[-1])
    return out


def suite(d):
    base = stable()
    bad = []
    ps = []
    for b in ("numpy", "torch"):
        e = dict(os.environ, GPMP_BACKEND=b, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=d)
        ps.append((b, subprocess.Popen([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300"],
                                       cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)))
    for b, p in ps:
        o = p.communicate()[0]
        if "passed" not in o:
            bad.append(b + ": " + o[-400:])
        for m in re.findall(r"^(?:FAILED|ERROR) (\S+)", o, re.M):
            if m.split("::")[-1] in base[b]:
                bad.append(f"{b}: {m}")
    return bad


def plant(bug):
    i = bug["id"]
    d = fresh(i)
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", d).stdout
        dst = os.path.join(SEEDED, i)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        open(os.path.join(dst, "demo.sh"), "w").write(DEMO.replace("BACKENDS", bug.get("backends", "numpy torch")))
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        open(os.path.join(dst, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        clean = sh(["bash", os.path.join(dst, "demo.sh")], os.environ.get("PLANT_SRC", "/repo"), timeout=400)
        if clean.returncode != 0:
            return i, "DEMO FAILS ON CLEAN TREE\n" + clean.stdout[-800:] + clean.stderr[-1500:]
        hurt = sh(["bash", os.path.join(dst, "demo.sh")], d, timeout=400)
        if hurt.returncode == 0:
            return i, "DEMO PASSES WITH THE PATCH"
        for b in ("numpy", "torch"):
            r = sh([PY, "-c", "import gpmp,gpmp.core,gpmp.kernel,gpmp.mcmc,gpmp.misc,gpmp.modeldiagnosis,gpmp.dataloader"],
                   d, {"GPMP_BACKEND": b, "PYTHONPATH": d})
            if r.returncode:
                return i, "does not import: " + r.stderr[-500:]
        bad = suite(d)
        if bad:
            return i, "STABLE TESTS FAIL " + "; ".join(bad)[:600]
        return i, "ok " + (hurt.stderr.strip().splitlines() or ["?"])[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(i):
    """Run the property's check (from a copy bound to a patched copy of /repo)."""
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    d = fresh("try_" + i)
    v = d + "_verif"
    shutil.rmtree(v, ignore_errors=True)
    try:
        r = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], d)
        if r.returncode:
            return i, meta["property"], "PATCH DOES NOT APPLY " + r.stderr[:200]
        os.makedirs(v)
        for n in ("spec", "harness"):
            shutil.copytree(os.path.join(ROOT, n), os.path.join(v, n))
        shutil.copy(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), v)
        for f in ("harness/lib.py", "harness/drivers/base.py"):
            p = os.path.join(v, f)
            s = open(p).read().replace('"/repo"', f'"{d}"').replace('"/repo/"', f'"{d}/"')
            open(p, "w").write(s)
        r = sh([sys.executable, "harness/check.py", meta["property"]], v, {"VERIF_SEED": "1"}, timeout=1500)
        line = [x for x in r.stdout.splitlines() if x.startswith("  [")][:1] or r.stdout.splitlines()[-1:] or [r.stderr[-300:]]
        verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, f"ERROR {r.returncode} " + r.stderr[-400:])
        return i, meta["property"], f"{verdict} {line[0].strip()[:170]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main(argv):
    if argv[0] == "--try":
        ids = argv[1:] or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(attempt, ids):
                print(*r, flush=True)
    else:
        ns = {}
        exec(open(argv[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if len(argv) == 1 or b["id"] in argv[1:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(plant, bugs):
                print(*r, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
