"""Sensitivity of trace validation: change one recorded value, expect rejection.

`python3 tools/corrupt.py ID [N]` runs the check, and for every batch of traces
it lets TLC decide, N copies of single records with one leaf changed (numbers
moved, flags negated, sequences shortened).  Prints per record kind and field
how many changed records TLC rejected.  Writes no evidence.
"""
import copy
import importlib
import json
import os
import random
import re
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import lib  # noqa: E402

N = int(sys.argv[2]) if len(sys.argv) > 2 else 300
rng = random.Random(int(os.environ.get("VERIF_SEED", "0") or 0))
score = {}
CUT = object()


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list) and v:
        for k in range(len(v)):
            yield from leaves(v[k], path + (k,))
        if path:
            yield path + (CUT,)
    elif isinstance(v, (bool, int)):
        yield path


def corrupt(rec):
    paths = [p for p in leaves(rec) if "kind" not in p]
    if not paths:
        return None
    field = rng.choice(sorted({str(p[0]) for p in paths}))
    p = rng.choice([q for q in paths if str(q[0]) == field])
    new = copy.deepcopy(rec)
    at = new
    if p[-1] is CUT:
        for k in p[:-1]:
            at = at[k]
        at.pop()
    else:
        for k in p[:-1]:
            at = at[k]
        old = at[p[-1]]
        at[p[-1]] = (not old) if isinstance(old, bool) else old + rng.choice([-7, -1, 1, 2, 50])
    return field + (".length" if p[-1] is CUT else ""), new


def validate(ctx, module, consts, results, key="trace", workers=2, describe=None, **kw):
    for n, (backend, o) in enumerate(results[:2]):
        tr = o.get(key)
        if not tr:
            continue
        out, names = [], []
        for _ in range(N):
            t = rng.choice(tr)
            if not t:
                continue
            j = rng.randrange(len(t))
            c = corrupt(t[j])
            if c:
                names.append((str(t[j].get("kind", t[j].get("op", module))) if isinstance(t[j], dict) else module, c[0]))
                out.append(t[:j] + [c[1]] + t[j + 1:])
        p = os.path.join(ctx.scratch, f"corrupt_{module}_{n}.json")
        todo = list(range(len(out)))
        bad = set()
        while todo:          # a record TLC cannot evaluate is rejected; go on with the others
            with open(p, "w") as f:
                json.dump([out[k] for k in todo], f)
            try:
                r = ctx.tlc(module, consts, ["Verdict"], spec=("TInit", "TNext"), env={"TRACE": p}, workers=1, **kw).result()
            except lib.MachineryError as e:
                m = re.search(r"/\\ h = (\d+)", str(e))
                if not m:
                    if len(todo) == 1:
                        bad.add(todo.pop())
                        continue
                    half = len(todo) // 2
                    raise RuntimeError(str(e)[:3000])
                bad.add(todo.pop(int(m.group(1)) - 1))
                continue
            bad |= {todo[v["trace"] - 1] for v in r.emitted}
            break
        for k, nm in enumerate(names):
            s = score.setdefault((module,) + nm, [0, 0])
            s[0] += k in bad
            s[1] += 1


lib.validate_traces = validate


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    ctx = lib.Ctx(prop, "quick", int(os.environ.get("VERIF_SEED", "0") or 0))
    try:
        mod.run(ctx)
    finally:
        ctx.cleanup()
    a = b = 0
    for k, (x, y) in sorted(score.items()):
        print(f"  {' '.join(k)}: {x}/{y} rejected")
        a, b = a + x, b + y
    print(f"{prop}: {a} of {b} changed records rejected")


if __name__ == "__main__":
    main()
