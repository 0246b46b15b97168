"""Run split/fold call histories and record the answers."""
from base import *
from gpmp.dataloader import Dataset

rec = Recorder()
out = []


def ints(a):
    return [int(v) for v in tonp(a).reshape(-1)]


def noise(k):
    gnp.rand(3, 2)
    gnp.permutation(5 + k)
    gnp.randn(2)


def folds(res):
    return [{"train": ints(t), "val": ints(v)} for t, v in res]


def call(c):
    """Returns (answer, rows still paired)."""
    s = c["seed"]
    if c["op"] == "kfold":
        return folds(Dataset.k_fold_indices(c["n"], c["k"], seed=s)), True
    if c["op"] == "repeated":
        return folds(Dataset.repeated_k_fold_indices(c["n"], c["k"], c["r"], seed=s)), True
    n = c["n"]
    x = [[float(i), 2.0 * i] for i in range(n)]
    z = [10.0 * i + 1 for i in range(n)]
    if c["cut"] == 0 or n < c["cut"] + 1:
        ds = Dataset(arr(x), arr(z))
    else:
        cuts = [0] + [j * n // (c["cut"] + 1) for j in range(1, c["cut"] + 1)] + [n]
        ds = Dataset([arr(x[a:b]).reshape(b - a, 2) for a, b in zip(cuts, cuts[1:])],
                     [arr(z[a:b]) for a, b in zip(cuts, cuts[1:])])
    parts, paired = [], True
    for p in Dataset.split(ds, tuple(v / 10 for v in c["ratios"]), seed=s):
        rows = [p[j] for j in range(len(p))]
        ids = [int(round(float(tonp(r[0])[0]))) for r in rows]
        paired &= all(float(tonp(r[0])[1]) == 2.0 * i and float(tonp(r[1])) == 10.0 * i + 1
                      for i, r in zip(ids, rows))
        parts.append(ids)
    return parts, paired


def one(case):
    tr = []
    for k, c in enumerate(case):
        if c["op"] == "noise":
            noise(k)
            tr.append({"op": "noise"})
            continue
        r = attempt(call, c)
        if is_err(r):
            rec.bad(f"{c['op']} returns an answer", "an answer", r, call=c)
            return
        tr.append({"op": c["op"], "call": c, "res": r[0], "paired": bool(r[1])})
    out.append(tr)


gnp.set_seed(20240 + rec.seed)
rec.each(rec.payload["cases"], one)

# shuffling does happen: some seed moves some row
for op in ({"op": "kfold", "n": 40, "k": 2}, {"op": "split", "n": 40, "ratios": [5, 5, 0], "cut": 1}):
    first = {repr(attempt(lambda: call(dict(op, seed=s))[0])) for s in range(4)}
    rec.true(f"{op['op']} shuffles the rows", len(first) > 1, "all seeds give the same rows")
# without a seed the answers are still partitions
for op in ({"op": "kfold", "n": 10, "k": 3, "seed": None}, {"op": "split", "n": 11, "ratios": [7, 2, 1], "cut": 1, "seed": None}):
    r = attempt(call, op)
    rec.true(f"unseeded {op['op']} returns", not is_err(r), r)
    if not is_err(r):
        c = {k: v for k, v in op.items() if k != "seed"}
        c["seed"] = -1
        out.append([{"op": op["op"], "call": c, "res": r[0], "paired": bool(r[1])}])
rec.extra["trace"] = out
rec.done()
