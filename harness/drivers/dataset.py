"""Dataset histories of Dataset.tla on gpmp.dataloader.Dataset."""
from base import *
from gpmp.dataloader import Dataset, DataLoader

QUANT = [0.0, 0.25, 1.0 / 3.0, 0.5, 0.9, 1.0]


def x1(r): return ((7 * r * r + 3 * r) % 13) - 6
def x2(r): return ((5 * r * r * r + r) % 17) * 3 - 20
def zv(r): return ((11 * r + r * r) % 19) - 9


def xrow(r): return [float(x1(r)), float(x2(r))]


def build(rows, sizes, two):
    xs, zs, p = [], [], 0
    for s in sizes:
        b = rows[p:p + s]
        p += s
        xs.append(arr([xrow(r) for r in b]).reshape(s, 2))
        z = [float(zv(r)) for r in b]
        zs.append(arr([[v, -2 * v] for v in z]).reshape(s, 2) if two else arr(z))
    return xs, zs


rec = Recorder()


def check_stats(ds, obs, two, tag, case):
    for owner, get in ((tag, lambda f, s: getattr(ds, f"{f}_{s}")),
                       (tag + " via loader",
                        lambda f, s: getattr(DataLoader(ds, batch_size=1), f"dataset_{f}_{s}"))):
        def call(f, s, *a):
            return attempt(lambda: get(f, s)(*a))
        cols = {"x": [obs["x1"], obs["x2"]], "z": [obs["z"]]}
        for f, cs in cols.items():
            def expect(fn, neg=None):
                v = [fn(c) for c in cs]
                if f == "z":
                    return [v[0], neg(cs[0]) if neg else -2 * v[0]] if two else v[0]
                return v
            rec.close(f"{owner} {f} minimum", call(f, "min"),
                      expect(lambda c: c["min"], lambda c: -2 * c["max"]), case=case)
            rec.close(f"{owner} {f} maximum", call(f, "max"),
                      expect(lambda c: c["max"], lambda c: -2 * c["min"]), case=case)
            rec.close(f"{owner} {f} mean", call(f, "mean"), expect(lambda c: rat(c["mean"])), case=case)
            if cs[0]["var"][1] != 0:
                rec.close(f"{owner} {f} variance", call(f, "var"),
                          expect(lambda c: rat(c["var"]), lambda c: 4 * rat(c["var"])), case=case)
                rec.close(f"{owner} {f} std", call(f, "std"),
                          expect(lambda c: rat(c["var"]) ** 0.5,
                                 lambda c: 2 * rat(c["var"]) ** 0.5), case=case)
            if not (two and f == "z"):
                for k, q in enumerate(QUANT):
                    rec.close(f"{owner} {f} quantile {q:.3g}", call(f, "quantile", q),
                              expect(lambda c: rat(c["q"][k])), case=case)
                rec.close(f"{owner} {f} median", call(f, "median"),
                          expect(lambda c: rat(c["q"][3])), case=case)


def observe(ds, obs, two, tag, case):
    rows = obs["rows"]
    n = len(rows)
    rec.eq(f"{tag} length", attempt(len, ds), n, case=case)
    for i in list(range(n)) + list(range(-n, 0)):
        got = attempt(lambda: ds[i])
        r = rows[i]
        where = "from the start" if i >= 0 else "from the end"
        if is_err(got):
            rec.bad(f"{tag} row {where}", [xrow(r), zv(r)], got, case=case, index=i)
            continue
        rec.close(f"{tag} input row {where}", got[0], xrow(r), case=case, index=i)
        z = float(zv(r))
        rec.close(f"{tag} observation {where}", got[1], [z, -2 * z] if two else z,
                  case=case, index=i)
    for i in (n, n + 1, -n - 1, -2 * n - 1):
        rec.raises(f"{tag} row outside the dataset is refused", attempt(lambda: ds[i]),
                   case=case, index=i)
    if n:
        check_stats(ds, obs, two, tag, case)


def one(case):
    two = case[0].get("two", False)
    rows = list(range(1, sum(case[0]["sizes"]) + 1))
    xs, zs = build(rows, case[0]["sizes"], two)
    keep = [tolist(a) for a in xs + zs]
    variants = [("sharded", attempt(Dataset, xs, zs))]
    fx = arr([xrow(r) for r in rows]).reshape(len(rows), 2)
    fz = arr([[zv(r), -2 * zv(r)] for r in rows]) if two else arr([zv(r) for r in rows])
    variants.append(("single array", attempt(Dataset, fx, fz)))
    for name, ds in variants:
        observe(ds, case[0]["obs"], two, name, case)
        for st in case[1:]:
            idx = arr(st["idx"], int)
            before = st["idx"]
            ds0, ds = ds, attempt(ds.subset, idx)
            rec.eq(f"{name} subset leaves the index list alone", tolist(idx), before, case=case)
            if is_err(ds):
                rec.bad(f"{name} subset", st["obs"]["rows"], ds, case=case)
                break
            observe(ds, st["obs"], two, name + " subset", case)
    rec.eq("building and reading leaves the given arrays alone",
           [tolist(a) for a in xs + zs], keep, case=case)


def large(case):
    """Many rows: statistics of the rows, rows from both ends and subsets."""
    n, sizes = case["n"], case["sizes"]
    v = np.array([[((i * 7919) % 10007) / 16.0, -((i * 104729) % 997) * 3.0] for i in range(n)])
    z = np.array([((i * 31337) % 5003) / 8.0 for i in range(n)])
    cut = np.cumsum(sizes)[:-1]
    ds = attempt(Dataset, [arr(a) for a in np.split(v, cut)], [arr(a) for a in np.split(z, cut)])
    for f, a in (("x", v), ("z", z)):
        want = {"min": a.min(0), "max": a.max(0), "mean": a.mean(0), "var": a.var(0, ddof=1), "std": a.std(0, ddof=1),
                "median": np.median(a, 0)}
        for s, w in want.items():
            rec.close(f"{s} of many rows", attempt(lambda: getattr(ds, f"{f}_{s}")()), w, case=case)
        for q in (0.0, 0.1, 0.25, 0.9, 1.0):
            rec.close("quantile of many rows", attempt(lambda: getattr(ds, f"{f}_quantile")(q)), np.quantile(a, q, axis=0),
                      case=case)
        for q in (-0.01, 1.01):
            rec.raises("levels outside the unit interval are refused", attempt(lambda: getattr(ds, f"{f}_quantile")(q)), case=case, level=q)
    for i in [0, n - 1, -1, -n] + [int(t) for t in cut] + [int(t) - 1 for t in cut if t]:
        got = attempt(lambda: ds[i])
        rec.close("input row among many", got if is_err(got) else got[0], v[i], case=case, index=i)
        rec.close("observation among many", got if is_err(got) else got[1], z[i], case=case, index=i)
    idx = rec.rng.integers(0, n, n // 2)
    sub = attempt(lambda: ds.subset(arr(idx, int)))
    if is_err(sub):
        rec.bad("subset of many rows", "a dataset", sub, case=case)
        return
    order = np.sort(idx)
    rec.close("inputs of a large subset", np.concatenate([tonp(a) for a in sub.x_list]), v[order], case=case)
    rec.close("observations of a large subset", np.concatenate([tonp(a) for a in sub.z_list]), z[order], case=case)


rec.each(rec.payload.get("large", []), large)
cases = rec.payload["cases"]
# statistics and rows do not depend on observations being scalars
for k, c in enumerate(cases):
    if (k + rec.seed) % 3 == 0:
        c[0]["two"] = True
rec.each(cases, one)
rec.done()
