"""Empirical parameter bounds against exact ones."""
from base import *
import gpmp.kernel as gk

rec = Recorder()


def one(c):
    g = np.random.default_rng(c["seed"])
    x, z = np.array(c["x"], float), np.array(c["z"], float)
    d = x.shape[1]
    ux = g.choice([1.0, 1e-3, 250.0], d)
    sx = g.choice([0.0, 0.0, 1000.0], d)
    uz, sz = g.choice([1.0, 1e-4, 1e6]), g.choice([0.0, 50.0])
    rows = []
    for i, (lo, hi) in enumerate(c["b"]):
        u = uz ** 2 if i == c["m"] else 1.0 / ux[i - c["m"] - 1] if i > c["m"] else 1.0
        rows.append([math.log(rat(lo) * u) if lo[0] else -math.inf, math.log(rat(hi) * u) if hi[0] else math.inf])
    xs, zs = x * ux + sx, (z + sz) * uz
    kw = {}
    f = c["fac"]
    if c["m"] or g.integers(0, 2):
        kw["mean_paramlength"] = c["m"]
    for key, name, default in (("lo", "var_lower_factor", 2.0), ("hi", "var_upper_factor", 10.0), ("len", "length_lower_factor", 2.0)):
        if rat(f[key]) != default or g.integers(0, 2):
            kw[name] = rat(f[key])
    w = dict(case=c, kw=kw, units=[ux.tolist(), sx.tolist(), float(uz), float(sz)])
    zin = arr(zs) if g.integers(0, 2) else arr(zs.reshape(-1, 1))
    xin = arr(xs)
    b = attempt(gk.empirical_bounds_factory, xin, zin, **kw)
    if not rec.true("bounds are given", not is_err(b), b, **w):
        return
    rec.eq("one row per parameter", list(np.shape(tonp(b))), [len(rows), 2], **w)
    rec.true("bounds are those of the data", np.shape(tonp(b)) == (len(rows), 2) and
             all(a == e if math.isinf(e) else abs(a - e) < 1e-6 for p, q in zip(tolist(b), rows) for a, e in zip(p, q)),
             [tolist(b), rows], **w)
    rec.eq("data are left alone", [tolist(xin), tonp(zin).reshape(-1).tolist()], [xs.tolist(), zs.tolist()], **w)


rec.each(rec.payload["cases"], one)
rec.done()
