"""Grids, distances and random designs."""
from base import *
import gpmp.misc.designs as G

rec = Recorder()
rec.extra["trace"] = trace = []


def grid(c):
    d = c["dim"]
    box = [[float(v) for v in c["lo"]], [float(v) for v in c["hi"]]]
    n = list(c["n"])
    want = sorted([rat(v) for v in p] for p in c["points"])
    q = 2.0 ** c["unit"]
    w = dict(n=n, box=box, unit=c["unit"])
    forms = [n] + ([n[0]] if len(set(n)) == 1 else [])
    for f in forms:
        x = attempt(lambda: G.regulargrid(d, f, [[v * q for v in b] for b in box]) / q)
        if not rec.true("a grid is made", not is_err(x), x, **w):
            continue
        rec.eq("size of the grid", list(x.shape), [len(want), d], **w)
        rec.close("each combination of levels exactly once", np.array(sorted(np.round(x, 12).tolist())).reshape(-1, d), np.array(want).reshape(-1, d), **w)
        rec.eq("the requested levels are left alone", n, list(c["n"]), **w)


def dist(c):
    p = np.array(c["p"], dtype=float)
    k = 2.0 ** c["unit"]
    shift = np.arange(c["dim"]) * 5.0 * k
    q = p * k + shift
    w = dict(points=c["p"], factor=k)
    if c["min2"] >= 0:
        rec.close("smallest distance", attempt(G.mindist, q), math.sqrt(c["min2"]) * k, rtol=1e-7, **w)
        rec.close("largest distance", attempt(G.maxdist, q), math.sqrt(c["max2"]) * k, rtol=1e-7, **w)
    side = rec.payload["side"]
    grid_ = np.stack([g.reshape(-1) for g in np.meshgrid(*[np.arange(side + 1.0)] * c["dim"], indexing="ij")], axis=1)
    box = [list(shift), list(shift + side * k)]
    cand = grid_ * k + shift
    rec.close("fill distance over the points given", attempt(G.filldist_approx, q, box, x=cand), math.sqrt(c["fill2"]) * k, rtol=1e-7, **w)
    if c.get("k", 0) % 50 == 0:
        g = attempt(G.filldist_approx, q, box, n=3000)
        fine = np.stack([t.reshape(-1) for t in np.meshgrid(*[np.linspace(0, side, 41)] * c["dim"], indexing="ij")], axis=1) * k + shift
        true = max(math.sqrt(min(((f - t) ** 2).sum() for t in q)) for f in fine)
        rec.true("fill distance over random points", not is_err(g) and 0.75 * true <= g <= 1.05 * true, [g, true], **w)


def large(c):
    """A lattice of many points with one stray point: every distance is known."""
    m, d, k = c["m"], c["dim"], 2.0 ** c["unit"]
    lat = np.stack([g.reshape(-1) for g in np.meshgrid(*[np.arange(float(m))] * d, indexing="ij")], axis=1)
    r = np.random.default_rng(c["seed"])
    lat = lat[r.permutation(len(lat))]
    near = lat[0] + np.array([0.25] + [0.0] * (d - 1))
    far = np.full(d, m - 1 + 3.0)
    pos = int(r.integers(len(lat) + 1))
    w = dict(lattice=m, dim=d, stray_at=pos, unit=c["unit"])
    rec.close("smallest distance in a large set", attempt(G.mindist, np.insert(lat, pos, near, axis=0) * k), 0.25 * k, rtol=1e-9, **w)
    rec.close("smallest distance in a lattice", attempt(G.mindist, lat * k), k, rtol=1e-9, **w)
    rec.close("largest distance in a large set", attempt(G.maxdist, np.insert(lat, pos, far, axis=0) * k),
              (m + 2.0) * math.sqrt(d) * k, rtol=1e-9, **w)
    few = np.zeros((1, d))
    cand = np.concatenate([lat] * (1 + 25000 // len(lat)))
    pos = int(r.integers(len(cand) + 1))
    rec.close("fill distance over many candidates", attempt(G.filldist_approx, few, [[0.0] * d, list((far + 1) * k)],
                                                           x=np.insert(cand, pos, far, axis=0) * k),
              (m + 2.0) * math.sqrt(d) * k, rtol=1e-9, **dict(w, stray_at=pos))
    rec.close("fill distance of a large set", attempt(G.filldist_approx, lat * k, [[0.0] * d, list((far + 1) * k)],
                                                      x=np.insert(lat, pos % (len(lat) + 1), far, axis=0) * k),
              3.0 * math.sqrt(d) * k, rtol=1e-9, **w)


def random_designs(c):
    np.random.seed(c["seed"])
    d, n = c["dim"], c["n"]
    lo = np.array(c["lo"][:d], dtype=float)
    hi = lo + np.array(c["w"][:d], dtype=float)
    box = [lo.tolist(), hi.tolist()]
    if c["form"] == 1:
        box = np.array(box)
    f = getattr(G, c["f"])
    kw = {"max_iter": c["iter"]} if c["f"] in ("maximinlhs", "ldrandunif") else {}
    x = attempt(f, d, n, box, **kw)
    w = dict(design=c["f"], dim=d, n=n, box=tolist(np.array(box)))
    if not rec.true("a design is made", not is_err(x) and getattr(x, "ndim", 0) == 2, x, **w):
        return
    eps = 1e-12 * (np.abs(lo) + np.abs(hi))
    inside = bool(np.all(np.isfinite(x)) and x.shape[1] == d and np.all(x >= lo - eps) and np.all(x <= hi + eps))
    sl = []
    if x.shape[1] == d:
        sl = [np.clip(np.floor((x[:, j] - lo[j]) / (hi[j] - lo[j]) * n), 0, n - 1).astype(int).tolist() for j in range(d)]
    trace.append([{"n": n, "dim": d, "count": int(x.shape[0]), "width": int(x.shape[1]), "inside": inside,
                   "latin": "lhs" in c["f"], "slices": sl, "f": c["f"]}])
    if n > 1:
        rec.true("points differ in every coordinate", all(len(set(x[:, j].tolist())) == n for j in range(x.shape[1])), x, **w)
    if c["f"] == "maximinldlhs":
        return
    y = attempt(f, d, n, box, **kw)
    rec.true("another call gives another design", is_err(y) or not np.array_equal(x, y), **w)


def spread():
    """Uniform samples: mean and both halves, at eight standard errors."""
    np.random.seed(abs(rec.seed) + 17)
    n, box = 4000, [[-5.0, 100.0], [5.0, 100.5]]
    x = G.randunif(2, n, box)
    u = (x - np.array(box[0])) / (np.array(box[1]) - np.array(box[0]))
    for j in range(2):
        rec.close("mean of a uniform design", u[:, j].mean(), 0.5, rtol=0, atol=8 * 0.2887 / n ** .5)
        rec.close("variance of a uniform design", u[:, j].var(), 1 / 12, rtol=0, atol=8 * 0.0745 / n ** .5)
    rec.close("coordinates are independent", np.corrcoef(u.T)[0, 1], 0.0, rtol=0, atol=8 / n ** .5)


KIND = {"random": random_designs, "large": large, "grid": grid, "dist": dist}
rec.each(rec.payload["cases"], lambda c: KIND[c["kind"]](c), limit=60)
if rec.payload.get("part", 0) == 0:
    rec.each([0], lambda _: spread())
rec.done()
