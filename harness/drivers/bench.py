"""Benchmark functions against their published expressions."""
from base import *
import gpmp.misc.testfunctions as tf

rec = Recorder()
FN = dict(sin=math.sin, cos=math.cos, exp=math.exp, ln=math.log, sqrt=math.sqrt)


def ev(t):
    op = t[0]
    if op == "q":
        return rat(t[1])
    if op == "pi":
        return math.pi
    if op == "sum":
        return math.fsum(ev(a) for a in t[1])
    if op == "prod":
        return math.prod(ev(a) for a in t[1])
    if op == "div":
        return ev(t[1]) / ev(t[2])
    return FN[op](ev(t[1]))


OPTIMA = dict(braninhoo=([[-math.pi, 12.275], [math.pi, 2.275], [9.42478, 2.475]], 0.397887),
              hartmann6=([[0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573]], -3.32237))


def one(c):
    f = getattr(tf, c["f"])
    x = np.array([[rat(q) for q in r] for r in c["rows"]])
    want = np.array([ev(v) for v in c["values"]])
    w = dict(f=c["f"], rows=x.tolist())
    if c["f"] == "twobumps" and c["k"] % 2:
        x = x[:, 0]
    x0 = x.copy()
    got = attempt(f, x)
    if not rec.true("a response is given", not is_err(got), got, **w):
        return
    rec.eq("one response per row", list(np.shape(got)), [len(want)], **w)
    rec.close("responses are the published ones", got, want, rtol=1e-10, atol=1e-10, **w)
    rec.eq("points are left alone", tolist(x), tolist(x0), **w)
    g = np.random.default_rng(c["seed"])
    big = np.concatenate([x, x0[g.integers(0, len(x), 40)]])
    rec.close("a row's response does not depend on the others", attempt(lambda: f(big)[:len(x)]), got, rtol=1e-13, **w)
    rec.close("a row's response does not depend on the others", attempt(lambda: np.concatenate([f(x[i:i + 1]) for i in range(len(x))])), got, rtol=1e-13, **w)
    for m in range(1, 10):
        at = g.integers(0, len(x), m)
        rec.close("a row's response does not depend on their number", attempt(f, x0[at]), np.asarray(got)[at], rtol=1e-13, **w)
    rec.close("rows may lie apart in memory", attempt(f, np.repeat(x, 2, axis=0)[::2]), got, rtol=1e-13, **w)
    if x.ndim == 2:
        rec.close("columns may lie apart in memory", attempt(f, np.asfortranarray(x)), got, rtol=1e-13, **w)
        if c["f"] == "wave":
            # both published forms have the same mixed differences
            y = g.uniform(-1, 1, (len(x), 2))
            s = lambda a, b: f(np.column_stack([a, b]))
            mix = attempt(lambda: s(y[:, 0], y[:, 1]) - s(x[:, 0], y[:, 1]) - s(y[:, 0], x[:, 1]) + s(x[:, 0], x[:, 1]))
            e = lambda a, b: np.exp(1.8 * (a + b))
            rec.close("responses are the published ones", mix, e(y[:, 0], y[:, 1]) - e(x[:, 0], y[:, 1]) - e(y[:, 0], x[:, 1]) + e(x[:, 0], x[:, 1]), rtol=1e-9, atol=1e-9, **w)
    if c["f"] in OPTIMA:
        at, v = OPTIMA[c["f"]]
        rec.close("published optimum", attempt(f, np.array(at)), [v] * len(at), rtol=1e-5, atol=2e-5, **w)
        rec.true("nothing lies below the published optimum", bool((tonp(got) >= v - 2e-5).all()), got, **w)


rec.each(rec.payload["cases"], one)
rec.done()
