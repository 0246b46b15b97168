"""Requests with fitting and unfitting data, one after another on the same model (Shapes.tla)."""
from base import *
import gpmp as gp

rec = Recorder()
rec.extra["trace"] = []


def cov(x, y, p, pairwise=False):
    return gp.kernel.maternp_covariance(x, y, 1, p[:1 + x.shape[1]], pairwise)


def line(x, p):
    return p[0] + p[1] * x[:, :1]


def ones(x, p):
    return gnp.ones((x.shape[0], 1))


def build(kind):
    c = arr([0.3] + [0.2, -0.4, 0.1, 0.5] * 4)
    if kind == "zero":
        return gp.core.Model(None, cov, None, c, "zero")
    if kind == "known":
        return gp.core.Model(line, cov, arr([0.5, 2.0]), c, "parameterized")
    return gp.core.Model(ones, cov, None, c, "linear_predictor")


def fits(c):
    x, z, t = c["x"], c["z"], c["t"]
    left = len(x) == 2 and (len(z) == 1 or (len(z) == 2 and z[1] == 1)) and x[0] == z[0]
    return left and (c["op"] == "loo" or (len(t) == 2 and t[1] == x[1]))


def ask(m, c, x, z, t, kw):
    return m.loo(x, z, **kw) if c["op"] == "loo" else m.predict(x, z, t, **kw)


def one(case):
    rs = np.random.RandomState(case["seed"])
    m = build(case["kind"])
    tr = []
    for c in case["calls"]:
        x, z, t = (rs.permutation(np.arange(1, 1 + int(np.prod(c[a]))) * 0.37).reshape(c[a]) for a in ("x", "z", "t"))
        own = bool(rs.randint(2))
        put = (lambda a: arr(a)) if own else (lambda a: a.copy())
        kw = {} if not own or rs.randint(2) else dict(convert_in=False)
        r = attempt(ask, m, c, put(x), put(z), put(t), kw)
        out = dict(c, refused=is_err(r), shapes=[], same=True)
        if not is_err(r):
            out["shapes"] = [list(a.shape) for a in r]
            if fits(c):
                ref = attempt(ask, build(case["kind"]), c, arr(x), arr(z.reshape(-1)), arr(t), {})
                out["same"] = not is_err(ref) and all(np.allclose(tonp(a).reshape(-1), tonp(b).reshape(-1), rtol=1e-7, atol=1e-9) for a, b in zip(r, ref))
        tr.append(out)
    rec.extra["trace"].append(tr)


def declared(_):
    """A mean is declared with what it needs."""
    c = arr([0.0, 0.0])
    for kind in ("zero", "parameterized", "linear_predictor", "constant", "", None):
        for name, mean in (("none", None), ("function", ones), ("number", 1.0), ("array", arr([1.0]))):
            if kind == "parameterized" and name == "function":
                mean = line
            r = attempt(lambda: gp.core.Model(mean, cov, arr([0.5, 2.0]) if kind == "parameterized" else None, c, kind))
            ok = (kind == "zero" and name == "none") or (kind in ("parameterized", "linear_predictor") and name == "function")
            rec.eq("a mean is accepted exactly when declared with what it needs", not is_err(r), ok, kind=kind, mean=name)


rec.each(rec.payload["cases"], one)
rec.each([0], declared)
rec.done()
