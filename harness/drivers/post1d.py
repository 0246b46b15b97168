"""One-dimensional posterior summaries against exact moments."""
from math import comb
from base import *
from gpmp.modeldiagnosis.un1ddist import Unnormalized1DDistribution
from gpmp.modeldiagnosis import param_stats as ps

rec = Recorder()
LEV = (0.1, 0.25, 0.5, 0.75, 0.9)
INTERVALS = ((0.0, 1.0), (-3.0, 2.0), (100.0, 104.0), (-0.02, 0.03), (-500.0, 500.0))
SHIFTS = (0.0, 1000.0, -1000.0, 5.0, -40.0)


def bern(b, t):
    n = len(b) - 1
    return sum(c * comb(n, i) * t ** i * (1 - t) ** (n - i) for i, c in enumerate(b))


def bern_cdf(b, t):
    n1 = len(b)
    return sum(c * sum(comb(n1, k) * t ** k * (1 - t) ** (n1 - k) for k in range(i + 1, n1 + 1)) for i, c in enumerate(b)) / sum(b)


def logp(b, lo, hi, shift):
    def f(x):
        p = bern(b, (x - lo) / (hi - lo))
        return (math.log(p) if p > 0 else -math.inf) + shift
    return f


def poly(c):
    b, k = c["b"], c["k"]
    lo, hi = INTERVALS[k % 5]
    shift = SHIFTS[(k // 5) % 5]
    w_ = hi - lo
    f = logp(b, lo, hi, shift)
    w = dict(b=b, interval=(lo, hi), shift=shift)
    d = attempt(Unnormalized1DDistribution, f, (lo, hi))
    if not rec.true("a distribution is built", not is_err(d), d, **w):
        return
    if abs(shift) < 100:
        rec.close("total mass", attempt(lambda: float(d.Z)), rat(c["mass"]) * w_ * math.exp(shift), rtol=1e-6, **w)
    rec.close("mean", attempt(d.mean), lo + w_ * rat(c["mean"]), rtol=1e-6, atol=1e-6 * w_, **w)
    scale = max(abs(lo), abs(hi))
    rec.close("variance", attempt(d.var), w_ ** 2 * rat(c["var"]), rtol=1e-6, atol=1e-6 * w_ ** 2 + 1e-11 * scale ** 2, **w)
    xs = [lo + w_ * j / 4 for j in range(5)]
    for j, x in enumerate(xs):
        rec.close("distribution function", attempt(d.cdf, x), rat(c["cdf"][j]), rtol=1e-6, atol=1e-7, x=x, **w)
    rec.eq("nothing lies below", attempt(d.cdf, lo - w_), 0.0, **w)
    rec.eq("everything lies below", attempt(d.cdf, hi + w_), 1.0, **w)
    t = [lo + w_ * s for s in (0.1, 0.35, 0.5, 0.8)]
    rec.close("density", attempt(d.pdf, t), [bern(b, (x - lo) / w_) / (rat(c["mass"]) * w_) for x in t], rtol=1e-6, **w)
    last = lo
    for p in LEV + (0.01, 0.995):
        x = attempt(d.quantile, p)
        if rec.true("a quantile", not is_err(x), x, p=p, **w):
            rec.true("a quantile lies in the interval", lo <= x <= hi, x, p=p, **w)
            # the search stops within 1e-6 of the abscissa
            m = max(b) * (len(b)) / sum(b) / w_
            rec.close("quantiles invert the distribution function", bern_cdf(b, (x - lo) / w_), p, rtol=0, atol=4e-6 * m + 1e-6, p=p, **w)
            if p in LEV:
                rec.true("quantiles increase", x >= last - 1e-5 * w_, [last, x], p=p, **w)
                last = x
    for p in (0.0, 1.0, -0.5, 1.5):
        rec.raises("levels outside the open unit interval are refused", attempt(d.quantile, p), p=p, **w)
    rec.raises("an empty interval is refused", attempt(Unnormalized1DDistribution, f, (hi, lo)), **w)
    if k % 3 == 0:
        # the fast version on a fine grid
        r = attempt(ps.fast_univariate_stats, lambda x: -max(f(x), -1e6), lo, hi, 2001)
        if rec.true("fast statistics", not is_err(r), r, **w):
            rec.close("fast mean agrees", (r[0] - lo) / w_, rat(c["mean"]), rtol=0, atol=1e-3, **w)
            rec.close("fast variance agrees", r[1] / w_ ** 2, rat(c["var"]), rtol=0, atol=1e-3 + 1e-11 * scale ** 2 / w_ ** 2, **w)
            for p in LEV:
                x = attempt(lambda: (r[2][str(p)] - lo) / w_)
                rec.close("fast quantiles agree", bern_cdf(b, x) if not is_err(x) else x, p, rtol=0, atol=2e-3, p=p, **w)
            m = max(bern(b, i / 500) for i in range(501))
            rec.true("fast mode is a largest value", bern(b, (r[3] - lo) / w_) >= m * (1 - 1e-3), r[3], **w)


def grid(c):
    b, k = c["b"], c["k"]
    n = len(b)
    h = (1.0, 0.25, 8.0)[k % 3]
    lo = (0.0, -2.0, 64.0)[(k // 3) % 3]
    shift = (0.0, 700.0, -2000.0)[(k // 9) % 3]
    shape = ((), (1,), (1, 1))[k % 3]
    asked = []

    def fn(x):
        i = (x - lo) / h
        asked.append(round(i, 6))
        v = b[int(round(i))] * math.log(2.0) + shift
        return v if k % 2 else arr(np.full(shape, v))
    w = dict(exponents=b, h=h, lo=lo, shift=shift)
    r = attempt(ps.fast_univariate_stats, fn, lo, lo + h * (n - 1), n)
    if not rec.true("fast statistics", not is_err(r), r, **w):
        return
    rec.eq("the grid covers the interval", sorted(set(asked)), [float(i) for i in range(n)], **w)
    rec.close("fast mean", r[0], lo + h * rat(c["mean"]), rtol=1e-9, **w)
    rec.close("fast variance", r[1], h * h * rat(c["var"]), rtol=1e-8, atol=1e-10 * lo * lo, **w)
    rec.close("fast quantiles", [r[2][str(p)] for p in LEV], [lo + h * rat(q) for q in c["quant"]], rtol=1e-9, **w)
    rec.true("fast mode", round((r[3] - lo) / h, 6) + 1 in c["modes"], [r[3], c["modes"]], **w)


def unbounded(_):
    """Half-lines and the whole line: exponential, gamma and normal densities."""
    for shift in SHIFTS:
        for a, s in ((0.0, 1.0), (5.0, 0.5), (-3.0, 4.0)):
            for side in (1, -1):
                for shape in (1, 3):
                    def f(x):
                        t = side * (x - a) / s
                        return (-t + (shape - 1) * math.log(t) if t > 0 else -math.inf if shape > 1 or t < 0 else 0.0) + shift
                    iv = (a, math.inf) if side > 0 else (-math.inf, a)
                    w = dict(start=a, scale=s, side=side, shape=shape, shift=shift)
                    d = attempt(Unnormalized1DDistribution, f, iv)
                    if not rec.true("a distribution is built", not is_err(d), d, **w):
                        continue
                    rec.close("mean", attempt(d.mean), a + side * s * shape, rtol=1e-5, atol=1e-5, **w)
                    rec.close("variance", attempt(d.var), s * s * shape, rtol=1e-4, atol=1e-6, **w)
                    t = 1.5
                    up = math.exp(-t) * (1 if shape == 1 else 1 + t + t * t / 2)
                    rec.close("distribution function", attempt(d.cdf, a + side * s * t), 1 - up if side > 0 else up, rtol=1e-5, atol=1e-6, **w)
                    rec.close("density", attempt(d.pdf, [a + side * s * t]), [t ** (shape - 1) * math.exp(-t) / math.factorial(shape - 1) / s], rtol=1e-5, **w)
                    rec.eq("nothing lies outside", [attempt(d.cdf, a - side * 2.0)], [0.0 if side > 0 else 1.0], **w)
                    rec.raises("quantiles need finite bounds", attempt(d.quantile, 0.5), **w)
        for m, s in ((0.0, 1.0), (0.7, 0.3), (-2.0, 3.0)):
            w = dict(mean=m, scale=s, shift=shift)
            d = attempt(Unnormalized1DDistribution, lambda x: -0.5 * ((x - m) / s) ** 2 + shift, (-math.inf, math.inf))
            if not rec.true("a distribution is built", not is_err(d), d, **w):
                continue
            rec.close("mean", attempt(d.mean), m, rtol=1e-5, atol=1e-5, **w)
            rec.close("variance", attempt(d.var), s * s, rtol=1e-4, **w)
            rec.close("distribution function", attempt(d.cdf, m + s), 0.8413447460685429, rtol=1e-5, **w)
    for bad in ((0.0, "1"), (None, 1.0), (0.0, arr([1.0, 2.0])), ([0.0], 1.0)):
        rec.raises("bounds that are not numbers are refused", attempt(Unnormalized1DDistribution, lambda x: 0.0, bad), bounds=str(bad))


class Stub:
    def __init__(self):
        self.asked = []

    def fisher_information(self, xi, covparam, epsilon=1e-3):
        self.asked.append((tolist(xi), tolist(covparam)))
        return "fisher"


class Info:
    pass


def table(c):
    """Each parameter in turn is summarised with the others held at their reference."""
    ds, k = c["table"], c["k"]
    m = len(ds)
    ref = [0.5 - j for j in range(m)]
    boxed = k % 2 == 0
    delta = (1.0, 4.0)[k % 4 // 2]
    box = [[r - 1 - j for j, r in enumerate(ref)], [r + 2 + j for j, r in enumerate(ref)]]
    iv = [(box[0][j], box[1][j]) if boxed else (ref[j] - delta, ref[j] + delta) for j in range(m)]
    off = []

    def crit(p):
        v = tonp(p).reshape(-1)
        moved = [j for j in range(m) if v[j] != ref[j]]
        if len(moved) > 1:
            off.append(v.tolist())
        tot = 300.0
        for j in range(m):
            lo, hi = iv[j]
            x = bern(ds[j]["b"], (v[j] - lo) / (hi - lo))
            tot -= math.log(x) if x > 0 else -1e4
        return arr(tot) if k % 3 else tot
    ind = None if k % 3 == 0 else [m - 1] if k % 3 == 1 else [m - 1, 0]
    cov, xi, model = arr(ref), arr([[1.0, 2.0]]), Stub()
    kw = dict(model=model, xi=xi, selection_criterion=crit, covparam=cov)
    if k % 5 == 0:
        info = Info()
        info.selection_criterion_nograd, info.covparam, info.model, info.xi = crit, cov, model, xi
        kw = dict(info=info)
    if boxed:
        kw["param_box"] = box
    else:
        kw["delta"] = delta
    if ind is not None:
        kw["ind"] = ind
    rows = list(range(m)) if ind is None else ind
    for name, f, atol in (("integrated", ps.selection_criterion_statistics, 1e-4),
                          ("fast", lambda **q: ps.selection_criterion_statistics_fast(n_points=801, **q), 3e-3)):
        w = dict(version=name, b=[d["b"] for d in ds], ind=ind, boxed=boxed, delta=delta)
        model.asked = []
        r = attempt(f, **kw)
        if not rec.true("a table of statistics", not is_err(r), r, **w):
            continue
        t = r["parameter_statistics"]
        rec.eq("one row per parameter", [str(s) for s in t.rownames], [f"param_{j}" for j in rows], **w)
        for j in rows:
            lo, hi = iv[j]
            L, d = hi - lo, ds[j]
            g = lambda col: float(t[f"param_{j}", col])
            rec.close("mean of a parameter", (g("mean") - lo) / L, rat(d["mean"]), rtol=0, atol=atol, j=j, **w)
            rec.close("variance of a parameter", g("variance") / L ** 2, rat(d["var"]), rtol=0, atol=atol, j=j, **w)
            for p in LEV:
                rec.close("quantile of a parameter", bern_cdf(d["b"], (g(f"quantile_{p}") - lo) / L), p, rtol=0, atol=2 * atol, j=j, p=p, **w)
            top = max(bern(d["b"], i / 1000) for i in range(1001))
            if name == "fast" or c["single"][j]:
                rec.true("mode of a parameter", bern(d["b"], (g("mode") - lo) / L) >= top * (1 - 5e-3), g("mode"), j=j, **w)
        rec.eq("information at the reference", model.asked, [([[1.0, 2.0]], ref)], **w)
        rec.eq("information is passed on", r["fisher_information"], "fisher", **w)
        rec.eq("the reference is left as it was", tolist(cov), ref, **w)
        rec.eq("other parameters stay at the reference", off, [], **w)
    for miss in ("model", "xi", "selection_criterion", "covparam"):
        if "info" not in kw:
            rec.raises("a missing argument is refused", attempt(ps.selection_criterion_statistics_fast, **{a: v for a, v in kw.items() if a != miss}), missing=miss)


def tails(_):
    """Unbounded intervals: the normal and the exponential."""
    for shift in (0.0, 800.0, -800.0):
        for mu, s in ((0.0, 1.0), (3.0, 0.5), (-2.0, 2.0)):
            d = attempt(Unnormalized1DDistribution, lambda x: -0.5 * ((x - mu) / s) ** 2 + shift, (-math.inf, math.inf))
            w = dict(mu=mu, s=s, shift=shift)
            if rec.true("a distribution on the line", not is_err(d), d, **w):
                rec.close("mean on the line", attempt(d.mean), mu, rtol=1e-5, atol=1e-5, **w)
                rec.close("variance on the line", attempt(d.var), s * s, rtol=1e-5, atol=1e-5, **w)
                for x in (-1.0, 0.0, 2.5):
                    rec.close("distribution function on the line", attempt(d.cdf, x), 0.5 * math.erfc(-(x - mu) / s / math.sqrt(2)), rtol=1e-5, atol=1e-6, x=x, **w)
                rec.raises("quantiles need a finite interval", attempt(d.quantile, 0.5), **w)
        d = attempt(Unnormalized1DDistribution, lambda x: -x + shift, (0.0, math.inf))
        if rec.true("a distribution on the half line", not is_err(d), d, shift=shift):
            rec.close("mean on the half line", attempt(d.mean), 1.0, rtol=1e-5, shift=shift)
            rec.close("distribution function on the half line", attempt(d.cdf, 1.0), 1 - math.exp(-1), rtol=1e-5, shift=shift)


rec.each(rec.payload["cases"], lambda c: table(c) if "table" in c else poly(c) if c["kind"] == "poly" else grid(c))
if rec.payload.get("part", 0) == 0:
    rec.each([0], tails)
    rec.each([0], unbounded)
rec.done()
