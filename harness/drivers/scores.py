"""Scores of Gaussian forecasts against quadrature and the calculus of the specification."""
from base import *
import gpmp.misc.scoringrules as S

rec = Recorder()
GX, GW = np.polynomial.legendre.leggauss(24)
BIG = 100000
UNITS = [1.0, 1e-3, 1e3]


def cdf(t):
    return 0.5 * math.erfc(-t / math.sqrt(2))


def integrate(f, lo, hi, marks):
    """Panels of at most one spread around the forecast, so that nothing narrow is missed."""
    e = sorted({lo, hi, *[m for m in marks if lo < m < hi]})
    t = 0.0
    for a, b in zip(e, e[1:]):
        h, c = (b - a) / 2, (a + b) / 2
        t += h * sum(w * f(c + h * x) for x, w in zip(GX, GW))
    return t


def marks(mu, s):
    return [mu + k * s for k in range(-12, 13)]


def score(mu, s, z, a, b):
    lo = max(a, min(mu - 12 * s, z))
    hi = min(b, max(mu + 12 * s, z))
    if lo >= hi:
        return 0.0
    return integrate(lambda u: (cdf((u - mu) / s) - (1.0 if z <= u else 0.0)) ** 2, lo, hi, marks(mu, s) + [z])


def num(v):
    v = tonp(v)
    return v if is_err(v) else v.reshape(-1)


def call(mu, s, z, lo, hi):
    a = -math.inf if lo == -BIG else lo
    b = math.inf if hi == BIG else hi
    if a == b:
        a = float(a)
    return num(attempt(S.tcrps_gaussian, arr(mu), arr(s), arr(z), a, b))


def one(c):
    u = UNITS[c["k"] % 3] if c["k"] % 4 == 0 else 1.0
    b = c["base"]
    w = dict(base=b, unit=u)
    sc = lambda x: x if abs(x) == BIG else x * u
    lo, hi = (sc(x) for x in b["iv"])
    mu, s, z = b["mu"] * u, b["s"] * u, b["z"] * u
    tol = dict(rtol=1e-6, atol=1e-7 * u * max(1, b["s"]))
    ref = score(mu, s, z, -math.inf if lo == -BIG else lo, math.inf if hi == BIG else hi)
    first = call([mu], [s], [z], lo, hi)
    if not rec.close("score of the first interval", first, [ref], **tol, **w):
        return
    tot = 0.0
    for p in c["iv"]:
        v = call([c["mu"] * u], [c["s"] * u], [c["z"] * u], sc(p[0]), sc(p[1]))
        if is_err(v):
            rec.bad("score of a piece", "a number", v, piece=p, case=c, **w)
            return
        tot += float(v[0])
    rec.close("pieces add up to the score", tot, ref * c["factor"], rtol=1e-6,
              atol=1e-7 * u * max(1, c["s"]) * len(c["iv"]), case=c, **w)
    # several forecasts at once, the same interval
    mus, ss, zs = [mu, mu + u, mu - 2 * u], [s, 2 * s, 0.5 * s], [z, z, z + u]
    many = call(mus, ss, zs, lo, hi)
    each = [call([m_], [s_], [z_], lo, hi) for m_, s_, z_ in zip(mus, ss, zs)]
    if not any(is_err(v) for v in each):
        rec.close("scores of several forecasts", many, [float(v[0]) for v in each], **tol, **w)
    # whole line
    g = num(attempt(S.crps_gaussian, arr(mus), arr(ss), arr(zs)))
    rec.close("whole-line score", g, [score(*t, -math.inf, math.inf) for t in zip(mus, ss, zs)], **tol, **w)
    rec.close("no interval means the whole line", num(attempt(S.tcrps_gaussian, arr(mus), arr(ss), arr(zs))), g, **tol, **w)
    if not is_err(g):
        rec.true("scores are not negative", bool(np.all(g >= -1e-12)), g, **w)
    r = num(attempt(S.crps_gaussian, arr([-m for m in mus]), arr(ss), arr([-t for t in zs])))
    rec.close("reflection leaves the score", r, g, rtol=1e-9, atol=1e-12 * u, **w)
    small = num(attempt(S.crps_gaussian, arr(mus), arr([1e-9 * u] * 3), arr(zs)))
    rec.close("small spreads give the absolute error", small, [abs(m - t) for m, t in zip(mus, zs)], rtol=1e-7, atol=1e-8 * u, **w)
    # improvements: mean excess of one draw, and of the larger of two, above z
    for name, power in (("ei1_up", 1), ("ei2_up", 2)):
        f = getattr(S, name)
        v = num(attempt(f, arr(mus), arr(ss), arr(zs)))
        want = []
        for m_, s_, z_ in zip(mus, ss, zs):
            top = m_ + 14 * s_
            low = max(z_, m_ - 14 * s_)
            e = integrate(lambda t: 1 - cdf((t - m_) / s_) ** power, low, top, marks(m_, s_)) if low < top else 0.0
            want.append(e + max(low - z_, 0.0))
        if not rec.close(name + " is the mean excess", v, want, rtol=1e-6, atol=1e-7 * u * max(ss) / u, **w):
            continue
        rec.true(name + " is not negative", bool(np.all(v >= -1e-7 * u)), v, **w)
        up = num(attempt(f, arr([m + 0.5 * u for m in mus]), arr(ss), arr(zs)))
        rec.true(name + " grows with the mean", not is_err(up) and bool(np.all(up >= v - 1e-7 * u)), [v, up], **w)
        hi_ = num(attempt(f, arr(mus), arr(ss), arr([t + 0.5 * u for t in zs])))
        rec.true(name + " falls with the level", not is_err(hi_) and bool(np.all(hi_ <= v + 1e-7 * u)), [v, hi_], **w)
        sm = num(attempt(f, arr(mus), arr([1e-9 * u] * 3), arr(zs)))
        rec.close(name + " at small spreads is the positive part", sm, [max(m - t, 0.0) for m, t in zip(mus, zs)],
                  rtol=1e-7, atol=1e-8 * u, **w)


rec.each(rec.payload["cases"], one)
rec.done()
