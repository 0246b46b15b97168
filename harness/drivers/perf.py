"""Performance summaries on stated predictions and on real models."""
import contextlib
import io
from base import *
import gpmp as gp
from gpmp.modeldiagnosis.performance import compute_performance, perf
from gpmp.modeldiagnosis.utils import describe_array, sigma_rho_from_covparam

rec = Recorder()


class Stub:
    """A model that answers with the stated predictions and records its questions."""

    def __init__(self, loo, pred):
        self.l, self.p, self.asked = loo, pred, []

    def loo(self, xi, zi, *a, **k):
        self.asked.append(("loo", tolist(xi), tolist(zi)))
        return self.l

    def predict(self, xi, zi, xt, *a, **k):
        self.asked.append(("predict", tolist(xi), tolist(zi), tolist(xt)))
        return self.p


def cdf(t):
    return 0.5 * math.erfc(-t / math.sqrt(2))


NAMES = (("std", lambda m: math.sqrt(rat(m["var"]))), ("tss", lambda m: rat(m["tss"])),
         ("{0}", lambda m: rat(m["res"])), ("{0}_over_tss", lambda m: rat(m["ratio"])),
         ("log10_{0}_over_tss", lambda m: math.log10(rat(m["ratio"])) if m["ratio"][0] else -math.inf),
         ("rmse", lambda m: math.sqrt(rat(m["ms"]))), ("rmse_over_std", lambda m: math.sqrt(rat(m["ms"]) / rat(m["var"]))),
         ("{1}", lambda m: rat(m["explained"])))


def expect(p, m, pre, res, name, units, **w):
    rec.eq("number of observations", int(p.get(pre + "_n", -1)), m["n"], **w)
    pow_ = {"std": 1, "tss": 2, "{0}": 2, "rmse": 1}
    for key, f in NAMES:
        full = pre + "_" + key.format(res, name)
        v = attempt(lambda: float(tonp(p[full])))
        rec.close(full, v, f(m) * units ** pow_.get(key, 0), rtol=1e-8, atol=1e-10 * units ** pow_.get(key, 0), **w)


def one(c):
    k = c["k"]
    u = [1.0, 1e-4, 1e5][k % 3]
    off = [0.0, 3.0][k % 2]                      # deviations from the mean do not see it
    a, b = c["a"], c["b"]
    z = np.array(a["z"]) * u + off * u
    e = np.array(a["e"]) * u
    zt = np.array(b["z"]) * u + off * u
    et = np.array(b["e"]) * u
    n, m = len(z), len(zt)
    v = (1.0 + np.arange(n)) * u * u
    vt = (0.5 + np.arange(m)) * u * u
    xi, xt = np.arange(n * 2.0).reshape(n, 2), np.arange(m * 2.0).reshape(m, 2) - 7
    col = k % 5 == 0                             # observations given as a column
    sh = (lambda t: t.reshape(-1, 1)) if col else (lambda t: t)
    loo = (arr(z - e), arr(v), arr(e))
    pred = ((zt - et), vt) if k % 2 else (arr(zt - et), arr(vt))
    w = dict(z=z, e=e, zt=zt, et=et, column=col)
    forms = {"asked": (loo, pred, {}), "given": ((None,) * 3, (None,) * 2, dict(loo_res=loo, zpmzpv=pred))}
    for how, (l, p, kw) in forms.items():
        s = Stub(l, p)
        out = attempt(compute_performance, s, arr(xi), arr(sh(z)), xtzt=(arr(xt), arr(sh(zt))), compute_pit=True, **kw)
        if not rec.true("summaries are returned", not is_err(out), out, how=how, **w):
            continue
        expect(out, a["m"], "loo", "press", "Q2", u, how=how, **w)
        expect(out, b["m"], "test", "rss", "R2", u, how=how, **w)
        rec.close("leave-one-out probability transforms", out.get("loo_pit", Err(KeyError("loo_pit"))),
                  [cdf(t / math.sqrt(s_)) for t, s_ in zip(e, v)], rtol=1e-6, atol=1e-9, how=how, **w)
        rec.close("test probability transforms", out.get("test_pit", Err(KeyError("test_pit"))),
                  [cdf(t / math.sqrt(s_)) for t, s_ in zip(et, vt)], rtol=1e-6, atol=1e-9, how=how, **w)
        asked = [("loo", xi.tolist(), sh(z).tolist()), ("predict", xi.tolist(), sh(z).tolist(), xt.tolist())] if how == "asked" else []
        rec.true("the model is asked about the data given", sorted(s.asked) == sorted(asked), s.asked, how=how, **w)
    s = Stub(loo, pred)
    out = attempt(compute_performance, s, arr(xi), arr(z), loo=False, xtzt=(arr(xt), arr(zt)))
    if rec.true("test summaries alone", not is_err(out), out, **w):
        rec.true("only what was asked for", not any(t.startswith("loo") or t.endswith("pit") for t in out), sorted(out), **w)
        expect(out, b["m"], "test", "rss", "R2", u, **w)
    out = attempt(compute_performance, s, arr(xi), arr(z))
    if rec.true("leave-one-out summaries alone", not is_err(out), out, **w):
        rec.true("only what was asked for", not any(t.startswith("test") or t.endswith("pit") for t in out), sorted(out), **w)
        expect(out, a["m"], "loo", "press", "Q2", u, **w)
    if k % 10 == 0:
        printed(s, xi, z, xt, zt, a["m"], b["m"], u, w)
    # descriptive table of the two columns
    t = attempt(describe_array, np.stack([z, -2 * z], axis=1), ["a", "b"], [2.0, 3.0])
    if rec.true("a descriptive table", not is_err(t), t, **w):
        mm = a["m"]
        mean = rat(mm["mean"]) * u + off * u
        sd = math.sqrt(rat(mm["var"])) * u
        lo, hi = mm["min"] * u + off * u, mm["max"] * u + off * u
        for r, f, q in (("a", 1.0, 2.0), ("b", -2.0, 3.0)):
            want = {"min": min(lo * f, hi * f), "max": max(lo * f, hi * f), "delta": mm["delta"] * u * abs(f),
                    "mean": mean * f, "std": sd * abs(f), "delta_over_sigma": mm["delta"] * u * abs(f) * q}
            for key, val in want.items():
                rec.close("descriptive " + key, attempt(lambda: float(t[r, key])), val, rtol=1e-9, atol=1e-9 * u, row=r, **w)


def printed(s, xi, z, xt, zt, ma, mb, u, w):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = attempt(perf, s, arr(xi), arr(z), xtzt=(arr(xt), arr(zt)))
    rec.true("the report prints", not is_err(r), r, **w)
    got = {}
    for line in buf.getvalue().splitlines():
        if ":" in line:
            key, val = line.rsplit(":", 1)
            got.setdefault(key.strip(), []).append(val.strip())
    for key, f, p in (("std(z)", lambda m: math.sqrt(rat(m["var"])), 1), ("tss", lambda m: rat(m["tss"]), 2),
                      ("rmse", lambda m: math.sqrt(rat(m["ms"])), 1)):
        want = [f(ma) * u ** p, f(mb) * u ** p]
        v = [float(t.replace("Inf", "inf")) for t in got.get(key, [])]
        rec.true("printed " + key, len(v) == 2 and all(abs(x - y) <= 6e-3 * abs(y) + 6e-4 * (abs(y) >= 0.1) for x, y in zip(v, want)), [v, want], **w)
    for key, m in (("Q2", ma), ("R2", mb)):
        y = rat(m["explained"])
        v = [float(t) for t in got.get(key, [])]
        rec.true("printed " + key, len(v) == 1 and abs(v[0] - y) <= 6e-3 * abs(y) + 6e-4, [v, y], **w)


def real(seed):
    """A real model: the summaries are those of its own predictions, in any order of the data."""
    rng = np.random.default_rng(seed)
    n, m = int(rng.integers(4, 9)), int(rng.integers(2, 5))
    grid = rng.permutation(25)[:n + m]
    P = np.stack([grid % 5, grid // 5], axis=1) / 4.0
    xi, xt = P[:n], P[n:]
    f = lambda x: np.sin(3 * x[:, 0]) + x[:, 1] ** 2 + 10 * (seed % 2)
    zi, zt = f(xi), f(xt)

    def kern(x, y, covparam, pairwise=False):
        return gp.kernel.maternp_covariance(x, y, 1, covparam, pairwise)
    mean = lambda x, p: gnp.ones((x.shape[0], 1))
    model = gp.core.Model(mean, kern, None, arr([0.3, 0.5, -0.2]), "linear_predictor")
    w = dict(xi=xi, xt=xt, seed=seed)
    out = attempt(compute_performance, model, arr(xi), arr(zi), xtzt=(arr(xt), arr(zt)), compute_pit=True)
    if not rec.true("summaries of a model", not is_err(out), out, **w):
        return
    zl, vl, el = (tonp(t).reshape(-1) for t in model.loo(arr(xi), arr(zi)))
    zp, vp = (tonp(t).reshape(-1) for t in model.predict(arr(xi), arr(zi), arr(xt)))
    g = lambda d, k: float(tonp(d[k]))
    rec.close("press of a model", g(out, "loo_press"), float(((zi - zl) ** 2).sum()), rtol=1e-6, **w)
    rec.close("rss of a model", g(out, "test_rss"), float(((zt - zp) ** 2).sum()), rtol=1e-6, **w)
    rec.close("Q2 of a model", g(out, "loo_Q2"), 1 - float(((zi - zl) ** 2).sum() / ((zi - zi.mean()) ** 2).sum()), rtol=1e-6, **w)
    rec.close("R2 of a model", g(out, "test_R2"), 1 - float(((zt - zp) ** 2).sum() / ((zt - zt.mean()) ** 2).sum()), rtol=1e-6, **w)
    rec.close("transforms of a model", out["loo_pit"], [cdf((a - b) / math.sqrt(c)) for a, b, c in zip(zi, zl, vl)], rtol=1e-5, atol=1e-8, **w)
    rec.close("test transforms of a model", out["test_pit"], [cdf((a - b) / math.sqrt(c)) for a, b, c in zip(zt, zp, vp)], rtol=1e-5, atol=1e-8, **w)
    p, q = rng.permutation(n), rng.permutation(m)
    o2 = attempt(compute_performance, model, arr(xi[p]), arr(zi[p]), xtzt=(arr(xt[q]), arr(zt[q])), compute_pit=True)
    if rec.true("summaries of the reordered data", not is_err(o2), o2, **w):
        for key in out:
            if key.endswith("pit"):
                rec.close("reordered " + key, tonp(o2[key]), tonp(out[key])[p if "loo" in key else q], rtol=1e-5, atol=1e-7, **w)
            else:
                rec.close("reordered " + key, g(o2, key), g(out, key), rtol=1e-5, atol=1e-8, **w)
    o3 = attempt(compute_performance, model, arr(xi), arr(zi), loo_res=model.loo(arr(xi), arr(zi)),
                 xtzt=(arr(xt), arr(zt)), zpmzpv=model.predict(arr(xi), arr(zi), arr(xt)), compute_pit=True)
    if rec.true("summaries of given predictions", not is_err(o3), o3, **w):
        for key in out:
            rec.close("given " + key, tonp(o3[key]), tonp(out[key]), rtol=1e-9, **w)
    d = attempt(sigma_rho_from_covparam, arr([0.5 * seed, 1.0, -2.0]))
    rec.close("standard deviation and ranges", [float(tonp(d[t])) for t in ("sigma", "rho0", "rho1")] if not is_err(d) else d,
              [math.exp(0.25 * seed), math.exp(-1.0), math.exp(2.0)])


rec.each(rec.payload["cases"], one)
if rec.payload.get("part", 0) == 0:
    rec.each(list(range(rec.payload["models"])), real)
rec.done()
