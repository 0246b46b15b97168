"""Log-priors and penalised criteria against the exact values of Priors."""
from statistics import NormalDist
from base import *
import gpmp.core as gc
import gpmp.kernel as gk
import gpmp.kernel.priors as gp

rec = Recorder()


def model(d, p=1):
    def cov(x, y, covparam, pairwise=False):
        return gk.maternp_covariance(x, y, p, covparam, pairwise)

    def mean(x, param):
        return gnp.ones((x.shape[0], 1))
    return gc.Model(mean, cov, covparam=None, meantype="linear_predictor")


DATA = {}


def data(d, k):
    if (d, k) not in DATA:
        r = np.random.default_rng([11, d, k])
        x = r.uniform(size=(5 + k, d)) * (1 + k)
        DATA[(d, k)] = (arr(x), arr(r.normal(size=5 + k) * 2 + 3), model(d, 1 + k % 2))
    return DATA[(d, k)]


def scalar(v):
    if is_err(v):
        return v
    v = tonp(v).reshape(-1)
    return float(v[0]) if v.size == 1 else v


def num(v):
    return [rat(t) for t in v]


def criterion(what, name, f, p, k, prior):
    d = len(p) - 1
    xi, zi, m = data(d, k)
    base = scalar(attempt(m.negative_log_restricted_likelihood, arr(p), xi, zi))
    if is_err(base) or not math.isfinite(base):
        return
    got = scalar(attempt(f, m, arr(p), xi, zi))
    rec.close(f"{name} is the restricted likelihood criterion minus the log-prior", got, base - prior,
              1e-9, 1e-8, data=k, **what)


def power(case):
    p, s = num(case["p"]), {k: rat(v) for k, v in case["s"].items()}
    what = dict(p=p, setting=s)
    v = scalar(attempt(gk.log_prior_power_law, arr(p), lambda_var=s["lv"], cut_logvariance_high=s["ch"],
                       lambda_lengthscales=s["ll"], cut_loginvrho_low=s["lo"], cut_loginvrho_high=s["hi"],
                       penalty_factor=s["pf"]))
    rec.close("the power-law prior has its stated exponents and cut-offs", v, rat(case["value"]), **what)
    rec.close("the variance prior has its stated exponent",
              scalar(attempt(gk.log_prior_jeffreys_variance, arr(p), s["lv"])), -s["lv"] * p[0], **what)
    if case["k"] % 4 == 0:
        k = case["k"] % 3
        criterion(what, "the variance-penalised criterion", lambda m, c, x, z:
                  gp.neg_log_restricted_posterior_with_jeffreys_prior(m, c, x, z, lambda_var=s["lv"]), p, k,
                  -s["lv"] * p[0])
        # default setting: exponent one on the variance, none on the ranges,
        # cut-offs at 9.21 with slope 100; stretch the grid beyond them
        q = [6 * t for t in p]
        for t in (p, q):
            pr = -t[0] - 100 * max(t[0] - 9.21, 0) - sum(100 * (max(-9.21 - u, 0) + max(u - 9.21, 0)) for u in t[1:])
            rec.close("the power-law prior has its documented defaults",
                      scalar(attempt(gk.log_prior_power_law, arr(t))), pr, p=t)
            criterion(what, "the power-law criterion", gk.neg_log_restricted_posterior_power_laws_prior, t, k, pr)


GC = [(1.5, 0.95), (4.0, 0.5), (1.01, 0.999), (30.0, 0.1)]


def barrier(case):
    p, c0, dev = num(case["p"]), rat(case["c0"]), rat(case["dev"])
    lo, mid, al = num(case["lo"]), num(case["mid"]), rat(case["al"])
    gamma, cov = GC[(case["k"] + case["k"] // 4) % 4]
    what = dict(p=p, c0=c0, lo=lo, mid=mid, alpha=al, gamma=gamma, coverage=cov)
    std = math.log(gamma) / NormalDist().inv_cdf(0.5 * (1 + cov))
    g = -0.5 * (dev / std) ** 2
    v = scalar(attempt(gk.log_prior_gaussian_logsigma2, arr(p), c0, gamma=gamma, sigma2_coverage=cov))
    rec.close("the log-variance prior has its centre and coverage", v, g, **what)
    terms = [math.inf if t["inf"] else -rat(t["a"]) * math.log(rat(t["s"])) + rat(t["b"]) * rat(t["s"])
             for t in case["barrier"]]
    t = attempt(gk.neglog_f_logrho, arr([-u for u in p[1:]]), arr(lo), arr(mid), alpha=al)
    rec.close("the range penalty is a barrier with a linear tail", t, terms, **what)
    b = -sum(terms)
    v = scalar(attempt(gk.log_prior_logrho_barrier_linear, arr(p), arr(lo), arr(mid), alpha=al))
    rec.close("the range prior is minus the sum of the penalties", v, b, **what)
    if case["k"] % 4 == 0:
        k = (case["k"] // 4) % 3
        criterion(what, "the log-variance criterion", lambda m, c, x, z:
                  gk.neg_log_restricted_posterior_logsigma2_prior(m, c, x, z, c0, gamma=gamma, sigma2_coverage=cov),
                  p, k, g)
        if math.isfinite(b):
            criterion(what, "the range criterion", lambda m, c, x, z:
                      gk.neg_log_restricted_posterior_with_logrho_prior(m, c, x, z, arr(lo), arr(mid), alpha=al),
                      p, k, b)
            criterion(what, "the criterion with both priors", lambda m, c, x, z:
                      gk.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
                          m, c, x, z, c0, gamma=gamma, sigma2_coverage=cov, logrho_min=arr(lo), logrho_0=arr(mid),
                          alpha=al), p, k, g + b)
        else:
            xi, zi, m = data(len(p) - 1, k)
            v = scalar(attempt(gk.neg_log_restricted_posterior_logsigma2_and_logrho_prior,
                               m, arr(p), xi, zi, c0, gamma=gamma, sigma2_coverage=cov, logrho_min=arr(lo),
                               logrho_0=arr(mid), alpha=al))
            rec.eq("the criterion is infinite at or below the minimum range", v, math.inf, **what)


def refusals():
    z, o = arr([0.0]), arr([1.0])
    for a in (0.0, -1.0):
        rec.raises("an inadmissible slope is refused", attempt(gk.neglog_f_logrho, z, -o, o, alpha=a))
    rec.raises("a centre at the minimum is refused", attempt(gk.neglog_f_logrho, z, o, o, alpha=1.0))
    rec.raises("a centre below the minimum is refused",
               attempt(gk.neglog_f_logrho, arr([0.0, 0.0]), arr([0.0, 1.0]), arr([1.0, 0.5]), alpha=1.0))
    for kw in (dict(gamma=1.0), dict(gamma=0.5), dict(sigma2_coverage=0.0), dict(sigma2_coverage=1.0)):
        rec.raises("an inadmissible calibration is refused",
                   attempt(gk.log_prior_gaussian_logsigma2, arr([0.0, 0.0]), 0.0, **kw), **kw)


def reference(case):
    """Half the log-determinant of the exact Fisher information."""
    g1, g2 = arr(case["g1"]), arr(case["g2"])
    idx = lambda x: [int(round(t)) for t in tonp(x)[:, 0]]

    def cov(x, y, c, pairwise=False):
        i, j = idx(x), idx(x if y is None else y)
        t = c[0] * c[0] * g1 + c[1] * g2
        return t[i, j] if pairwise else t[i][:, j]
    theta = [float(t) for t in case["theta"]]
    F = rats(case["plain"])
    det = F[0][0] * F[1][1] - F[0][1] * F[1][0]
    if det < 1e-9 * F[0][0] * F[1][1]:
        return
    m = gc.Model(None, cov, None, arr([theta[0] + 1, theta[1] + 1]), "zero")
    xi = arr(np.arange(len(case["g1"]), dtype=float).reshape(-1, 1))
    rec.close("the reference prior is half the log-determinant of the Fisher information",
              scalar(attempt(gk.log_prior_reference, m, arr(theta), xi)), 0.5 * math.log(det), 1e-6, 1e-6, case=case)
    # one parameter alone, and a third one: the scale s of two further independent variables, information 1/s^2
    alone = gc.Model(None, lambda x, y, c, pairwise=False: cov(x, y, [c[0], theta[1]], pairwise), None, arr([theta[0] + 1]), "zero")
    rec.close("the reference prior of one parameter",
              scalar(attempt(gk.log_prior_reference, alone, arr(theta[:1]), xi)), 0.5 * math.log(F[0][0]), 1e-6, 1e-6, case=case)
    n = len(case["g1"])
    pad = lambda a: arr(np.block([[np.array(a, float), np.zeros((n, 2))], [np.zeros((2, n + 2))]]))
    e1, e2, e3 = pad(case["g1"]), pad(case["g2"]), arr(np.diag([0.0] * n + [1.0, 1.0]))

    def cov3(x, y, c, pairwise=False):
        i, j = idx(x), idx(x if y is None else y)
        t = c[0] * c[0] * e1 + c[1] * e2 + c[2] * e3
        return t[i, j] if pairwise else t[i][:, j]
    s = [0.5, 2.0, 7.0][n * int(theta[0] + theta[1]) % 3]
    three = gc.Model(None, cov3, None, arr([1.0, 1.0, 1.0]), "zero")
    xi = arr(np.arange(n + 2, dtype=float).reshape(-1, 1))
    rec.close("the reference prior of three parameters",
              scalar(attempt(gk.log_prior_reference, three, arr(theta + [s]), xi)), 0.5 * math.log(det / s**2), 1e-6, 1e-6, case=case)


def ranges():
    """Minimum ranges of designs, from exact gaps and extents."""
    r = np.random.default_rng(abs(rec.seed) + 3)
    for k in range(rec.payload["designs"]):
        n, d = int(r.integers(1, 7)), int(r.integers(1, 4))
        x = r.integers(0, 6, size=(n, d)).astype(float) * [0.5, 1.0, 100.0][k % 3]
        if k % 4 == 0:
            x[:, 0] = x[0, 0]                                           # no gap and no extent
        f = [0.05, 0.5, 2.0][int(r.integers(3))]
        want = []
        for j in range(d):
            u = sorted(set(x[:, j]))
            gaps = [b - a for a, b in zip(u, u[1:])]
            want.append(math.log(max(min(gaps), (u[-1] - u[0]) * f)) if gaps else -math.inf)
        got = attempt(gk.compute_logrho_min_from_xi, arr(x), prior_rho_min_range_factor=f)
        rec.close("the minimum range is the larger of smallest gap and fraction of the extent", got, want,
                  x=x.tolist(), factor=f)


if rec.payload["mode"] == "power":
    rec.each(rec.payload["cases"], power)
elif rec.payload["mode"] == "reference":
    rec.each(rec.payload["cases"], reference)
else:
    rec.each(rec.payload["cases"], barrier)
    refusals()
    ranges()
rec.done()
