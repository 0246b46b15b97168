"""Covariance functions on the grids of Matern.tla, tables of GammaTable.tla."""
from base import *
import math
from gpmp.kernel import exponential_kernel, matern32_kernel, maternp_covariance, maternp_kernel

rec = Recorder()
WHAT = rec.payload["what"]
TOL = dict(rtol=1e-6, atol=1e-6) if BACKEND == "torch" else dict(rtol=1e-9, atol=1e-10)


def closed(p, a, d2):
    h = np.sqrt(np.array(d2, float))
    c = 2.0 * math.sqrt(p + 0.5)
    return np.exp(-c * h) * sum(rat(t) * (2 * c * h) ** k for k, t in enumerate(a))


def grid(case):
    p, r = case["p"], case["r"]
    pts = np.array(case["pts"], float)
    n = len(pts)
    base = closed(p, case["a"], rats(case["d2"]))
    c = dict(case=case)
    for sigma2 in (1.0, 4.0):
        # rho_j = 2^(r_j - 1), the parameter is log(1 / rho_j)
        param = arr([math.log(sigma2)] + [-(t - 1) * math.log(2.0) for t in r])
        want = sigma2 * base
        x, y = arr(pts), arr(pts)

        def K(a, b, pw=False):
            return attempt(maternp_covariance, a, b, p, param, pw)
        rec.close("covariance of two copies of a point set", K(x, y), want, **TOL, **c)
        rec.close("covariance of a point set with itself", K(x, x), want, **TOL, **c)
        rec.close("covariance without a second point set", K(x, None), want, **TOL, **c)
        rec.close("variances", K(x, None, True), np.full(n, sigma2), **TOL, **c)
        rec.close("variances of a point set with itself", K(x, x, True), np.full(n, sigma2), **TOL, **c)
        rev = np.arange(n)[::-1].copy()
        rec.close("pairwise covariances", K(x, arr(pts[rev]), True), want[np.arange(n), rev], **TOL, **c)
        rec.close("pairwise covariances of equal points", K(x, y, True), np.full(n, sigma2), **TOL, **c)
        if n > 1:
            k = n // 2
            a, b = arr(pts[:k]), arr(pts[k:])
            rec.close("rectangular block", K(a, b), want[:k, k:], **TOL, **c)
            rec.close("transposed roles", K(b, a), want[k:, :k], **TOL, **c)
            rec.close("one point against all", K(arr(pts[-1:]), x), want[-1:, :], **TOL, **c)
            # two sets of the same size with some points in common
            for _ in range(4):
                k = int(rec.rng.integers(1, n + 1))
                I, J = rec.rng.permutation(n)[:k], rec.rng.permutation(n)[:k]
                if rec.rng.random() < 0.5:
                    J[0] = I[0]
                xi, xj = arr(pts[I]), arr(pts[J])
                rec.close("two overlapping sets", K(xi, xj), want[np.ix_(I, J)], **TOL, rows=I.tolist(), cols=J.tolist(), **c)
                rec.close("two overlapping sets, pairwise", K(xi, xj, True), want[I, J], **TOL, rows=I.tolist(),
                          cols=J.tolist(), **c)
        full = K(x, None)
        if not is_err(full):
            F = tonp(full)
            rec.close("symmetry", F, F.T, rtol=0, atol=1e-12 * sigma2, **c)
            rec.true("positive semi-definiteness", np.min(np.linalg.eigvalsh((F + F.T) / 2)) > -1e-7 * sigma2,
                     F.tolist(), **c)
            rec.true("zero distance has the variance and no less", np.all(np.diag(F) >= sigma2 * (1 - 1e-12)), None, **c)
        shift = arr(pts + 3.0)
        rec.close("translated points", K(shift, arr(pts + 3.0)), want, **TOL, **c)
        rec.close("points are left alone", x, pts, **c)
    h = np.sqrt(np.array(rats(case["d2"])))
    rec.close("kernel of the distances", attempt(maternp_kernel, p, arr(h)), base, rtol=1e-9, atol=1e-12, **c)
    rec.close("kernel of a vector of distances", attempt(maternp_kernel, p, arr(h[0])), base[0], rtol=1e-9, atol=1e-12, **c)
    if p == 1:
        rec.close("kernel of regularity 3/2", attempt(matern32_kernel, arr(h)), base, rtol=1e-9, atol=1e-12, **c)
    rec.close("exponential kernel", attempt(exponential_kernel, arr(h)), np.exp(-h), **c)
    far = attempt(maternp_kernel, p, arr([1e3, 1e12, 1e200, math.inf]))
    rec.close("kernel at very large distances", far, np.zeros(4), **c)


def table(hist):
    import gpmp.config
    from scipy.special import gammaln
    gpmp.config.clear_caches()
    for k, st in enumerate(hist):
        op, p = st["op"], st["p"]
        c = dict(step=k, history=hist)
        if op == "clear":
            attempt(gpmp.config.clear_caches)
            continue
        if op in ("table", "scribble"):
            t = attempt(gnp.compute_gammaln, p)
            rec.close("log-gamma table", t, gammaln(np.arange(st["len"])), **c)
            if op == "scribble" and not is_err(t):
                t[-1] = 1e9
                t[1] = -7.0
        else:
            h = np.array([0.0, 0.25, 1.0, 2.5])
            a = [1.0]
            for j in range(1, p + 1):
                a.append(a[-1] * (p - j + 1) / ((2 * p - j + 1) * j))
            cc = 2.0 * math.sqrt(p + 0.5)
            want = np.exp(-cc * h) * sum(t * (2 * cc * h) ** i for i, t in enumerate(a))
            rec.close("kernel values", attempt(maternp_kernel, p, arr(h)), want, rtol=1e-8, **c)


rec.each(rec.payload["cases"], grid if WHAT == "grid" else table)
rec.done()
