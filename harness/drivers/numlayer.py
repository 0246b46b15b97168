"""Array operations of the numerical layer against their definitions."""
import itertools
from base import *

rec = Recorder()


def call(name, f, *a, **k):
    """Call an operation; its array arguments must come out as they went in."""
    flat = [x for x in itertools.chain(a, k.values())]
    flat += [y for x in flat if isinstance(x, (tuple, list)) for y in x]
    before = [(x, tonp(x).copy()) for x in flat if hasattr(x, "shape")]
    r = attempt(f, *a, **k)
    for x, b in before:
        rec.close(name + " leaves its arguments unchanged", x, b, rtol=0, atol=0)
    return r


def unary(c):
    s, d = tuple(c["shape"]), c["data"]
    A = arr(d).reshape(s)
    w = dict(shape=s, data=d)

    def same(name, got, want, shape, rtol=1e-9, **k):
        rec.close(name, got, np.array(want, dtype=float).reshape(shape), rtol=rtol, op=name, **w, **k)

    t = sum(d)
    v = sum(q * q for q in d) / len(d) - (t / len(d)) ** 2
    same("sum of all entries", call("sum", gnp.sum, A), t, ())
    same("mean of all entries", call("mean", gnp.mean, A), t / len(d), ())
    same("var of all entries", call("var", gnp.var, A), v, ())
    same("std of all entries", call("std", gnp.std, A), math.sqrt(max(v, 0.0)), ())
    rec.close("to_scalar", attempt(gnp.to_scalar, gnp.sum(A)), t, rtol=0, atol=0)
    rec.eq("arrays are told from numbers", [bool(gnp.isarray(A)), bool(gnp.isarray(1.5)), bool(gnp.isscalar(1.5)), bool(gnp.isscalar(A)) and len(d) > 1],
           [True, False, True, False])
    for x, e in enumerate(c["axes"]):
        red = s[:x] + s[x + 1:]
        kept = s[:x] + (1,) + s[x + 1:]
        n = e["n"]
        for name in ("sum", "prod", "min", "max"):
            for ax in (x, x - len(s)):
                same(name, call(name, getattr(gnp, name), A, axis=ax), e[name], red, axis=ax)
        for name in ("min", "max", "sum"):
            same(name + " keeping the axis", call(name, getattr(gnp, name), A, axis=x, keepdims=True), e[name], kept, axis=x)
        same("mean", call("mean", gnp.mean, A, axis=x), np.array(e["sum"]) / n, red, axis=x)
        for ddof in (0, 1):
            if n > ddof:
                v = np.array(e["nvar"]) / (n * (n - ddof))
                same("var", call("var", gnp.var, A, axis=x, ddof=ddof), v, red, axis=x, ddof=ddof)
                same("std", call("std", gnp.std, A, axis=x, ddof=ddof, keepdims=True), np.sqrt(v), kept, axis=x, ddof=ddof)
        same("default var", call("var", gnp.var, A, axis=x), np.array(e["nvar"]) / n ** 2, red, axis=x)
        same("default std", call("std", gnp.std, A, axis=x), np.sqrt(e["nvar"]) / n, red, axis=x)
        same("norm", call("norm", gnp.norm, A, axis=x), np.sqrt(e["sq"]), red, axis=x)
        same("any", call("any", gnp.any, A > 0, axis=x), e["anypos"], red, axis=x)
        same("all", call("all", gnp.all, A > 0, axis=x), e["allpos"], red, axis=x)
        for name in ("argmin", "argmax"):
            g = tonp(call(name, getattr(gnp, name), A, axis=x))
            ok = not is_err(g) and g.shape == red and all(int(i) in set(t) for i, t in zip(g.reshape(-1), e[name]))
            rec.true(name + " names an extreme entry", ok, g, axis=x, **w)
        for q, t in e["pct"].items():
            same("percentile", call("percentile", gnp.percentile, A, float(q), axis=x), np.array(t) / 100, red, axis=x, q=q)
        qs = sorted(e["pct"], key=float)
        same("percentiles", call("percentile", gnp.percentile, A, arr([float(q) for q in qs]), axis=x),
             np.array([e["pct"][q] for q in qs]) / 100, (len(qs),) + red, axis=x)
        same("cumsum", call("cumsum", gnp.cumsum, A, axis=x), e["cumsum"], s, axis=x)
        same("sort", call("sort", gnp.sort, A, axis=x), e["sort"], s, axis=x)
        same("diff", call("diff", gnp.diff, A, axis=x), e["diff"], s[:x] + (n - 1,) + s[x + 1:], axis=x)
        same("expand_dims", call("expand_dims", gnp.expand_dims, A, x), d, s[:x] + (1,) + s[x:], axis=x)
        if x == len(s) - 1:
            same("expand_dims at the end", call("expand_dims", gnp.expand_dims, A, -1), d, s + (1,))
            same("default sort", call("sort", gnp.sort, A), e["sort"], s)
            same("default diff", call("diff", gnp.diff, A), e["diff"], s[:x] + (n - 1,))
    for t in c["swaps"]:
        same("transpose", call("transpose", gnp.transpose, A, t["x"] - 1, t["y"] - 1), t["r"]["data"], tuple(t["r"]["shape"]))
    B = np.array(d, dtype=float)
    same("total", call("sum", gnp.sum, A), B.sum(), ())
    same("overall mean", call("mean", gnp.mean, A), B.sum() / B.size, ())
    same("overall norm", call("norm", gnp.norm, A), np.sqrt((B ** 2).sum()), ())
    same("any at all", call("any", gnp.any, A > 0), any(v > 0 for v in d), ())
    same("all of them", call("all", gnp.all, A > 0), all(v > 0 for v in d), ())
    same("unique", call("unique", gnp.unique, A), c["unique"], (len(c["unique"]),))
    same("clip", call("clip", gnp.clip, A, -1.0, 2.0), c["clip"], s)
    same("clip by arrays", call("clip", gnp.clip, A, arr(np.full(s, -1.0)), arr(np.full(s, 2.0))), c["clip"], s)
    same("clip below", call("clip", gnp.clip, A, min=-1.0), np.maximum(B, -1), s)
    same("clip above", call("clip", gnp.clip, A, max=2.0), np.minimum(B, 2), s)
    for name, f in (("abs", abs), ("exp", math.exp), ("sin", math.sin), ("cos", math.cos), ("tan", math.tan),
                    ("tanh", math.tanh), ("floor", lambda v: float(math.floor(v))), ("ceil", lambda v: float(math.ceil(v)))):
        for k in (1.0, 0.375):
            if name == "abs":
                f = abs
            same(name, call(name, getattr(gnp, name), A * k), [f(v * k) for v in d], s)
    P = [abs(v) + 0.25 for v in d]
    for name, f in (("log", math.log), ("log10", math.log10), ("log1p", math.log1p), ("sqrt", math.sqrt),
                    ("gammaln", math.lgamma)):
        same(name, call(name, getattr(gnp, name), arr(P).reshape(s)), [f(v) for v in P], s)
        if name != "gammaln":
            same(name + " of a number", attempt(getattr(gnp, name), P[0]), f(P[0]), ())
    for name, v in (("zeros_like", 0), ("ones_like", 1)):
        same(name, call(name, getattr(gnp, name), A), np.full(s, float(v)), s)
    same("full_like", call("full_like", gnp.full_like, A, 2.5), np.full(s, 2.5), s)
    for name, v in (("zeros", 0), ("ones", 1)):
        r = attempt(getattr(gnp, name), s)
        same(name, r, np.full(s, float(v)), s)
        rec.true("new arrays are in double precision", "float64" in str(getattr(r, "dtype", "")), r)
    same("full", attempt(gnp.full, s, 7.5), np.full(s, 7.5), s)
    same("reshape", call("reshape", gnp.reshape, A, (-1,)), d, (len(d),))
    cp = call("copy", gnp.copy, A)
    same("copy", cp, d, s)
    if not is_err(cp):
        cp[...] = 99.0
        same("a copy is independent", A, d, s)
    for name in ("asarray", "array", "asdouble"):
        same(name, call(name, getattr(gnp, name), np.array(d, dtype=float).reshape(s)), d, s)
        same(name + " of a list", attempt(getattr(gnp, name), np.array(d, dtype=float).reshape(s).tolist()), d, s)
    r = attempt(gnp.asarray, np.array(d, dtype=np.float32).reshape(s))
    same("single precision input is promoted", r, d, s)
    rec.true("asarray gives double precision", "float64" in str(getattr(r, "dtype", "")), r)
    n_ = attempt(gnp.to_np, A)
    rec.true("to_np gives a numpy array", isinstance(n_, np.ndarray), n_)
    same("to_np", n_, d, s)
    for reps in ((2,) * len(s), (1,) * (len(s) - 1) + (3,)):
        same("tile", call("tile", gnp.tile, A, reps), np.tile(B.reshape(s), reps), tuple(np.array(s) * reps))
    if len(s) == 2:
        same("trace", call("trace", gnp.trace, A), sum(B.reshape(s)[i, i] for i in range(min(s))), ())
        same("diag of a matrix", call("diag", gnp.diag, A), [B.reshape(s)[i, i] for i in range(min(s))], (min(s),))
        if c["cov"]:
            m, n = s
            C = np.array(c["cov"]).reshape(m, m) / (n * (n - 1))
            C = C if m > 1 else C.reshape(())
            same("cov", call("cov", gnp.cov, A), C, C.shape)
            same("cov of columns", call("cov", gnp.cov, arr(B.reshape(s).T), rowvar=False), C, C.shape)
            same("biased cov", call("cov", gnp.cov, A, bias=True), C * (n - 1) / n, C.shape)
            same("cov with ddof", call("cov", gnp.cov, A, ddof=0), C * (n - 1) / n, C.shape)
            if m > 1:
                R = B.reshape(s)
                same("cov of two sets of rows", call("cov", gnp.cov, arr(R[:1]), arr(R[1:])), C, C.shape)
                same("cov of two sets of columns", call("cov", gnp.cov, arr(R[:-1].T), arr(R[-1:].T), rowvar=False), C, C.shape)
                same("cov of a table and a row", call("cov", gnp.cov, arr(R[:-1]), arr(R[-1])), C, C.shape)
        # singular value and QR factorisations
        U = attempt(gnp.svd, A, full_matrices=False)
        if rec.true("svd answers", not is_err(U), U, **w):
            u, sv, vh = (tonp(t) for t in U)
            same("svd rebuilds the matrix", (u * sv) @ vh, B, s, rtol=1e-7)
            rec.true("singular values decrease", bool(np.all(np.diff(sv) <= 1e-9) and np.all(sv >= -1e-12)), sv, **w)
            same("left vectors are orthonormal", u.T @ u, np.eye(len(sv)), (len(sv),) * 2)
        Qr = attempt(gnp.qr, A)
        if rec.true("qr answers", not is_err(Qr), Qr, **w):
            q, r = tonp(Qr[0]), tonp(Qr[1])
            same("qr rebuilds the matrix", q @ r, B, s, rtol=1e-7)
            rec.true("r is upper triangular", bool(np.allclose(r, np.triu(r))), r, **w)
            same("q is orthonormal", q.T @ q, np.eye(q.shape[1]), (q.shape[1],) * 2)
    if len(s) == 1:
        n = s[0]
        same("diag of a vector", call("diag", gnp.diag, A), np.diag(B), (n, n))
        same("logspace", attempt(gnp.logspace, 0.0, 2.0, n), [10 ** (2 * i / max(n - 1, 1)) for i in range(n)], (n,))
        same("linspace", attempt(gnp.linspace, -1.0, 3.0, n), [-1 + 4 * i / max(n - 1, 1) for i in range(n)], (n,))
        same("arange", attempt(gnp.arange, n), list(range(n)), (n,))
        same("eye", attempt(gnp.eye, n), np.eye(n), (n, n))
        gaussian(d)
        gradients(d)


def gaussian(d):
    phi = lambda t: math.exp(-t * t / 2) / math.sqrt(2 * math.pi)
    cdf = lambda t: math.erfc(-t / math.sqrt(2)) / 2
    x = arr(d)
    for loc, sc in ((0.0, 1.0), (1.0, 2.0), (-2.5, 0.25)):
        t = [(v - loc) / sc for v in d]
        w = dict(data=d, loc=loc, scale=sc)
        forms = [dict(loc=loc, scale=sc), dict(loc=arr([loc] * len(d)), scale=arr([sc] * len(d)))]
        for k in forms + ([{}] if (loc, sc) == (0.0, 1.0) else []):
            rec.close("normal pdf", call("pdf", gnp.normal.pdf, x, **k), [phi(v) / sc for v in t], rtol=1e-10, atol=0, **w)
            rec.close("normal cdf", call("cdf", gnp.normal.cdf, x, **k), [cdf(v) for v in t], rtol=1e-6, atol=1e-12, **w)
            lp = [-v * v / 2 - math.log(sc) - math.log(2 * math.pi) / 2 for v in t]
            rec.close("normal logpdf", call("logpdf", gnp.normal.logpdf, x, **k), lp, **w)
            g = tonp(call("logcdf", gnp.normal.logcdf, x, **k))
            want = [math.log(cdf(v)) if v > -20 else math.log(phi(v) / -v) + math.log1p(-1 / v ** 2 + 3 / v ** 4) for v in t]
            rec.close("normal logcdf", g, want, rtol=1e-4, atol=1e-8, **w)
        # a single value may come back as a number
        g = tonp(call("logpdf", gnp.multivariate_normal.logpdf, x, mean=loc, cov=sc ** 2))
        rec.close("scalar-covariance logpdf", g if is_err(g) else g.reshape(-1), lp, **w)
        rec.close("scalar-covariance cdf", call("cdf", gnp.multivariate_normal.cdf, x, mean=loc, cov=sc ** 2),
                  [cdf(v) for v in t], rtol=1e-6, atol=1e-12, **w)


def gradients(d):
    """f(p) = sum (k+1) p_k^2 + sum p_k p_{k+1}: gradient known exactly."""
    n = len(d)
    p = np.array(d, dtype=float) / 2

    def f(q):
        v = 0.0
        for k in range(n):
            v = v + (k + 1) * q[k] ** 2
            if k + 1 < n:
                v = v + q[k] * q[k + 1]
        return v
    want = [2 * (k + 1) * p[k] + (p[k + 1] if k + 1 < n else 0) + (p[k - 1] if k else 0) for k in range(n)]
    rec.close("grad", call("grad", gnp.grad(f), arr(p)), want, rtol=1e-6, atol=1e-6, at=p)
    vg = call("value_and_grad", gnp.value_and_grad, f, arr(p))
    if rec.true("value_and_grad answers", not is_err(vg), vg, at=p):
        rec.close("value of value_and_grad", float(tonp(vg[0])), f(p), at=p)
        rec.close("gradient of value_and_grad", vg[1], want, rtol=1e-6, atol=1e-6, at=p)
    for k in range(n):
        for s in (1, -1):  # a function known on one side of the point only
            edge = lambda q: f(q) if s * (float(q[k]) - p[k]) >= 0 else gnp.asarray(math.inf)  # noqa: E731
            vg = call("value_and_grad", gnp.value_and_grad, edge, arr(p))
            if rec.true("value_and_grad answers at an edge", not is_err(vg), vg, at=p):
                rec.close("gradient of value_and_grad at an edge", vg[1], want, rtol=1e-5, atol=1e-5, at=p, side=s, coordinate=k)
    vg = call("value_and_grad", gnp.value_and_grad, lambda q: gnp.reshape(gnp.asarray(f(q)), (1,)), arr(p))
    if rec.true("value_and_grad answers for an array of one value", not is_err(vg), vg, at=p):
        rec.close("value of value_and_grad", float(tonp(vg[0])), f(p), at=p)
        rec.close("gradient of value_and_grad", vg[1], want, rtol=1e-6, atol=1e-6, at=p)
    rec.raises("value_and_grad refuses a function of several values",
            attempt(gnp.value_and_grad, lambda q: gnp.stack([f(q), f(q)]) if hasattr(q, "numel") else np.array([f(q), f(q)]), arr(p)), at=p)
    if hasattr(gnp, "SecondOrderDifferentiableFunction"):
        h = gnp.SecondOrderDifferentiableFunction(f)
        h.evaluate(arr(p))
        rec.close("first derivatives", attempt(h.gradient), want, at=p)
        H = np.diag([2.0 * (k + 1) for k in range(n)])
        for k in range(n - 1):
            H[k, k + 1] = H[k + 1, k] = 1
        rec.close("second derivatives", attempt(h.hessian), H, at=p)
    q = lambda t: d[0] * t ** 4 - 2 * t ** 3 + t
    rec.close("five-point derivative", attempt(gnp.derivative_finite_diff, q, 0.5, 0.01),
              d[0] * 4 * 0.125 - 6 * 0.25 + 1, rtol=1e-7, atol=1e-7)


def pair(c):
    s, d, e = tuple(c["shape"]), c["data"], c["other"]
    w = dict(shape=s, data=d, other=e)
    A, B = arr(d).reshape(s), arr(e).reshape(s)

    def same(name, got, want, shape, rtol=1e-9, atol=1e-9, **k):
        rec.close(name, got, np.array(want, dtype=float).reshape(shape), rtol=rtol, atol=atol, op=name, **w, **k)

    for name in ("maximum", "minimum"):
        same(name, call(name, getattr(gnp, name), A, B), c[name], s)
        f = max if name == "maximum" else min
        same(name + " with a number", call(name, getattr(gnp, name), A, 1.0), [f(v, 1) for v in d], s)
        same(name + " of a number", call(name, getattr(gnp, name), 1.0, A), [f(v, 1) for v in d], s)
    same("where", call("where", gnp.where, A > B, B, A * 10), c["whr"], s)
    same("logical_and", call("logical_and", gnp.logical_and, A > 0, B > 0), c["land"], s)
    same("logical_or", call("logical_or", gnp.logical_or, A > 0, B > 0), c["lor"], s)
    same("logical_not", call("logical_not", gnp.logical_not, A > 0), [1 if v <= 0 else 0 for v in d], s)
    rec.eq("array_equal", attempt(lambda: bool(gnp.array_equal(A, B))), c["equal"], **w)
    rec.eq("array_equal to itself", attempt(lambda: bool(gnp.array_equal(A, gnp.copy(A)))), True, **w)
    rec.eq("allclose", attempt(lambda: bool(gnp.allclose(A, B))), c["equal"], **w)
    same("isclose", call("isclose", gnp.isclose, A, B), [1 if x == y else 0 for x, y in zip(d, e)], s)
    for x in range(len(s)):
        cs = s[:x] + (2 * s[x],) + s[x + 1:]
        same("concatenate", call("concatenate", gnp.concatenate, (A, B), axis=x), c["cat"][x], cs, axis=x)
    v = 0
    h = 0 if len(s) == 1 else 1
    same("hstack", call("hstack", gnp.hstack, (A, B)), c["cat"][h], s[:h] + (2 * s[h],) + s[h + 1:])
    if len(s) > 1:
        same("vstack", call("vstack", gnp.vstack, (A, B)), c["cat"][v], (2 * s[0],) + s[1:])
    else:
        same("vstack", call("vstack", gnp.vstack, (A, B)), d + e, (2, s[0]))
        same("inner", call("inner", gnp.inner, A, B), sum(x * y for x, y in zip(d, e)), ())
        g = attempt(gnp.meshgrid, A, B, indexing="ij")
        if rec.true("meshgrid answers", not is_err(g), g):
            same("meshgrid", g[0], np.repeat(d, len(e)), (len(d), len(e)))
            same("meshgrid", g[1], np.tile(e, len(d)), (len(d), len(e)))
    for x in range(len(s) + 1):
        same("stack", call("stack", gnp.stack, (A, B), axis=x), c["stack"][x], s[:x] + (2,) + s[x:], axis=x)
    if len(s) == 2:
        n, m = s
        same("matmul", call("matmul", gnp.matmul, A, B.T), c["mul"], (n, n))
        same("einsum", call("einsum", gnp.einsum, "ik,jk->ij", A, B), c["mul"], (n, n))
        same("row products", call("einsum", gnp.einsum, "ij,ij->i", A, B), np.diag(np.array(c["mul"]).reshape(n, n)), (n,))
        same("inner of matrices", call("inner", gnp.inner, A, B), c["mul"], (n, n))
        lir = arr([j * math.log(2.0) for j in range(m)])
        same("cdist", call("cdist", gnp.cdist, A, B), np.sqrt(c["dist2"]), (n, n), atol=1e-6)
        same("cdist to itself", call("cdist", gnp.cdist, A, A), np.sqrt(c["self2"]), (n, n), atol=1e-6)
        same("scaled_distance", call("scaled_distance", gnp.scaled_distance, lir, A, B), np.sqrt(c["wdist2"]), (n, n), atol=1e-6)
        same("scaled_distance with equal scales", call("scaled_distance", gnp.scaled_distance, arr([math.log(3.0)] * m), A, A),
             3 * np.sqrt(c["self2"]), (n, n), atol=1e-6)
        same("elementwise scaled distance", call("elementwise", gnp.scaled_distance_elementwise, lir, A, B),
             np.sqrt(np.diag(np.array(c["wdist2"]).reshape(n, n))), (n,), atol=1e-6)
        # points far from the origin and close to each other; powers of two keep this exact
        far = lambda p, k: arr(1024.0 + np.array(p, dtype=float).reshape(n, m) * 2.0 ** k)  # noqa: E731
        for k in (-10, -25):
            same("elementwise distance of close points",
                 tonp(call("elementwise", gnp.scaled_distance_elementwise, lir, far(d, k), far(e, k))) * 2.0 ** -k,
                 np.sqrt(np.diag(np.array(c["wdist2"]).reshape(n, n))), (n,), atol=1e-6)
        for k in (-60, 40):
            f = lambda p: arr(np.array(p, dtype=float).reshape(n, m) * 2.0 ** k)  # noqa: E731
            same("cdist in other units", tonp(call("cdist", gnp.cdist, f(d), f(e))) * 2.0 ** -k,
                 np.sqrt(c["dist2"]), (n, n), atol=1e-6)
            same("elementwise distance in other units",
                 tonp(call("elementwise", gnp.scaled_distance_elementwise, lir, f(d), f(e))) * 2.0 ** -k,
                 np.sqrt(np.diag(np.array(c["wdist2"]).reshape(n, n))), (n,), atol=1e-6)
        same("elementwise distance to itself", call("elementwise", gnp.scaled_distance_elementwise, lir, A, A), [0] * n, (n,))
        same("elementwise distance to nothing", call("elementwise", gnp.scaled_distance_elementwise, lir, A, None), [0] * n, (n,))


def system(c):
    n, m = c["n"], c["m"]
    w = dict(l=c["l"], x=c["x"], n=n, m=m)
    mat = lambda v, k: np.array(v, dtype=float).reshape(n, k)
    L, A, X = mat(c["l"], n), mat(c["a"], n), mat(c["x"], m)
    U = L.copy()

    def same(name, got, want, rtol=1e-6, atol=1e-6):
        rec.close(name, got, np.array(want, dtype=float), rtol=rtol, atol=atol, op=name, **w)

    same("cholesky", call("cholesky", gnp.cholesky, arr(A)), L)
    same("solve", call("solve", gnp.solve, arr(A), arr(mat(c["ax"], m))), X)
    same("solve for a vector", call("solve", gnp.solve, arr(A), arr(mat(c["ax"], m)[:, 0])), X[:, 0])
    tri = lambda a, b, **k: call("solve_triangular", gnp.solve_triangular, arr(a), arr(b), **k)
    same("lower system", tri(L, mat(c["lx"], m), lower=True), X)
    same("upper system", tri(L.T, mat(c["ltx"], m), lower=False), X)
    same("default triangle is upper", tri(L.T, mat(c["ltx"], m)), X)
    same("transposed lower system", tri(L, mat(c["ltx"], m), lower=True, trans=1), X)
    same("transposed upper system", tri(L.T, mat(c["lx"], m), lower=False, trans="T"), X)
    same("plain lower system", tri(L, mat(c["lx"], m), lower=True, trans="N"), X)
    same("unit lower system", tri(L, mat(c["ux"], m), lower=True, unit_diagonal=True), X)
    same("unit transposed system", tri(L, mat(c["utx"], m), lower=True, trans=1, unit_diagonal=True), X)
    full = L + np.triu(np.full((n, n), 7.0), 1)
    same("only the named triangle is read", tri(full, mat(c["lx"], m), lower=True), X)
    for lower in (True, False):
        f = call("cho_factor", gnp.cho_factor, arr(A), lower=lower)
        same("cho_solve", call("cho_solve", gnp.cho_solve, f, arr(mat(c["ax"], m))) if not is_err(f) else f, X)
    r = call("cholesky_solve", gnp.cholesky_solve, arr(A), arr(mat(c["ax"], m)))
    if rec.true("cholesky_solve answers", not is_err(r), r, **w):
        same("cholesky_solve", r[0], X)
        same("factor of cholesky_solve", r[1], L)
    for name in ("inv", "cholesky_inv"):
        v = call(name, getattr(gnp, name), arr(A))
        same(name, tonp(v) @ A if not is_err(v) else v, np.eye(n), rtol=1e-5, atol=1e-5)
    same("logdet", call("logdet", gnp.logdet, arr(A)), 2 * math.log(c["root"]))
    same("trace", call("trace", gnp.trace, arr(A)), c["trace"])
    # the same systems in other units: every answer follows
    for k in (-40, 30):
        q = 2.0 ** k
        same("cholesky in other units", tonp(call("cholesky", gnp.cholesky, arr(A * q * q))) / q, L)
        same("solve in other units", call("solve", gnp.solve, arr(A * q), arr(mat(c["ax"], m) * q)), X)
        r = call("cholesky_solve", gnp.cholesky_solve, arr(A * q), arr(mat(c["ax"], m) * q))
        same("cholesky_solve in other units", r if is_err(r) else r[0], X)
        same("lower system in other units", tri(L * q, mat(c["lx"], m) * q, lower=True), X)
        same("logdet in other units", call("logdet", gnp.logdet, arr(A * q)), 2 * math.log(c["root"]) + n * k * math.log(2))
        for name in ("inv", "cholesky_inv"):
            v = call(name, getattr(gnp, name), arr(A * q))
            same(name + " in other units", tonp(v) * q @ A if not is_err(v) else v, np.eye(n), rtol=1e-5, atol=1e-5)
        f = call("cho_factor", gnp.cho_factor, arr(A * q), lower=True)
        same("cho_solve in other units", call("cho_solve", gnp.cho_solve, f, arr(mat(c["ax"], m) * q)) if not is_err(f) else f, X)
    # Gaussian density at mean + L x with covariance L L'
    if n > 1:
        mu = np.arange(1.0, n + 1)
        pts = mu + mat(c["lx"], m).T
        lp = [-v / 2 - math.log(c["root"]) - n / 2 * math.log(2 * math.pi) for v in c["norm2"]]
        got = tonp(call("logpdf", gnp.multivariate_normal.logpdf, arr(pts), mean=arr(mu), cov=arr(A)))
        same("multivariate logpdf", got.reshape(-1) if not is_err(got) else got, lp)
        got = tonp(call("logpdf", gnp.multivariate_normal.logpdf, arr(pts[0]), mean=arr(mu), cov=arr(A)))
        same("multivariate logpdf of one point", got.reshape(-1) if not is_err(got) else got, lp[:1])
        got = tonp(call("logpdf", gnp.multivariate_normal.logpdf, arr(pts - mu + 2), mean=2.0, cov=arr(A)))
        same("multivariate logpdf with a common mean", got.reshape(-1) if not is_err(got) else got, lp)
        for name in ("logpdf", "cdf"):
            for bad in (np.ones((2, n + 1)), np.ones(n + 1)):
                rec.raises("a point of the wrong dimension is refused",
                           attempt(getattr(gnp.multivariate_normal, name), arr(bad), mean=arr(mu), cov=arr(A)), function=name, **w)
        if n == 2:
            rho = A[0, 1] / math.sqrt(A[0, 0] * A[1, 1])
            same("orthant probability", float(tonp(attempt(gnp.multivariate_normal.cdf, arr(mu), mean=arr(mu), cov=arr(A)))),
                 0.25 + math.asin(rho) / (2 * math.pi), rtol=1e-3, atol=1e-4)


def special(v):
    """Entries among minus infinity, undefined, zero, one, infinity."""
    M = {"n": math.nan, "m": -math.inf, "p": math.inf, "0": 0.0, "1": 1.0}
    x = [M[t] for t in v]
    A = arr(x)
    fin = [math.isfinite(t) for t in x]
    w = dict(entries=v)
    rec.close("isnan", call("isnan", gnp.isnan, A), [t != t for t in x], **w)
    rec.close("isinf", call("isinf", gnp.isinf, A), [abs(t) == math.inf for t in x], **w)
    rec.close("isfinite", call("isfinite", gnp.isfinite, A), fin, **w)
    big = float(np.finfo(float).max)
    rec.close("nan_to_num", call("nan_to_num", gnp.nan_to_num, A),
              [0.0 if t != t else max(min(t, big), -big) for t in x], **w)
    rec.close("nan_to_num with values", call("nan_to_num", gnp.nan_to_num, A, nan=5.0, posinf=6.0, neginf=7.0),
              [5.0 if t != t else 6.0 if t == math.inf else 7.0 if t == -math.inf else t for t in x], **w)
    rec.close("inftobigf", call("inftobigf", gnp.inftobigf, A, 1e3), [1e3 if abs(t) == math.inf else t for t in x], **w)
    nan = any(t != t for t in x)
    for name, f in (("min", min), ("max", max)):
        rec.close(name + " with special entries", call(name, getattr(gnp, name), A, axis=0), math.nan if nan else f(x), **w)
    rec.close("sort with special entries", call("sort", gnp.sort, A), sorted([t for t in x if t == t]) + [math.nan] * sum(t != t for t in x), **w)
    half = arr([0.5] * len(x))
    for name, f in (("maximum", max), ("minimum", min)):
        rec.close(name + " with special entries", call(name, getattr(gnp, name), A, half), [t if t != t else f(t, 0.5) for t in x], **w)
    rec.close("clip with special entries", call("clip", gnp.clip, A, 0.25, 0.75), [t if t != t else max(min(t, 0.75), 0.25) for t in x], **w)
    rec.close("where drops excluded entries", call("where", gnp.where, gnp.isfinite(A), A, arr([9.0] * len(x))),
              [t if f else 9.0 for t, f in zip(x, fin)], **w)
    for t, f in zip(x, fin):
        rec.eq("isfinite of a number", bool(gnp.isfinite(t)), f, **w)
        rec.eq("isnan of a number", bool(gnp.isnan(t)), t != t, **w)
    rec.close("exp with special entries", call("exp", gnp.exp, A), [t if t != t else 0.0 if t == -math.inf else t if t == math.inf else math.exp(t) for t in x], **w)


def draws(seed):
    """Seeded draws repeat, have the right shape, and respect their support."""
    def all_of():
        gnp.set_seed(seed)
        out = [gnp.rand(3, 2), gnp.randn(2, 2), gnp.rand(4), gnp.permutation(6),
               gnp.choice(5, size=4, replace=False), gnp.choice(5, size=7),
               gnp.choice(4, size=60, p=[0.5, 0.0, 0.25, 0.25]), gnp.permutation(arr([5.0, 6.0, 8.0, 8.0])),
               gnp.choice(arr([10.0, 20.0, 30.0]), size=5), gnp.choice(3, size=3, replace=False, p=[0.5, 0.25, 0.25]),
               gnp.choice(6, size=3, replace=False, p=[0.0, 0.5, 0.25, 0.0, 0.25, 0.0]),
               gnp.choice(arr([4.0, 5.0, 6.0, 7.0]), size=40, p=[0.0, 0.25, 0.75, 0.0])]
        return [tonp(t) for t in out]
    a, b = attempt(all_of), attempt(all_of)
    if not rec.true("draws answer", not is_err(a) and not is_err(b), a, seed=seed):
        return
    for k, (x, y) in enumerate(zip(a, b)):
        rec.close("the same seed gives the same draws", x, y, rtol=0, atol=0, seed=seed, draw=k)
    gnp.set_seed(seed + 1)
    rec.true("another seed gives other draws", not np.allclose(tonp(gnp.rand(3, 2)), a[0]), seed=seed)
    rec.eq("shapes of draws", [list(x.shape) for x in a[:3]], [[3, 2], [2, 2], [4]], seed=seed)
    rec.true("uniform draws are in the unit interval", bool(np.all((a[0] >= 0) & (a[0] < 1))), a[0])
    rec.true("uniform draws differ", len(set(a[0].reshape(-1))) == 6, a[0])
    rec.eq("permutation", sorted(a[3].tolist()), [0, 1, 2, 3, 4, 5])
    rec.true("draws without replacement are distinct", len(set(a[4].tolist())) == 4 and set(a[4].tolist()) <= set(range(5)), a[4])
    rec.true("draws with replacement are members", len(a[5]) == 7 and set(a[5].tolist()) <= set(range(5)), a[5])
    rec.true("impossible values are never drawn", len(a[6]) == 60 and set(a[6].tolist()) <= {0, 2, 3}, a[6])
    rec.eq("permutation of an array", sorted(a[7].tolist()), [5, 6, 8, 8])
    rec.true("draws from an array", set(a[8].tolist()) <= {10.0, 20.0, 30.0}, a[8])
    rec.eq("weighted draws without replacement", sorted(a[9].tolist()), [0, 1, 2])
    rec.eq("impossible values are never drawn without replacement", sorted(a[10].tolist()), [1, 2, 4], seed=seed)
    rec.true("weighted draws from an array", len(a[11]) == 40 and set(a[11].tolist()) <= {5.0, 6.0}, a[11], seed=seed)


def frequencies():
    """Large-sample moments; limits are eight standard errors."""
    gnp.set_seed(rec.seed + 5)
    n = 40000
    u, g = tonp(gnp.rand(n)), tonp(gnp.randn(n))
    rec.close("mean of uniform draws", u.mean(), 0.5, rtol=0, atol=8 * 0.2887 / n ** .5)
    rec.close("variance of uniform draws", u.var(), 1 / 12, rtol=0, atol=8 * 0.0745 / n ** .5)
    rec.close("mean of normal draws", g.mean(), 0.0, rtol=0, atol=8 / n ** .5)
    rec.close("variance of normal draws", g.var(), 1.0, rtol=0, atol=8 * 1.4143 / n ** .5)
    w = tonp(gnp.choice(4, size=n, p=[0.5, 0.125, 0.25, 0.125]))
    for k, p in enumerate([0.5, 0.125, 0.25, 0.125]):
        rec.close("frequency of weighted draws", (w == k).mean(), p, rtol=0, atol=8 * (p * (1 - p) / n) ** .5)
    m, P = 4000, [0.5, 0.125, 0.25, 0.125]
    w = np.array([int(tonp(gnp.choice(4, size=1, replace=False, p=P)).reshape(-1)[0]) for _ in range(m)])
    for k, p in enumerate(P):
        rec.close("frequency of weighted draws without replacement", (w == k).mean(), p, rtol=0, atol=8 * (p * (1 - p) / m) ** .5)
    w = tonp(gnp.choice(4, size=n))
    for k in range(4):
        rec.close("frequency of plain draws", (w == k).mean(), 0.25, rtol=0, atol=8 * (0.1875 / n) ** .5)
    o = np.array([tonp(gnp.permutation(3)) for _ in range(m)])
    for k in itertools.permutations(range(3)):
        rec.close("frequency of permutations", (o == np.array(k)).all(axis=1).mean(), 1 / 6, rtol=0, atol=8 * (5 / 36 / m) ** .5)
    C = np.array([[4.0, 2.0], [2.0, 2.0]])
    r = tonp(attempt(gnp.multivariate_normal.rvs, mean=arr([1.0, -3.0]), cov=arr(C), n=n))
    if rec.eq("shape of multivariate draws", list(r.shape) if not is_err(r) else r, [n, 2]):
        rec.close("mean of multivariate draws", r.mean(0), [1.0, -3.0], rtol=0, atol=8 * 2 / n ** .5)
        rec.close("covariance of multivariate draws", np.cov(r.T), C, rtol=0, atol=8 * 6 / n ** .5)
    r = tonp(attempt(gnp.multivariate_normal.rvs, mean=2.0, cov=9.0, n=n))
    if rec.eq("number of scalar draws", r.size if not is_err(r) else r, n):
        rec.close("mean of scalar draws", r.mean(), 2.0, rtol=0, atol=8 * 3 / n ** .5)
        rec.close("variance of scalar draws", r.var(), 9.0, rtol=0, atol=8 * 13 / n ** .5)
    r = tonp(attempt(gnp.multivariate_normal.rvs, mean=arr([1.0, -3.0]), cov=arr(C)))
    rec.eq("one draw unless a number is asked for", r if is_err(r) else r.size, 2)
    x, at0 = arr([-1.0, 0.5, 2.0]), [0.15865525393145707, 0.6914624612740131, 0.9772498680518208]
    rec.close("standard cdf by default", attempt(gnp.multivariate_normal.cdf, x), at0, rtol=1e-6)
    rec.close("standard density by default", attempt(gnp.multivariate_normal.logpdf, x), [-0.5 * v * v - 0.5 * math.log(2 * math.pi) for v in (-1.0, 0.5, 2.0)], rtol=1e-9)


FAM = {"unary": unary, "pair": pair, "system": system}
rec.each(rec.payload["cases"], lambda c: FAM[c["kind"]](c))
if rec.payload.get("part", 0) == 0:
    for n in (1, 2, 3):
        rec.each(list(itertools.product("nmp01", repeat=n)), special)
    rec.each([0, 1, 7, 1234, abs(rec.seed) + 3], draws)
    rec.each([None], lambda _: frequencies())
rec.done()
