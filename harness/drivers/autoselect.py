"""Run automatic selection under scripted criteria and record what happened."""
from base import *
from gpmp.dataloader import Dataset, DataLoader
from gpmp.kernel import autoselect_parameters, make_selection_criterion_with_gradient

rec = Recorder()
out = []
INF, NAN, FAIL = 1000000, 2000000, 3000000

VALUES = [[-2.0, -1.0, 0.0, 1.0, 2.5], [7.0, 7.0 + 1e-9, 7.0 + 2e-9, 7.0 + 3e-9, 7.0 + 4e-9],
          [-1e9, -3.0, 0.0, 1e-12, 1e12], [-5.0, -4.0, -3.0, -2.0, -1.0]]


def failure(kind):
    if BACKEND == "torch":
        import torch
        return torch.linalg.LinAlgError("linalg.cholesky: the factorization could not be completed")
    return np.linalg.LinAlgError("Matrix is not positive definite")


class TooLong(Exception):
    pass


class Scripted:
    """Gives the k-th new point the k-th outcome of the script, then the tail."""

    def __init__(self, script, values, tail):
        self.script, self.values, self.tail = script, values, tail
        self.memo, self.log = {}, []

    def outcome(self, p):
        k = p.tobytes()
        if k not in self.memo:
            i = len(self.memo)
            o = self.script[i] if i < len(self.script) else self.tail(i, p)
            if not np.all(np.isfinite(p)):
                o = NAN
            self.memo[k] = self.values[o] if o < INF else o
        return self.memo[k]

    def __call__(self, p):
        p = np.array(tonp(p), dtype=float)
        o = self.outcome(p)
        self.log.append((p, o))
        if len(self.log) > 30000:
            raise TooLong("thirty thousand evaluations in at most sixty iterations")
        if o == FAIL:
            raise failure(0)
        return math.inf if o == INF else math.nan if o == NAN else o


class Landscape(Scripted):
    """A smooth valley with holes where it is infinite, undefined or fails."""

    def __init__(self, holes, shift):
        super().__init__([], None, None)
        self.holes, self.shift = holes, shift

    def outcome(self, p):
        k = p.tobytes()
        if k not in self.memo:
            d = p - self.shift
            r = float(np.sum(d ** 2 * (1 + np.arange(len(p)))) + 0.3 * np.sum(np.cos(5 * p)))
            self.memo[k] = r
            for o, lo, hi in self.holes:
                if lo < p[0] < hi:
                    self.memo[k] = o
            if not np.all(np.isfinite(p)):
                self.memo[k] = NAN
        return self.memo[k]

    def grad(self, p):
        p = np.array(tonp(p), dtype=float)
        return 2 * (p - self.shift) * (1 + np.arange(len(p))) - 1.5 * np.sin(5 * p)


class Built:
    """A criterion of data made differentiable by the library, over arrays or over batches; holes as above."""

    def __init__(self, holes, shift, batches, part):
        self.log = []
        x, z = arr(np.arange(6.0).reshape(-1, 1)), arr(np.zeros(6))
        kw = dict(dataloader=DataLoader(Dataset(x, z), batch_size=batches, shuffle=False)) if batches else dict(xi=x, zi=z)

        def crit(model, p, xb, zb):
            u = float(tonp(p)[0])
            if not part or float(tonp(xb)[0, 0]) == 0.0:          # in every batch, or in the first only
                for o, lo, hi in holes:
                    if lo < u < hi:
                        if o == FAIL:
                            raise failure(0)
                        return gnp.safe_inf() if o == INF else gnp.sum(p) * math.nan
            d = p - arr(shift)
            return gnp.sum(d * d * arr(1.0 + np.arange(len(shift)))) + 0.3 * gnp.sum(gnp.cos(5 * p))
        f = make_selection_criterion_with_gradient(object(), crit, **kw)
        self.value, self.grad = f[1], f[3]

    def __call__(self, p):
        v = self.value(p)
        self.log.append((np.array(tonp(p), dtype=float), code(v)))
        return v


def code(v):
    """Recorded value -> INF/NAN or the float itself."""
    v = float(tonp(v).reshape(-1)[0])
    return NAN if math.isnan(v) else INF if math.isinf(v) else v


def record(crit, x, r, plain, bounds, p0):
    """Points become numbers, finite values become ranks."""
    ids = {}

    def pid(p):
        p = np.array(tonp(p), dtype=float).reshape(-1)
        return ids.setdefault(p.tobytes(), len(ids) + 1)

    def inside(p):
        p = np.array(tonp(p), dtype=float).reshape(-1)
        return bool(np.all(np.isfinite(p)) and all(
            (lo is None or t >= lo) and (hi is None or t <= hi) for t, (lo, hi) in zip(p, bounds)))

    hist = [code(v) for v in r.history_criterion]
    fun = code(r.fun)
    finite = sorted({v for v in [o for _, o in crit.log] + hist + [fun]
                     if not (isinstance(v, int) and v >= INF)})
    rank = {v: k for k, v in enumerate(finite)}

    def val(v):
        return v if isinstance(v, int) and v >= INF else rank[v]

    start = np.array(tonp(p0), dtype=float).reshape(-1)
    for k, (lo, hi) in enumerate(bounds):
        start[k] = start[k] if lo is None else max(start[k], lo)
        start[k] = start[k] if hi is None else min(start[k], hi)
    return {"evals": [{"pt": pid(p), "val": val(o), "inside": inside(p)} for p, o in crit.log],
            "hist": [{"pt": pid(p), "val": val(v)} for p, v in zip(r.history_params, hist)],
            "ret": {"pt": pid(x), "val": val(fun), "inside": inside(x)},
            "plain": pid(plain), "start": pid(start)}


def run(make, p0, kw, bounds, what):
    before = np.array(tonp(p0), dtype=float)
    c = make()
    a = attempt(autoselect_parameters, p0, c, kw.pop("grad")(c), info=True, **kw["a"])
    if is_err(a):
        return rec.bad("selection completes", "parameters", a, **what)
    c2 = make()
    b = attempt(autoselect_parameters, p0, c2, kw.pop("grad2")(c2), info=False, **kw["a"])
    if is_err(b):
        return rec.bad("selection completes", "parameters", b, **what)
    rec.true("no diagnostics unless asked for", b[1] is None, repr(b[1])[:200], **what)
    x, r = a
    rec.true("parameters are returned", x is not None and b[0] is not None, repr(x), **what)
    if x is None or b[0] is None:
        return
    rec.eq("supplied initial parameters are unchanged", np.array(tonp(p0), dtype=float).tolist(),
           before.tolist(), **what)
    rec.close("diagnostics do not change the answer", b[0], x, 0, 0, **what)
    rec.close("diagnostics name the returned parameters", r.x, x, 0, 0, **what)
    given = None if r.bounds is None else [[None if v is None or math.isinf(v) else float(v) for v in q] for q in r.bounds]
    want = [list(q) for q in bounds]
    rec.true("the bounds reported are those in force", (given or [[None, None]] * len(bounds)) == want, given, want=want, **what)
    rec.close("the initial point reported is the one given", r.initial_params, before, 0, 0, **what)
    rec.close("the final point reported is the one returned", r.final_params, x, 0, 0, **what)
    t = record(c, x, r, b[0], bounds, before)
    out.append([t])


def options(i, d, rng):
    """Bounds requests and the interval the parameters must stay in."""
    p0 = np.round(rng.uniform(-2, 2, size=d), 2)
    k = i % 6
    if k == 0:
        return p0, {}, [(t - 10.0, t + 10.0) for t in p0]
    if k == 1:
        return p0, {"bounds_delta": 0.3}, [(t - 0.3, t + 0.3) for t in p0]
    if k == 2:
        b = [(t - 0.5, t + 1.0) for t in p0]
        return p0, {"bounds": b}, b
    if k == 3:
        return p0, {"bounds_auto": False}, [(None, None)] * d
    if k == 4:  # starting point outside, on either side
        b = [(t + 0.25, t + 1.0) if j % 2 == 0 else (t - 1.0, t - 0.25) for j, t in enumerate(p0)]
        return p0, {"bounds": b}, b
    b = [(t, t + 2.0) for t in p0]  # starting point on the boundary
    return p0, {"bounds": b, "bounds_delta": 0.01}, b


def scripted(case):
    rng = np.random.default_rng([abs(rec.seed), case["k"]])
    i, d = int(rng.integers(6)), 1 + int(rng.integers(3))
    p0, kw, bounds = options(i, d, rng)
    method = ("SLSQP", "L-BFGS-B")[case["k"] % 2]
    values = VALUES[int(rng.integers(len(VALUES)))]
    kind = int(rng.integers(4))
    tail = (lambda n, p: case["script"][n % len(case["script"])]) if kind == 0 else \
           (lambda n, p: case["script"][-1]) if kind == 1 else \
           (lambda n, p: NAN) if kind == 2 else (lambda n, p: 0 if n % 7 == 0 else 4)
    gs = int(rng.integers(1, 1 << 30))
    gk = int(rng.integers(3))

    def grad(c):
        g = np.random.default_rng(gs)
        if gk == 0:
            return None
        return lambda p: g.normal(size=d) * (1.0 if gk == 1 else 1e-3)
    start = arr(p0) if case["k"] % 3 == 0 else p0.copy() if case["k"] % 3 == 1 else list(p0)
    what = dict(script=case["script"], method=method, bounds=kw, p0=p0.tolist(), grad=gk, tail=kind)
    run(lambda: Scripted(case["script"], values, tail), start,
        {"grad": grad, "grad2": grad,
         "a": dict(kw, method=method, method_options={"maxiter": 12})}, bounds, what)


def landscape(case):
    rng = np.random.default_rng([abs(rec.seed), 7, case["k"]])
    d = 1 + int(rng.integers(3))
    p0, kw, bounds = options(int(rng.integers(6)), d, rng)
    method = ("SLSQP", "L-BFGS-B")[case["k"] % 2]
    holes = [(int(rng.choice([INF, NAN, FAIL])), a, a + w) for a, w in
             zip(rng.uniform(-2.5, 2.5, size=4), rng.uniform(0.02, 0.4, size=4))][:int(rng.integers(5))]
    shift = rng.uniform(-2, 2, size=d)
    use = case["k"] % 3 != 0
    g = lambda c: c.grad if use else None  # noqa: E731
    if case["k"] % 2:
        batches, part = int(rng.choice([0, 2, 4, 6])), bool(rng.integers(2))
        method = ("SLSQP", "L-BFGS-B")[case["k"] // 2 % 2]
        g = lambda c: c.grad  # noqa: E731
        return run(lambda: Built(holes, shift, batches, part), arr(p0),
                   {"grad": g, "grad2": g, "a": dict(kw, method=method, method_options={"maxiter": 60})},
                   bounds, dict(holes=holes, method=method, bounds=kw, p0=p0.tolist(), batches=batches, first_only=part))
    run(lambda: Landscape(holes, shift), arr(p0),
        {"grad": g, "grad2": g, "a": dict(kw, method=method, method_options={"maxiter": 60})},
        bounds, dict(holes=holes, method=method, bounds=kw, p0=p0.tolist()))


class Boom(Exception):
    pass


def other_errors():
    for method in ("SLSQP", "L-BFGS-B"):
        def f(p):
            raise Boom("not numerical")
        a = attempt(autoselect_parameters, np.zeros(2), f, None, method=method)
        rec.true("errors that are not linear-algebra failures reach the caller",
                 is_err(a) and isinstance(a.e, Boom), a)


def far():
    """A bowl far from the start: only the bounds in force confine the answer."""
    for method in ("SLSQP", "L-BFGS-B"):
        for kw, want in (({}, 10.0), ({"bounds_delta": 3.0}, 3.0), ({"bounds_auto": False}, 40.0), ({"bounds_auto": False, "bounds_delta": 1.0}, 40.0),
                         ({"bounds": [(-1.0, 25.0), (0.0, 5.0)], "bounds_auto": False}, None), ({"bounds": [(-1.0, 25.0), (0.0, 5.0)]}, None)):
            for use in (True, False):
                f = lambda p: float(np.sum((np.asarray(tonp(p), float) - 40.0) ** 2))  # noqa: E731
                g = (lambda p: 2 * (np.asarray(tonp(p), float) - 40.0)) if use else None  # noqa: E731
                a = attempt(autoselect_parameters, np.zeros(2), f, g, method=method, info=True, **kw)
                rec.close("the answer is confined by the bounds in force and nothing else", math.nan if is_err(a) else a[0],
                          [25.0, 5.0] if want is None else [want, want], rtol=1e-3, atol=1e-3, method=method, options=kw, gradient=use)


def limited():
    """Options of the optimizer reach it: two iterations in a curved valley are fewer evaluations than many."""
    for method in ("SLSQP", "L-BFGS-B"):
        used = []
        for most in (2, 200):
            log = []

            def f(p):
                q = np.asarray(tonp(p), float)
                log.append(q)
                return float((1 - q[0]) ** 2 + 100 * (q[1] - q[0] ** 2) ** 2)
            a = attempt(autoselect_parameters, np.array([-1.2, 1.0]), f, None, method=method, info=True, method_options={"maxiter": most})
            used.append(len(log))
            rec.true("selection completes", not is_err(a), a, method=method, iterations=most)
        rec.true("an iteration limit is honoured", used[0] < 60 and used[0] < used[1], used, method=method)


limited()
rec.each([c for c in rec.payload["cases"] if "script" in c], scripted)
rec.each([c for c in rec.payload["cases"] if "script" not in c], landscape)
other_errors()
far()
rec.extra["trace"] = out
rec.done()
