"""NUTS transitions, runs and warm-up windows."""
import contextlib
import io
import warnings
from base import *
from gpmp.mcmc.nuts import nuts_transition, nuts_sample, make_warmup_windows, NUTSOptions

warnings.simplefilter("ignore")
np.seterr(all="ignore")
rec = Recorder()
TR = rec.extra["trace"] = []


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


# ---------------------------------------------------------------- targets
def target(name, s):
    """Log-density for the sampler, with energy and gradient for the recorder."""
    s = np.asarray(s, float)
    sg = arr(s)
    if name == "gauss":
        return (lambda q: -0.5 * gnp.sum((q / sg) ** 2)), (lambda q: 0.5 * ((q / s) ** 2).sum()), (lambda q: q / s**2)
    if name == "quartic":
        return (lambda q: -0.25 * gnp.sum((q / sg) ** 4)), (lambda q: 0.25 * ((q / s) ** 4).sum()), (lambda q: (q / s) ** 3 / s)
    if name == "banana":
        def lp(q):
            return -0.5 * (q[0] / sg[0]) ** 2 - 0.5 * (q[1] - q[0] ** 2) ** 2
        return lp, (lambda q: 0.5 * (q[0] / s[0]) ** 2 + 0.5 * (q[1] - q[0] ** 2) ** 2), \
            (lambda q: np.array([q[0] / s[0] ** 2 - 2 * q[0] * (q[1] - q[0] ** 2), q[1] - q[0] ** 2]))
    if name == "cut":                                           # normal restricted to a box
        def lp(q):
            if bool((np.abs(tonp(q)) > 1.2 * s).any()):
                return gnp.sum(q) * 0.0 - math.inf
            return -0.5 * gnp.sum((q / sg) ** 2)
        return lp, (lambda q: 0.5 * ((q / s) ** 2).sum() if (np.abs(q) <= 1.2 * s).all() else math.inf), (lambda q: q / s**2)
    if name == "hole":                                          # not defined in a ball
        def lp(q):
            v = -0.5 * gnp.sum((q / sg) ** 2)
            return v * (math.nan if float(((tonp(q) / s - 0.8) ** 2).sum()) < 0.1 else 1.0)
        return lp, (lambda q: 0.5 * ((q / s) ** 2).sum() if ((q / s - 0.8) ** 2).sum() >= 0.1 else math.nan), (lambda q: q / s**2)
    raise ValueError(name)


class Watch:
    """Distinct points at which the density is asked for, in order."""
    def __init__(self, f, gap):
        self.f, self.pts, self.gap = f, [], gap

    def __call__(self, q):
        v = tonp(q).reshape(-1).copy()
        if not any((np.abs(v - p) <= self.gap).all() for p in self.pts):
            self.pts.append(v)
        return self.f(q)


def move(c):
    """One transition, laid out on its trajectory."""
    d, eps, limit, delta = c["dim"], c["eps"], c["limit"], c["delta"]
    g = np.random.default_rng(c["seed"])
    s = np.array(c["scales"][:d])
    lp, U, dU = target(c["target"], s)
    mass = np.array(c["mass"][:d])
    for _ in range(50):
        q0 = g.normal(size=d) * s
        if math.isfinite(U(q0)):
            break
    else:
        return
    watch = Watch(lp, 4e-5)
    gnp.set_seed(c["seed"])
    w = dict(case=c)
    o = quiet(nuts_transition, watch, arr(q0), eps, arr(1 / mass), limit, delta)
    if not rec.true("a transition ends", not is_err(o), o, **w):
        return
    q1, acc, steps, depth, div = o
    q1 = tonp(q1).reshape(-1)
    rec.true("the mean acceptance is a probability", 0 <= acc <= 1 + 1e-12, acc, **w)
    rec.true("the next state has a density", math.isfinite(U(q1)), q1.tolist(), **w)
    rec.true("the depth is limited", 0 <= depth <= limit and steps <= 2**depth - 1, [depth, steps], **w)
    if len(watch.pts) < 2 or np.abs(watch.pts[0] - q0).max() > 1e-12:
        return
    # momentum of the start, up to the direction of time
    p0 = (watch.pts[1] - q0) * mass / eps + 0.5 * eps * dU(q0)
    K = lambda p: 0.5 * (p * p / mass).sum()
    H0 = U(q0) + K(p0)
    N = 2**limit - 1
    q, p, e = {0: q0}, {0: p0}, {0: H0}
    for sg in (1, -1):
        a, b = q0, p0
        for i in range(1, N + 1):
            h = b - 0.5 * sg * eps * dU(a)
            a = a + sg * eps * h / mass
            b = h - 0.5 * sg * eps * dU(a)
            q[sg * i], p[sg * i], e[sg * i] = a, b, U(a) + K(b)
            if not math.isfinite(e[sg * i]) or e[sg * i] - H0 > delta + 50:
                break
    z = np.array([q[i] for i in sorted(q)])
    near = np.abs(z[:, None] - z[None]).max(axis=2) + np.eye(len(z))
    if near.min() < 3e-4:                       # states that could be taken for one another
        return
    seen = []
    for v in watch.pts[1:]:
        best = min(q, key=lambda i: np.abs(q[i] - v).max())
        if not rec.true("visited states are those of the leapfrog trajectory", np.abs(q[best] - v).max() <= 1e-5 * (1 + np.abs(v).max()),
                        [v.tolist(), q[best].tolist(), best], **w):
            return
        seen.append(best)
    chosen = min(q, key=lambda i: np.abs(q[i] - q1).max())
    if not rec.true("the next state is one of those visited", np.abs(q[chosen] - q1).max() <= 1e-6 * (1 + np.abs(q1).max()), q1.tolist(), **w):
        return
    rec.true("the next state lies in the slice", e[chosen] - H0 < 40, e[chosen] - H0, **w)
    if any(abs(v - H0 - delta) < 1e-5 for v in e.values()):
        return
    bad = [i for i, v in e.items() if not (math.isfinite(v) and v - H0 <= delta)]
    turn = []
    fine = [i for i in q if i not in bad]
    for i in fine:
        m = 2
        while i + m - 1 <= N:
            j = i + m - 1
            if j in q and j not in bad:
                dq = q[j] - q[i]
                for r in ((dq * p[i] / mass).sum(), (dq * p[j] / mass).sum()):
                    if abs(r) < 1e-8:
                        return
                if (dq * p[i] / mass).sum() < 0 or (dq * p[j] / mass).sum() < 0:
                    turn.append([i, j])
            m *= 2
    al = [min(1.0, math.exp(min(0.0, H0 - e[i]))) for i in seen if math.isfinite(e[i])]
    if al and all(math.isfinite(e[i]) for i in seen):
        rec.close("the mean acceptance is that of the states visited", acc, sum(al) / len(al), rtol=1e-4, atol=1e-6, **w)
    TR.append([dict(kind="move", bad=bad, turn=turn, seen=seen, chosen=chosen, depth=int(depth), steps=int(steps), div=int(bool(div)), limit=limit)])
    k = "diverged" if div else "turned" if depth < limit else "full"
    rec.extra[k] = rec.extra.get(k, 0) + 1


# ---------------------------------------------------------------- invariance
def phi(v):
    return np.array([0.5 * (1 + math.erf(u / math.sqrt(2))) for u in np.ravel(v)]).reshape(np.shape(v))


def flow(c):
    """One transition from exact draws of the target."""
    n, s, d = c["n"], c["scale"], c["dim"]
    g = np.random.default_rng(c["seed"])
    q0 = g.normal(size=(n, d)) * s
    if c["target"] == "cut":
        lo, hi = phi(-1.2), phi(1.2)
        from scipy.special import ndtri
        q0 = ndtri(lo + (hi - lo) * g.uniform(size=(n, d))) * s
    lp, _, _ = target(c["target"], [s] * d)
    w = dict(case=c)
    before = q0.copy()
    qi = arr(q0)
    o = quiet(nuts_sample, lp, qi, 1, num_warmup=0, max_depth=c["limit"], init_step_size=c["eps"] * s * math.sqrt(c["mass"]),
              init_mass_diag=arr([c["mass"]] * d), seed=c["seed"], progress=False, verbose=0)
    if not rec.true("a run ends", not is_err(o), o, **w):
        return
    x = tonp(o[0])[0]
    rec.close("the caller's states are not changed", qi, before, rtol=0, atol=0, **w)

    def cellof(v):
        u = phi(v[:, 0] / s)
        if c["target"] == "cut":
            u = (u - phi(-1.2)) / (phi(1.2) - phi(-1.2))
        return np.clip((u * 8).astype(int), 0, 7)
    a, b = cellof(before), cellof(x)
    tr = [dict(kind="cell", hits=int((b == k).sum()), total=n, prob=512) for k in range(8)]
    tr += [dict(kind="swap", there=int(((a == i) & (b == j)).sum()), back=int(((a == j) & (b == i)).sum())) for i in range(8) for j in range(i)]
    # outer against inner half
    tr.append(dict(kind="swap", there=int(((a < 4) & (b >= 4)).sum()), back=int(((a >= 4) & (b < 4)).sum())))
    out = lambda u: (u < 2) | (u > 5)
    tr.append(dict(kind="swap", there=int((out(a) & ~out(b)).sum()), back=int((~out(a) & out(b)).sum())))
    tr.append(dict(kind="cell", hits=int(out(b).sum()), total=n, prob=2048))
    TR.append(tr)


# ---------------------------------------------------------------- runs
def run(c):
    d, n, W, M, k = c["dim"], c["chains"], c["warm"], c["samples"], c["seed"]
    g = np.random.default_rng(k)
    s = np.array(c["scales"][:d])
    lp, U, _ = target(c["target"], s)
    q0 = g.uniform(-0.5, 0.5, (n, d)) * s
    lo, hi = c["eps_min"], c["eps_max"]
    opt = NUTSOptions(num_warmup=W, max_depth=c["limit"], progress=False, verbose=0, seed=k, find_eps_min=lo, find_eps_max=hi,
                      warmup_min_no_window=4, delta_max=c["delta"], jitter=c["jitter"])
    kw = dict(options=opt)
    if k % 2:
        kw["init_step_size"] = 0.4
    w = dict(case=c)
    o = quiet(nuts_sample, lp, arr(q0), M, **kw)
    if not rec.true("a run ends", not is_err(o), o, **w):
        return
    x, info = tonp(o[0]), {a: tonp(b) for a, b in o[1].items()}
    rec.eq("one state per sample and chain", list(x.shape), [M, n, d], **w)
    want = np.array([[-U(v) for v in r] for r in x]).reshape(M, n)
    rec.close("recorded log-densities are those of the recorded states", info["log_prob_trace"], want, rtol=1e-9, atol=1e-12, **w)
    rec.true("recorded states have a density", bool(np.isfinite(want).all()), None, **w)
    for pre in ("", "warmup_"):
        dep, nlf, acc = info[pre + "tree_depth"], info[pre + "n_leapfrog"], info[pre + "accept_stat"]
        rec.eq("one record per transition", [list(dep.shape), list(nlf.shape), list(acc.shape), list(info[pre + "divergent"].shape)],
               [[W if pre else M, n]] * 4, **w)
        rec.true("depths are limited", bool(((dep >= 0) & (dep <= c["limit"])).all()), None, **w)
        rec.true("leapfrog steps match the depth", bool(((nlf <= 2.0**dep - 1) & (nlf >= dep)).all()), None, **w)
        rec.true("the mean acceptance is a probability", bool(((acc >= 0) & (acc <= 1)).all()), None, **w)
        # no divergence and no early stop: the tree is full or turned
        full = (dep == c["limit"]) & ~info[pre + "divergent"].astype(bool)
        rec.true("leapfrog steps match the depth", bool((nlf[full] >= np.floor(2.0 ** (dep[full] - 1))).all()), None, **w)
    st = info["warmup_step_size"].reshape(-1)
    rec.true("step sizes keep their limits", bool(((st >= lo) & (st <= hi)).all()) and lo <= float(info["step_size_final"].reshape(-1)[0]) <= hi,
             [st.tolist(), float(info["step_size_final"].reshape(-1)[0])], **w)
    rec.true("masses are at least the least allowed", bool((info["mass_diag_final"] >= c["jitter"] * (1 - 1e-12)).all()), info["mass_diag_final"].tolist(), **w)
    if W <= 4:
        rec.close("without windows the masses stay", info["mass_diag_final"], np.ones(d), rtol=0, atol=0, **w)
    again = quiet(nuts_sample, lp, arr(q0), M, **kw)
    rec.close("a seed fixes the samples", again[0], x, rtol=0, atol=0, **w)
    other = quiet(nuts_sample, lp, arr(q0), M, **dict(kw, seed=k + 1))
    if M * n >= 6 and not is_err(other) and np.unique(x.reshape(-1, d), axis=0).shape[0] > 3:
        rec.true("another seed given as argument takes precedence", bool((tonp(other[0]) != x).any()), None, **w)
    # the step sizes in force, seen from three successive states of a quadratic energy in one dimension
    if c["target"] == "gauss" and d == 1 and n == 1:
        log = []

        def spy(q):
            v = float(tonp(q).reshape(-1)[0])
            if not log or abs(v - log[-1]) > 4e-5 and (len(log) < 2 or abs(v - log[-2]) > 4e-5):
                log.append(v)
            return lp(q)
        quiet(nuts_sample, spy, arr(q0), 0, **kw)
        cut = len(log)
        log.clear()
        quiet(nuts_sample, spy, arr(q0), M, **kw)
        lam = 1 / s[0] ** 2

        def ratios(seq):
            return [-(seq[i + 2] - 2 * seq[i + 1] + seq[i]) / (lam * seq[i + 1]) for i in range(len(seq) - 2) if abs(seq[i + 1]) > 1e-3]
        r = np.array(ratios(log[cut:]))
        e = float(info["step_size_final"].reshape(-1)[0]) ** 2 / float(info["mass_diag_final"].reshape(-1)[0])
        if (info["tree_depth"] >= 2).sum() >= 10 and len(r) > 20 and e > 1e-6:
            rec.true("the step size is frozen at its final value", int((np.abs(r / e - 1) < 1e-4).sum()) >= 2, [e, r.tolist()], **w)


def limits(c):
    """Acceptance one everywhere, or nowhere: the step size runs to its limits."""
    k = c["seed"]
    up = bool(k % 2)
    q0 = np.zeros((1 + k % 2, 1))

    def lp(q):
        if up:
            return gnp.sum(q) * 0.0
        return gnp.sum(q) * 0.0 - (math.inf if abs(float(tonp(q).reshape(-1)[0])) > 1e-9 else 0.0)
    lo, hi = 1e-3, 5.0
    o = quiet(nuts_sample, lp, arr(q0), 3, num_warmup=25, max_depth=3, init_step_size=0.1, progress=False, verbose=0, seed=k,
              options=NUTSOptions(find_eps_min=lo, find_eps_max=hi, warmup_min_no_window=100))
    w = dict(up=up)
    if not rec.true("a run ends", not is_err(o), o, **w):
        return
    st = tonp(o[1]["warmup_step_size"]).reshape(-1)
    rec.close("the first step is taken with the step size given", st[0], 0.1, rtol=1e-12, **w)
    diff = np.diff(st)
    rec.true("the step size grows while all is accepted and shrinks while nothing is",
             bool((diff >= -1e-12).all() if up else (diff[1:] <= 1e-12).all()) and abs(st[-1] - (hi if up else lo)) < 1e-12, st.tolist(), **w)
    rec.true("step sizes keep their limits", bool(((st >= lo) & (st <= hi)).all()), st.tolist(), **w)
    if not up:
        rec.close("a transition that diverges at once leaves the state", o[0], np.zeros((3, len(q0), 1)), rtol=0, atol=0, **w)
        rec.true("divergences are reported", bool(tonp(o[1]["divergent"]).all()), None, **w)
    else:
        rec.true("nothing diverges at equal energy", not bool(tonp(o[1]["divergent"]).any()) and bool((tonp(o[1]["tree_depth"]) == 3).all())
                 and bool((tonp(o[1]["n_leapfrog"]) == 7).all()), None, **w)


def tune(c):
    """A long warm-up brings the mean acceptance near the one requested."""
    d, s, t = c["dim"], c["scale"], c["target"]
    lp, _, _ = target("gauss", [s] * d)
    kw = dict(init_step_size=c["eps"] * s) if c["eps"] else {}
    w = dict(case=c)
    o = quiet(nuts_sample, lp, arr(np.zeros((4, d))), 60, num_warmup=200, target_accept=t, max_depth=6, seed=c["seed"], progress=False, verbose=0, **kw)
    if not rec.true("a run ends", not is_err(o), o, **w):
        return
    acc = float(tonp(o[1]["accept_stat"]).mean())
    rec.true("the mean acceptance after the warm-up is near the one requested", abs(acc - t) < 0.16, acc, **w)
    x = tonp(o[0])
    rec.true("the chains reach the scale of the target", bool((np.abs(x.std(axis=(0, 1)) / s - 1) < 0.5).all()), x.std(axis=(0, 1)).tolist(), **w)


def masses(c):
    """Coordinates of very different scales: masses are inverse variances, and every coordinate is explored."""
    s = np.array(c["scales"])
    at, sg = arr(c["shift"] * s), arr(s)
    lp = lambda q: -0.5 * gnp.sum(((q - at) / sg) ** 2)
    w = dict(case=c)
    q0 = (np.random.default_rng(c["seed"]).normal(size=(4, len(s))) + c["shift"]) * s
    o = quiet(nuts_sample, lp, arr(q0), 120, num_warmup=240, max_depth=8, jitter=1e-12, seed=c["seed"], progress=False, verbose=0)
    if not rec.true("a run ends", not is_err(o), o, **w):
        return
    m = tonp(o[1]["mass_diag_final"]).reshape(-1) * s ** 2
    rec.true("the masses are the inverse variances of the states visited", bool(((m > 1 / 6) & (m < 6)).all()), m.tolist(), **w)
    sd = tonp(o[0]).std(axis=(0, 1)) / s
    rec.true("every coordinate is explored on its own scale", bool(((sd > 0.6) & (sd < 1.6)).all()), sd.tolist(), **w)


def windows(c):
    n = c["n"]
    if c["kind"] == "fixed":
        o = attempt(make_warmup_windows, n, min_no_window=0, large_threshold=0, large_init_buffer=c["a"], large_term_buffer=c["b"], large_base_window=c["w"])
    else:
        o = attempt(make_warmup_windows, n, min_no_window=0, large_threshold=n + 1, init_buffer_ratio=c["a"] / 8, term_buffer_ratio=c["b"] / 8,
                    base_window_divisor=3.0)
    rec.eq("the windows of the warm-up", o if is_err(o) else [list(map(int, v)) for v in o], c["windows"], case=c)
    u = attempt(make_warmup_windows, n, min_no_window=n)
    rec.eq("short warm-ups have no windows", o if is_err(u) else list(u), [], n=n)


KIND = dict(move=move, flow=flow, run=run, limits=limits, tune=tune, masses=masses, fixed=windows, ratio=windows)
rec.each(rec.payload["cases"], lambda c: KIND[c["kind"]](c), limit=100)
rec.done()
