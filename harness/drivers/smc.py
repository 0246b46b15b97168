"""Weighted particles: reweighting, resampling and moves."""
import contextlib
import io
from base import *
from gpmp.mcmc.smc import ParticlesSet, ParticlesSetConfig, SMC, SMCConfig

rec = Recorder()
TR = rec.extra["trace"] = []
TUNE = rec.extra["tune"] = []
DEAD = 99
LN2 = math.log(2.0)
SCHEMES = ("multinomial", "residual")


def table(c, x0, base):
    """Log-densities of the numbered targets at the initial positions."""
    ids = {tuple(v): i for i, v in enumerate(x0.tolist())}

    def f(x, k):
        v = [c["lev"][k - 1][ids[tuple(r)]] for r in tonp(x).tolist()]
        return arr([-math.inf if t == DEAD else t * LN2 + base for t in v])
    return f, ids


def one(c):
    n, k = c["n"], c["k"]
    dim = 1 + k % 3
    scheme = SCHEMES[k % 2]
    rng = np.random.default_rng(c["seed"])
    ps = attempt(lambda: ParticlesSet([[-1.0] * dim, [3.0] * dim], n, ParticlesSetConfig(resample_scheme=scheme), rng))
    w = dict(lev=c["lev"], ops=[(h["target"], h["keep"]) for h in c["hist"]], scheme=scheme)
    if not rec.true("particles are drawn", not is_err(ps), ps, **w):
        return
    x0 = tonp(ps.x).copy()
    rec.true("particles are drawn in the box", x0.shape == (n, dim) and (x0 >= -1).all() and (x0 <= 3).all(), x0.tolist(), **w)
    rec.close("weights start uniform", ps.w, [1.0 / n] * n, **w)
    # a common offset of the log-densities is a common factor of the weights
    base = (0.0, 0.0, -30.0, 40.0, -800.0, 5000.0)[c["seed"] % 6]
    f, ids = table(c, x0, base)
    w["offset"] = base
    kept = False
    for j, h in enumerate(c["hist"]):
        attempt(ps.set_logpdf_with_parameter, f, h["target"])
        r = attempt(ps.reweight, update_logpx_and_w=h["keep"])
        if not rec.true("reweighting works", not is_err(r), r, step=j, **w):
            return
        got, want = tonp(ps.w), np.array([rat(v) for v in h["w"]])
        if base and want.sum() > 0:
            got, want = got / got.max(), want / want.max()
        rec.close("weights are proportional to the density ratio", got, want, rtol=1e-9, atol=1e-14, step=j, **w)
        kept = kept or h["keep"]
        lp = np.array([-math.inf if v == DEAD else v * LN2 + (base if kept else 0.0) for v in h["lp"]])
        rec.true("stored log-densities", np.allclose(tonp(ps.logpx), lp, rtol=1e-12, atol=1e-12), [tolist(ps.logpx), lp.tolist()], step=j, **w)
        rec.close("effective sample size", attempt(lambda: float(tonp(ps.ess()))), rat(h["ess"]), rtol=1e-9, step=j, **w)
        rec.true("reweighting leaves positions", np.array_equal(tonp(ps.x), x0), None, step=j, **w)
    share = [rat(v) for v in h["shares"]]
    alive = sum(rat(v) for v in h["trial"]) > 0
    pairs = {tuple(x0[i].tolist()): tonp(ps.logpx)[i] for i in range(n)}
    r = attempt(ps.resample)
    if not rec.true("resampling works", not is_err(r), r, **w):
        return
    x, lp = tonp(ps.x), tonp(ps.logpx)
    counts = [0] * n
    ok = x.shape == (n, dim) and lp.shape == (n,)
    if rec.true("resampling keeps the number of particles", ok, [x.shape, lp.shape], **w):
        for v, l in zip(x.tolist(), lp):
            if not rec.true("resampled particles are existing ones with their log-densities",
                            tuple(v) in pairs and (pairs[tuple(v)] == l or pairs[tuple(v)] == l == -math.inf), [v, l], **w):
                return
            counts[ids[tuple(v)]] += 1
        if alive:
            rec.true("only particles of positive weight survive", all(s > 0 for s, m in zip(share, counts) if m), [share, counts], **w)
            if scheme == "residual":
                rec.true("whole expected copies are kept", all(m >= int(rat_floor(s)) for s, m in zip(h["shares"], counts)), [share, counts], **w)
        rec.close("weights become uniform", ps.w, [1.0 / n] * n, rtol=1e-12, **w)
        rec.close("all particles count after resampling", attempt(lambda: float(tonp(ps.ess()))), n, rtol=1e-9, **w)


def rat_floor(q):
    return q[0] // q[1]


def large(c):
    """Whole copies, conservation and frequencies for larger sets."""
    n, seed, scheme = c["n"], c["seed"], c["scheme"]
    r = np.random.default_rng(seed)
    num = r.integers(0, 5, n) if c["mix"] else np.ones(n, dtype=int)
    if num.sum() == 0:
        num[0] = 1
    ps = ParticlesSet([[0.0], [1.0]], n, ParticlesSetConfig(resample_scheme=scheme), r)
    x0 = tonp(ps.x).copy()
    ids = {float(v): i for i, v in enumerate(x0[:, 0])}
    lev = np.array([math.log(v) if v else -math.inf for v in num])
    ps.set_logpdf(lambda x: arr([lev[ids[float(v)]] for v in tonp(x)[:, 0]]))
    w = dict(case=c)
    o = attempt(ps.reweight)
    o = attempt(ps.resample) if not is_err(o) else o
    if not rec.true("a large set is resampled", not is_err(o), o, **w):
        return
    counts = np.zeros(n, dtype=int)
    for v in tonp(ps.x)[:, 0]:
        counts[ids[float(v)]] += 1
    rec.eq("number of particles", int(counts.sum()), n, **w)
    rec.true("no dead particle survives", not counts[num == 0].any(), counts.tolist(), **w)
    if scheme == "residual":
        rec.true("whole expected copies are kept in a large set", bool((counts >= (n * num) // num.sum()).all()), [counts.tolist(), num.tolist()], **w)


def often(c):
    """Expected numbers of copies, over many resamplings."""
    num, reps, scheme = c["num"], c["reps"], c["scheme"]
    n = len(num)
    tot = np.zeros(n, dtype=int)
    r = np.random.default_rng(c["seed"])
    for _ in range(reps):
        ps = ParticlesSet([[0.0], [1.0]], n, ParticlesSetConfig(resample_scheme=scheme), r)
        ids = {float(v): i for i, v in enumerate(tonp(ps.x)[:, 0])}
        ps.set_logpdf(lambda x: arr([math.log(num[ids[float(v)]]) for v in tonp(x)[:, 0]]))
        ps.reweight()
        ps.resample()
        for v in tonp(ps.x)[:, 0]:
            tot[ids[float(v)]] += 1
    for i in range(n):
        TR.append([dict(kind="freq", num=int(num[i]), den=int(sum(num)), trials=n * reps, accepted=int(tot[i]))])


def staircase(x, edges):
    """Level 0 in the middle, one level less per cell outwards, nothing beyond."""
    v = np.floor(np.abs(tonp(x)[:, 0]))
    return np.where(v >= edges, -math.inf, -v * LN2)


def moves(c):
    """Moves on a staircase density: every particle steps to its proposal or stays."""
    n, dim, edges = c["n"], c["dim"], c["edges"]
    r = np.random.default_rng(c["seed"])
    half = edges - 0.01
    ps = ParticlesSet([[-half] * dim, [half] * dim], n,
                      ParticlesSetConfig(resample_scheme=c["scheme"], param_s_initial_value=c["s"],
                                         covariance_method=c["cov"]), r)
    asked = []

    def f(x):
        asked.append(tonp(x).copy())
        return arr(staircase(x, edges))
    ps.set_logpdf(f)
    w = dict(case=c)
    o = attempt(ps.reweight)
    o = attempt(ps.resample) if not is_err(o) else o
    if not rec.true("particles are resampled", not is_err(o), o, **w):
        return
    trials = accepted = 0
    rank = lambda v: -1 if v == -math.inf else 100 + round(v / LN2)
    for s in range(c["steps"]):
        x, lp = tonp(ps.x).copy(), tonp(ps.logpx).copy()
        del asked[:]
        rate = attempt(ps.move)
        if not rec.true("a move works", not is_err(rate), rate, step=s, **w):
            return
        if not rec.true("proposals are judged once", len(asked) == 1 and asked[0].shape == x.shape, [a.shape for a in asked], step=s, **w):
            return
        y, x1, lp1 = asked[0], tonp(ps.x), tonp(ps.logpx)
        ly = staircase(y, edges)
        moved = 0
        for i in range(n):
            same, new = np.array_equal(x1[i], x[i]), np.array_equal(x1[i], y[i])
            a = 1 if new and not same else 0
            moved += a
            TR.append([dict(kind="step", prev=0, prop=1, next=1 if a else 0 if same else 2, pl=rank(lp[i]), yl=rank(ly[i]),
                            nl=rank(lp1[i]), a=a)])
            if ly[i] > -math.inf and rank(ly[i]) == rank(lp[i]) - 1:
                trials, accepted = trials + 1, accepted + a
        rec.close("acceptance rate", float(tonp(rate)), moved / n, rtol=1e-12, step=s, **w)
        rec.close("moves keep the weights", ps.w, [1.0 / n] * n, rtol=1e-12, **w)
    if trials >= 40:
        TR.append([dict(kind="freq", num=1, den=2, trials=trials, accepted=accepted)])


def stages(c):
    """Stages of a sampler: what is stored belongs to the current target."""
    n, dim = c["n"], c["dim"]
    r = np.random.default_rng(c["seed"])
    box = [[0.0] * dim, [1.0] * dim]

    def f(x, b):
        v = tonp(x)
        inside = ((v >= 0) & (v <= 1)).all(axis=1)
        return arr(np.where(inside, b * (c["offset"] - 5.0 * ((v - 0.3) ** 2).sum(axis=1)), -math.inf))
    smc = attempt(lambda: SMC(box, n, ParticlesSetConfig(resample_scheme=c["scheme"], covariance_method=c["cov"]),
                              SMCConfig(mh_steps=c["mh"]), rng=r))
    w = dict(case=c)
    if not rec.true("a sampler is built", not is_err(smc), smc, **w):
        return
    for b in c["betas"]:
        with contextlib.redirect_stdout(io.StringIO()):
            o = attempt(smc.step, f, b)
        if not rec.true("a stage ends", not is_err(o), o, b=b, **w):
            return
        p = smc.particles
        x, lp = tonp(p.x), tonp(p.logpx)
        rec.true("the number of particles is kept", x.shape == (n, dim) and lp.shape == (n,), x.shape, b=b, **w)
        rec.true("particles stay in the support", bool(((x >= 0) & (x <= 1)).all()), None, b=b, **w)
        rec.close("stored log-densities are those of the stored positions", lp, tonp(f(x, b)), rtol=1e-12, atol=1e-12, b=b, **w)
        rec.close("weights are uniform after a stage", p.w, [1.0 / n] * n, rtol=1e-12, b=b, **w)
        sc = p.param_s
        rec.true("the scale stays in its limits", 1e-3 <= float(sc) <= 1e5, sc, b=b, **w)


def tuning(c):
    """The moves of successive stages and the scale each of them was made with."""
    n, dim, f = c["n"], c["dim"], c["factor"]
    r = np.random.default_rng(c["seed"])
    s0 = c["s"]
    smc = attempt(lambda: SMC([[-4.0] * dim, [4.0] * dim], n,
                              ParticlesSetConfig(resample_scheme=c["scheme"], param_s_initial_value=s0,
                                                 param_s_lower_bound=1e-30, param_s_upper_bound=1e30),
                              SMCConfig(mh_steps=c["mh"], mh_acceptation_rate_min=c["lo"] / 1e4, mh_acceptation_rate_max=c["hi"] / 1e4,
                                        mh_adjustment_factor=f, mh_adjustment_max_iterations=c["max"]), rng=r))
    w = dict(case=c)
    if not rec.true("a sampler is built", not is_err(smc), smc, **w):
        return
    p, seen = smc.particles, []
    inner = p.move

    def move(*a, **k):
        s = float(p.param_s)
        out = inner(*a, **k)
        seen.append((s, float(tonp(out))))
        return out
    p.move = move
    trace = []
    for b in c["betas"]:
        del seen[:]
        with contextlib.redirect_stdout(io.StringIO()):
            o = attempt(smc.step, lambda x, t: arr(-0.5 * t * (tonp(x) ** 2).sum(axis=1)), b)
        if not rec.true("a stage ends", not is_err(o), o, b=b, **w) or not rec.true("a stage makes moves", seen, seen, b=b, **w):
            return
        ex = [math.log(s / s0) / math.log(f) for s, _ in seen] + [math.log(float(p.param_s) / s0) / math.log(f)]
        counts = [a * n for _, a in seen]
        rec.true("scales are powers of the factor", max(abs(e - round(e)) for e in ex) < 1e-6, ex, b=b, **w)
        rec.true("rates are counts of particles", max(abs(a - round(a)) for a in counts) < 1e-6, counts, b=b, **w)
        trace.append(dict(n=n, acc=[round(a) for a in counts], e=[round(e) for e in ex[:-1]], last=round(ex[-1]),
                          lo=c["lo"], hi=c["hi"], max=c["max"], steps=c["mh"]))
    TUNE.append(trace)


def noise(c):
    """Initial particles fill their box evenly, perturbations have the scaled covariance of the particles."""
    r = np.random.default_rng(c["seed"])
    d, n, u = c["dim"], 800, c["unit"]
    lo = r.normal(size=d) * 3 * u
    hi = lo + 10.0 ** r.uniform(-1, 1, d) * u
    p = attempt(lambda: ParticlesSet([lo.tolist(), hi.tolist()], n, config=ParticlesSetConfig(param_s_initial_value=c["s"], covariance_method=c["cov"]),
                                     rng=np.random.default_rng(c["seed"])))
    if not rec.true("particles are made", not is_err(p), p, case=c):
        return
    q = lambda m: [[int(max(-10**4, min(10**4, round(1000 * v)))) for v in row] for row in m]

    def emit(e, want):
        sd = np.sqrt(np.diag(want))
        TR.append([dict(kind="law", trials=n, mean=q([e.mean(axis=0) / sd])[0], got=q(e.T @ e / n / np.outer(sd, sd)), want=q(want / np.outer(sd, sd)))])
    x = tonp(p.x).copy()
    rec.true("initial particles lie in the box", x.shape == (n, d) and bool(((x >= lo) & (x <= hi)).all()), None, case=c)
    emit(x - (lo + hi) / 2, np.diag((hi - lo) ** 2 / 12))
    mix = r.normal(size=(d, d)) + 2 * np.eye(d)
    p.x = arr(x @ mix)
    x = tonp(p.x).copy()
    with contextlib.redirect_stdout(io.StringIO()):
        y = attempt(p.perturb)
    if rec.true("particles are perturbed", not is_err(y), y, case=c):
        rec.close("a perturbation leaves the particles", p.x, x, rtol=0, atol=0, case=c)
        emit(tonp(y) - x, c["s"] * np.cov(x.T).reshape(d, d))


def errors(_):
    ps = ParticlesSet([[0.0], [1.0]], 5, ParticlesSetConfig(resample_scheme="none of these"))
    rec.true("an unknown scheme is refused", isinstance(attempt(ps.resample), Err) and "ValueError" in repr(attempt(ps.resample)), repr(attempt(ps.resample)))
    rec.raises("an unknown initial distribution is refused", attempt(lambda: ParticlesSet([[0.0], [1.0]], 5, ParticlesSetConfig(initial_distribution_type="qmc"))))
    rec.raises("an unknown tempering rule is refused", attempt(lambda: SMC([[0.0], [1.0]], 5, smc_config=SMCConfig(compute_next_logpdf_param_method="x"))))


KIND = dict(exact=one, large=large, often=often, moves=moves, stages=stages, tuning=tuning, noise=noise, errors=errors)
rec.each(rec.payload["cases"], lambda c: KIND[c["kind"]](c), limit=60)
rec.done()
