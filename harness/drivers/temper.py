"""Tempering sequences and subset simulation."""
import contextlib
import io
import warnings
from base import *
from gpmp.mcmc.smc import SMC, SMCConfig, ParticlesSetConfig, run_smc_sampling, run_subset_simulation

warnings.simplefilter("ignore")
rec = Recorder()
TR = rec.extra["trace"] = []
LN2 = math.log(2.0)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


def sampler(n, rule, seed, dim=1, scheme="residual", mh=1):
    return SMC([[0.0] * dim, [1.0] * dim], n, ParticlesSetConfig(resample_scheme=scheme),
               SMCConfig(compute_next_logpdf_param_method=rule, mh_steps=mh), rng=np.random.default_rng(seed))


def choice(c):
    """One choice of the next parameter, against the scores on the grid."""
    n, rule, end, k = len(c["c"]), c["rule"], c["end"], c["k"]
    need = c["need"] / 8
    unit = (1.0, 1e-4, 1e4)[k % 3]              # of the parameter
    sign = 1 if k % 2 else -1                   # direction of the run
    smc = sampler(n, rule, k)
    ids = {float(v): i for i, v in enumerate(tonp(smc.particles.x)[:, 0])}
    order = np.random.default_rng(k).permutation(n)

    def f(x, b):
        return arr([-c["c"][order[ids[float(v)]]] * LN2 * float(b) * sign / unit for v in tonp(x)[:, 0]])
    w = dict(c=c["c"], rule=rule, need=need, end=end, unit=unit, sign=sign)
    fn = smc.compute_next_logpdf_param_ess if rule == "ess" else smc.compute_next_logpdf_param_p0
    target = sign * end * unit
    b = quiet(fn, f, 0.0, target, need)
    if not rec.true("a next parameter is found", not is_err(b), b, **w):
        return
    b = float(tonp(b)) if not isinstance(b, float) else b
    score = [rat(v) for v in c["score"]]
    if abs(score[end] - need) > 1e-9:           # a tie may round either way
        if c["at_once"]:
            rec.eq("the target is taken when it keeps what was asked for", b, target, **w)
            return
    elif b == target:
        return
    t = b * sign / unit
    if rec.true("the next parameter lies strictly between", 0 < t < end, t, **w):
        lo, hi = int(math.floor(t)), int(math.ceil(t))
        rec.true("the next parameter keeps what was asked for", score[lo] >= need - 0.055 and score[hi] <= need + 0.055,
                 [t, score], **w)


def jumps(c):
    """Thresholds on values with ties: the search ends and advances."""
    vals, need, k = c["vals"], c["need"], c["k"]
    n = len(vals)
    smc = sampler(n, "p0", k)
    ids = {float(v): i for i, v in enumerate(tonp(smc.particles.x)[:, 0])}
    hard = -math.inf if k % 2 else -1e100

    def f(x, u):
        return arr([0.0 if vals[ids[float(v)]] > u else hard for v in tonp(x)[:, 0]])
    start, end = min(vals) - 1.5, c["end"]
    w = dict(vals=vals, need=need, end=end, hard=hard)
    b = quiet(smc.compute_next_logpdf_param_p0, f, start, end, need)
    if not rec.true("a threshold is found", not is_err(b), b, **w):
        return
    p = lambda u: sum(v > u for v in vals) / n
    b = float(b)
    if p(end) >= need:
        rec.eq("a final threshold met by enough particles is taken", b, end, **w)
        return
    if rec.true("thresholds advance", start < b <= end, b, **w):
        rec.true("the survivors are as many as asked for, or the most before a jump",
                 p(b) >= need - 0.051 and p(b + 1e-6) <= need + 0.051, [b, p(b), p(b + 1e-6)], **w)


def ess_of(lw):
    v = np.exp(lw - lw.max())
    return v.sum() ** 2 / (v ** 2).sum()


def whole(c):
    """A whole tempering run."""
    n, dim, rule = c["n"], c["dim"], c["rule"]
    need, sharp = c["need"], c["sharp"]
    t0, t1 = c["t0"], c["t1"]
    box = [[-1.0] * dim, [2.0] * dim]

    def f(x, b):
        v = tonp(x)
        inside = ((v >= -1) & (v <= (2 if not c["trunc"] else 0.5))).all(axis=1)
        s = abs(float(b) - t0) / abs(t1 - t0)
        return arr(np.where(inside, -s * sharp * ((v - 0.2) ** 2).sum(axis=1), -math.inf))
    w = dict(case=c)
    out = quiet(run_smc_sampling, f, t0, t1, rule, need, p0=need, init_box=box, n_particles=n, mh_steps=c["mh"])
    if not rec.true("a run ends", not is_err(out), out, **w):
        return
    x, smc = out
    x = tonp(x)
    rec.true("the number of particles is kept", x.shape == (n, dim), x.shape, **w)
    rec.close("the particles belong to the target", smc.particles.logpx, tonp(f(x, t1)), rtol=1e-12, atol=1e-12, **w)
    rec.true("the particles lie in the support", bool(np.isfinite(tonp(f(x, t1))).all()), None, **w)
    seqs = [l["logpdf_param_sequence"] for l in smc.log if l["logpdf_param_sequence"]]
    if seqs:
        s = [float(tonp(v)) for v in max(seqs, key=len)]
        vals = sorted(set(s) | {t0, t1}, reverse=t1 < t0)
        TR.append([dict(kind="stages", ranks=[vals.index(v) for v in s], end=vals.index(t1))])
        rec.extra["stages"] = rec.extra.get("stages", 0) + len(s)


def staged(c):
    """Stage by stage: what each chosen parameter keeps of the particles it was chosen for."""
    n, dim, rule, need = c["n"], c["dim"], c["rule"], c["need"]
    t0, t1 = c["t0"], c["t1"]
    smc = sampler(n, rule, c["seed"], dim, mh=c["mh"])

    def f(x, b):
        v = tonp(x)
        inside = ((v >= 0) & (v <= 1)).all(axis=1)
        s = abs(float(b) - t0) / abs(t1 - t0)
        return arr(np.where(inside, -s * c["sharp"] * ((v - 0.2) ** 2).sum(axis=1), -math.inf))
    w = dict(case=c)
    cur, ranks = t0, []
    tr = []
    for _ in range(200):
        x = tonp(smc.particles.x).copy()
        b = quiet(smc.compute_next_logpdf_param, f, cur, t1, need)
        if not rec.true("a next parameter is found", not is_err(b), b, **w):
            return
        b = float(tonp(b))
        d = tonp(f(x, b)) - tonp(f(x, cur))
        kept = ess_of(d) / n if rule == "ess" else float(np.exp(d).mean())
        tr.append(dict(kind="stage", last=int(b == t1), kept=int(round(1000 * kept)), asked=int(round(1000 * need))))
        ranks.append(cur)
        o = quiet(smc.step, f, b)
        if not rec.true("a stage ends", not is_err(o), o, **w):
            return
        cur = b
        if cur == t1:
            break
    ranks.append(cur)
    vals = sorted(set(ranks) | {t0, t1}, reverse=t1 < t0)
    tr.append(dict(kind="stages", ranks=[vals.index(v) for v in ranks], end=vals.index(t1)))
    TR.append(tr)


def subset(c):
    """Subset simulation of a coordinate of a uniform or a triangular variable on a box."""
    n, dim = c["n"], c["dim"]
    lo, wd = c["lo"], c["width"]
    box = [[lo] * dim, [lo + wd] * dim]
    vol = wd ** dim
    up = c["tail"] == "upper"
    tri = c["law"] == "triangular"

    def lpx(x):
        v = tonp(x)
        inside = ((v >= lo) & (v <= lo + wd)).all(axis=1)
        t = np.clip((v[:, 0] - lo) / wd, 1e-12, 1)
        d = 2 * t / vol if tri else np.full(len(v), 1 / vol)
        return arr(np.where(inside, np.log(d), -math.inf))
    g = lambda x: gnp.asarray(x)[:, 0]
    # thresholds at stated fractions of the box
    th = [-math.inf if up else math.inf] + [lo + wd * (q if up else 1 - q) for q in c["fracs"]]
    w = dict(case=c)
    o = quiet(run_subset_simulation, g, th, box, lpx, tail=c["tail"], n_particles=n, mh_steps=c["mh"], resample_scheme=c["scheme"])
    if not rec.true("subset simulation ends", not is_err(o), o, **w):
        return
    p, st, smc = o
    st = tonp(st).reshape(-1)
    x = tonp(smc.particles.x)
    rec.eq("one fraction per threshold", len(st), len(th) - 1, **w)
    rec.close("the estimate is the product of the fractions", float(p), float(np.prod(st)), rtol=1e-9, **w)
    alive = int((x[:, 0] > th[-1]).sum() if up else (x[:, 0] < th[-1]).sum())
    cnt = st * n
    if not tri:
        rec.true("fractions are counts of survivors", bool(np.allclose(cnt, np.round(cnt), atol=1e-6)), st.tolist(), **w)
    TR.append([dict(kind="subset", n=n, counts=[int(v) for v in np.round(cnt)][1 if tri else 0:], alive=alive,
                    sure=int(c["fracs"][-1] <= 0 and not tri))])
    F = lambda q: q * q if tri else q           # mass of the part of the box left out, from below
    tail = lambda q: 1.0 if q <= 0 else 1 - F(q) if up else F(1 - q)
    q0, qe = tail(c["fracs"][0]), tail(c["fracs"][-1])
    sd = math.sqrt(max(q0 * (2 - q0), 0.01) / n) * (2 if tri else 1)
    rec.true("the first fraction estimates its probability", abs(st[0] - q0) <= 7 * sd, [st[0], q0], **w)
    rec.true("the estimate is of the order of the probability", qe / 2.5 <= p <= 2.5 * qe, [float(p), qe], **w)


KIND = dict(choice=choice, jumps=jumps, whole=whole, staged=staged, subset=subset)
rec.each(rec.payload["cases"], lambda c: KIND[c["kind"]](c), limit=60)
rec.done()
