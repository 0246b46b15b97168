"""Samplers driven by a selection criterion."""
import contextlib
import io
import types
import warnings
import matplotlib
matplotlib.use("Agg")
from base import *
import gpmp as gp
from gpmp.mcmc import param_posterior as pp
from gpmp.mcmc.nuts import NUTSOptions
from gpmp.mcmc.svgd import SVGDOptions

warnings.simplefilter("ignore")
rec = Recorder()
TR = rec.extra["trace"] = []


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


def mh(crit, **k):
    n, b = k.pop("total", 12), k.pop("burnin", 4)
    return quiet(pp.sample_from_selection_criterion_mh, selection_criterion=crit, n_steps_total=n, burnin_period=b, silent=True,
                 show_progress=False, plot_chains=False, plot_empirical_distributions=False, **k)


def nuts(crit, **k):
    return quiet(pp.sample_from_selection_criterion_nuts, selection_criterion=crit, progress=False, verbose=0, **k)


def svgd(crit, **k):
    return quiet(pp.sample_from_selection_criterion_svgd, selection_criterion=crit, progress=False, verbose=0, **k)


# ---------------------------------------------------------------- initial states
def form(c):
    n, shape, k = c["n"], tuple(c["shape"]), c["i"]
    w = dict(n=n, shape=shape)
    at = np.array([10 * (i + 1) + j + 1 for i in range(shape[0]) for j in range(shape[1])] if len(shape) == 2 else
                  [10 + j + 1 for j in range(shape[0])] if shape else [11], float).reshape(shape)
    given = (float(at) if not shape else at.tolist(), arr(at))[k % 2]
    if not shape:
        given = (11.0, arr(11.0))[k % 2]
    pts = at.reshape(-1)

    def stuck(p):
        """A value only at the entries given: no chain can move."""
        v = tonp(p).reshape(-1)
        if any(np.abs(pts - u).min() > 1e-12 for u in v):
            return gnp.sum(p) * 0.0 + math.inf
        return gnp.sum(p) * 0.0
    refused = c["chains"] == []
    want = None if refused else np.array(c["chains"], float)
    npool = 2 if n % 2 == 0 else 1
    o = mh(stuck, param_initial_states=given, n_chains=n, n_pool=npool)
    p = nuts(stuck, param_initial_states=given, n_chains=n, num_samples=2, num_warmup=0, init_step_size=0.5)
    if refused:
        rec.true("initial states of another shape are refused", is_err(o) and is_err(p), [str(o)[:100], str(p)[:100]], **w)
    else:
        if rec.true("initial states are accepted", not is_err(o), o, **w):
            rec.close("chains start at the states given", tonp(o[1].x)[:, 0, :], want, rtol=0, atol=0, **w)
            rec.eq("one chain each", list(o[0].shape)[0], n, **w)
        if rec.true("initial states are accepted", not is_err(p), p, **w):
            rec.close("chains that cannot move stay at the states given", tonp(p[0]), np.repeat(want[:, None, :], 2, axis=1), rtol=0, atol=0, **w)
    if len(shape) < 2 or shape[1] >= 1:
        f = lambda p: gnp.sum(p * p)
        q = svgd(f, particles_initial=given, n_particles=n, n_steps=0, init_jitter=0.0)
        if rec.true("initial particles are accepted", not is_err(q), q, **w):
            rec.close("particles start where given", q[0], np.array(c["cloud"], float), rtol=0, atol=0, **w)
            rec.close("reported log-targets are minus the criterion", q[1]["log_prob_final"],
                      -(np.array(c["cloud"], float) ** 2).sum(axis=1), rtol=1e-12, **w)
    # at the parameters of an information object
    d = len(c["cloud"][0])
    x0 = np.arange(1, d + 1) * 1.5
    f = lambda p: gnp.sum((p - 1.0) ** 2)
    info = types.SimpleNamespace(covparam=arr(x0), selection_criterion=f)
    if k % 2:
        info.selection_criterion_nograd = f
    o = quiet(pp.sample_from_selection_criterion_mh, info, n_steps_total=3, burnin_period=0, n_chains=n, n_pool=npool, silent=True,
              show_progress=False, plot_chains=False, plot_empirical_distributions=False)
    if rec.true("parameters found before are a start", not is_err(o), o, **w):
        rec.close("chains start at the parameters found before", tonp(o[1].x)[:, 0, :], np.tile(x0, (n, 1)), rtol=0, atol=0, **w)
    q = quiet(pp.sample_from_selection_criterion_svgd, info, n_particles=n, n_steps=0, init_jitter=0.0, progress=False)
    if rec.true("parameters found before are a start", not is_err(q), q, **w):
        rec.close("particles start at the parameters found before", q[0], np.tile(x0, (n, 1)), rtol=0, atol=0, **w)
    with contextlib.redirect_stdout(io.StringIO()):
        o2 = attempt(pp.sample_from_selection_criterion_mh, info, n_steps_total=8, burnin_period=2, n_chains=n, n_pool=npool, silent=False,
                     show_progress=False, plot_chains=False, plot_empirical_distributions=False)
    rec.true("a run that reports on itself ends", not is_err(o2), o2, **w)
    # drawn in a box
    lo, hi = np.arange(d) * 10.0 - 3, np.arange(d) * 10.0 - 2
    for name, z in (("mh", mh(f, random_init=True, init_box=[lo.tolist(), hi.tolist()], n_chains=n, n_pool=npool)),
                    ("svgd", svgd(f, random_init=True, init_box=[lo.tolist(), hi.tolist()], n_particles=n, n_steps=0))):
        if rec.true("random starts are accepted", not is_err(z), z, sampler=name, **w):
            s = tonp(z[1].x)[:, 0, :] if name == "mh" else tonp(z[0])
            rec.true("random starts lie in the box", s.shape == (n, d) and bool(((s >= lo) & (s <= hi)).all()), s.tolist(), sampler=name, **w)
    flat = lambda p: gnp.sum(p) * 0.0
    z = nuts(flat, random_init=True, init_box=[lo.tolist(), hi.tolist()], n_chains=n, num_samples=1, num_warmup=0, init_step_size=1e-9, max_depth=1)
    if rec.true("random starts are accepted", not is_err(z), z, sampler="nuts", **w):
        s = tonp(z[0])[:, 0, :]
        rec.true("random starts lie in the box", s.shape == (n, d) and bool(((s >= lo - 1e-6) & (s <= hi + 1e-6)).all()), s.tolist(), sampler="nuts", **w)
        rec.true("random starts differ", len({tuple(v) for v in s.round(12).tolist()}) == n, s.tolist(), sampler="nuts", **w)
    for name, kw in (("info", {}), ("vector", dict(particles_initial=arr(x0))), ("row", dict(particles_initial=arr(x0.reshape(1, -1))))):
        q = quiet(pp.sample_from_selection_criterion_svgd, info, n_particles=n, n_steps=0, init_jitter=1e-3, progress=False, **kw)
        if rec.true("a jittered start is accepted", not is_err(q), q, start=name, **w):
            s = tonp(q[0]) - x0
            rec.true("particles start close to one another, apart", s.shape == (n, d) and bool((np.abs(s) < 8e-3).all())
                     and len({tuple(v) for v in s.tolist()}) == n, s.tolist(), start=name, **w)
    bad = [[0.0] * (d + 1), [1.0] * (d + 1)]
    for name, z in (("mh", mh(f, random_init=True, init_box=None, param_initial_states=arr(x0), n_chains=n, n_pool=npool)),
                    ("mh", mh(f, param_initial_states=arr(x0), sampling_box=bad, n_chains=n, n_pool=npool)),
                    ("nuts", nuts(f, param_initial_states=arr(x0), sampling_box=bad, n_chains=n, num_samples=1, num_warmup=0)),
                    ("svgd", svgd(f, particles_initial=arr(x0), sampling_box=bad, n_particles=n, n_steps=1)),
                    ("none", mh(None, param_initial_states=arr(x0), n_chains=n)),
                    ("mh", mh(f, param_initial_states=arr(x0), n_chains=n, n_pool=npool, temperature=0.0)),
                    ("mh", mh(f, param_initial_states=arr(x0), n_chains=n, n_pool=npool, total=3, burnin=4))):
        rec.true("impossible requests are refused", is_err(z), z if is_err(z) else "accepted", sampler=name, **w)


# ---------------------------------------------------------------- targets
def cells(c, dim, shift=0.0):
    """The criterion of a table of cells; outside the table it fails."""
    T = c["table"]
    side = len(T)

    def value(v):
        i = [int(math.floor(u)) for u in v]
        if any(q < 0 or q >= side for q in i):
            return -3
        return T[i[0]][i[1] if dim == 2 else 0]

    def crit(p):
        v = tonp(p).reshape(-1)
        q = value(v)
        if q == -3:
            raise FloatingPointError("criterion failed")
        if q < 0:
            return gnp.sum(p) * 0.0 + (math.inf if q == -1 else math.nan)
        return gnp.sum(p) * 0.0 + float(q) + shift
    return crit, value


def note(c, x, lp, value, box, temp, w, shift=0.0):
    """Record samples for the specification to judge."""
    tr = []
    for v, l in zip(x.reshape(-1, x.shape[-1]), lp.reshape(-1)):
        q = 4 * (float(l) + shift / temp)
        if not rec.true("the log-target is minus the criterion", math.isfinite(q) and abs(q - round(q)) < 1e-7, [v.tolist(), float(l)], **w):
            return
        tr.append(dict(value=int(value(v)), inbox=int(box is None or all(box[0] <= u <= box[1] for u in v)), temp=temp, reported=int(round(q))))
    uniq = [dict(t) for t in {tuple(sorted(t.items())) for t in tr}]
    TR.append(uniq)
    rec.extra["recorded"] = rec.extra.get("recorded", 0) + len(tr)


def table(c):
    k, dim = c["i"], 1 + c["i"] % 2
    opened = [tuple(t) for t in c["open"]]
    if dim == 1:
        col = [r[0] for r in c["table"]]
        opened = [(i, 0) for i in range(len(col)) if col[i] >= 0 and (not c["box"] or (2 * i < c["box"][1] and 2 * (i + 1) > c["box"][0]))]
    if not opened:
        return
    g = np.random.default_rng(rec.seed * 1009 + k)
    box = [v / 2 for v in c["box"]] if c["box"] else None
    form = None if box is None else (box, [[box[0]] * dim, [box[1]] * dim])[k % 2]
    shift = float(g.choice([0.0, 0.0, 3000.0, -3000.0]))          # of the whole criterion
    crit, value = cells(c, dim, shift)
    lo = -0.0 if box is None else box[0]
    hi = float(len(c["table"])) if box is None else box[1]

    def start():
        i = opened[int(g.integers(len(opened)))][:dim]
        return [float(g.uniform(max(u, lo), min(u + 1, hi))) for u in i]
    w = dict(case=dict(table=c["table"], box=c["box"], temp=c["temp"], dim=dim, shift=shift))
    x0 = np.array([start() for _ in range(2)])
    b = int(g.integers(0, 30))
    o = mh(crit, param_initial_states=arr(x0), n_chains=2, sampling_box=form, temperature=float(c["temp"]), total=60, burnin=b)
    if rec.true("the sampler runs", not is_err(o), o, sampler="mh", **w):
        x = tonp(o[0])
        rec.eq("the samples after the burn-in are returned", list(x.shape), [2, 60 - b, dim], **w)
        lp = tonp(pp.get_log_target_values(o[1], discard_burnin=True))[:, :x.shape[1]]
        note(c, x, lp, value, box, c["temp"], dict(w, sampler="mh"), shift)
        full = tonp(pp.get_log_target_values(o[1]))[:, :60]
        for lost in (-1, full.shape[1] + 5):
            rec.raises("values after an impossible burn-in are refused", attempt(pp.get_log_target_values, types.SimpleNamespace(
                log_target_values=o[1].log_target_values, burnin_period=lost), discard_burnin=True), **w)
        rec.raises("values of no run are refused", attempt(pp.get_log_target_values, types.SimpleNamespace(log_target_values=None, burnin_period=0)), **w)
        note(c, tonp(o[1].x)[:, :full.shape[1]], full, value, box, c["temp"], dict(w, sampler="mh"), shift)
    if k % 3 == 0:
        o = nuts(crit, param_initial_states=arr(x0), n_chains=2, sampling_box=form, num_samples=15, num_warmup=5, init_step_size=0.3,
                 max_depth=3, seed=int(g.integers(10**6)))
        if rec.true("the sampler runs", not is_err(o), o, sampler="nuts", **w):
            x = tonp(o[0])
            rec.eq("one row of samples per chain", list(x.shape), [2, 15, dim], **w)
            note(c, x, tonp(o[1]["log_prob_trace"]).T, value, box, 1, dict(w, sampler="nuts"), shift)
    if k % 3 == 1:
        part = arr(np.array([start() for _ in range(4)]))
        box2 = form
        opt = None
        if k % 2:
            opt = SVGDOptions(n_steps=4, step_size=2.0, progress=False, initial_temperature=2.0)
        o = svgd(crit, particles_initial=part, n_particles=4, sampling_box=box2, n_steps=4, step_size=2.0, initial_temperature=2.0, options=opt)
        if rec.true("the sampler runs", not is_err(o), o, sampler="svgd", **w):
            x, lp = tonp(o[0]), tonp(o[1]["log_prob_final"]).reshape(-1)
            if box is not None:
                rec.true("samples lie in the box", bool(((x >= box[0]) & (x <= box[1])).all()), x.tolist(), sampler="svgd", **w)
            on = np.isfinite(lp)
            want = np.array([value(v) >= 0 and (box is None or all(box[0] <= u <= box[1] for u in v)) for v in x])
            rec.eq("particles without density are known", on.tolist(), want.tolist(), sampler="svgd", **w)
            if on.any():
                note(c, x[on], lp[on], value, box, 1, dict(w, sampler="svgd"), shift)
    if k % 6 == 2 and (box is None or len(opened) >= 2):
        area = sum((min(i[0] + 1, hi) - max(i[0], lo)) * (1 if dim == 1 else min(i[1] + 1, hi) - max(i[1], lo)) for i in opened) / len(c["table"]) ** dim
        if area < 0.2:
            return
        full = [[0.0] * dim, [float(len(c["table"]))] * dim]
        o = quiet(pp.sample_from_selection_criterion_smc, selection_criterion=crit, init_box=full, sampling_box=form, n_particles=40, mh_steps=2,
                  final_temperature=float(c["temp"]))
        if rec.true("the sampler runs", not is_err(o), o, sampler="smc", **w):
            note(c, tonp(o[0]), tonp(o[1].particles.logpx), value, box, c["temp"], dict(w, sampler="smc"), shift)


def scalar_box(c):
    """Boxes with the same bounds in every direction, for a known number of parameters."""
    d, k = c["dim"], c["i"]
    f = lambda p: gnp.sum((p - 0.4) ** 2) * 3.0
    info = types.SimpleNamespace(covparam=arr([0.5] * d), selection_criterion=f, selection_criterion_nograd=f)
    box = ([0.0, 1.0], ([0.0], [1.0]), [arr([0.0] * d), arr([1.0] * d)], [0.0, [1.0] * d], [[0.0] * d, 1.0])[k % 5]
    w = dict(box=str(box), dim=d)
    if k % 3 != 1:
        o = quiet(pp.sample_from_selection_criterion_smc, info, init_box=box, sampling_box=box, n_particles=30, mh_steps=2)
        if rec.true("the sampler runs", not is_err(o), o, sampler="smc", **w):
            x = tonp(o[0])
            rec.true("samples lie in the box", x.shape == (30, d) and bool(((x >= 0) & (x <= 1)).all()), x.tolist(), sampler="smc", **w)
            rec.close("the log-target is minus the criterion", o[1].particles.logpx, -3 * ((x - 0.4) ** 2).sum(axis=1), rtol=1e-9, **w)
    o = quiet(pp.sample_from_selection_criterion_mh, info, sampling_box=box, random_init=bool(k % 2), init_box=box, n_steps_total=60, burnin_period=10,
              n_chains=2, silent=True, show_progress=False, plot_chains=False, plot_empirical_distributions=False)
    if rec.true("the sampler runs", not is_err(o), o, sampler="mh", **w):
        x = tonp(o[0])
        rec.true("samples lie in the box", bool(((x >= 0) & (x <= 1)).all()), None, sampler="mh", **w)
    o = quiet(pp.sample_from_selection_criterion_nuts, info, sampling_box=box, num_samples=20, num_warmup=10, n_chains=2, init_step_size=0.5,
              max_depth=4, progress=False, verbose=0, seed=k)
    if rec.true("the sampler runs", not is_err(o), o, sampler="nuts", **w):
        x = tonp(o[0])
        rec.true("samples lie in the box", x.shape == (2, 20, d) and bool(((x >= 0) & (x <= 1)).all()), None, sampler="nuts", **w)
        rec.close("the log-target is minus the criterion", tonp(o[1]["log_prob_trace"]).T, -3 * ((x - 0.4) ** 2).sum(axis=2), rtol=1e-9, **w)
        again = quiet(pp.sample_from_selection_criterion_nuts, info, sampling_box=box, num_samples=20, num_warmup=10, n_chains=2, init_step_size=0.5,
                      max_depth=4, progress=False, verbose=0, seed=k)
        rec.close("a seed fixes the samples", again[0], x, rtol=0, atol=0, **w)
    o = quiet(pp.sample_from_selection_criterion_svgd, info, sampling_box=box, random_init=bool(k % 2), init_box=box, n_particles=4, n_steps=5,
              step_size=3.0, progress=False)
    if rec.true("the sampler runs", not is_err(o), o, sampler="svgd", **w):
        x = tonp(o[0])
        rec.true("samples lie in the box", x.shape == (4, d) and bool(((x >= 0) & (x <= 1)).all()), x.tolist(), sampler="svgd", **w)


def model(c):
    """The criterion of a model, as selection leaves it."""
    g = np.random.default_rng(c["i"])
    n = 8
    x = g.uniform(size=(n, 1))
    z = np.sin(5 * x[:, 0])
    m = gp.core.Model(lambda x, p: gnp.ones((x.shape[0], 1)), lambda a, b, p, pairwise=False: gp.kernel.maternp_covariance(a, b, 2, p, pairwise))
    o = quiet(gp.kernel.select_parameters_with_reml, m, arr(x), arr(z), info=True)
    if is_err(o):
        return
    m, info = o
    p0 = tonp(info.covparam)
    box = [(p0 - 1).tolist(), (p0 + 1).tolist()]
    for name, q in (("mh", quiet(pp.sample_from_selection_criterion_mh, info, sampling_box=box, n_steps_total=40, burnin_period=5, n_chains=2, silent=True,
                                 show_progress=False, plot_chains=False, plot_empirical_distributions=False)),
                    ("nuts", quiet(pp.sample_from_selection_criterion_nuts, info, sampling_box=box, num_samples=5, num_warmup=2, n_chains=2,
                                   init_step_size=0.1, max_depth=2, progress=False, verbose=0)),
                    ("svgd", quiet(pp.sample_from_selection_criterion_svgd, info, sampling_box=box, n_particles=3, n_steps=3, progress=False)),
                    ("smc", quiet(pp.sample_from_selection_criterion_smc, info, init_box=box, sampling_box=box, n_particles=30, mh_steps=2))):
        w = dict(sampler=name, i=c["i"])
        if not rec.true("the sampler runs", not is_err(q), q, **w):
            continue
        s = tonp(q[0])
        lp = dict(mh=lambda: tonp(pp.get_log_target_values(q[1], discard_burnin=True))[:, :s.shape[1]],
                  nuts=lambda: tonp(q[1]["log_prob_trace"]).T, svgd=lambda: tonp(q[1]["log_prob_final"]),
                  smc=lambda: tonp(q[1].particles.logpx))[name]().reshape(-1)
        s = s.reshape(-1, s.shape[-1])
        rec.true("samples lie in the box", bool(((s >= p0 - 1 - 1e-12) & (s <= p0 + 1 + 1e-12)).all()), None, **w)
        want = np.array([-float(tonp(m.negative_log_restricted_likelihood(arr(v), arr(x), arr(z)))) for v in s])
        rec.close("the log-target is minus the criterion of the model", lp, want, rtol=1e-7, atol=1e-7, **w)


KIND = dict(form=form, map=table, scalar=scalar_box, model=model)
rec.each(rec.payload["cases"], lambda c: KIND[c["kind"]](c), limit=60)
rec.done()
