"""Plots of sampler runs: what is drawn, against what was recorded."""
import io
import tempfile
import warnings
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from scipy.stats import gaussian_kde
from base import *
from gpmp.mcmc import param_posterior as pp
from gpmp.mcmc.mh import MetropolisHastings, MHOptions
from gpmp.mcmc.nuts import plot_nuts_diagnostics
from gpmp.mcmc.svgd import plot_svgd_empirical_distributions, plot_svgd_particles

warnings.simplefilter("ignore")
rec = Recorder()
TR = rec.extra["trace"] = []


def draw(f, *a, **k):
    """Figures drawn by a call that changes none of the arrays watched."""
    plt.close("all")
    with contextlib.redirect_stdout(io.StringIO()):
        r = attempt(f, *a, **k)
    return r, [plt.figure(n) for n in plt.get_fignums()]


class Table:
    """Numbers as positions; undefined and missing ones are 0."""

    def __init__(self):
        self.at = {}

    def __call__(self, v):
        v = math.nan if v is None else float(v)
        return 0 if math.isnan(v) else self.at.setdefault(v, len(self.at) + 1)

    def all(self, s):
        return [self(v) for v in np.asarray(s, dtype=float).reshape(-1)]


def split(ax):
    """Curves, and positions of lines across the panel."""
    marks, curves = [], []
    for l in ax.get_lines():
        (curves if l.get_transform().contains_branch_seperately(ax.transData)[1] else marks).append(l)
    return curves, [float(l.get_xdata()[0]) for l in marks]


def whole(v, what, **w):
    """A number that has to be whole, as an integer."""
    v = float(v)
    ok = math.isfinite(v) and abs(v - round(v)) < 1e-6 * max(1.0, abs(v))
    rec.true(what, ok, v, **w)
    return int(round(v)) if ok else -999999


def bars(ax):
    """Filled histograms of a panel as (edges, heights)."""
    out = []
    for c in ax.containers:
        r = sorted(c.patches, key=lambda q: q.get_x())
        out.append(([q.get_x() for q in r] + [r[-1].get_x() + r[-1].get_width()], [q.get_height() for q in r]))
    return out


def outline(p):
    """Edges and heights of an outlined histogram, vertex by vertex."""
    xy = np.asarray(p.get_xy())
    x, y = xy[:, 0], xy[:, 1]
    keep = [k for k in range(len(x) - 1) if x[k + 1] > x[k] and y[k] == y[k + 1]]
    return [x[k] for k in keep] + [x[keep[-1] + 1]], [y[k] for k in keep]


def hist(edges, heights, values, keep, bins, **w):
    """One recorded histogram (values whole)."""
    n = sum(keep)
    e = [whole(v * 2 * bins, "edges of bins are where they can be", **w) for v in edges]
    c = [whole(h * n * (b - a), "bars count values", **w) for h, a, b in zip(heights, edges, edges[1:])]
    TR.append([dict(kind="hist", values=[int(v) for v in values], keep=keep, bins=bins, edges=e, counts=c)])


def density(line, vals, **w):
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    rec.close("the smooth curve is a density estimate of the values", y, gaussian_kde(vals, bw_method="scott")(x), rtol=1e-6, atol=1e-12, **w)
    rec.true("the smooth curve covers the values", x.min() <= vals.min() and x.max() >= vals.max() and (np.diff(x) > 0).all(), [x.min(), x.max()], **w)


# ---------------------------------------------------------------- chains
def chains(c):
    g = np.random.default_rng(c["seed"])
    d, n, burn, total = c["dim"], c["chains"], c["burn"], c["total"]
    mh = MetropolisHastings(log_target=lambda z: -0.5 * float(gnp.sum(z * z)), options=MHOptions(dim=d, n_chains=n))
    with contextlib.redirect_stdout(io.StringIO()):
        r = attempt(mh.scheduler, arr(g.normal(size=(n, d))), total, burn)
    if is_err(r):
        return rec.bad("a run ends", "samples", r, case=c)
    before = tonp(mh.x).copy()
    x = before[:, :-1]                                                  # up to the current iteration, which is left out as in all diagnostics
    T = Table()
    params = c["params"] or list(range(d))
    kw = dict(parameter_indices=c["params"]) if c["params"] else {}
    at = burn
    if c["other"] is not None:
        at = kw["burnin"] = c["other"]
    r, figs = draw(mh.plot_chains, show_rate=c["rate"], **kw)
    if rec.true("traces are drawn", not is_err(r) and len(figs) == 1, r, case=c):
        axes = []
        for ax in figs[0].axes:
            curves, marks = split(ax)
            for l in curves:
                rec.close("iterations count from zero", l.get_xdata(), np.arange(len(l.get_xdata())), 0, 0, case=c)
            axes.append(dict(curves=[T.all(tonp(l.get_ydata())) for l in curves], marks=[whole(m, "marks are at iterations", case=c) for m in marks]))
        TR.append([dict(kind="chains", x=[[T.all(x[k, :, j]) for j in range(d)] for k in range(n)], burn=at, params=[p + 1 for p in params],
                        rates=[[T.all(v) for v in tonp(mh.rates)[:, :x.shape[1]]]] if c["rate"] else [], axes=axes)])
    rec.true("drawing changes no recorded state", np.array_equal(tonp(mh.x), before), None, case=c)
    # histograms of whole states
    states = g.integers(-c["spread"], c["spread"] + 1, size=x.shape).astype(float)
    mh.x[:, :-1] = arr(states)
    bins = c["bins"]
    r, figs = draw(mh.plot_empirical_distributions, bins=bins, smooth=False, **kw)
    if rec.true("histograms are drawn", not is_err(r) and len(figs) == 1, r, case=c):
        if rec.eq("one panel per parameter asked for", len(figs[0].axes), len(params), case=c):
            for ax, j in zip(figs[0].axes, params):
                got = [outline(p) for p in ax.patches]
                if rec.eq("one histogram per chain", len(got), n, case=c):
                    for k, (e, h) in enumerate(got):
                        v = states[k, :, j]
                        keep = [int(t >= at) for t in range(len(v))]
                        if rec.eq("bins asked for", len(e) - 1, bins, case=c):
                            hist(e, h, v, keep, bins, case=c)
                rec.true("panels are named after the parameter", str(j + 1) in ax.get_xlabel(), ax.get_xlabel(), case=c)
    if all(np.ptp(states[k, at:, j]) > 0 for k in range(n) for j in params):
        r, figs = draw(mh.plot_empirical_distributions, **kw)
        if rec.true("densities are drawn", not is_err(r) and len(figs) == 1, r, case=c):
            for ax, j in zip(figs[0].axes, params):
                if rec.eq("one curve per chain", len(ax.get_lines()), n, case=c):
                    for k, l in enumerate(ax.get_lines()):
                        density(l, states[k, at:, j], case=c)


# ---------------------------------------------------------------- NUTS statistics
def nuts(c):
    g = np.random.default_rng(c["seed"])
    nw, ns, k, win = c["warm"], c["samples"], c["chains"], c["window"]
    stat = lambda n: g.integers(0, 9, size=(n, k) if k else n)          # noqa: E731
    acc = dict(warm=stat(nw), samp=stat(ns))
    div = dict(warm=stat(nw) > 5, samp=stat(ns) > 5)
    eps = g.integers(1, 100, size=nw)
    info = dict(warmup_step_size=arr(eps / 8), warmup_accept_stat=arr(acc["warm"] / 8), warmup_divergent=gnp.asarray(div["warm"]),
                accept_stat=arr(acc["samp"] / 8), divergent=gnp.asarray(div["samp"]))
    before = {q: tonp(v).copy() for q, v in info.items()}
    with tempfile.TemporaryDirectory() as tmp:
        save = os.path.join(tmp, "new", "plots") if c["save"] else None
        r, figs = draw(plot_nuts_diagnostics, info, window=win, show=bool(c["save"]), save_dir=save)
        if not rec.true("diagnostics are drawn", not is_err(r) and len(r) == 5, r, case=c):
            return
        if save:
            names = sorted(os.listdir(save)) if os.path.isdir(save) else []
            rec.true("one picture per figure is saved where asked", len(names) == 5 and all(os.path.getsize(os.path.join(save, q)) for q in names), names, case=c)
        else:
            rec.eq("nothing is saved unless asked", os.listdir(tmp), [], case=c)
    for q, v in info.items():
        rec.true("drawing changes no recorded statistic", np.array_equal(tonp(v), before[q]), q, case=c)
    m = k or 1
    one = lambda a: (a.sum(axis=1) if k else a).astype(int).tolist()      # noqa: E731  (times the number of chains)
    wants = [(8 * 1, eps.tolist(), 0), (8 * m, one(acc["warm"]), win), (m, one(div["warm"].astype(int)), 0), (8 * m, one(acc["samp"]), win),
             (m, one(div["samp"].astype(int)), 0)]
    for fig, (unit, y, w) in zip(r, wants):
        ls = fig.axes[0].get_lines()
        raw = [whole(v * unit, "statistics are drawn as recorded", case=c) for v in tonp(ls[0].get_ydata())]
        rec.close("iterations count from zero", ls[0].get_xdata(), np.arange(len(raw)), 0, 0, case=c)
        smooth = []
        for l in ls[1:]:
            smooth += [[whole(a, "averages are at iterations", case=c), whole(b * unit * w, "averages are means", case=c)]
                       for a, b in zip(l.get_xdata(), tonp(l.get_ydata()))]
        TR.append([dict(kind="average", y=y, window=max(w, 1), raw=raw, smooth=smooth)])


# ---------------------------------------------------------------- particles
def cloud(c):
    """Marginals of particle clouds, whole coordinates, some without density."""
    g = np.random.default_rng(c["seed"])
    n, d, bins = c["n"], c["dim"], c["bins"]
    x = g.integers(-c["spread"], c["spread"] + 1, size=(n, d)).astype(float)
    if c["same"]:
        x[:, 0] = 3.0
    lp = g.normal(size=n)
    if c["dead"] and n > 1:
        for k, bad in zip(range(n - 1), (math.nan, -math.inf, math.inf)):
            lp[k] = bad
    keep = np.isfinite(lp).astype(int).tolist() if c["dead"] else [1] * n
    given = dict(particles_final=arr(x), log_prob_final=arr(lp)) if c["dead"] else (arr(x), x)[c["seed"] % 2]
    one, pool = c["one"], c["pool"]
    r, figs = draw(plot_svgd_empirical_distributions, given, one, pool, bins=bins)
    if not rec.true("marginals are drawn", not is_err(r), r, case=c):
        return
    rec.true("figures asked for are returned, others are not", (r["individual"] is None) == (one is None) and (r["pooled"] is None) == (pool is None), str(r), case=c)
    panels = []
    if one is not None:
        if rec.eq("one panel per parameter", len(r["individual"].axes), len(one), case=c):
            panels += [(ax, [j]) for ax, j in zip(r["individual"].axes, one)]
    if pool is not None:
        panels.append((r["pooled"].axes[0], pool))
    kept = x[np.array(keep) == 1]
    for ax, js in panels:
        got = bars(ax)
        if rec.eq("one histogram per parameter", len(got), len(js), case=c):
            for (e, h), j in zip(got, js):
                hist(e, h, x[:, j], keep, bins, case=c)
        smooth = [j for j in js if len(kept) > 1 and np.ptp(kept[:, j]) > 0]
        if rec.eq("one curve per parameter that varies", len(ax.get_lines()), len(smooth), case=c):
            for l, j in zip(ax.get_lines(), smooth):
                density(l, kept[:, j], case=c)
        names = [t.get_text() for t in ax.get_legend().get_texts()]
        rec.true("marginals are named after their parameters", len(names) == len(js) and all(str(j + 1) in t for j, t in zip(js, names)), names, case=c)
    rec.raises("an index beyond the parameters is refused", attempt(plot_svgd_empirical_distributions, given, [d], None), case=c)
    rec.raises("an index beyond the parameters is refused", attempt(plot_svgd_empirical_distributions, given, None, [0, -1]), case=c)
    if c["dead"]:
        rec.raises("a cloud without density is refused", attempt(plot_svgd_empirical_distributions, dict(given, log_prob_final=arr([math.nan] * n)), [0]), case=c)
    if d == 2:
        f = lambda q: float(q[0] + 10 * q[1])      # noqa: E731
        r, figs = draw(plot_svgd_particles, arr(x), title="a title", objective=f if c["seed"] % 2 else None, grid_n=7)
        if rec.true("particles are drawn", not is_err(r), r, case=c):
            pts = [np.asarray(q.get_offsets()) for q in r.axes[0].collections if len(q.get_offsets())]
            rec.true("every particle is drawn where it is", any(p.shape == x.shape and np.allclose(p, x, atol=1e-12) for p in pts), len(pts), case=c)


# ---------------------------------------------------------------- stages
def stages(c):
    g = np.random.default_rng(c["seed"])
    f = lambda p: gnp.sum((p - 0.4) ** 2) * c["sharp"]      # noqa: E731
    with contextlib.redirect_stdout(io.StringIO()):
        o = attempt(pp.sample_from_selection_criterion_smc, selection_criterion=f, init_box=[[0.0] * c["dim"], [1.0] * c["dim"]], n_particles=c["n"], mh_steps=3)
    if is_err(o):
        return rec.bad("a run ends", "particles", o, case=c)
    smc = o[1]
    if c["bare"]:                                                       # entries without moves
        smc.log.insert(0, dict(smc.log[0], acceptation_rate_sequence=[]))
        smc.log.append(dict(smc.log[-1], acceptation_rate_sequence=[]))
    T = Table()
    r, figs = draw(smc.plot_state)
    if rec.true("the course of the run is drawn", not is_err(r) and len(figs) == 1, r, case=c):
        shown, marks = {}, []
        for ax in figs[0].axes:
            curves, m = split(ax)
            marks += m
            for l in curves:
                shown[l.get_label().lower()] = ([float(v) for v in l.get_xdata()], T.all(l.get_ydata()))
        pick = lambda s: next((v for q, v in shown.items() if s in q), ([], []))      # noqa: E731
        st = lambda s: [[whole(a, "stairs are at whole times", case=c), b] for a, b in zip(*pick(s))]      # noqa: E731
        zero = T(0.0)
        ids = lambda v: 0 if v == zero else v                           # noqa: E731   (a stage without moves shows the rate 0)
        log = [dict(stage=int(e["stage"]), target=T(e["target_logpdf_param"]), current=T(e["current_logpdf_param"]), ess=T(e["ess"]),
                    rates=[ids(T(v)) for v in e["acceptation_rate_sequence"]]) for e in smc.log]
        TR.append([dict(kind="state", log=log, target=st("target"), current=st("current"), ess=st("ess"),
                        shownrates=[ids(v) for v in pick("rate")[1]], marks=[whole(m, "marks are at whole times", case=c) for m in marks])])
        rec.extra["stages"] = rec.extra.get("stages", 0) + len({e["stage"] for e in smc.log})
    x = g.integers(-c["spread"], c["spread"] + 1, size=(c["n"], c["dim"])).astype(float)
    x[0], x[1] = -c["spread"], c["spread"]
    smc.particles.x[...] = arr(x)
    one, pool = list(range(c["dim"]))[::-1], list(range(c["dim"]))
    for kw, js in ((dict(parameter_indices=one), one), (dict(parameter_indices_pooled=pool), pool)):
        r, figs = draw(smc.plot_empirical_distributions, bins=8, **kw)
        if rec.true("marginals are drawn", not is_err(r) and len(figs) == 1, r, case=c):
            got = [b for ax in figs[0].axes for b in bars(ax)]
            ls = [l for ax in figs[0].axes for l in ax.get_lines()]
            if rec.true("one histogram and curve per parameter", len(got) == len(ls) == len(js), [len(got), len(ls)], case=c):
                for (e, h), l, j in zip(got, ls, js):
                    hist(e, h, x[:, j], [1] * c["n"], 8, case=c)
                    density(l, x[:, j], case=c)


KIND = dict(chains=chains, nuts=nuts, cloud=cloud, stages=stages)
rec.each(rec.payload["cases"], lambda c: KIND[c["kind"]](c))
rec.done()
