"""What plots show, read off the drawn curves."""
import contextlib
import io
from types import SimpleNamespace
from base import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.collections import LineCollection, PolyCollection
from matplotlib.patches import Polygon
import gpmp.plot as gplot
import gpmp.modeldiagnosis as md
from scipy.stats import norm

rec = Recorder()
PTS = 5


def figures():
    return [plt.figure(n) for n in plt.get_fignums()]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


def curve(line):
    x, y = np.asarray(line.get_xdata(orig=True), float), np.asarray(line.get_ydata(orig=True), float)
    return x, y


def curves(ax, least=3):
    return [curve(l) for l in ax.get_lines() if len(l.get_xdata()) >= least]


def verticals(ax):
    out = []
    for l in ax.get_lines():
        x = np.asarray(l.get_xdata(orig=True), float)
        if len(x) == 2 and x[0] == x[1]:
            out.append(float(x[0]))
    return out


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def crit(p):
    p = tonp(p).astype(float)
    v = sum((j + 2) * t * t for j, t in enumerate(p))
    return float(v + (p[0] * p[1] if len(p) > 1 else 0.0))


def criterion(c):
    g = np.random.default_rng(c["seed"])
    ref = np.array(c["ref"][0], float)
    d = len(ref)
    w = dict(case=c)
    idx = [p["coord"] - 1 for p in c["panels"]]
    box = np.array(c["box"], float).T
    ncrit = int(g.integers(1, 3))
    fs = [lambda p, t=t: crit(p) + 7.0 * t for t in range(ncrit)]
    kw = dict(n_points=PTS)
    if ncrit == 1 and g.integers(0, 2):
        kw["selection_criterion"] = fs[0]
    elif ncrit == 1:
        kw["info"] = SimpleNamespace(selection_criterion_nograd=fs[0], covparam=arr(ref))
    else:
        kw["selection_criteria"] = fs
        kw["criterion_names"] = [f"c{t}" for t in range(ncrit)]
    refin = arr(ref)
    if "info" not in kw:
        kw["covparam"] = refin
    elif g.integers(0, 2):                          # an explicit reference takes precedence
        kw["info"].covparam = arr(ref + 100.0)
        kw["covparam"] = refin
    names = [f"name{j}" for j in range(d)]
    if g.integers(0, 2):
        kw["param_names"] = names
    boxed = bool(g.integers(0, 2))
    pooled = bool(g.integers(0, 3) == 0)
    kw["ind_pooled" if pooled else "ind"] = idx
    if not pooled and idx == list(range(d)) and g.integers(0, 2):
        del kw["ind"]
    delta = 5.0
    if boxed:
        kw["param_box_pooled" if pooled else "param_box"] = box
    elif g.integers(0, 2):
        kw["delta"] = delta = 2.5
    w.update(pooled=pooled, boxed=boxed, delta=delta, ncrit=ncrit, ind=idx)
    o = quiet(md.plot_selection_criterion_crosssections, **kw)
    if not rec.true("a figure is drawn", not is_err(o), o, **w):
        return
    axes = [a for f in figures() for a in f.axes]
    rec.eq("number of panels", len(axes), 1 if pooled else len(idx), **w)
    for q, p in enumerate(c["panels"]):
        if q >= len(axes) and not pooled:
            return
        ax = axes[0] if pooled else axes[q]
        j = p["coord"] - 1
        if boxed:
            xs, ys = [rat(t[0]) for t in p["curve"]], [rat(t[1]) for t in p["curve"]]
        else:
            xs = np.linspace(ref[j] - delta, ref[j] + delta, PTS).tolist()
            ys = [crit(np.array([*ref[:j], x, *ref[j + 1:]])) for x in xs]
        got = curves(ax)
        got = got[q * ncrit:(q + 1) * ncrit] if pooled else got
        rec.eq("one curve per criterion", len(got), ncrit, panel=q, **w)
        for t, (x, y) in enumerate(got):
            rec.true("a curve sweeps its own parameter through its own interval", near(x, xs), [x.tolist(), xs], panel=q, **w)
            rec.true("a curve shows the criterion with the other parameters at the reference", near(y, np.array(ys) + 7.0 * t), [y.tolist(), ys], panel=q, **w)
        rec.true("the reference is marked", any(abs(v - ref[j]) < 1e-9 for v in verticals(ax)), [verticals(ax), ref[j]], panel=q, **w)
        if not pooled and "param_names" in kw:
            rec.true("panels are titled by their parameter", names[j] in ax.get_title(), [ax.get_title(), names[j]], panel=q, **w)
    rec.eq("the reference is left alone", tolist(refin), ref.tolist(), **w)


class Stub:
    """Predicts by the criterion and remembers what it was asked."""

    def __init__(self):
        self.asked = []

    def predict(self, xi, zi, xt, *a, **k):
        x = tonp(xt)
        self.asked.append(x.copy())
        return np.array([crit(r) for r in x]), np.array([1.0 + abs(r).sum() for r in x])


def bands(ax):
    """Outlines of the filled regions."""
    out = [p.get_xy() for p in ax.patches if isinstance(p, Polygon)]
    for col in ax.collections:
        if isinstance(col, PolyCollection):
            out += [p.vertices for p in col.get_paths()]
    return out


def envelope(xy, x):
    """Lowest and highest outline vertex at each of the abscissas."""
    lo, hi = [], []
    for t in x:
        v = xy[np.abs(xy[:, 0] - t) < 1e-12 * (1 + abs(t))][:, 1]
        lo.append(v.min() if len(v) else np.nan)
        hi.append(v.max() if len(v) else np.nan)
    return np.array(lo), np.array(hi)


def check_bands(ax, x, mean, var, levels, **w):
    got = bands(ax)
    rec.eq("one band per level", len(got), len(levels), **w)
    want = sorted((norm.ppf((1 + l) / 2) for l in levels), reverse=True)
    env = sorted((envelope(b, x) for b in got), key=lambda e: -float(np.nansum(e[1] - e[0])))
    for q, (lo, hi) in zip(want, env):
        rec.true("bands cover the stated probability", near(lo, mean - q * np.sqrt(var), 1e-8) and near(hi, mean + q * np.sqrt(var), 1e-8), [lo.tolist(), hi.tolist(), (mean - q * np.sqrt(var)).tolist()], **w)


def prediction(c):
    g = np.random.default_rng(c["seed"])
    xi = np.array(c["ref"], float)
    n, d = xi.shape
    z = g.permutation(n) - float(g.choice([0.0, n // 2, 10.0 * n]))
    w = dict(case=c)
    # a figure shows every pair of an anchor and a swept coordinate
    anchors = list(dict.fromkeys(p["anchor"] - 1 for p in c["panels"]))
    dims = list(dict.fromkeys(p["coord"] - 1 for p in c["panels"]))
    box = np.array(c["box"], float).T
    m = Stub()
    kw = dict(nt=PTS + 1, ind_i=anchors, ind_dim=dims)
    how = g.integers(0, 4)
    if how == 1:
        kw["ind_i"] = anchors = [anchors[0]]
        kw["ind_i"] = anchors[0]
    elif how == 2:
        anchors = [int(z.argmin())]
        kw["ind_i"] = "min" if g.integers(0, 2) else None
    elif how == 3:
        anchors = [int(z.argmax())]
        kw["ind_i"] = "max"
    if len(dims) == 1 and g.integers(0, 2):
        kw["ind_dim"] = dims[0]
    elif dims == list(range(d)) and g.integers(0, 2):
        kw["ind_dim"] = None
    xin, zin = arr(xi), arr(z if g.integers(0, 2) else z.reshape(-1, 1))
    w.update(anchors=anchors, dims=dims, kw=str(kw))
    f = quiet(gplot.crosssections, m, xin, zin, box, **kw)
    if not rec.true("a figure is drawn", not is_err(f), f, **w):
        return
    if not rec.eq("number of panels", [len(f.axes), len(m.asked)], [len(anchors) * len(dims)] * 2, **w):
        return
    spec = {(p["anchor"] - 1, p["coord"] - 1): p["curve"] for p in c["panels"]}
    for di, j in enumerate(dims):
        for ai, a in enumerate(anchors):
            ax = f.axes[di * len(anchors) + ai]
            xs = sorted(np.linspace(box[0, j], box[1, j], PTS).tolist() + [xi[a, j]])
            pts = np.tile(xi[a], (len(xs), 1))
            pts[:, j] = xs
            mean, var = np.array([crit(r) for r in pts]), np.array([1.0 + abs(r).sum() for r in pts])
            if (a, j) in spec:
                for t in spec[a, j]:
                    k = int(np.argmin(np.abs(np.array(xs) - rat(t[0]))))
                    rec.close("curve of the model", mean[k], rat(t[1]), rtol=1e-9, atol=1e-9, **w)
            at = dict(anchor=a, coord=j)
            rec.true("a slice moves one coordinate of its anchor", any(near(np.array(q), pts) for q in m.asked), [np.array(m.asked).tolist(), pts.tolist()], **at, **w)
            cs = curves(ax, 2)
            rec.true("a slice shows the prediction along it", any(near(x, xs) and near(y, mean) for x, y in cs), [xs, mean.tolist()], **at, **w)
            rec.true("the anchor is marked", any(abs(v - xi[a, j]) < 1e-9 for v in verticals(ax)), verticals(ax), **at, **w)
            ones = [curve(l) for l in ax.get_lines() if len(l.get_xdata()) == 1]
            rec.true("the anchor's observation is shown", any(near(x, [xi[a, j]]) and near(y, [z[a]]) for x, y in ones), str(ones), **at, **w)
            rec.true("observations are projected", any(near(x, xi[:, j]) and near(y, z) for x, y in [curve(l) for l in ax.get_lines()]), None, **at, **w)
            check_bands(ax, xs, mean, var, (0.95, 0.99, 0.999), **at, **w)
            rec.true("axes are named after the coordinate", str(j) in ax.get_xlabel(), ax.get_xlabel(), **at, **w)
    for bad in (dict(ind_i=[n]), dict(ind_dim=[d]), dict(ind_i="best"), dict(nt=1), dict(ind_i=[-1])):
        rec.raises("slices that do not exist are refused", quiet(gplot.crosssections, m, xin, zin, box, **bad), bad=str(bad), **w)
    rec.raises("a box of another dimension is refused", quiet(gplot.crosssections, m, xin, zin, np.zeros((2, d + 1))), **w)
    rec.raises("several outputs are refused", quiet(gplot.crosssections, m, xin, arr(np.zeros((n, 2))), box), **w)
    rec.eq("data are left alone", [tolist(xin), tonp(zin).reshape(-1).tolist()], [xi.tolist(), z.tolist()], **w)


def ecdf(c):
    s = np.array(c["sample"], float) / 20.0
    w = dict(case=c)
    g = np.random.default_rng(c["seed"])
    g.shuffle(s)
    fig = plt.figure() if g.integers(0, 2) else None
    sin = arr(s if g.integers(0, 2) else s.reshape(-1, 1))
    o = quiet(md.plot_pit_ecdf, sin, **(dict(fig=fig) if fig is not None else {}))
    if not rec.true("a figure is drawn", not is_err(o), o, **w):
        return
    rec.eq("one figure", len(plt.get_fignums()), 1, **w)
    lines = [l for l in figures()[0].axes[0].get_lines()]
    diag = [l for l in lines if near(curve(l)[0], [0, 1]) and near(curve(l)[1], [0, 1]) and l.get_drawstyle() == "default"]
    rec.true("the diagonal is shown", len(diag) >= 1, [str(l) for l in lines], **w)
    st = [l for l in lines if l not in diag]
    if not rec.eq("one empirical distribution function", len(st), 1, **w):
        return
    x, y = curve(st[0])
    style = st[0].get_drawstyle()

    def at(t):
        if style == "steps-post":
            k = np.searchsorted(x, t, side="right") - 1
            return y[max(k, 0)]
        if style in ("steps-pre", "steps"):
            k = np.searchsorted(x, t, side="left")
            return y[min(k, len(y) - 1)]
        return float(np.interp(t, x, y))
    for t in range(20):
        u = (t + 0.5) / 20.0                      # between the sample values
        rec.close("the empirical distribution function", at(u), rat(c["share"][t]), rtol=0, atol=1e-9, at=u, style=style, **w)


def bandcase(c):
    g = np.random.default_rng(c["seed"])
    n = int(g.integers(2, 8))
    x, mean, var = np.sort(g.normal(size=n)), g.normal(size=n), g.uniform(0.1, 4.0, n) * g.choice([0.0, 1.0], n, p=[0.2, 0.8])
    scheme = g.choice(["default", "bw", "simple", "hue"])
    ci = [[0.95, 0.99, 0.999], [0.5, 0.8, 0.9], [0.1, 0.68, 0.997]][g.integers(0, 3)]
    f = gplot.Figure()
    shape = (lambda a: a.reshape(-1, 1)) if g.integers(0, 2) else (lambda a: a)
    kw = dict(colorscheme=str(scheme))
    if scheme == "hue":
        kw["rgb_hue"] = [10, 200, 30]
    if ci[0] != 0.95 or g.integers(0, 2):
        kw["ci"] = ci
    lv = list(ci)
    w = dict(scheme=str(scheme), ci=ci, at=x.tolist(), means=mean.tolist(), variances=var.tolist())
    xin, min_, vin = shape(x.copy()), shape(mean.copy()), shape(var.copy())
    o = quiet(f.plotgp, xin, min_, vin, **kw)
    if not rec.true("a figure is drawn", not is_err(o), o, **w):
        return
    rec.true("the mean is shown", any(near(a, x) and near(b, mean) for a, b in curves(f.ax, 2)), None, **w)
    check_bands(f.ax, x, mean, var, lv if scheme == "default" else lv[:1], **w)
    if scheme == "bw":
        q = norm.ppf((1 + lv[0]) / 2) * np.sqrt(var)
        for e in (mean + q, mean - q):
            rec.true("edges of the band are shown", any(near(a, x) and near(b, e) for a, b in curves(f.ax, 2)), None, **w)
    rec.eq("levels asked for are left alone", ci, list(lv), **w)
    rec.true("data are left alone", near(xin, shape(x)) and near(min_, shape(mean)) and near(vin, shape(var)), None, **w)


def loo(c):
    g = np.random.default_rng(c["seed"])
    n = int(g.integers(2, 9))
    u = g.choice([1.0, 1e-3, 1e4])
    z, m, v = g.normal(size=n) * u, g.normal(size=n) * u, g.uniform(0.1, 3, n) * u * u
    w = dict(z=z.tolist(), m=m.tolist(), v=v.tolist())
    o = quiet(gplot.plot_loo, arr(z), arr(m), arr(v))
    if not rec.true("a figure is drawn", not is_err(o), o, **w):
        return
    ax = figures()[0].axes[0]
    cs = curves(ax, 1)
    rec.true("predictions are shown against the observations", any(near(a, z) and near(b, m) for a, b in cs), None, **w)
    segs = [s for col in ax.collections if isinstance(col, LineCollection) for s in col.get_segments()]
    for i in range(n):
        h = norm.ppf(0.975) * math.sqrt(v[i])
        rec.true("bars cover 95 percent", any(abs(s[0][0] - z[i]) < 1e-9 * u and abs(min(s[:, 1]) - (m[i] - h)) < 1e-3 * h and
                                              abs(max(s[:, 1]) - (m[i] + h)) < 1e-3 * h for s in segs), [z[i], m[i], h], i=i, **w)
    dg = [(a, b) for a, b in cs if len(a) == 2 and near(a, b) and a[0] != a[1]]
    rec.true("the diagonal is shown", any(min(a) <= z.min() and max(a) >= z.max() and min(a) <= m.min() and max(a) >= m.max() for a, _ in dg), None, **w)


def figure(c):
    g = np.random.default_rng(c["seed"])
    r, k = int(g.integers(1, 4)), int(g.integers(1, 4))
    f = gplot.Figure(r, k)
    rec.eq("number of panels", len(f.fig.axes), r * k, rows=r, cols=k)
    pos = [a.get_position() for a in f.fig.axes]
    shown = {}
    for i in g.permutation(r * k).tolist():
        f.subplot(i + 1)
        f.plot([0.0, 1.0, 2.0], [i, i + 1.0, i])
        f.axhline(float(i))
        f.title(f"t{i}")
        f.xylabels(f"x{i}", f"y{i}")
        f.xlim((0.0, 1.0 + i))
        f.plotdata([0.5, 0.7, 0.9], [i, i, i], label=f"d{i}")
        shown[i] = f.ax
    for i in range(r * k):
        ax = f.fig.axes[i]
        w = dict(rows=r, cols=k, panel=i)
        rec.true("drawing goes to the chosen panel", near(curves(ax)[0][1], [i, i + 1.0, i]) and ax.get_title() == f"t{i}" and
                 (ax.get_xlabel(), ax.get_ylabel()) == (f"x{i}", f"y{i}") and tuple(ax.get_xlim()) == (0.0, 1.0 + i) and
                 near(curves(ax)[-1][1], [i] * 3), ax.get_title(), **w)
        rec.true("panels are counted along rows", i == 0 or (pos[i].y0 < pos[i - 1].y0 - 1e-6) == (i % k == 0), None, **w)


def level_map(c):
    g = np.random.default_rng(c["seed"])
    d = int(g.integers(2, 5))
    cov, other = g.normal(size=d) * 0.5, g.normal(size=d)
    i1, i2 = g.permutation(d)[:2].tolist()
    n, factor = int(g.integers(3, 7)), float(g.choice([2.0, 4.0]))
    shift = bool(g.integers(0, 2))
    asked = []

    def f(p):
        v = tonp(p).astype(float).copy()
        asked.append(v)
        return crit(v) + 20.0
    cin = arr(cov)
    info = SimpleNamespace(selection_criterion_nograd=f, covparam=cin)
    if g.integers(0, 2):
        info.covparam0 = arr(other)
    model = SimpleNamespace(covparam=arr(cov))
    seen = []
    inner = Axes.contourf

    def contourf(self, *a, **k):
        seen.append([np.asarray(tonp(t), float) for t in a[:3]])
        return inner(self, *a, **k)
    Axes.contourf = contourf
    kw = dict(n=n, factor=factor, shift_criterion=shift)
    if (i1, i2) == (0, 1) and g.integers(0, 2):
        o = quiet(md.plot_selection_criterion_sigma_rho, model, info, **kw)
    else:
        o = quiet(md.plot_selection_criterion_2d, model, info, param_indices=(i1, i2), **kw)
    Axes.contourf = inner
    w = dict(cov=cov.tolist(), ind=(i1, i2), n=n, factor=factor, shift=shift)
    if not rec.true("a figure is drawn", not is_err(o) and len(seen) == 1, [o, len(seen)], **w):
        return
    X, Y, Z = seen[0]
    lg = lambda i, p: (0.5 if i == 0 else -1.0) * p / math.log(10.0)   # log10 of sigma or rho
    back = lambda i, t: t * math.log(10.0) / (0.5 if i == 0 else -1.0)
    for i, A in ((i1, X), (i2, Y)):
        rec.true("axes run a factor either side of the parameter", abs(A.min() - (lg(i, cov[i]) - math.log10(factor))) < 1e-9 and
                 abs(A.max() - (lg(i, cov[i]) + math.log10(factor))) < 1e-9, [A.min(), A.max(), lg(i, cov[i])], **w)
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    rec.eq("number of evaluations", Z.size, n * n, **w)
    V = np.empty(Z.shape)
    for a in range(Z.shape[0]):
        for b in range(Z.shape[1]):
            p = cov.copy()
            p[i1], p[i2] = back(i1, X[a, b]), back(i2, Y[a, b])
            V[a, b] = crit(p) + 20.0
    want = np.log10(np.maximum(1e-2, V - (V.min() if shift else 0.0)))
    rec.true("levels are those of the criterion at the drawn parameters", near(Z, want, 1e-7), [Z.tolist(), want.tolist()], **w)
    marks = [curve(l) for l in figures()[0].axes[0].get_lines() if len(l.get_xdata()) == 1]
    rec.true("the selected parameters are marked", any(near(x, [lg(i1, cov[i1])]) and near(y, [lg(i2, cov[i2])]) for x, y in marks), str(marks), **w)
    if hasattr(info, "covparam0"):
        rec.true("the initial parameters are marked", any(near(x, [lg(i1, other[i1])]) and near(y, [lg(i2, other[i2])]) for x, y in marks), str(marks), **w)
    rec.eq("the selected parameters are left alone", tolist(cin), cov.tolist(), **w)


KIND = dict(criterion=criterion, prediction=prediction, ecdf=ecdf, bands=bandcase, loo=loo, figure=figure, map=level_map)


def one(c):
    plt.close("all")
    KIND[c["kind"]](c)
    plt.close("all")


import warnings
warnings.simplefilter("ignore")
rec.each(rec.payload["cases"], one)
rec.done()
