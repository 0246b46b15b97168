"""Replay selection/update histories and judge what they leave behind."""
from statistics import NormalDist
from base import *
import gpmp.core as gc
import gpmp.kernel as gk
from gpmp.dataloader import Dataset, DataLoader

rec = Recorder()
SELECT = {"reml": gk.select_parameters_with_reml,
          "power": gk.select_parameters_with_remap_with_power_laws_prior,
          "logsigma2": gk.select_parameters_with_remap_gaussian_logsigma2,
          "both": gk.select_parameters_with_remap_gaussian_logsigma2_and_logrho_prior,
          "remap": gk.select_parameters_with_remap,
          "ml": gk.select_parameters_with_ml_constant_mean,
          "custom": gk.select_parameters_with_criterion}
UPDATE = {"reml": gk.update_parameters_with_reml,
          "power": gk.update_parameters_with_remap_with_power_laws_prior,
          "logsigma2": gk.update_parameters_with_remap_gaussian_logsigma2,
          "both": gk.update_parameters_with_remap_gaussian_logsigma2_and_logrho_prior,
          "remap": gk.update_parameters_with_remap,
          "ml": gk.update_parameters_with_ml_constant_mean,
          "custom": gk.update_parameters_with_criterion}


def model(kind):
    def cov(x, y, covparam, pairwise=False):
        return gk.maternp_covariance(x, y, 1, covparam, pairwise)
    if kind == "parameter":
        return gc.Model(lambda x, p: p[0] * gnp.ones((x.shape[0],)), cov, meantype="parameterized")
    return gc.Model(lambda x, p: gnp.ones((x.shape[0], 1)), cov, meantype="linear_predictor")


def custom(m, covparam, x, z):
    return m.negative_log_restricted_likelihood(covparam, x, z) + 3 * (covparam[0] - 0.25) ** 2


def vec(v):
    return None if v is None else np.asarray(tonp(v), float).reshape(-1)


class World:
    def __init__(self, k, kind):
        r = np.random.default_rng([3, k])
        self.k, self.d, n = k, 1 + k % 2, 5 + k % 3
        x = np.stack([r.permutation(n) for _ in range(self.d)], axis=1)
        self.x = (x + 0.4 * r.uniform(size=(n, self.d))) / n
        self.z = np.sin(4 * self.x[:, 0]) * (1 + k % 3) + 0.3 * r.normal(size=n) + k % 2
        self.m = model(kind)
        self.ref = model(kind)
        self.kind = kind
        v = lambda a, b: np.concatenate(([a], np.full(self.d, b)))  # noqa: E731
        self.tok = {"A": v(0.3, 0.2), "B": v(-0.6, 0.75), "C": v(0.9, -0.3), "M": np.array([0.4]),
                    "D": v(0.1, 0.4), "E": v(-0.2, 1.1)}
        if kind == "parameter":
            g = gk.anisotropic_parameters_initial_guess_constant_mean(self.ref, arr(self.x), arr(self.z))
            self.mguess, self.guess = vec(g[0]), vec(g[1])
        else:
            self.guess = vec(gk.anisotropic_parameters_initial_guess(self.ref, arr(self.x), arr(self.z)))

    def lrm(self, factor=0.05):
        out = []
        for j in range(self.d):
            u = np.unique(self.x[:, j])
            out.append(math.log(max(np.diff(u).min(), (u[-1] - u[0]) * factor)))
        return np.array(out)

    def settings(self, s, centre):
        """Prior settings in force: those given, otherwise the defaults."""
        if centre is None:
            return {}, {}
        v = {"gamma": 2.5, "coverage": 0.8, "alpha": 3.0, "factor": 0.15, "min": self.lrm() - 0.7, "variance": 0.6,
             "ranges": self.lrm() + 0.8 + 0.2 * np.arange(self.d)}
        e = {"gamma": 1.5, "coverage": 0.95, "alpha": 1.0, "variance": centre[0], "ranges": -centre[1:]}
        e.update({n: v[n] for n in s["given"]})
        e["least"] = v["min"] if s["least"] == "given" else self.lrm(v["factor"]) if "factor" in s["least"] else self.lrm()
        names = {"gamma": "prior_gamma", "coverage": "prior_sigma2_coverage", "alpha": "prior_alpha", "factor": "prior_rho_min_range_factor",
                 "min": "prior_logrho_min", "variance": "prior_log_sigma2_0", "ranges": "prior_logrho_0"}
        return e, {names[n]: arr(v[n].copy()) if isinstance(v[n], np.ndarray) else v[n] for n in s["given"]}

    def criterion(self, fam, p, e):
        """The criterion the procedure is named after, from the restricted likelihood."""
        xa, za = arr(self.x), arr(self.z)
        if fam == "ml":
            return float(vec(self.ref.negative_log_likelihood(arr(p[:1]), arr(p[1:]), xa, za))[0])
        v = float(vec(self.ref.negative_log_restricted_likelihood(arr(p), xa, za))[0])
        if fam == "custom":
            return v + 3 * (p[0] - 0.25) ** 2
        if fam == "power":
            return v + p[0] + 100 * max(p[0] - 9.21, 0) + sum(
                100 * (max(-9.21 - t, 0) + max(t - 9.21, 0)) for t in p[1:])
        if fam in ("logsigma2", "both", "remap"):
            s = math.log(e["gamma"]) / NormalDist().inv_cdf((1 + e["coverage"]) / 2)
            v += 0.5 * ((p[0] - e["variance"]) / s) ** 2
        if fam in ("both", "remap"):
            for t, lo, mid in zip(-p[1:], e["least"], e["ranges"]):
                v += math.inf if t <= lo else e["alpha"] * (-(mid - lo) * math.log(t - lo) + (t - lo))
        return v


def call(w, s, what):
    c, fam = s["c"], s["c"]["fam"]
    before = (vec(w.m.meanparam), vec(w.m.covparam))

    def value(src, mean=False):
        if src == "model":
            return before[0] if mean else before[1]
        if src == "guess":
            return w.mguess if mean else w.guess
        return w.tok[src]
    centre = None if s["centre"] == "none" else value(s["centre"])
    start = value(s["start"])
    if fam == "ml":
        start = np.concatenate((value(s["mean"], True), start))
    xa, za = arr(w.x), arr(w.z)
    kw = {"info": c["info"], "method": c["meth"], "method_options": {"maxiter": 7}}
    given = {}
    for o, n in (("A", "covparam0"), ("B", "covparam0_init"), ("C", "covparam0_prior"), ("M", "meanparam0")):
        if o in c["opt"]:
            given[n] = arr(w.tok[o])
    e, more = w.settings(s, centre)
    conf = s["confined"]
    want = [[t - 10.0, t + 10.0] for t in start]
    if conf == "delta":
        kw["bounds_delta"] = 0.2
        want = [[t - 0.2, t + 0.2] for t in start]
    elif conf == "box":
        kw["bounds"] = [(t - 0.1 * (j + 1), t + 0.3) for j, t in enumerate(start)]
        want = [list(q) for q in kw["bounds"]]
    elif conf == "off":
        kw["bounds_auto"] = False
        want = [[None, None] for _ in start]
    if c["src"] == "arrays":
        kw.update(xi=xa, zi=za)
    else:
        n = len(w.z)
        cuts = [[0, n], [0, 2, n], [0, n - 2, n], [0, 2, 4, n]][w.k % 4]
        parts = lambda a: [arr(a[i:j].copy()) for i, j in zip(cuts, cuts[1:])]  # noqa: E731
        ds = Dataset(xa, za) if len(cuts) == 2 else Dataset(parts(w.x), parts(w.z))
        kw["dataloader"] = DataLoader(ds, batch_size=n + 2 * (w.k % 2))
    f = (UPDATE if c["up"] else SELECT)[fam]
    a = attempt(f, w.m, *((custom,) if fam == "custom" else ()), **kw, **given, **more)
    ok = centre is None or fam == "logsigma2" or bool(np.all(e["ranges"] > e["least"]))
    if is_err(a):
        if ok:
            rec.bad("the procedure completes", "a model", a, **what)
        else:
            rec.true("a refused procedure leaves the model as it was",
                     str(before) == str((vec(w.m.meanparam), vec(w.m.covparam))), **what)
        return False
    m, info = a
    rec.true("the model given is the model returned", m is w.m, **what)
    for n, o in (("covparam0", "A"), ("covparam0_init", "B"), ("covparam0_prior", "C"), ("meanparam0", "M")):
        if n in given:
            rec.true("supplied parameters are unchanged", np.array_equal(vec(given[n]), w.tok[o]), vec(given[n]), **what)
    rec.true("supplied data are unchanged", np.array_equal(tonp(xa), w.x) and np.array_equal(tonp(za), w.z), **what)
    p = vec(m.covparam)
    if fam == "ml":
        p = np.concatenate((vec(m.meanparam), p))
    rec.true("the selected parameters are numbers", p.shape == start.shape and bool(np.all(np.isfinite(p))), p, **what)
    va, vs = w.criterion(fam, p, e), w.criterion(fam, start, e)
    rec.true("the selected parameters lie in the bounds", all((lo is None or t >= lo - 1e-9) and (hi is None or t <= hi + 1e-9)
                                                              for t, (lo, hi) in zip(p, want)), p.tolist(), want=want, **what)
    rec.true("the selected parameters are no worse than the initial ones", not va > vs + 1e-7 * (1 + abs(vs)),
             (va, vs), start=start.tolist(), selected=p.tolist(), **what)
    if not c["info"]:
        rec.true("no diagnostics unless asked for", info is None, **what)
        return True
    rec.close("the reported value is the criterion at the model's parameters", float(info["fun"]), va, 1e-7, 1e-7, **what)
    rec.close("the search starts at the value meant for it", vec(info["initial_params"]), start, 1e-10, 1e-12, **what)
    rec.close("the first evaluation is at the initial value", vec(info["history_params"][0]), start, 1e-10, 1e-10, **what)
    lim = info["bounds"]
    lim = [[None, None] for _ in start] if lim is None else [[None if q is None else float(q) for q in b] for b in lim]
    rec.true("the bounds in force are those requested", len(lim) == len(want) and all(
        (a is None) == (b is None) and (a is None or abs(a - b) < 1e-9) for x, y in zip(lim, want) for a, b in zip(x, y)), lim, want=want, **what)
    rep = vec(info["covparam"])
    if fam == "ml":
        rep = np.concatenate((vec(info["meanparam"]), rep))
        rec.close("the reported initial mean is the one used", vec(info["meanparam0"]), start[:1], 1e-10, 1e-12, **what)
        rec.close("the reported initial covariance is the one used", vec(info["covparam0"]), start[1:], 1e-10, 1e-12, **what)
    else:
        rec.close("the reported initial covariance is the one used", vec(info["covparam0"]), start, 1e-10, 1e-12, **what)
    rec.close("the model holds the reported parameters", p, rep, 1e-12, 0, **what)
    rec.close("the model holds the best parameters found", p, vec(info["x"]), 1e-12, 0, **what)
    # the criterion handed back is the one selected with, whatever the source
    for t in (start + 0.1, w.tok["D"] if fam != "ml" else np.concatenate(([0.2], w.tok["D"]))):
        g = attempt(info["selection_criterion_nograd"], arr(t))
        v = w.criterion(fam, t, e)
        h = attempt(info["selection_criterion"], arr(t))
        rec.close("both criteria handed back are the one selected with", math.nan if is_err(h) else float(vec(h)[0]), v, 1e-7, 1e-7, **what)
        rec.close("arrays and a one-batch loader give the same criterion",
                  math.nan if is_err(g) else float(vec(g)[0]), v, 1e-7, 1e-7, **what)
    return True


def one(case):
    w = World(case["k"], case["kind"])
    for k, s in enumerate(case["hist"]):
        what = dict(kind=case["kind"], world=case["k"], upto=case["hist"][:k + 1])
        if s["op"] == "call":
            if not call(w, s, what):
                return
        elif s["op"] == "assign":
            w.m.covparam = arr(w.tok["D" if k % 2 else "E"])
            if case["kind"] == "parameter":
                w.m.meanparam = arr([0.7 + k])
        else:
            before = str((vec(w.m.meanparam), vec(w.m.covparam)))
            r = attempt(w.m.predict, arr(w.x), arr(w.z), arr(w.x[:2] + 0.01))
            rec.true("the model predicts with its parameters", not is_err(r), r, **what)
            rec.true("predicting leaves the parameters", before == str((vec(w.m.meanparam), vec(w.m.covparam))), **what)


rec.each(rec.payload["cases"], one, limit=60)
rec.done()
