"""Replay histories of PriorDefaults on the default prior settings."""
from statistics import NormalDist
from base import *
from gpmp.kernel import prior_defaults as pd
import gpmp.kernel as gk
import gpmp.kernel.priors as gp

rec = Recorder()
NAMES = ["gamma", "sigma2_coverage", "alpha", "rho_min_range_factor"]
KW = ["prior_logsigma2_gamma", "prior_logsigma2_coverage", "prior_logrho_alpha", "prior_logrho_min_range_factor"]
GOOD = [[1.5, 2.0, 1.0000001, 40.0], [0.95, 0.5, 0.999, 0.01], [1.0, 0.25, 7.0, 1e-6],
        [0.05, 0.5, 1.0, 3.0]]
BAD = [[1.0, 0.5, -2.0, math.nan, "wide"], [1.0, 0.0, -0.5, math.nan, 1.5],
       [0.0, -1.0, -1e-9, math.nan, "steep"], [0.0, -0.25, -1e-9, math.nan, "far"]]
KINDS = (float, lambda v: np.float64(v), lambda v: arr(v))
X = [[0.0, 1.0], [0.5, 3.0], [2.0, 3.5], [1.25, 9.0]]


def val(f, i):
    if i <= len(GOOD[f]):
        return GOOD[f][i - 1]
    return BAD[f][i - 1 - len(GOOD[f])]


def setting():
    d = attempt(pd.get_default_prior_hyperparameters)
    return d if is_err(d) else [d[n] for n in NAMES]


def reset():
    pd.set_default_prior_hyperparameters(**{n: GOOD[f][0] for f, n in enumerate(NAMES)})


def std(gamma, cov):
    return math.log(gamma) / NormalDist().inv_cdf(0.5 * (1 + cov))


def use(s, what):
    """All computations that take their settings from the defaults."""
    ex = {n: val(f, s["r"][f]) for f, n in enumerate(NAMES) if s["r"][f]}
    w = [val(f, s["with"][f]) for f in range(4)]
    bad = {n for f, n in enumerate(NAMES) if s["r"][f] > len(GOOD[f])}
    nan = any(isinstance(v, float) and math.isnan(v) for v in ex.values())

    def run(name, names, f, want, tol=1e-9):
        g = attempt(f, **{n: v for n, v in ex.items() if n in names})
        if bad & set(names):
            if not nan:  # an explicit not-a-number may also come out as not a number
                rec.raises(f"{name} refuses inadmissible explicit values", g, **what)
        else:
            rec.close(f"{name} uses the settings in force", np.asarray(tonp(g) if not is_err(g) else math.nan, float).reshape(-1),
                      np.asarray(want(), float).reshape(-1), tol, 1e-12, **what)
    cp = arr([0.7, -0.2, 0.4])
    run("the variance prior", ["gamma", "sigma2_coverage"],
        lambda **k: gk.log_prior_gaussian_logsigma2(cp, 0.1, **k),
        lambda: -0.5 * (0.6 / std(w[0], w[1])) ** 2)
    lo, mid = [-1.0, -2.0], [0.5, 0.25]

    def barrier():
        t = []
        for v, a, b in zip([0.2, -0.4], lo, mid):
            t.append(-w[2] * (b - a) * math.log(v - a) + w[2] * (v - a))
        return t
    run("the range penalty", ["alpha"],
        lambda **k: gk.neglog_f_logrho(arr([0.2, -0.4]), arr(lo), arr(mid), **k), barrier)
    run("the range prior", ["alpha"],
        lambda **k: gk.log_prior_logrho_barrier_linear(cp, arr(lo), arr(mid), **k),
        lambda: -sum(barrier()))

    def lrm(**k):
        return gk.compute_logrho_min_from_xi(arr(X), **{"prior_" + n: v for n, v in k.items()})
    run("the minimum range", ["rho_min_range_factor"], lrm,
        lambda: [math.log(max(0.5, 2.0 * w[3])), math.log(max(0.5, 8.0 * w[3]))])
    if not bad:
        r = attempt(pd.resolve_prior_defaults_for_selection, xi=arr(X), **ex)
        rec.true("selection resolves to the settings in force",
                 not is_err(r) and [float(v) for v in r] == [float(v) for v in w], r, **what)


def one(hist):
    reset()
    for k, s in enumerate(hist):
        what = dict(upto=[dict(op=t["op"], via=t.get("via"), r=[val(f, i) if i else None for f, i in enumerate(t["r"])])
                          for t in hist[:k + 1]])
        if s["op"] == "set":
            conv = KINDS[(k + sum(s["r"])) % 3] if not any(
                isinstance(val(f, i), str) for f, i in enumerate(s["r"]) if i) else (lambda v: v)
            req = {n: conv(val(f, s["r"][f])) for f, n in enumerate(NAMES) if s["r"][f]}
            if s["via"] == "names":
                g = attempt(pd.set_default_prior_hyperparameters, **req)
            else:
                kw = {KW[NAMES.index(n)]: v for n, v in req.items()}
                kw["other"] = 3
                keep = dict(kw)
                g = attempt(pd.set_default_prior_hyperparameters_from_kwargs, kw)
                if s["ok"]:
                    rec.eq("only the recognised names are taken", kw, {"other": 3}, **what)
            if s["ok"]:
                rec.true("an admissible request is accepted", not is_err(g), g, **what)
            else:
                rec.raises("an inadmissible request is refused", g, **what)
        else:
            use(s, what)
        rec.eq("the settings in force are those accepted", setting(),
               [val(f, i) for f, i in enumerate(s["now"])], **what)
    d = pd.get_default_prior_hyperparameters()
    d["gamma"] = -1.0
    rec.true("the answer to a query is a copy", pd.get_default_prior_hyperparameters()["gamma"] != -1.0)


rec.each(rec.payload["cases"], one)
reset()
rec.raises("unknown settings are refused", attempt(pd.set_default_prior_hyperparameters, nu=1.0))
rec.done()
