"""Diagnosis reports of stated models and of really fitted ones."""
import contextlib
import io
from types import SimpleNamespace
from base import *
import gpmp as gp
import gpmp.modeldiagnosis as md
from gpmp.parameter import Param, param_from_covparam_anisotropic, param_from_covparam_anisotropic_noisy

rec = Recorder()
TYPES = {False: "linear_mean_matern_anisotropic", True: "linear_mean_matern_anisotropic_noisy"}
COLS = ("min", "max", "delta", "mean", "std", "delta_over_sigma")


def rows_of(text):
    """Lines `name: numbers` and `name numbers` of a printed report."""
    out = {}
    for line in text.splitlines():
        f = line.replace(":", " ").split()
        if len(f) >= 2:
            out.setdefault(f[0], []).append(f[1:])
    return out


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def printed(got, want):
    """A printed number: four significant digits or four decimals."""
    return got is not None and (abs(got - want) <= 1e-3 * abs(want) + 5.1e-4)


def one(c):
    v, r, k = c["w"], c["r"], c["k"]
    g = np.random.default_rng(c["seed"])
    d, noisy, m = v["d"], v["noisy"], v["m"]
    lead = 2 if noisy else 1
    ln2 = math.log(2.0)
    cov = [2 * ln2 * e for e in v["e"][:lead]] + [-ln2 * e for e in v["e"][lead:lead + d]]
    w = dict(world=v)
    if not noisy:
        o = attempt(md.sigma_rho_from_covparam, arr(cov))
        rec.close("scales in natural units", o if is_err(o) else [float(tonp(o[q])) for q in ["sigma"] + [f"rho{j}" for j in range(d)]],
                  [2.0 ** e for e in v["e"][:1 + d]], rtol=1e-9, **w)
    lo = -10.0 - np.arange(v["rows"]) - g.integers(0, 3)
    hi = 10.0 + 2 * np.arange(v["rows"])
    b = np.column_stack([lo, hi])
    for i in range(v["rows"]):
        if v["open"][i] in (1, 2):
            b[i, 0] = -np.inf
        if v["open"][i] in (1, 3):
            b[i, 1] = np.inf
    form = g.integers(0, 3)
    bounds = [arr(b), b.tolist(), None][form] if v["rows"] else None
    init = arr(g.normal(size=m + lead + d))
    asked = []

    def crit(p):
        asked.append(tolist(p))
        return 4.25
    info = SimpleNamespace(success=bool(g.integers(0, 2)), best_value_returned=1.5, nfev=17, total_time=0.75,
                           selection_criterion=crit, initial_params=init, fun=1.25, bounds=bounds)
    if bounds is None and g.integers(0, 2):
        del info.bounds
    model = SimpleNamespace(covparam=arr(cov), meanparam=arr([0.5] * m) if m or g.integers(0, 2) else None)
    how = g.integers(0, 3)
    kw = dict(model_type=TYPES[noisy])
    own = None
    if how == 1:
        own = (param_from_covparam_anisotropic_noisy if noisy else param_from_covparam_anisotropic)(arr(cov))
        kw = dict(param_obj=own)
    elif how == 2:                                # covariance entries after others
        own = Param(values=arr([0.1, 0.2]), names=["a", "b"], paths=[["meanparam", "x"], ["other"]]) + \
            (param_from_covparam_anisotropic_noisy if noisy else param_from_covparam_anisotropic)(arr(cov))
        kw = dict(param_obj=own)
    rep = attempt(md.modeldiagnosis_init, model, info, **kw)
    if not rec.true("a report is built", not is_err(rep), rep, **w):
        return
    s = rep["param_selection"]
    for key, want in (("cvg_reached", info.success), ("optimal_val", 1.5), ("n_evals", 17), ("time", 0.75), ("initial_val", 4.25), ("final_val", 1.25)):
        rec.eq("selection summary", [key, attempt(lambda: tonp(s[key]).item() if key != "cvg_reached" else bool(s[key]))], [key, want], **w)
    rec.true("the initial value is that of the initial parameters", asked and all(a == tolist(init) for a in asked), asked, **w)
    p = rep["parameters"]
    obj = rep["param_obj"]
    names = (["a", "b"] if how == 2 else []) + [q["name"] for q in r["params"]]
    rec.eq("parameter names", list(p), names, **w)
    rec.eq("parameter names", list(obj.names), names, **w)
    for q in r["params"]:
        rec.close("parameters in natural units", attempt(lambda: float(tonp(p[q["name"]]))), rat(q["value"]), rtol=1e-12, name=q["name"], **w)
        bd = attempt(lambda: obj.bounds[names.index(q["name"])])
        want = None
        if form < 2 and q["row"]:
            want = b[q["row"] - 1].tolist()
        rec.eq("bounds of the parameter itself", None if bd is None else bd if is_err(bd) else [float(t) for t in bd], want, name=q["name"], form=int(form), how=int(how), **w)
    if how == 2:
        rec.eq("other entries keep their bounds", list(obj.bounds[:2]), [None, None], **w)
    rec.true("the optimisation is handed on", rep["optim_info"] is info, None, **w)
    rec.raises("an unknown model type is refused", attempt(md.modeldiagnosis_init, model, info, model_type="matern"), **w)
    if how == 2:
        return
    x, z = np.array(v["x"], float), np.array(v["z"], float)
    vec = v["p"] == 1 and g.integers(0, 2)
    if vec:
        z = z[:, 0]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        o = attempt(md.diag, model, info, arr(x), arr(z), **kw)
    if not rec.true("a report is shown", not is_err(o), o, **w):
        return
    t = rows_of(buf.getvalue())
    rec.eq("number of observations shown", t.get("count"), [[str(len(x))]], **w)
    head = [f for f in buf.getvalue().splitlines() if "delta_over_sigma" in f]
    if not rec.true("columns shown", len(head) == 1 and tuple(head[0].split()) == COLS, head, **w):
        return
    zn = ["zi"] if vec else [f"zi_{j}" for j in range(v["p"])]
    for name, q in list(zip(zn, r["z"])) + [(f"xi_{j}", q) for j, q in enumerate(r["x"])]:
        got = t.get(name, [[]])[0]
        st = q["stat"]
        want = [rat(st["min"]), rat(st["max"]), rat(st["delta"]), rat(st["mean"]), math.sqrt(rat(st["var"])), rat(q["rel"])]
        rec.true("ranges shown", len(got) == 6 and all(printed(num(a), u) for a, u in zip(got, want)), [got, want], row=name, **w)
    for q in r["params"]:
        got = t.get(q["name"], [[]])[0]
        rec.true("parameters shown in natural units", got and printed(num(got[-1]), rat(q["value"])), [got, rat(q["value"])], name=q["name"], **w)


def fit(k):
    """A real selection: the report states what was selected."""
    r = np.random.default_rng(rec.seed * 31 + k)
    n, d = 12, 1 + k % 2
    x = r.uniform(size=(n, d))
    z = 40.0 * np.sin(3 * x[:, 0]) + x.sum(axis=1)
    model = gp.core.Model(lambda x, p: gp.num.ones((x.shape[0], 1)), lambda x, y, c, pairwise=False: gp.kernel.maternp_covariance(x, y, 2, c, pairwise))
    out = attempt(gp.kernel.select_parameters_with_reml, model, arr(x), arr(z), info=True)
    if not rec.true("a selection ends", not is_err(out), out, k=k):
        return
    model, info = out
    rep = attempt(md.modeldiagnosis_init, model, info)
    if not rec.true("a report is built", not is_err(rep), rep, k=k):
        return
    cov = tonp(model.covparam)
    want = [math.exp(cov[0])] + [math.exp(-c) for c in cov[1:]]
    rec.close("parameters in natural units", [float(tonp(t)) for t in rep["parameters"].values()], want, rtol=1e-10, k=k)
    s = rep["param_selection"]
    c0 = float(tonp(attempt(model.negative_log_restricted_likelihood, arr(tonp(info.initial_params)), arr(x), arr(z))))
    c1 = float(tonp(attempt(model.negative_log_restricted_likelihood, arr(cov), arr(x), arr(z))))
    rec.close("the initial value is that of the initial parameters", float(tonp(s["initial_val"])), c0, rtol=1e-6, atol=1e-8, k=k)
    rec.close("the final value is that of the selected parameters", float(tonp(s["final_val"])), c1, rtol=1e-5, atol=1e-6, k=k)
    bounds = getattr(info, "bounds", None)
    if bounds is not None:
        b = tonp(bounds)
        for j, bd in enumerate(rep["param_obj"].bounds):
            rec.eq("bounds of the parameter itself", None if bd is None else [float(t) for t in bd],
                   None if np.isinf(b[j]).all() else [float(t) for t in b[j]], k=k)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        o = attempt(md.diag, model, info, arr(x), arr(z))
    if rec.true("a report is shown", not is_err(o), o, k=k):
        t = rows_of(buf.getvalue())
        rec.true("ranges shown", printed(num(t["zi"][0][-1]), (z.max() - z.min()) / math.exp(0.5 * cov[0])), [t["zi"], z.max() - z.min(), cov[0]], k=k)
        for j in range(d):
            rec.true("ranges shown", printed(num(t[f"xi_{j}"][0][-1]), (x[:, j].max() - x[:, j].min()) * math.exp(cov[1 + j])), [t[f"xi_{j}"], j], k=k)


rec.each(rec.payload["cases"], one)
if rec.payload.get("part", 0) == 0:
    rec.each(range(rec.payload["fits"]), fit, limit=60)
rec.done()
