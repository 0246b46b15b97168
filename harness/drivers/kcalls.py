"""Call histories of Calls.tla on one model object; Fisher cases of Fisher.tla."""
from kworld import *
import math

rec = Recorder()
WHAT = rec.payload["what"]


def idx(x):
    return x[:, 0].long() if BACKEND == "torch" else np.asarray(x)[:, 0].astype(int)


def fisher(case):
    g1, g2 = arr(case["g1"]), arr(case["g2"])
    p = arr(case["p"])
    n = len(case["g1"])

    def cov(x, y, c, pairwise=False):
        y = x if y is None else y
        ix, iy = idx(x), idx(y)
        t = c[0] * c[0] * g1 + c[1] * g2
        return t[ix, iy] if pairwise else t[ix][:, iy]
    theta = [float(t) for t in case["theta"]]
    other = [theta[0] + 1.0, theta[1] + 0.5]
    xi = points(list(range(1, n + 1)))
    plain, trend = rats(case["plain"]), rats(case["trend"])
    tol = dict(rtol=1e-6, atol=1e-8)
    models = {"zero": Model(None, cov, None, arr(theta), "zero"),
              "parameterized": Model(lambda x, m: m[0] * p[idx(x)][:, :1], cov, arr([1.0]), arr(theta),
                                     "parameterized"),
              "linear_predictor": Model(lambda x, m: p[idx(x)], cov, None, arr(theta), "linear_predictor")}
    for kind, m in models.items():
        want = trend if kind == "linear_predictor" else plain
        for name, f, w in (("plain", m.fisher_information, plain), ("trend-filtered", m.fisher_information_cpd, want)):
            rec.close(f"{name} Fisher information, stored parameters", attempt(f, xi), w, mean=kind, case=case, **tol)
            m.covparam = arr(other)
            r = attempt(f, xi, arr(theta))
            rec.close(f"{name} Fisher information, given parameters", r, w, mean=kind, case=case, **tol)
            rec.close("stored parameters are left alone", m.covparam, other, case=case)
            m.covparam = arr(theta)
            given = arr(theta)
            r = attempt(f, xi, given, 1e-2)
            rec.close(f"{name} Fisher information, another step", r, w, mean=kind, case=case, **tol)
            rec.close("given parameters are left alone", given, theta, case=case)
            if not is_err(r):
                rec.close("Fisher information is symmetric", tonp(r), tonp(r).T, case=case, rtol=0, atol=1e-12)
    m = Model(None, cov, None, theta, "zero")
    rec.close("Fisher information, parameters stored as a list", attempt(m.fisher_information, xi), plain, case=case,
              **tol)


def calls(hist):
    t = rec.payload["world"]
    mode = rec.payload["mode"]
    g, eye = arr(t["g"]), arr(np.eye(4))
    mu, p = arr(t["mu"]).reshape(-1, 1), arr(t["p"])

    def cov(x, y, c, pairwise=False):
        y = x if y is None else y
        tab = g + c[0] * eye
        ix, iy = idx(x), idx(y)
        return tab[ix, iy] if pairwise else tab[ix][:, iy]
    th = [float(v) for v in t["thetas"]]
    if mode == "zero":
        m = Model(None, cov, None, arr([th[0]]), "zero")
    elif mode == "known":
        m = Model(lambda x, q: q[0] * mu[idx(x)], cov, arr([1.0]), arr([th[0]]), "parameterized")
    else:
        m = Model(lambda x, q: p[idx(x)], cov, None, arr([th[0]]), "linear_predictor")
    args = {}
    keep = {}
    for d, ds in enumerate(t["data"], 1):
        args[d] = dict(xi=points(ds["obs"]), zi=arr(ds["z"]), xt=points(t["targets"]))
    sims = arr([[1.0, 0.0], [-3.0, 2.0], [2.0, 5.0], [0.5, -1.0]])
    cps = {1: arr([th[0]]), 2: arr([th[1]])}
    one = arr([1.0])
    watched = [("unconditional paths", sims), ("mean parameter argument", one), ("covariance parameter argument", cps[1]),
               ("covariance parameter argument", cps[2]), ("covariance table", g), ("trend table", p),
               ("mean table", mu)]
    for d in args:
        watched += [(f"{k} argument", v) for k, v in args[d].items()]
    before = [tonp(v).copy() for _, v in watched]
    results = []

    def lik(c, d):
        a = args[d]
        if mode == "zero":
            return m.negative_log_likelihood_zero_mean(c, a["xi"], a["zi"])
        if mode == "known":
            return m.negative_log_likelihood(one, c, a["xi"], a["zi"])
        return m.negative_log_restricted_likelihood(c, a["xi"], a["zi"])

    def want_lik(e):
        return 0.5 * (e["dof"] * math.log(2 * math.pi) + math.log(rat(e["det"])) + rat(e["quad"]))

    def flat(v):
        return tonp(v).reshape(()) if not is_err(v) and tonp(v).size == 1 else v

    for k, st in enumerate(hist):
        op, d = st["op"], st["data"]
        c = dict(step=k, history=hist)
        if op == "set":
            m.covparam = arr([th[st["theta"] - 1]])
            continue
        a = args[d]
        e = t["table"][d - 1][st["theta"] - 1]
        o = t["table"][d - 1][2 - st["theta"]]
        out = []
        if op == "predict":
            r = attempt(m.predict, a["xi"], a["zi"], a["xt"])
            if is_err(r):
                rec.bad("prediction is answered", "mean and variance", r, **c)
                continue
            out = [("predicted mean", r[0], rats(e["mean"])),
                   ("predicted variance", r[1], np.diag(np.array(rats(e["cov"]))))]
        elif op in ("predictor_full", "predictor_weights"):
            f = m.kriging_predictor if mode == "linear" else m.kriging_predictor_with_zero_mean
            r = attempt(f, a["xi"], a["xt"], 1 if op == "predictor_full" else -1)
            if is_err(r):
                rec.bad("predictor is answered", "weights", r, **c)
                continue
            out = [("weights", r[0], rats(e["weights"]))]
            if op == "predictor_full":
                out.append(("posterior covariance", r[1], rats(e["cov"])))
        elif op == "loo":
            r = attempt(m.loo, a["xi"], a["zi"])
            if is_err(r):
                rec.bad("leave-one-out is answered", "three vectors", r, **c)
                continue
            out = [(f"leave-one-out {n}", v, [rat(q[n]) for q in e["loo"]])
                   for n, v in zip(("mean", "var", "err"), r)]
        elif op == "likelihood":
            out = [("likelihood", flat(attempt(lik, cps[st["theta"]], d)), want_lik(e))]
        elif op == "likelihood_other":
            out = [("likelihood at another parameter", flat(attempt(lik, cps[3 - st["theta"]], d)), want_lik(o))]
        elif op == "norm":
            cp = cps[st["theta"]]
            if mode == "linear":
                out = [("contrast norm", flat(attempt(m.norm_k_sqrd, a["xi"], a["zi"], cp)), rat(e["quad"]))]
            elif mode == "zero":
                out = [("norm", flat(attempt(m.norm_k_sqrd_with_zero_mean, a["xi"], a["zi"], cp)), rat(e["quad"]))]
                r = attempt(m.k_inverses, a["xi"], a["zi"], cp)
                out.append(("quadratic form", r if is_err(r) else flat(r[0]), rat(e["quad"])))
        elif op == "fisher":
            obs = iarr(t["data"][d - 1]["obs"])
            K = np.array(t["g"], float)[np.ix_(obs, obs)] + th[st["theta"] - 1] * np.eye(len(obs))
            Ki = np.linalg.inv(K)
            out = [("Fisher information", attempt(m.fisher_information, a["xi"]), [[0.5 * np.trace(Ki @ Ki)]])]
            rec.close(out[0][0], out[0][1], out[0][2], rtol=1e-6, **c)
            r = attempt(m.fisher_information_cpd, a["xi"])
            rec.true("trend-filtered Fisher information is answered", not is_err(r), r, **c)
            results.append((out[0][1], tonp(out[0][1]).copy() if not is_err(out[0][1]) else None))
            out = []
        elif op == "paths":
            r = attempt(m.sample_paths, a["xt"], 2, "svd" if k % 2 else "chol")
            rec.eq("paths are answered", r if is_err(r) else list(tonp(r).shape), [3, 2], **c)
        elif op == "conditional":
            lam = arr(rats(e["weights"]))
            io, it = iarr(t["data"][d - 1]["obs"]), iarr(t["targets"])
            S = np.array([[1.0, 0.0], [-3.0, 2.0], [2.0, 5.0], [0.5, -1.0]])
            z = np.array(t["data"][d - 1]["z"], float)
            M = np.array(t["mu"], float) if mode == "known" else np.zeros(4)
            want = S[it] + np.array(rats(e["weights"])).T @ ((z - M[io])[:, None] - S[io]) + M[it][:, None]
            if mode == "known":
                r = attempt(m.conditional_sample_paths_parameterized_mean, sims, a["xi"], io, a["zi"], a["xt"], it, lam)
            else:
                r = attempt(m.conditional_sample_paths, sims, io, a["zi"], it, lam)
            out = [("conditional paths", r, want)]
        for name, got, want in out:
            rec.close(name, got, want, **c)
            if not is_err(got):
                results.append((got, tonp(got).copy()))
        rec.close("model parameters after a call", m.covparam, [th[st["theta"] - 1]], op=op, **c)
        if mode == "known":
            rec.close("mean parameters after a call", m.meanparam, [1.0], op=op, **c)
        for (name, v), b in zip(watched, before):
            rec.true(f"{name} is left alone", np.array_equal(tonp(v), b), v, op=op, **c)
    for v, b in results:
        if b is not None:
            rec.true("earlier results are not changed by later calls", np.array_equal(tonp(v), b), v, history=hist)


rec.each(rec.payload["cases"], fisher if WHAT == "fisher" else calls)
rec.done()
