"""Prediction, leave-one-out, likelihoods, conditioning on Kriging worlds."""
from kworld import *
import math

rec = Recorder()
WHAT = rec.payload["what"]
counter = [0]


def dim_of():
    counter[0] += 1
    return 1 + counter[0] % 2


def units(case):
    """Units of covariance and data, and the precision that survives them."""
    k = counter[0]
    s = 2.0 ** [0, 12, -12, 0, 30, -30, 3, -3][k % 8]
    t = 2.0 ** [0, 0, 9, -9, 20, -20, 0, 14, -14][k % 9]
    if case["mode"] == "linear":
        s = 2.0 ** [0, 8, -8, 0, 14, -14, 3, -3][k % 8]
    return s, t


def predict(case):
    counter[0] += 1
    at_scale(case, 1.0, 1.0)
    at_scale(case, *units(case))
    if counter[0] % 12 == 0:
        at_scale(replicate(case, 3 + counter[0] % 5), 1.0, 1.0)


def at_scale(case, s, t):
    m = model_of(case, s, t)
    n = len(case["w"]["g"])
    dim = dim_of()
    every = list(range(1, n + 1))
    xi, xt = points(case["obs"], dim), points(every, dim)
    cov = s * np.array(rats(case["cov"]))
    wts = np.array(rats(case["weights"]))
    c = dict(case=case, covariance_unit=s, data_unit=t)
    tol = dict(rtol=1e-8, atol=1e-9) if (s, t) == (1.0, 1.0) else dict(rtol=1e-7, atol=1e-8)
    tm, tv = dict(tol, atol=tol["atol"] * t), dict(tol, atol=tol["atol"] * s)
    for z, mean in zip(case["z"], case["mean"]):
        z, mean = t * np.array(z, float), t * np.array(rats(mean))
        r = attempt(m.predict, xi, arr(z), xt)
        if is_err(r):
            rec.bad("prediction is answered", "mean and variance", r, **c)
            continue
        rec.close("predicted mean", r[0], mean, **tm, **c)
        rec.close("predicted variance", r[1], np.diag(cov), **tv, **c)
        rec.true("variances are not negative", np.all(tonp(r[1]) >= 0), r[1], **c)
        r = attempt(m.predict, xi, arr(z), xt, True, False)
        if is_err(r):
            rec.bad("prediction with weights is answered", "mean, variance, weights", r, **c)
            continue
        rec.close("predicted mean with weights", r[0], mean, **tm, **c)
        rec.close("predicted variance with weights", r[1], np.diag(cov), **tv, **c)
        rec.close("weights", r[2], wts, **tol, **c)
        # as many targets as observations, at other places
        some = every[::-1][:len(case["obs"])]
        r = attempt(m.predict, xi, arr(z), points(some, dim))
        if is_err(r):
            rec.bad("prediction is answered", "mean and variance", r, targets=some, **c)
            continue
        rec.close("predicted mean", r[0], mean[iarr(some)], targets=some, **tm, **c)
        rec.close("predicted variance", r[1], np.diag(cov)[iarr(some)], targets=some, **tv, **c)
    if case["mode"] == "linear":
        call = m.kriging_predictor
    else:
        call = m.kriging_predictor_with_zero_mean
    for rt, want in ((-1, None), (0, np.diag(cov)), (1, cov)):
        r = attempt(call, xi, xt, rt)
        if is_err(r):
            rec.bad("predictor is answered", "weights and variance", r, return_type=rt, **c)
            continue
        rec.close("predictor weights", r[0], wts, return_type=rt, **tol, **c)
        if rt == -1:
            rec.true("no variance when none is asked for", r[1] is None, r[1], **c)
        else:
            rec.close("predictor variance" if rt == 0 else "posterior covariance", r[1], want, **tv, **c)


def loo(case):
    counter[0] += 1
    loo_at(case, 1.0, 1.0)
    loo_at(case, *units(case))
    if counter[0] % 12 == 0:
        loo_at(replicate(case, 3 + counter[0] % 20), 1.0, 1.0)


def loo_at(case, s, t):
    m = model_of(case, s, t)
    xi = points(case["obs"], dim_of())
    tol = dict(rtol=1e-8) if (s, t) == (1.0, 1.0) else dict(rtol=1e-7)
    c = dict(case=case, covariance_unit=s, data_unit=t)
    for z, want in zip(case["z"], case["loo"]):
        r = attempt(m.loo, xi, arr(t * np.array(z, float)))
        if is_err(r):
            rec.bad("leave-one-out is answered", "three vectors", r, **c)
            continue
        rec.close("leave-one-out prediction", r[0], [t * rat(v["mean"]) for v in want], atol=1e-8 * t, **tol, **c)
        rec.close("leave-one-out variance", r[1], [s * rat(v["var"]) for v in want], atol=1e-8 * s, **tol, **c)
        rec.close("leave-one-out error", r[2], [t * rat(v["err"]) for v in want], atol=1e-8 * t, **tol, **c)
        q = attempt(m.loo, tonp(xi), t * np.array(z, float), True, True)
        rec.true("plain arrays are returned on request", not is_err(q) and all(isinstance(v, np.ndarray) for v in q), q, **c)
        if not is_err(q):
            rec.close("leave-one-out with plain arrays", np.array([tonp(v) for v in q]), np.array([tonp(v) for v in r]), rtol=1e-12, atol=0, **c)


def scalar(v):
    """One-element results count as numbers."""
    if is_err(v):
        return v
    v = tonp(v)
    return v.reshape(()) if v.size == 1 else v


def nll(dof, det, quad):
    return 0.5 * (dof * math.log(2 * math.pi) + math.log(rat(det)) + rat(quad))


def lik_units(case):
    """Other units, and several independent copies of the world."""
    counter[0] += 1
    s, t = units(case)
    b = 1 + (counter[0] % 7 == 0) * (2 + counter[0] % 11)
    rep = replicate(case, b)
    m = model_of(rep, 1.0, t)
    xi = points(rep["obs"], dim_of())
    cp = arr([s])
    c = dict(case=case, covariance_unit=s, data_unit=t, copies=b)
    for z, quad in zip(rep["z"], case["quad"]):
        z = arr(t * np.array(z, float))
        q = b * t * t / s * rat(quad)
        want = 0.5 * (b * case["dof"] * math.log(2 * math.pi * s) + b * math.log(rat(case["det"])) + q)
        tol = dict(rtol=1e-7, atol=1e-7 * (1 + q))
        if case["mode"] == "zero":
            r = attempt(m.negative_log_likelihood_zero_mean, cp, xi, z)
            rec.close("squared norm, other units", scalar(attempt(m.norm_k_sqrd_with_zero_mean, xi, z, cp)), q, **tol, **c)
        elif case["mode"] == "known":
            r = attempt(m.negative_log_likelihood, arr([t]), cp, xi, z)
        else:
            r = attempt(m.negative_log_restricted_likelihood, cp, xi, z)
            rec.close("squared contrast norm, other units", scalar(attempt(m.norm_k_sqrd, xi, z, cp)), q, **tol, **c)
        rec.close("likelihood in other units", scalar(r), want, **tol, **c)


def lik(case):
    lik_units(case)
    m = model_of(case)
    mode = case["mode"]
    xi = points(case["obs"], dim_of())
    one = arr([1.0])
    for z, zs, quad in zip(case["z"], case["zshift"], case["quad"]):
        want = nll(case["dof"], case["det"], quad)
        if mode == "zero":
            rec.close("log-likelihood, zero mean", scalar(attempt(m.negative_log_likelihood_zero_mean, one, xi, arr(z))),
                      want, case=case)
            rec.close("squared norm, zero mean", scalar(attempt(m.norm_k_sqrd_with_zero_mean, xi, arr(z), one)), rat(quad),
                      case=case)
            r = attempt(m.k_inverses, xi, arr(z), one)
            if is_err(r):
                rec.bad("quadratic forms are answered", "three values", r, case=case)
                continue
            kinv = np.array(rats(case["kinv"]))
            rec.close("quadratic form", scalar(r[0]), rat(quad), case=case)
            rec.close("inverse times ones", r[1], rats(case["ones"]), case=case)
            rec.close("inverse times data", r[2], kinv @ np.array(z, float), case=case)
            # the parameter given with the call counts, not the stored one
            want4 = nll(case["dof"], [1, 1], [quad[0], 4 * quad[1]]) + 0.5 * (
                math.log(rat(case["det"])) + len(z) * math.log(4.0))
            rec.close("log-likelihood at another parameter",
                      scalar(attempt(m.negative_log_likelihood_zero_mean, arr([4.0]), xi, arr(z))), want4, case=case)
        elif mode == "known":
            rec.close("log-likelihood, given mean", scalar(attempt(m.negative_log_likelihood, one, one, xi, arr(z))), want,
                      case=case)
            shifted = np.array(z, float) + np.array([case["w"]["mu"][i - 1] for i in case["obs"]], float)
            rec.close("log-likelihood at another mean",
                      scalar(attempt(m.negative_log_likelihood, arr([2.0]), one, xi, arr(shifted))), want, case=case)
        else:
            for v in (z, zs):
                rec.close("restricted log-likelihood", scalar(attempt(m.negative_log_restricted_likelihood, one, xi, arr(v))),
                          want, data=v, case=case)
                rec.close("squared contrast norm", scalar(attempt(m.norm_k_sqrd, xi, arr(v), one)), rat(quad), data=v,
                          case=case)
            # another basis of the same trend space
            q = len(case["w"]["p"][0])
            T = np.array([[2.0, 1.0, 0.0], [0.0, -1.0, 1.0], [0.0, 0.0, 0.5]])[:q, :q]
            other = dict(case, w=dict(case["w"], p=(np.array(case["w"]["p"], float) @ T).tolist()))
            mo = model_of(other)
            rec.close("restricted log-likelihood in another trend basis",
                      scalar(attempt(mo.negative_log_restricted_likelihood, one, xi, arr(z))), want, case=case)
            rec.close("squared contrast norm in another trend basis", scalar(attempt(mo.norm_k_sqrd, xi, arr(z), one)),
                      rat(quad), case=case)


def indef(case):
    n = len(case["g"])
    w = {"g": case["g"], "p": [[1]] * n, "mu": [1] * n}
    xi = points(list(range(1, n + 1)))
    z = arr([1.0, -2.0, 0.5, 3.0][:n])
    one = arr([1.0])

    def check(what, v):
        ok = is_err(v)
        if not ok:
            v = float(scalar(v))
            ok = v == math.inf
        rec.true(what, ok, v, case=case)
    m = model_of({"w": w, "mode": "zero"})
    check("likelihood of an invalid covariance, zero mean", attempt(m.negative_log_likelihood_zero_mean, one, xi, z))
    m = model_of({"w": w, "mode": "known"})
    check("likelihood of an invalid covariance, given mean", attempt(m.negative_log_likelihood, one, one, xi, z))
    if case["trend"]:
        m = model_of({"w": w, "mode": "linear"})
        check("restricted likelihood of an invalid covariance",
              attempt(m.negative_log_restricted_likelihood, one, xi, z))
    if case["trend"] and not case.get("level"):
        # a large common variance leaves contrasts as they are: nearly singular, still no covariance
        for level in (1e3, 1e6, 1e9):
            indef(dict(case, g=(np.array(case["g"], float) + level).tolist(), level=level))


def paths(case):
    m = model_of(case)
    dim = dim_of()
    sims = np.array(case["sims"], float).T
    obs = case["obs"]
    xi = points(obs, dim)
    for ts, per_z in zip(case["targets"], case["paths"]):
        xt = points(ts, dim)
        if case["mode"] == "linear":
            lam = attempt(lambda: m.kriging_predictor(xi, xt, -1)[0])
        else:
            lam = attempt(lambda: m.kriging_predictor_with_zero_mean(xi, xt, -1)[0])
        if is_err(lam):
            rec.bad("weights are answered", "weights", lam, case=case)
            continue
        for z, want in zip(case["z"], per_z):
            w = np.array(rats(want)).T
            io, it = iarr(obs), iarr(ts)
            for form in ("vector", "column"):
                zz = arr(z) if form == "vector" else arr(z).reshape(-1, 1)
                s = arr(sims)
                if case["mode"] == "known":
                    r = attempt(m.conditional_sample_paths_parameterized_mean, s, xi, io, zz, xt, it, lam)
                else:
                    r = attempt(m.conditional_sample_paths, s, io, zz, it, lam)
                rec.close("conditional sample paths", r, w, data=form, targets=ts, case=case)
                rec.true("conditional sample paths are plain arrays unless asked otherwise", is_err(r) or type(r) is np.ndarray, type(r), case=case)
                rec.close("unconditional paths are left alone", s, sims, case=case)
            # one path at a time
            s1 = arr(sims[:, 2:3])
            if case["mode"] == "known":
                r = attempt(m.conditional_sample_paths_parameterized_mean, s1, xi, io, arr(z), xt, it, lam)
            else:
                r = attempt(m.conditional_sample_paths, s1, io, arr(z), it, lam)
            rec.close("one conditional sample path", r, w[:, 2:3], targets=ts, case=case)


def draws():
    """Unconditional paths: number, order of rows, covariance."""
    import gpmp.num as gnp
    tables = rec.payload["tables"]
    for k, g in enumerate(tables):
        n = len(g)
        case = {"w": {"g": g, "p": [[1]] * n, "mu": [1] * n}, "mode": "zero"}
        m = model_of(case)
        xt = points(list(range(1, n + 1)))
        for method in ("chol", "svd"):
            for nb in (1, 3):
                r = attempt(m.sample_paths, xt, nb, method)
                rec.eq("one column per path", list(tonp(r).shape) if not is_err(r) else r, [n, nb], table=g)
            for nb, idx in ((40000, list(range(n))), (40000, list(range(n))[::-1])):
                r = attempt(m.sample_paths, points([i + 1 for i in idx]), nb, method)
                if is_err(r):
                    rec.bad("sample paths are answered", "paths", r, table=g, method=method)
                    continue
                s = tonp(r)
                G = np.array(g, float)[np.ix_(idx, idx)]
                emp = s @ s.T / nb
                sd = np.sqrt((np.outer(np.diag(G), np.diag(G)) + G ** 2) / nb)
                rec.true("paths have the covariance of the model", np.all(np.abs(emp - G) <= 7 * sd + 1e-12),
                         emp.tolist(), table=g, method=method, order=idx)
                mu = s.mean(axis=1)
                rec.true("paths are centred", np.all(np.abs(mu) <= 7 * np.sqrt(np.diag(G) / nb)), mu.tolist(),
                         table=g, method=method)
                rec.true("paths differ", len({round(v, 12) for v in s[0]}) > nb // 2, None, table=g, method=method)
                lag = float(np.mean(s[0, 1:] * s[0, :-1])) / G[0, 0]
                rec.true("paths are independent", abs(lag) <= 7 / math.sqrt(nb), lag, table=g, method=method)
    # a singular covariance: exact linear dependencies hold on every path
    g = [[2, 1, 3], [1, 2, 3], [3, 3, 6]]
    m = model_of({"w": {"g": g}, "mode": "zero"})
    r = attempt(m.sample_paths, points([1, 2, 3]), 50, "svd")
    if is_err(r):
        rec.bad("paths of a singular covariance", "paths", r)
    else:
        s = tonp(r)
        rec.true("linear dependencies hold on every path", np.max(np.abs(s[0] + s[1] - s[2])) < 1e-6,
                 float(np.max(np.abs(s[0] + s[1] - s[2]))))


def regroup(item):
    case, pl = item["case"], item["plan"]
    m = model_of(case)
    perm = iarr(pl["perm"])
    obs = [case["obs"][k] for k in perm]
    form, kind = pl["form"]
    plain = kind == "plain"

    def give(z):
        v = np.array([z[k] for k in perm], float)
        v = v.reshape(-1, 1) if form == "column" else v
        return v if plain else arr(v)
    xi = points(obs, plain=plain)
    var = np.diag(np.array(rats(case["cov"])))
    c = dict(case=case, plan=pl)
    for z, mean in zip(case["z"], case["mean"]):
        mean = np.array(rats(mean))
        for g in pl["groups"]:
            ix = iarr(g)
            r = attempt(m.predict, xi, give(z), points(g, plain=plain))
            if is_err(r):
                rec.bad("prediction is answered", "mean and variance", r, **c)
                continue
            rec.close("mean in any arrangement", r[0], mean[ix], group=g, **c)
            rec.close("variance in any arrangement", r[1], var[ix], group=g, **c)
    if pl.get("many"):
        ts = [t for g in pl["groups"] for t in g] * pl["many"]
        for k in sorted({0, len(ts) // 3}):
            ts = ts[k:] + ts[:k]
            ix = iarr(ts)
            r = attempt(m.predict, xi, give(case["z"][0]), points(ts, plain=plain))
            if is_err(r):
                rec.bad("prediction of many targets is answered", "mean and variance", r, **c)
                continue
            rec.close("mean at many targets", r[0], np.array(rats(case["mean"][0]))[ix], targets=len(ts), **c)
            rec.close("variance at many targets", r[1], var[ix], targets=len(ts), **c)
    if case["loo"]:
        r = attempt(m.loo, xi, give(case["z"][0]))
        if is_err(r):
            rec.bad("leave-one-out is answered", "three vectors", r, **c)
        else:
            want = [case["loo"][k] for k in perm]
            rec.close("leave-one-out prediction in any order", r[0], [rat(t["mean"]) for t in want], **c)
            rec.close("leave-one-out variance in any order", r[1], [rat(t["var"]) for t in want], **c)
            rec.close("leave-one-out error in any order", r[2], [rat(t["err"]) for t in want], **c)
    if case["quad"]:
        want = nll(case["dof"], case["det"], case["quad"])
        one = arr([1.0])
        x = points(obs)
        z = arr([case["z"][0][k] for k in perm])
        if case["mode"] == "zero":
            r = attempt(m.negative_log_likelihood_zero_mean, one, x, z)
        elif case["mode"] == "known":
            r = attempt(m.negative_log_likelihood, one, one, x, z)
        else:
            r = attempt(m.negative_log_restricted_likelihood, one, x, z)
        rec.close("likelihood in any order", scalar(r), want, **c)


if WHAT == "draws":
    gnp.set_seed(rec.seed + 1) if hasattr(gnp, "set_seed") else None
    draws()
else:
    rec.each(rec.payload["cases"], {"predict": predict, "loo": loo, "lik": lik, "indef": indef, "paths": paths,
                                    "regroup": regroup}[WHAT])
rec.done()
