"""Metropolis-Hastings chains with stated proposals and target values."""
import contextlib
import io
from base import *
from gpmp.mcmc.mh import MetropolisHastings, MHOptions

rec = Recorder()
WHAT = rec.payload["what"]
NINF = -100000
KINDS = ("RM", "Haario")


def vec(p, dim):
    return [float(p), float((p * p) % 5)][:dim]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


def one(c):
    q, k = c["cfg"], c["k"]
    dim = 1 + k % 2
    n, N, B, I = q["n"], q["N"], q["B"], q["I"]
    method = KINDS[k // 2 % 2] if I * q["pool"] > 1 else "RM"
    unit = (1.0, 1e-3, 50.0)[k % 3]
    base = (0.0, 1e3, -1e3)[k // 3 % 3]
    tgt, fac, late = 0.25 + 0.125 * (k % 3), (1.0, 0.5)[k % 2], 0.75
    table, at = {}, {}
    for j in range(n):
        table[vec(c["xs"][j][0], 1)[0]] = ("start", c["lts"][j][0])
        for i, p in enumerate(c["props"][j]):
            table[float(10 * (j + 1) + i + 1)] = (p["kind"], p["lt"])
    bad_calls = []

    def target(x):
        v = tonp(x).reshape(-1)
        if v.shape[0] != dim:
            bad_calls.append(v.tolist())
        key = float(round(v[0] / unit))
        if key not in table:
            bad_calls.append(v.tolist())
            return 0.0
        kind, lt = table[key]
        if kind == "err":
            raise ArithmeticError("target")
        out = math.nan if kind == "nan" else -math.inf if lt == NINF else lt + base
        return [lambda: out, lambda: arr(out), lambda: arr([out])][k % 3]()

    count, seen, params, scales = [0] * n, [[] for _ in range(n)], [[] for _ in range(n)], [[] for _ in range(n)]

    def propose(x, j):
        count[j] += 1
        seen[j].append((tonp(x).reshape(-1) / unit).round().tolist())
        params[j].append(tonp(mh.proposal_distribution_params[j]).copy())
        return arr(np.array(vec(10 * (j + 1) + count[j], dim)) * unit)

    init = np.array([0.5, 2.0])[:dim] if k % 4 else np.diag([0.5, 2.0])[:dim, :dim] + (0.25 if dim == 2 else 0)
    if dim == 2 and k % 3 == 2:
        init = np.stack([np.diag([0.5, 2.0]) * (1 + j) for j in range(n)])      # one per chain
    first = 1.5 if k % 7 else 2.38 ** 2 / dim                               # the default
    opts = dict(dim=dim, n_chains=n, target_acceptance=tgt, adaptation_method=(method, method.lower())[k % 2],
                adaptation_interval=I, freeze_adaptation=q["freeze"], discard_burnin=q["discard"], n_pool=q["pool"],
                RM_adapt_factor=fac, RM_diminishing=bool(k // 4 % 2), haario_adapt_factor_burnin_phase=fac,
                haario_adapt_factor_sampling_phase=late, haario_initial_scaling_factor=1.5 if k % 7 else None, sliding_rate_width=q["W"],
                proposal_distribution_param_init=arr(init), init_msg=None)
    w = dict(cfg=q, method=method, dim=dim, props=c["props"], starts=[a[0] for a in c["lts"]])
    mh = attempt(lambda: MetropolisHastings(target, prop_rnd=propose, options=MHOptions(**opts)))
    if not rec.true("a sampler is built", not is_err(mh), mh, **w):
        return
    x0 = arr(np.array([vec(c["xs"][j][0], dim) for j in range(n)]) * unit)
    if n == 1 and k % 3 == 0:
        x0 = x0.reshape(-1)
    out = quiet(mh.scheduler, x0, N, B)
    if not rec.true("the run ends", not is_err(out), out, **w):
        return
    X = np.array([[vec(p, dim) for p in c["xs"][j]] for j in range(n)]) * unit
    if WHAT == "walk":
        rec.eq("the target is asked about whole positions only", bad_calls, [], **w)
        rec.close("states", mh.x, X, rtol=1e-12, **w)
        rec.eq("acceptance flags", tonp(mh.accept).tolist(), [[float(v) for v in a] for a in c["acc"]], **w)
        lt = np.array([[-math.inf if v == NINF else v + base for v in a] for a in c["lts"]])
        got = tonp(mh.log_target_values)
        rec.true("recorded log-targets", got.shape == lt.shape and np.array_equal(got, lt), [got.tolist(), lt.tolist()], **w)
        rec.eq("proposals start from the current state", [[tuple(v) for v in s] for s in seen],
               [[tuple(vec(p, dim)) for p in c["xs"][j][:-1]] for j in range(n)], **w)
        rec.close("sliding acceptance rates", mh.rates, [[rat(r) for r in a] for a in c["rates"]], rtol=1e-9, **w)
        want = np.array([[vec(p, dim) for p in c["out"][j]] for j in range(n)]).reshape(n, -1, dim) * unit
        rec.true("returned samples", tonp(out).shape == want.shape and np.allclose(tonp(out), want, rtol=1e-12, atol=0),
                 [tonp(out).tolist(), want.tolist()], **w)
        if N - B > 1:
            r = np.array([[rat(v) for v in a] for a in c["rates"]])[:, B:]
            g = quiet(mh.check_acceptance_rates, low_threshold=0.2, high_threshold=0.8)
            if rec.true("rates are reported", not is_err(g), g, **w):
                rec.close("extreme acceptance rates", [float(g["min_ar"]), float(g["max_ar"])], [r.min(), r.max()], rtol=1e-9, **w)
                edge = min(abs(r.min() - 0.2), abs(r.max() - 0.8)) < 1e-9
                rec.true("rates are judged", edge or bool(g["ok"]) == (r.min() >= 0.2 and r.max() <= 0.8), g, **w)
        # starting again from the same sampler repeats the walk
        if k % 5 == 0 and not any(p["kind"] == "drop" for a in c["props"] for p in a):
            count[:] = [0] * n
            out2 = quiet(mh.scheduler, x0, N, B)
            rec.true("a second run starts afresh", not is_err(out2) and np.array_equal(tonp(mh.x), X) or np.allclose(tonp(mh.x), X), out2, **w)
        return
    # adaptation
    want = [(init[j] if init.ndim == 3 else init).copy() for j in range(n)]
    scale = [first] * n
    ends = {a["at"]: a for a in c["adapt"]}
    for t in range(1, N + 1):
        for j in range(n):
            rec.close("proposal parameters in use", params[j][t - 1], want[j], rtol=1e-7, atol=1e-9 * unit ** 2, step=t, chain=j, **w)
        if t in ends:
            a = ends[t]
            for j in range(n):
                over = rat(a["rates"][j]) - tgt
                if method == "RM":
                    g = fac
                    if not a["late"] and opts["RM_diminishing"]:
                        g = fac * (0.1 + 0.9 * 0.5 * (1 + math.cos(math.pi * t / B)))
                    want[j] = want[j] * math.exp(g * over)
                else:
                    scale[j] *= math.exp((late if a["late"] else fac) * over)
                    cov = np.array([[rat(v) for v in r] for r in a["covs"][j]])[:dim, :dim] * unit ** 2
                    want[j] = scale[j] * cov + 1e-6 * np.eye(dim)
    for j in range(n):
        rec.close("proposal parameters at the end", mh.proposal_distribution_params[j], want[j], rtol=1e-7, atol=1e-9 * unit ** 2, chain=j, **w)
        if method == "Haario":
            rec.close("scale factors at the end", float(tonp(mh.haario_scaling_factors[j])), scale[j], rtol=1e-9, chain=j, **w)
    if N >= 2 and k % 2 == 0:
        diagnostics(mh, c["diag"], q, dim, unit, w)
    rec.eq("burn-in length", int(mh.burnin_period), B, **w)


def diagnostics(mh, d, q, dim, unit, w):
    """Convergence diagnostics and covariances of the recorded states."""
    n, N, B = q["n"], q["N"], q["B"]
    g = quiet(mh.compute_gelman_rubin_rhat)
    if n < 2 or N - B < 2:
        rec.raises("too few chains or states for the diagnostic", g, **w)
    elif d["rhat2"][0]:
        r = attempt(lambda: float(tonp(g).reshape(-1)[0]))
        rec.close("potential scale reduction", r, math.sqrt(rat(d["rhat2"])), rtol=1e-8, **w)
        every = tonp(g).reshape(-1)
        for thr in (1.1, 1.5, float(every.min() + every.max()) / 2 + 1e-9, float(every.max()) * 1.001):
            o = quiet(mh.check_convergence_gelman_rubin, burnin_period=B, threshold=thr)
            ok = attempt(lambda: bool(o["ok"]))
            rec.true("convergence is judged", not is_err(ok) and ok == bool((every < thr).all()), [o, thr], **w)
    for nb, key in ((1, "gaps1"), (2, "gaps2")):
        s = N if nb == 1 else N // 2
        want = np.array([[rat(v) for v in r] for r in d[key]])
        o = quiet(mh.ks_statistics, nb, s, alpha=0.3, return_statistic=True)
        if rec.true("block comparisons", not is_err(o), o, **w):
            ks, pv, sig = (tonp(v) for v in o)
            rec.true("block comparisons have one entry per pair", ks.shape == pv.shape == sig.shape == (dim,) + want.shape, ks.shape, **w)
            rec.close("largest gap between blocks", ks[0], want, rtol=1e-9, atol=1e-12, blocks=nb, **w)
            rec.true("gaps and levels agree", bool(np.all((want == 0) <= (pv[0] > 0.999))) and bool(np.all(sig == (pv < 0.3))) and np.allclose(pv, pv.transpose(0, 2, 1)), pv.tolist(), blocks=nb, **w)
    L = tonp(mh.x).shape[1]
    rec.true("as many states as the blocks need are enough", not is_err(quiet(mh.check_convergence_ks, 1, L, L, 0.3, 0.5)), L, **w)
    rec.raises("blocks longer than the chains are refused", quiet(mh.check_convergence_ks, 2, L, 1, 0.3, 0.5), **w)
    rec.raises("blocks longer than the chains are refused", quiet(mh.check_convergence_ks, 1, 1, L + 1, 0.3, 0.5), **w)
    o = quiet(mh.check_convergence_ks, 2, N // 2, N, 0.3, 0.5)
    if rec.true("a verdict on the blocks", not is_err(o), o, **w):
        fr = []
        for nb, s, key in ((2, N // 2, "multi_block"), (1, N, "single_block")):
            sig = tonp(quiet(mh.ks_statistics, nb, s, alpha=0.3)[1])
            k = sig.shape[1]
            off = [sig[a, i, j] for a in range(dim) for i in range(k) for j in range(k) if i != j]
            fr.append(float(np.mean(off)) if off else 0.0)
            rec.close("fraction of differing blocks", attempt(lambda: float(o[key]["frac_significant"])), fr[-1], rtol=1e-9, **w)
        rec.eq("the verdict follows the fractions", bool(o["ok"]), max(fr) < 0.5, **w)
    if N > B:
        sh = lambda m: np.array([[rat(v) for v in r] for r in m])[:dim, :dim] * unit ** 2
        o = quiet(mh.compute_empirical_covariance_whole_chain, n_pool=q["pool"])
        if rec.true("covariances by group", not is_err(o) and len(o) == len(d["cov"]), o, **w):
            for a, b in zip(o, d["cov"]):
                rec.close("covariance of a group", tonp(a).reshape(dim, dim), sh(b), rtol=1e-8, atol=1e-9 * unit ** 2, **w)
        if N - B > 1:
            o = quiet(mh.recompute_all_chains_full_covariance)
            for j in range(n):
                m = np.cov(tonp(mh.x)[j, B:].T, ddof=1).reshape(dim, dim)
                rec.close("proposals from the states after the burn-in", attempt(lambda: mh.proposal_distribution_params[j]),
                          2.38 ** 2 / dim * m + 1e-6 * np.eye(dim), rtol=1e-8, atol=1e-9 * unit ** 2, **w)
        o = quiet(mh.compute_empirical_covariance_whole_chain, pooled=True)
        rec.close("covariance of all chains", attempt(lambda: tonp(o).reshape(dim, dim)), sh(d["pooled"]), rtol=1e-8, atol=1e-9 * unit ** 2, **w)


rec.each(rec.payload["cases"], one)
rec.done()
