"""Recorded Metropolis-Hastings runs, for validation against the specification."""
import contextlib
import io
from base import *
from gpmp.mcmc.mh import MetropolisHastings, MHOptions

rec = Recorder()
TR = rec.extra["trace"] = []


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


def real(c):
    """A default random walk on a density with an excluded region."""
    dim, n, N, B = c["dim"], c["n"], c["N"], c["B"]
    edge = c["edge"]

    def target(x):
        v = tonp(x).reshape(-1)
        if v[0] > edge:
            return arr(-math.inf)
        if v[0] < -edge:
            return arr(math.nan)
        return -0.5 * gnp.sum(gnp.asarray(x) ** 2)
    made = [[] for _ in range(n)]

    def propose(x, j):
        y = mh.default_prop_rnd(x, j)
        made[j].append((tonp(x).copy().reshape(-1), tonp(y).copy().reshape(-1)))
        return y
    mh = MetropolisHastings(target, prop_rnd=propose, options=MHOptions(
        dim=dim, n_chains=n, symmetric=c["symmetric"], adaptation_method=c["method"], adaptation_interval=c["I"],
        init_msg=None, proposal_distribution_param_init=arr(np.full(dim, c["width"]))))
    x0 = np.linspace(-0.5, 0.5, n * dim).reshape(n, dim)
    w = dict(case=c)
    o = quiet(mh.scheduler, arr(x0), N, B)
    if not rec.true("a run ends", not is_err(o), o, **w):
        return
    X, A, L = tonp(mh.x), tonp(mh.accept), tonp(mh.log_target_values)
    rec.close("chains start where asked", X[:, 0], x0, **w)
    lev = {}

    def exact(v):
        return -math.inf if v[0] > edge or v[0] < -edge else float(tonp(-0.5 * gnp.sum(arr(v) ** 2)))
    vals = sorted({exact(y) for m in made for _, y in m} | {exact(x) for m in made for x, _ in m})
    vals = [v for v in vals if v > -math.inf]
    rank = {v: i for i, v in enumerate(vals)}
    for j in range(n):
        ids = {}
        num = lambda v: ids.setdefault(tuple(v.tolist()), len(ids))
        rk = lambda v: rank.get(v, -1)
        tr = []
        if len(made[j]) != X.shape[1] - 1:
            rec.bad("one proposal per step", len(made[j]), X.shape[1] - 1, **w)
            continue
        for t, (x, y) in enumerate(made[j]):
            tr.append(dict(kind="step", prev=num(x), prop=num(y), next=num(X[j, t + 1]), pl=rk(float(L[j, t])),
                           yl=rk(exact(y)), nl=rk(float(L[j, t + 1])), a=int(A[j, t + 1])))
        TR.append(tr)


def freq(c):
    """Every proposal is worth a fixed fraction of the current density."""
    num, den, n = c["num"], c["den"], c["trials"]
    lev, count = {0.0: c["level"]}, [0]

    def propose(x, j):
        count[0] += 1
        lev[float(count[0])] = lev[float(tonp(x).reshape(-1)[0])] + math.log(num / den)
        return arr([float(count[0])])
    mh = MetropolisHastings(lambda x: arr(lev[float(tonp(x).reshape(-1)[0])]), prop_rnd=propose,
                            options=MHOptions(dim=1, n_chains=1, symmetric=c["symmetric"], init_msg=None,
                                              proposal_distribution_param_init=arr([1e8])))
    o = quiet(mh.scheduler, arr([0.0]), n, 0)
    if rec.true("a run ends", not is_err(o), o, case=c):
        TR.append([dict(kind="freq", num=num, den=den, trials=n, accepted=int(tonp(mh.accept)[0, 1:].sum()))])


def law(c):
    """On a flat target every proposal is accepted, so the moves are the proposals."""
    r = np.random.default_rng(c["seed"])
    d, n, N = c["dim"], c["n"], c["trials"]
    def spd():
        a = r.normal(size=(d, d))
        s = 10.0 ** r.uniform(-1, 1, d)
        m = a @ a.T + 0.2 * np.eye(d)
        q = s / np.sqrt(np.diag(m))
        return m * np.outer(q, q) * c["unit"] ** 2
    covs = [spd() for _ in range(n)]
    if c["form"] == "scales":
        p = np.diag(covs[0]).copy()
        covs = [np.diag(p)] * n
    elif c["form"] == "matrix":
        p = covs[0]
        covs = [p] * n
    else:
        p = np.stack(covs)
    mh = attempt(lambda: MetropolisHastings(lambda x: arr(0.5), options=MHOptions(dim=d, n_chains=n, symmetric=c["symmetric"], init_msg=None,
                                                                                  proposal_distribution_param_init=arr(p))))
    x0 = r.normal(size=(n, d)) * 5 * c["unit"]
    o = quiet(mh.scheduler, arr(x0), N, 0) if not is_err(mh) else mh
    if not rec.true("a run ends", not is_err(o), o, case=c):
        return
    X = tonp(mh.x)
    for j in range(n):
        dx = np.diff(X[j], axis=0)
        sd = np.sqrt(np.diag(covs[j]))
        q = lambda m: [[int(max(-10**4, min(10**4, round(1000 * v)))) for v in row] for row in m]
        TR.append([dict(kind="law", trials=dx.shape[0], mean=q([dx.mean(axis=0) / sd])[0], got=q(dx.T @ dx / len(dx) / np.outer(sd, sd)),
                        want=q(covs[j] / np.outer(sd, sd)))])
    if n > 1:
        e = np.diff(X, axis=1) / np.sqrt(np.array([np.diag(v) for v in covs]))[:, None, :]
        rec.true("chains propose independently", bool(np.abs((e[0] * e[1]).mean(axis=0)).max() < 7 / math.sqrt(N)), None, case=c)


def stop(c):
    """Walks on a few integers with stated acceptance: when does the burn-in end?"""
    r = np.random.default_rng(c["seed"])
    n, N, B, I = c["n"], c["N"], c["B"], c["I"]
    excluded = 99.0
    script = [[(float(r.integers(0, c["span"])) + c["lag"] * (j if t < c["late"] else 0))
               if r.random() < c["rate"] else excluded for t in range(N)] for j in range(n)]
    calls, pars = [0] * n, [[] for _ in range(n)]

    def propose(x, j):
        pars[j].append(tonp(mh.proposal_distribution_params[j]).copy())
        calls[j] += 1
        return arr([script[j][calls[j] - 1]])
    mh = MetropolisHastings(lambda x: -math.inf if float(tonp(x).reshape(-1)[0]) == excluded else 0.0, prop_rnd=propose,
                            options=MHOptions(dim=1, n_chains=n, target_acceptance=0.5, acceptance_tol=0.25, adaptation_method=c["method"],
                                              adaptation_interval=I, discard_burnin=True, sliding_rate_width=c["W"], init_msg=None))
    o = quiet(mh.scheduler, arr(np.zeros((n, 1))), N, B)
    if not rec.true("a run ends", not is_err(o), o, case=c):
        return
    x, a = tonp(mh.x)[:, :, 0], tonp(mh.accept)
    used = int(mh.burnin_period)
    late = sum(any(not np.array_equal(p, q[used]) for p in q[used:]) for q in pars if len(q) > used)
    m = min(x.shape[1], 1 + min(calls))
    TR.append([dict(kind="stop", I=I, B=B, N=N, W=c["W"], D=20 * I, den=4, low=1, high=3, used=used, recorded=x.shape[1],
                    returned=tonp(o).shape[1], late=int(late), calls=calls,
                    x=x[:, :m].astype(int).tolist(), acc=a[:, :m].astype(int).tolist())])
    rec.true("returned states are recorded ones", np.array_equal(tonp(o)[:, :, 0], x[:, used:used + tonp(o).shape[1]]), None, case=c)


rec.each(rec.payload["cases"], lambda c: {"real": real, "freq": freq, "law": law, "stop": stop}[c["kind"]](c), limit=60)
rec.done()
