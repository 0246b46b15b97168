"""Sessions of seeded draws, calls without randomness and operations with their own seed."""
import io
import types
from base import *
import gpmp.kernel as gk
from gpmp.dataloader import Dataset, DataLoader
from gpmp.mcmc import param_posterior as pp
from gpmp.mcmc.mh import MetropolisHastings, MHOptions
from gpmp.mcmc.nuts import nuts_sample

rec = Recorder()
rec.extra["trace"] = []
N = 24
X = np.arange(1.0, N + 1).reshape(-1, 1) / N
Z = np.sin(5 * X[:, 0])
XI, ZI, XT = arr(X[::4]), arr(Z[::4]), arr(X[1::5])


def kernel(x, y, covparam, pairwise=False):
    return gk.maternp_covariance(x, y, 1, covparam, pairwise)


def constant(x, _):
    return gnp.ones((x.shape[0], 1))


def model():
    return gpmp.Model(constant, kernel, None, arr([0.0, 1.0]), meantype="linear_predictor")


def flat(*v):
    return [float(t) for a in v for t in np.asarray(tonp(a), dtype=float).reshape(-1)]


def rows(*ds):
    return [t for d in ds for s in d.x_list for t in flat(s)] + [float(len(d)) for d in ds]


def data():
    return Dataset([arr(X[:10]), arr(X[10:])], [arr(Z[:10]), arr(Z[10:])])


def lp(t):
    return -0.5 * gnp.sum(t * t)


def chain():
    mh = MetropolisHastings(log_target=lambda t: float(lp(t)), options=MHOptions(dim=2, n_chains=2))
    mh.scheduler(arr([[0.1, 0.2], [0.3, -0.4]]), 12, 4)
    return flat(mh.x)


def posterior_chain():
    return flat(pp.sample_from_selection_criterion_mh(selection_criterion=lambda t: -lp(t), param_initial_states=arr([[0.1], [0.2]]), n_chains=2, n_steps_total=10,
                burnin_period=3, silent=True, show_progress=False, plot_chains=False, plot_empirical_distributions=False)[0])


def hamilton(**k):
    return flat(nuts_sample(lp, arr([[0.5, -0.5]]), num_samples=6, num_warmup=0, init_step_size=0.3, progress=False, verbose=0, **k)[0])


def cloud():
    i = types.SimpleNamespace(covparam=arr([0.5]), selection_criterion=lambda t: -lp(t), selection_criterion_nograd=lambda t: -lp(t))
    return flat(pp.sample_from_selection_criterion_svgd(i, n_particles=3, n_steps=2, progress=False)[0])


C2 = [[2.0, 0.5], [0.5, 1.0]]
DRAWS = dict(
    rand=lambda: flat(gnp.rand(2, 3)), rand1=lambda: flat(gnp.rand()), randn=lambda: flat(gnp.randn(4)), randn1=lambda: flat(gnp.randn()),
    choice=lambda: flat(gnp.choice(1000, size=5)), choice_p=lambda: flat(gnp.choice(40, size=8, p=np.full(40, 1 / 40))),
    few=lambda: flat(gnp.choice(1000, size=6, replace=False)), permutation=lambda: flat(gnp.permutation(30)), shuffled=lambda: flat(gnp.permutation(arr(X[:, 0]))),
    normal=lambda: flat(gnp.multivariate_normal.rvs(0.0, 4.0, n=3)), mvn=lambda: flat(gnp.multivariate_normal.rvs(arr([1.0, 2.0]), arr(C2), n=3)),
    paths=lambda: flat(model().sample_paths(XT, 2)), paths_svd=lambda: flat(model().sample_paths(XT, 2, method="svd")), chain=chain, posterior_chain=posterior_chain,
    hamilton=hamilton, cloud=cloud,
    split=lambda: rows(*Dataset.split(data(), (0.5, 0.25, 0.25))), folds=lambda: flat(*[v for p in Dataset.k_fold_indices(N, 3) for v in p]),
    shuffle=lambda: flat(*[b[0] for b in DataLoader(data(), batch_size=7, shuffle=True)]))
OWN = dict(
    split_seed=lambda s: rows(*Dataset.split(data(), (0.5, 0.25, 0.25), seed=s)), folds_seed=lambda s: flat(*[v for p in Dataset.k_fold_indices(N, 3, seed=s) for v in p]),
    repeated_seed=lambda s: flat(*[v for p in Dataset.repeated_k_fold_indices(N, 3, 2, seed=s) for v in p]),
    shuffle_seed=lambda s: flat(*[b[0] for b in DataLoader(data(), batch_size=7, shuffle=True, seed=100 * s)]), hamilton_seed=lambda s: hamilton(seed=s))


def conditional():
    m = model()
    p = m.predict(XI, ZI, XT, return_lambdas=True)
    return flat(*p)


CALLS = dict(
    predict=conditional, loo=lambda: flat(*model().loo(XI, ZI)), likelihood=lambda: flat(model().negative_log_restricted_likelihood(arr([0.0, 1.0]), XI, ZI)),
    fisher=lambda: flat(model().fisher_information(XI, arr([0.0, 1.0]))), select=lambda: flat(gk.select_parameters_with_reml(model(), XI, ZI)[0].covparam),
    guess=lambda: flat(gk.anisotropic_parameters_initial_guess(model(), XI, ZI)), plain=lambda: flat(*[b[0] for b in DataLoader(data(), batch_size=7, shuffle=False)]),
    statistics=lambda: flat(data().x_mean(), data().z_std(), data().x_quantile(0.3)), density=lambda: flat(gnp.multivariate_normal.logpdf(arr([[0.0, 1.0]]), arr([0.0, 0.0]), arr(C2))))

seen = {}
table = {}


def same(a, b):
    """Equal up to the rounding of sums."""
    return len(a) == len(b) and bool(np.allclose(a, b, rtol=1e-8, atol=1e-10, equal_nan=True))


def number(op, v):
    known = seen.setdefault(op, [])
    for k, w in enumerate(known):
        if same(w, v):
            return k + 1
    known.append(v)
    return len(known)


def one(h):
    tr, last, used = [], None, []
    for r in h:
        op, a = r["op"], r["arg"]
        if op == "seed":
            gnp.set_seed(int(a))
            last, used = a, []
            tr.append(dict(op=op, arg=a, value=0))
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            v = attempt(DRAWS.get(op) or CALLS.get(op) or (lambda: OWN[op](int(a))))
        if not rec.true("an operation of a session ends", not is_err(v) and len(v) > 0, v, op=op):
            return
        if op in DRAWS:
            if last:                                                    # across sessions too
                was = table.setdefault((op, last, tuple(used)), v)
                rec.true("the same seed and operations give the same result in every session", same(was, v), v, op=op, seed=last, after=used, first=was)
            used = used + [op]
        elif op in OWN:
            last = None
        tr.append(dict(op=op, arg=a, value=number(op, v)))
    rec.extra["trace"].append(tr)


rec.each(rec.payload["cases"], one)
rec.done()
