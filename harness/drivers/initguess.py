"""Initial guesses from transformed and differently stored data."""
from base import *
import gpmp.core as gc
import gpmp.kernel as gk
from gpmp.dataloader import Dataset, DataLoader

rec = Recorder()


def model(kind):
    def cov(x, y, covparam, pairwise=False):
        return gk.maternp_covariance(x, y, 1, covparam, pairwise)
    if kind == "zero":
        return gc.Model(None, cov, meantype="zero")
    if kind == "parameter":
        return gc.Model(lambda x, p: p[0] * gnp.ones((x.shape[0],)), cov, meantype="parameterized")
    return gc.Model(lambda x, p: gnp.ones((x.shape[0], 1)), cov, meantype="linear_predictor")


MODELS = {k: model(k) for k in ("zero", "parameter", "unknown")}
BASE = {}


def base(d, k):
    if (d, k) not in BASE:
        r = np.random.default_rng([5, d, k])
        n = [5, 7, 9, 24][k]
        # well separated inputs keep the covariance matrices well conditioned
        x = np.stack([r.permutation(n) for _ in range(d)], axis=1)
        BASE[(d, k)] = (2 * (x + 0.4 * r.uniform(size=(n, d))) / n - 1, r.normal(size=n) + 0.5)
    return BASE[(d, k)]


def loader(x, z, store):
    n, s = len(z), min(store["shards"], len(z))
    cuts = [j * n // s for j in range(s + 1)]
    ds = Dataset(arr(x), arr(z)) if s == 1 else Dataset([arr(x[a:b]) for a, b in zip(cuts, cuts[1:])],
                                                        [arr(z[a:b]) for a, b in zip(cuts, cuts[1:])])
    if store["kind"] == "whole":
        return DataLoader(ds, batch_size=n + (s - 1), shuffle=store["shuffle"], seed=7)
    return DataLoader(ds, batch_size=store["bs"] if n < 20 else 5 * store["bs"], shuffle=False)


def guess(kind, x, z, store):
    m = MODELS[kind]
    f = {"zero": gk.anisotropic_parameters_initial_guess_zero_mean,
         "parameter": gk.anisotropic_parameters_initial_guess_constant_mean,
         "unknown": gk.anisotropic_parameters_initial_guess}[kind]
    if store["kind"] == "arrays":
        xa, za = arr(x), arr(z)
        r = f(m, xa, za)
        rec.true("data are unchanged", np.array_equal(tonp(xa), x) and np.array_equal(tonp(za), z))
    else:
        r = f(m, dataloader=loader(x, z, store))
    mean = None
    if kind == "parameter":
        mean, r = float(tonp(r[0]).reshape(-1)[0]), r[1]
    c = np.asarray(tonp(r), float)
    return mean, math.exp(c[0]), np.exp(-c[1:])


def one(case):
    d, kind, store, e = case["d"], case["mean"], case["store"], case["expect"]
    x0, z0 = base(d, case["k"] % 4)
    x, z = x0.copy(), z0.copy()
    rng = np.random.default_rng(case["k"])
    for h in case["hist"]:
        if h["op"] == "scale_z":
            z = z * rat(h["by"])
        elif h["op"] == "shift_z":
            z = z + rat(h["by"])
        elif h["op"] == "scale_x":
            x[:, h["j"] - 1] *= rat(h["by"])
        elif h["op"] == "shift_x":
            x[:, h["j"] - 1] += rat(h["by"])
        else:
            o = rng.permutation(len(z))
            x, z = x[o], z[o]
    ez, ex = case["unit"]["z"], case["unit"]["x"][:d]
    z, x = z * 2.0 ** ez, x * 2.0 ** np.array(ex)
    what = dict(d=d, mean=kind, store=store, hist=case["hist"], n=len(z), unit=case["unit"])
    ref = {"kind": "arrays"} if store["kind"] != "batches" else dict(store, shards=1)
    a = attempt(guess, kind, x0, z0, ref)
    b = attempt(guess, kind, x, z, store)
    if is_err(a) or is_err(b):
        return rec.bad("an initial guess is returned", "a guess", (a, b), **what)
    rec.close("guessed ranges follow the units of their coordinate", b[2],
              a[2] * [rat(t) * 2.0 ** s for t, s in zip(e["rmul"], ex)], 1e-7, 0, **what)
    if kind == "parameter":
        rec.close("the guessed mean follows the observations", b[0] / 2.0 ** ez, rat(e["mmul"]) * a[0] + rat(e["madd"]),
                  1e-5, 1e-5 * abs(rat(e["mmul"])) + 1e-8 * abs(rat(e["madd"])), **what)
    if e["var"]:
        rec.close("the guessed variance follows the square of the observation unit", b[1] / 4.0 ** ez, a[1] * rat(e["vmul"]),
                  3e-5, 0, **what)
    if store["kind"] == "arrays":
        g = math.exp(math.lgamma(d / 2 + 1) / d) / math.sqrt(math.pi)
        rec.close("guessed ranges are proportional to the extent of the inputs", b[2],
                  g * (x.max(axis=0) - x.min(axis=0)), 1e-9, 0, **what)


rec.each(rec.payload["cases"], one)
rec.done()
