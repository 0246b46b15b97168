"""Models whose covariance and mean are the tables of a Kriging world."""
from base import *
from gpmp.core import Model


def iarr(v):
    return np.array([int(t) - 1 for t in v])


def points(idx, dim=1, plain=False):
    """Points standing for 1-based indices: coordinates carry the index."""
    i = iarr(idx).astype(float).reshape(-1, 1)
    x = i if dim == 1 else np.hstack([i, 10.0 - 2.0 * i])
    return x if plain else arr(x)


def lookup(table):
    """cov(x, y, covparam, pairwise) reading a table; covparam[0] scales it."""
    t = arr(table)

    def cov(x, y, covparam, pairwise=False):
        if y is None:
            y = x
        ix = x[:, 0].long() if BACKEND == "torch" else np.asarray(x)[:, 0].astype(int)
        iy = y[:, 0].long() if BACKEND == "torch" else np.asarray(y)[:, 0].astype(int)
        if pairwise:
            return covparam[0] * t[ix, iy]
        return covparam[0] * t[ix][:, iy]

    return cov


def replicate(case, b):
    """The same world b times over, the copies independent of one another.

    Covariance, trend and answers become block diagonal (pairs of integers
    stay pairs); vectors are repeated.
    """
    n = len(case["w"]["g"])

    def block(m, zero):
        k = len(m[0])
        return [[zero] * (k * i) + row + [zero] * (k * (b - 1 - i)) for i in range(b) for row in m]
    w = case["w"]
    out = dict(case, w=dict(w, g=block(w["g"], 0), mu=w["mu"] * b,
                            p=block(w["p"], 0) if case["mode"] == "linear" else w["p"] * b))
    out["obs"] = [o + n * i for i in range(b) for o in case["obs"]]
    out["z"] = [z * b for z in case["z"]]
    for k in ("weights", "cov"):
        if k in case:
            out[k] = block(case[k], [0, 1])
    if "mean" in case:
        out["mean"] = [m * b for m in case["mean"]]
    if "loo" in case:
        out["loo"] = [m * b for m in case["loo"]]
    return out


def model_of(case, scale=1.0, mscale=1.0):
    w, mode = case["w"], case["mode"]
    cov = lookup(w["g"])
    if mode == "zero":
        return Model(None, cov, None, arr([scale]), "zero")
    tab = arr(w["p"]) if mode == "linear" else arr(w["mu"]).reshape(-1, 1)

    def mean(x, param):
        ix = x[:, 0].long() if BACKEND == "torch" else np.asarray(x)[:, 0].astype(int)
        return tab[ix] if mode == "linear" else param[0] * tab[ix]

    if mode == "linear":
        return Model(mean, cov, None, arr([scale]), "linear_predictor")
    return Model(mean, cov, arr([mscale]), arr([scale]), "parameterized")
