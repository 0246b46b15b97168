"""One SVGD update and whole SVGD runs."""
import contextlib
import io
import warnings
from base import *
from gpmp.mcmc.svgd import svgd_step, svgd_sample, rbf_kernel_matrix, SVGDOptions

warnings.simplefilter("ignore")
rec = Recorder()
LN2 = math.log(2.0)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f, *a, **k)


def target(c, k, unit=1.0):
    """b.x - a/2 |x|^2 with no density at the dead points (positions in `unit`)."""
    dead = [np.array(d, float) for d in c["dead"]]
    how = k % 4

    def f(t):
        v = tonp(t).reshape(-1) / unit
        if any(np.max(np.abs(v - d)) < 1e-3 for d in dead):
            if how == 3:
                raise ArithmeticError("no density here")
            bad = (-math.inf, math.nan, math.inf)[how]
            return gnp.sum(t) * 0.0 + bad
        return gnp.sum(arr(c["b"]) * t) / unit - 0.5 * c["a"] * gnp.sum(t * t) / unit**2
    return f


def args_of(c, k, unit):
    """Options giving the kernel 2^(-keff s)."""
    h = lambda q: unit**2 / (q * LN2)
    n = len(c["x"])
    o = {}
    if n in (1, 3, 7) and k % 3 == 0 and all(c["live"]) and c["med2"] > 0:
        # chosen by the median rule: median / log(n+1), scaled
        o["bandwidth_scale"] = math.log2(n + 1) / (c["k"] * c["med2"] / 2)
    else:
        s = (1.0, 0.25, 3.0)[k % 3]
        o.update(bandwidth=h(c["k"]) / s, bandwidth_scale=s)
    if c["kmin"]:
        o["bandwidth_min"] = h(c["kmin"])
    return o


def box_of(c, k, unit):
    if not c["box"]:
        return None
    lo, hi = (v * unit for v in c["box"])
    d = c["dim"]
    return ([lo, hi], [[lo] * d, [hi] * d], [[lo], [hi]], (arr([lo] * d), arr([hi] * d)))[k % 4]


def step(c):
    kernel(c)
    k = c["i"]
    unit = (1.0, 1.0, 1e-2, 100.0)[k % 4]       # of length
    eps, T = (0.1, 1.0, 0.01)[k % 3], (1.0, 4.0, 0.5)[(k // 3) % 3]
    pre = None if k % 2 else [(0.5, 2.0, 1.0)[(k + d) % 3] for d in range(c["dim"])]
    x = arr(np.array(c["x"], float).reshape(len(c["x"]), c["dim"]) * unit)
    before = tonp(x).copy()
    o = dict(step_size=eps * unit**2, temperature=T, preconditioner_diag=pre if pre is None else arr(pre),
             sampling_box=box_of(c, k, unit), **args_of(c, k, unit))
    w = dict(case={q: c[q] for q in ("x", "a", "b", "k", "kmin", "box", "dead")}, temperature=T, unit=unit)
    r = quiet(svgd_step, target(c, k, unit), x, **o)
    if not rec.true("an update is made", not is_err(r), r, **w):
        return
    y, info = r
    y = tonp(y)
    at = np.array(c["at"], float).reshape(len(c["x"]), c["dim"]) * unit
    live = np.array(c["live"], bool)
    sc = 2.0 ** c["cap"] * max(int(live.sum()), 1)
    v = (np.array(c["pull"], float) / T / unit + 2 * c["keff"] * LN2 * np.array(c["push"], float) / unit) / sc
    v = v.reshape(at.shape) * (1.0 if pre is None else np.array(pre))
    want = at + eps * unit**2 * v
    if c["box"]:
        want = np.clip(want, c["box"][0] * unit, c["box"][1] * unit)
        rec.true("particles stay in the box", bool(((y >= c["box"][0] * unit) & (y <= c["box"][1] * unit)).all()), y.tolist(), **w)
    # finite differences of the density limit what can be compared
    rec.close("particles move by the update", y, want, rtol=1e-6, atol=1e-6 * unit, **w)
    rec.close("particles without density stay", y[~live], at[~live], rtol=0, atol=0, **w)
    rec.eq("the live particles are known", [bool(q) for q in tonp(info["alive_mask"])], [bool(q) for q in live], **w)
    rec.close("the caller's particles are not changed", x, before, rtol=0, atol=0, **w)
    perm = np.random.default_rng(k).permutation(len(before))
    r2 = quiet(svgd_step, target(c, k, unit), arr(before[perm]), **o)
    if rec.true("an update is made", not is_err(r2), r2, **w):
        rec.close("the order of particles does not matter", r2[0], y[perm], rtol=1e-9, atol=1e-9 * unit, **w)


def kinks(c):
    """A density without slope at some particles: positions stay finite, the slopes there count for nothing."""
    g = np.random.default_rng(c["seed"])
    n, d = 4, 2
    x = g.uniform(-1, 1, (n, d))
    x[0] = 0.0
    x[1, 0] = 0.0

    def f(t):
        return gnp.sum(1.5 * t) - gnp.sum(gnp.sqrt(gnp.abs(t)))
    r = quiet(svgd_step, f, arr(x), step_size=0.1, bandwidth=1.0)
    if not rec.true("an update is made", not is_err(r), r, seed=c["seed"]):
        return
    y = tonp(r[0])
    rec.true("positions stay finite", bool(np.isfinite(y).all()), y.tolist(), seed=c["seed"])
    if BACKEND == "torch":
        with np.errstate(all="ignore"):
            sl = 1.5 - np.sign(x) * 0.5 / np.sqrt(np.abs(x))
        sl[x == 0] = 0.0
        D = x[:, None] - x[None]
        K = np.exp(-(D ** 2).sum(2) / 1.0)
        want = x + 0.1 * (K @ sl + 2 * (K[:, :, None] * D).sum(1)) / n
        rec.close("slopes that do not exist count for nothing", y, want, rtol=1e-9, atol=1e-12, seed=c["seed"])


def kernel(c):
    """The kernel of the particles, whatever the unit of length."""
    k = c["i"]
    unit = 2.0 ** (-18, -9, 0, 12)[np.random.default_rng(k).integers(4)]
    at = np.array(c["at"], float).reshape(len(c["at"]), c["dim"])
    sq = ((at[:, None] - at[None]) ** 2).sum(axis=2)
    w = dict(case={q: c[q] for q in ("at", "k", "kmin")}, unit=unit)
    r = quiet(rbf_kernel_matrix, arr(at * unit), **args_of(c, k, unit))
    if not rec.true("a kernel is found", not is_err(r), r, **w):
        return
    rec.close("the kernel is that of the bandwidth", r[0], 2.0 ** (-c["keff"] * sq), rtol=1e-9, atol=1e-12, **w)
    rec.close("squared distances", r[1], sq * unit**2, rtol=1e-9, **w)


def plan(c):
    """A whole run is its updates, each at its scheduled temperature."""
    k = c["i"]
    g = np.random.default_rng(rec.seed * 7919 + k)
    n, d = int(g.integers(1, 5)), int(g.integers(1, 3))
    x0 = g.uniform(-2, 2, (n, d))
    box = None if k % 2 else [-1.5, 1.0]
    keep = bool(k % 3)
    f = lambda t: -gnp.sum((t - 0.3) ** 2) if k % 4 else -gnp.sum((t - 0.3) ** 4)
    geo = c["schedule"] == "geometric"
    temps = [2.0 ** rat(t) if geo else rat(t) for t in c["temps"]]
    ns = len(temps)
    common = dict(step_size=0.05, bandwidth=None if k % 5 else 1.5, bandwidth_scale=1.3, bandwidth_min=0.2, sampling_box=box)
    opt = SVGDOptions(n_steps=ns, initial_temperature=2.0 ** c["t0"], final_temperature=2.0 ** c["t1"],
                      annealing_schedule=c["schedule"], store_particles_history=keep, verbose=k % 2, progress=True, log_every=2, **common)
    w = dict(case=c)
    r = quiet(svgd_sample, f, arr(x0 if n > 1 or k % 2 else x0[0]), options=opt)
    if not rec.true("a run ends", not is_err(r), r, **w):
        return
    y, info = r
    cur, hist, lps = arr(x0), [x0], []
    for t in temps:
        o = quiet(svgd_step, f, cur, temperature=t, **common)
        if not rec.true("an update is made", not is_err(o), o, **w):
            return
        before = tonp(cur) if box is None else np.clip(tonp(cur), *box)
        lps.append([float(tonp(f(arr(v)))) / t for v in before])
        cur = o[0]
        hist.append(tonp(cur))
    rec.close("a run is its updates", y, tonp(cur), rtol=1e-9, atol=1e-12, **w)
    rec.close("the temperatures are those of the schedule", tonp(info["temperature_trace"]).reshape(-1), np.array(temps), rtol=1e-12, **w)
    if ns:
        rec.close("recorded log-densities are those at the temperature", info["log_prob_trace"], np.array(lps), rtol=1e-9, atol=1e-12, **w)
    rec.close("the final log-densities are those of the target", info["log_prob_final"], np.array([float(tonp(f(arr(v)))) for v in tonp(y)]),
              rtol=1e-9, atol=1e-12, **w)
    rec.close("the final particles are recorded", info["particles_final"], tonp(y), rtol=0, atol=0, **w)
    if keep:
        rec.close("the history holds every stage", info["particles_history"], np.stack(hist), rtol=1e-9, atol=1e-12, **w)
    if box is not None and ns:
        rec.true("particles stay in the box", bool(((tonp(y) >= box[0]) & (tonp(y) <= box[1])).all()), None, **w)
    lo, hi = [-3.0] * d, [-2.0] * d
    q = quiet(svgd_sample, f, n_particles=n, dim=d, init_box=[lo, hi] if k % 2 else [-3.0, -2.0], options=SVGDOptions(n_steps=0))
    if rec.true("a run ends", not is_err(q), q, **w):
        z = tonp(q[0])
        rec.true("initial particles are drawn in the box", z.shape == (n, d) and bool(((z >= -3) & (z <= -2)).all()), z.tolist(), **w)


KIND = dict(step=step, plan=plan, kinks=kinks)
rec.each(list(enumerate(rec.payload["cases"])), lambda ic: KIND[ic[1]["kind"]](dict(ic[1], i=ic[1].get("i", ic[0]))), limit=30)
rec.done()
