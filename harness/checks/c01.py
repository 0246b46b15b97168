from lib import dedupe, run_drivers


def run(ctx):
    a = ctx.tlc("Matern", dict(MaxP=ctx.pick(3, 5), MaxPts=2, Grid="{0, 1, 3}"), ["Theorems", "Metric", "Emit"])
    b = ctx.tlc("Matern", dict(MaxP=8, MaxPts=7, Grid="{0, 1, 2, 5, 7}"), ["Theorems", "Metric", "Emit"],
                spec=("SimInit", "SimNext"), simulate=ctx.pick(40, 400), depth=12, seed=ctx.seed)
    full, sim = dedupe(ctx.take(a).emitted), dedupe(ctx.take(b).emitted)
    if len(full) > ctx.pick(2500, 10**6):
        full = ctx.rng.sample(full, 2500)
    ctx.extra["point_sets"] = len(full) + len(sim)
    run_drivers("kernels", {"what": "grid", "cases": full + sim}, ctx, parts=ctx.pick(2, 4))
