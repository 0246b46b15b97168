from lib import dedupe, run_drivers


def run(ctx):
    a = ctx.tlc("EmpBounds", dict(Sizes="{1, 2, 3, 5, 8}", Dims="{1, 2, 3}", Draws=ctx.pick(3, 20), Spread=6), ["Ordered", "Emit"],
                properties=["Equivariant"], seed=ctx.seed + 5, workers=1)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["data_sets"] = len(e)
    cases = ctx.rng.sample(e, min(len(e), ctx.pick(900, 10**6)))
    run_drivers("empbounds", {"cases": [dict(c, seed=ctx.rng.randrange(10**6)) for c in cases]}, ctx)
