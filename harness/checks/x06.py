from lib import dedupe, run_drivers


def run(ctx):
    a = ctx.tlc("Report", dict(Draws=ctx.pick(4, 30), Dims="{1, 2, 3}", Rows=6), ["Spread", "Emit"],
                properties=["UnitFree", "OwnBounds"], seed=ctx.seed + 3, workers=1)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["reports"] = len(e)
    cases = ctx.rng.sample(e, min(len(e), ctx.pick(500, 10**6)))
    run_drivers("report", {"cases": [dict(c, k=k, seed=ctx.rng.randrange(10**6)) for k, c in enumerate(cases)],
                           "fits": ctx.pick(3, 12)}, ctx, parts=2)
