from lib import dedupe, run_drivers


def run(ctx):
    funs = '{"twobumps", "wave", "braninhoo", "hartmann4", "hartmann6", "borehole", "detpep8d", "ishigami"}'
    a = ctx.tlc("Bench", dict(Funs=funs, Draws=ctx.pick(3, 30), Depth=4), ["Inside", "Emit"], seed=ctx.seed + 6, workers=1)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["batches"] = len(e)
    run_drivers("bench", {"cases": [dict(c, k=k, seed=ctx.rng.randrange(10**6)) for k, c in enumerate(e)]}, ctx)
