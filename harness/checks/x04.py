from lib import dedupe, run_drivers


def run(ctx):
    a = ctx.tlc("Perf", dict(Sizes="{2, 3}", Vals="{0, 2, 5}", Errs="{0, 1, 3}", Draws=ctx.pick(6, 12), Rand=20),
                ["OrderFree", "Anchors", "Emit"], seed=ctx.seed + 8, workers=1)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["data_sets"] = len(e)
    cases = []
    pick = ctx.rng.sample(e, min(len(e), ctx.pick(700, 10**6)))
    for k, t in enumerate(pick):
        cases.append(dict(a=t, b=ctx.rng.choice(e), k=k))
    run_drivers("perf", {"cases": cases, "models": ctx.pick(12, 100)}, ctx, parts=2)
