from lib import dedupe, run_drivers

INV = ["Adjacent", "Length", "Relative", "Emit"]


def run(ctx):
    c = dict(Range=2, Spreads="{1, 3}", MaxPieces=4)
    a = ctx.tlc("Scores", dict(c, Depth=ctx.pick(2, 3)), INV, workers=4)
    b = ctx.tlc("Scores", dict(c, Depth=6, Range=4, MaxPieces=5), INV, simulate=ctx.pick(60, 600), depth=9, seed=ctx.seed + 6)
    ex = dedupe(sorted(ctx.take(a).emitted, key=repr))
    ctx.extra["exhaustive"] = len(ex)
    # every first score, with a sampled ending
    groups = {}
    for k in ex:
        groups.setdefault(repr(k["base"]), []).append(k)
    cases = [ctx.rng.choice(g) for _, g in sorted(groups.items())]
    cases += ctx.rng.sample(ex, min(len(ex), ctx.pick(300, 20000)))
    sim = dedupe(ctx.take(b).emitted)
    cases += ctx.rng.sample(sim, min(len(sim), ctx.pick(300, 20000)))
    cases = dedupe(cases)
    for k, t in enumerate(cases):
        t["k"] = k
    run_drivers("scores", {"cases": cases}, ctx, parts=3)
