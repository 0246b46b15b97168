from lib import dedupe, run_drivers


def run(ctx):
    c = dict(RowPool='{"r4", "r5"}', ColPool='{"c3", "c4"}')
    a = ctx.tlc("Tables", dict(c, Depth=2, MaxRows=3, MaxCols=3), ["Shaped", "Emit"], properties=["Independent"], workers=4)
    b = ctx.tlc("Tables", dict(c, Depth=ctx.pick(12, 18), MaxRows=4, MaxCols=4), ["Shaped", "Emit"],
                simulate=ctx.pick(150, 1500), depth=25, seed=ctx.seed + 4)
    ex = dedupe(sorted(ctx.take(a).emitted, key=repr))
    ctx.extra["exhaustive"] = len(ex)
    ex = ctx.rng.sample(ex, min(len(ex), ctx.pick(2500, 10**6)))
    groups = {}
    for h in ctx.take(b).emitted:
        groups.setdefault(repr((h["start"], h["hist"][:-1])), []).append(h)
    cases = ex + [ctx.rng.choice(g) for _, g in sorted(groups.items())]
    ctx.extra["histories"] = len(cases)
    run_drivers("tables", {"cases": cases}, ctx, parts=2)
