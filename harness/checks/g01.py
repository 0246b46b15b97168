from lib import dedupe, run_drivers

INV = ["Determined", "Emit"]


def run(ctx):
    c = dict(Detected='"torch"')
    props = ["Stable", "RefusedChangesNothing"]
    a = ctx.tlc("Config", dict(c, Depth=2, Rich="FALSE"), INV, properties=props)
    b = ctx.tlc("Config", dict(c, Depth=ctx.pick(14, 22), Rich="TRUE"), INV,
                simulate=ctx.pick(60, 800), depth=30, seed=ctx.seed + 9)
    ex = sorted(ctx.take(a).emitted, key=repr)
    ctx.extra["exhaustive"] = len(ex)
    ex = ctx.rng.sample(ex, min(len(ex), ctx.pick(4000, 10**6)))
    groups = {}
    for h in ctx.take(b).emitted:
        groups.setdefault(repr(h["hist"][:-1]), []).append(h)
    cases = dedupe(ex + [ctx.rng.choice(g) for _, g in sorted(groups.items())])
    ctx.extra["histories"] = len(cases)
    run_drivers("config", {"cases": cases}, ctx, parts=2)
