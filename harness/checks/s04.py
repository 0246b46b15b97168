from lib import dedupe, one_per_prefix, run_drivers

INV = ["AlwaysAdmissible", "ExactlyNamed", "Emit"]


def run(ctx):
    a = ctx.tlc("PriorDefaults", dict(Good=4, Bad=5, Depth=2, Rich="FALSE"), INV)
    b = ctx.tlc("PriorDefaults", dict(Good=4, Bad=5, Depth=ctx.pick(12, 20), Rich="TRUE"), INV,
                simulate=ctx.pick(500, 8000), depth=25, seed=ctx.seed + 1)
    ex = sorted(ctx.take(a).emitted, key=repr)
    ctx.extra["exhaustive"] = len(ex)
    ex = ctx.rng.sample(ex, min(len(ex), ctx.pick(3000, 30000)))
    cases = dedupe(ex + one_per_prefix(ctx, ctx.take(b).emitted))
    ctx.extra["histories"] = len(cases)
    run_drivers("prior_defaults", {"cases": cases}, ctx, parts=ctx.pick(2, 4))
