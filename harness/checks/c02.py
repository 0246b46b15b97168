from lib import dedupe, one_per_prefix, run_drivers


def run(ctx):
    a = ctx.tlc("GammaTable", dict(Orders="{0, 1, 3}", Depth=ctx.pick(3, 4)), ["Enough", "Emit"])
    b = ctx.tlc("GammaTable", dict(Orders="{0, 1, 2, 4, 9, 25}", Depth=12), ["Enough", "Emit"],
                simulate=ctx.pick(150, 1500), depth=14, seed=ctx.seed)
    cases = dedupe(ctx.take(a).emitted) + one_per_prefix(ctx, ctx.take(b).emitted)
    ctx.extra["histories"] = len(cases)
    run_drivers("kernels", {"what": "table", "cases": cases}, ctx, parts=2)
