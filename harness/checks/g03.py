from lib import dedupe, run_drivers


def run(ctx):
    inv, props = ["Fits", "Idempotent", "Emit"], ["OneWrite", "Kept"]
    a = ctx.tlc("Arrays", dict(Depth=2, Wide="FALSE"), inv, spec=("Init", "Next"), properties=props)
    b = ctx.tlc("Arrays", dict(Depth=ctx.pick(6, 8), Wide="TRUE"), inv, simulate=ctx.pick(60, 700), depth=12, seed=ctx.seed + 4)
    ex = sorted(ctx.take(a).emitted, key=repr)
    ctx.extra["exhaustive"] = len(ex)
    ex = ctx.rng.sample(ex, min(len(ex), ctx.pick(5000, 10**6)))
    groups = {}
    for h in ctx.take(b).emitted:
        groups.setdefault(repr(h["hist"][:-1]), []).append(h)
    long = [c for _, g in sorted(groups.items()) for c in ctx.rng.sample(g, min(len(g), 40))]
    cases = dedupe(ex + long)
    ctx.extra["programs"] = len(cases)
    run_drivers("arrays", {"cases": cases}, ctx, parts=2)
