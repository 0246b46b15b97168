from lib import dedupe, run_drivers

INV = ["Composes", "Emit"]


def run(ctx):
    ts = [ctx.tlc("InitGuess", dict(Depth=k, Rich="FALSE"), INV) for k in (0, 1)]
    ts.append(ctx.tlc("InitGuess", dict(Depth=ctx.pick(6, 9), Rich="TRUE"), INV,
                      simulate=ctx.pick(250, 2500), depth=12, seed=ctx.seed + 3))
    cases = []
    for t in ts[:2]:
        es = sorted(ctx.take(t).emitted, key=repr)
        ctx.extra["enumerated"] = ctx.extra.get("enumerated", 0) + len(es)
        cases += ctx.rng.sample(es, min(len(es), ctx.pick(6000, 10**6)))
    groups = {}
    for c in ctx.take(ts[2]).emitted:
        groups.setdefault(repr((c["unit"]["z"], c["unit"]["x"], c["d"], c["mean"], c["store"], c["hist"][:-1])), []).append(c)
    cases = sorted(cases, key=repr) + [ctx.rng.choice(g) for _, g in sorted(groups.items())]
    cases = dedupe(cases)
    for k, c in enumerate(cases):
        c["k"] = ctx.rng.randrange(1000)
    ctx.extra["histories"] = len(cases)
    run_drivers("initguess", {"cases": cases}, ctx, parts=ctx.pick(2, 4))
