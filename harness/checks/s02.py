from lib import one_per_prefix, run_drivers

INV = ["ExplicitWins", "Emit"]


def run(ctx):
    cases = []
    for kind in ("unknown", "parameter"):
        a = ctx.tlc("Selection", dict(Depth=1, Kind=f'"{kind}"'), INV, seed=ctx.seed + 5)
        b = ctx.tlc("Selection", dict(Depth=2, Kind=f'"{kind}"'), INV, seed=ctx.seed + 5)
        c = ctx.tlc("Selection", dict(Depth=ctx.pick(4, 6), Kind=f'"{kind}"'), INV,
                    simulate=ctx.pick(25, 250), depth=8, seed=ctx.seed + 2)
        one, two = (sorted(ctx.take(t).emitted, key=repr) for t in (a, b))
        ctx.extra[kind + "_depth1"], ctx.extra[kind + "_depth2"] = len(one), len(two)
        big = kind == "unknown"
        hs = ctx.rng.sample(one, min(len(one), ctx.pick(220 if big else 20, 10**6)))
        hs += ctx.rng.sample(two, min(len(two), ctx.pick(80 if big else 25, 800)))
        hs += one_per_prefix(ctx, ctx.take(c).emitted)
        cases += [{"kind": kind, "hist": h} for h in hs]
    ctx.rng.shuffle(cases)
    for c in cases:
        c["k"] = ctx.rng.randrange(24)
    ctx.extra["histories"] = len(cases)
    run_drivers("selection", {"cases": cases}, ctx, parts=3, timeout=840)
