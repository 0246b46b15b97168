from lib import dedupe, run_drivers

INV = ["Cyclic", "FullPass", "Together", "Emit"]


def run(ctx):
    a = ctx.tlc("BatchCrit", dict(MaxN=5, MaxBs=3, MaxBpe=3, Depth=ctx.pick(2, 3), Small="TRUE"), INV)
    b = ctx.tlc("BatchCrit", dict(MaxN=ctx.pick(8, 11), MaxBs=ctx.pick(4, 6), MaxBpe=ctx.pick(5, 9),
                                  Depth=ctx.pick(10, 16), Small="FALSE"), INV,
                simulate=ctx.pick(80, 600), depth=20, seed=ctx.seed + 5)
    ex, sim = ctx.take(a).emitted, ctx.take(b).emitted
    groups = {}
    for c in sim:
        groups.setdefault(repr((c["cfg"], c["hist"][:-1])), []).append(c)
    sim = [ctx.rng.choice(g) for _, g in sorted(groups.items())]
    ctx.extra["exhaustive"], ctx.extra["simulated"] = len(ex), len(sim)
    cases = dedupe(ex + sim)
    for k, c in enumerate(cases):
        c["k"] = k
        if k % 7 == 0:
            c["mlen"] = 1
    run_drivers("batchcrit", {"cases": cases}, ctx, parts=ctx.pick(2, 4))
