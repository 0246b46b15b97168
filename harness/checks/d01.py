from lib import dedupe, run_drivers

INV = ["Faithful", "LengthAgrees", "LookUpAgrees", "NoRowInvented", "Emit"]


def run(ctx):
    full = ctx.tlc("Dataset", dict(MaxN=ctx.pick(4, 5), MaxShards=ctx.pick(3, 4),
                                   MaxIdx=ctx.pick(2, 3), Depth=1), INV, workers=1)
    deep = ctx.tlc("Dataset", dict(MaxN=3, MaxShards=2, MaxIdx=ctx.pick(1, 2), Depth=2), INV)
    sim = ctx.tlc("Dataset", dict(MaxN=9, MaxShards=6, MaxIdx=9, Depth=3), INV,
                  spec=("SimInit", "SimNext"), simulate=ctx.pick(150, 2000), depth=6,
                  seed=ctx.seed)
    cases = []
    for t in (full, deep, sim):
        cases += ctx.take(t).emitted
    cases = dedupe(cases)
    ctx.extra["histories"] = len(cases)
    # the same facts with many rows and uneven shards
    big = []
    for n in ctx.pick((1500, 5000), (1500, 5000, 40000)):
        k = ctx.rng.randint(2, 6)
        cuts = sorted(ctx.rng.randint(0, n) for _ in range(k - 1))
        big.append({"n": n, "sizes": [b - a for a, b in zip([0] + cuts, cuts + [n])]})
    run_drivers("dataset", {"cases": [], "large": big}, ctx, tag="large")
    run_drivers("dataset", {"cases": cases}, ctx, parts=ctx.pick(2, 4))
