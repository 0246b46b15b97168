from lib import dedupe, run_drivers, validate_traces

FUNS = ["randunif", "ldrandunif", "maximinlhs", "maximinldlhs"]


def run(ctx):
    c = dict(Side=2)
    a = ctx.tlc("Designs", dict(c, Mode='"grid"', Dims="{1, 2, 3}", Levels=ctx.pick(3, 4), MaxPoints=1), ["Faces", "Emit"], workers=2)
    b = ctx.tlc("Designs", dict(c, Mode='"dist"', Dims="{1, 2}", Levels=1, MaxPoints=3), ["Ordered", "Emit"], workers=3)
    d = ctx.tlc("Designs", dict(c, Mode='"dist"', Dims="{3}", Levels=1, MaxPoints=ctx.pick(2, 3)), ["Ordered", "Emit"], workers=3)
    grids = dedupe(ctx.take(a).emitted)
    dists = dedupe(ctx.take(b).emitted + ctx.take(d).emitted)
    ctx.extra["grids"], ctx.extra["point_sets"] = len(grids), len(dists)
    grids = ctx.rng.sample(grids, min(len(grids), ctx.pick(1200, 10**6)))
    dists = ctx.rng.sample(dists, min(len(dists), ctx.pick(1200, 10**6)))
    for k, t in enumerate(dists):
        t["k"] = k
    for t in grids + dists:
        t["unit"] = ctx.rng.choice([0, -45, 30, -8])
    large = [dict(m=m, dim=d, unit=ctx.rng.choice([0, -45, 30]), seed=ctx.rng.randrange(10**6))
             for m, d in ((700, 1), (1500, 1), (30, 2), (45, 2), (11, 3)) for _ in range(ctx.pick(1, 4))]
    rnd = []
    for k in range(ctx.pick(400, 4000)):
        r = ctx.rng
        plain = r.random() < 0.7
        # the low-discrepancy hypercube optimises each of its candidates: few of them
        f = FUNS[3] if k % 25 == 0 else FUNS[k % 3]
        rnd.append(dict(f=f, dim=r.randint(1, 4), n=r.choice([1, 2, 3, 5, 8, 13, 30, 300] if k % 25 else [1, 2, 3, 5]), seed=r.randrange(10**6),
                        lo=[r.choice([-3, 0, 1, 1000] if plain else [0]) for _ in range(4)],
                        w=[r.choice([1, 0.001, 7, 2500] if plain else [2.0 ** -45, 2.0 ** 40]) for _ in range(4)], form=r.randint(0, 1),
                        iter=r.choice([1, 5, 20])))
    cases = [dict(t, kind=k) for k, g in (("random", rnd), ("large", large), ("grid", grids), ("dist", dists)) for t in g]
    res = run_drivers("designs", {"cases": cases, "side": 2}, ctx, parts=4, backends=("numpy",))
    validate_traces(ctx, "DesignsTrace", dict(Mode='"x"', Dims="{1}", Levels=1, Side=1, MaxPoints=1), res)
