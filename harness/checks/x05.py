from lib import dedupe, run_drivers, validate_traces


def unimodal(b):
    """Coefficients rising then falling: one maximum."""
    d = [y - x for x, y in zip(b, b[1:]) if y != x]
    return all(not (u < 0 < v) for u, v in zip(d, d[1:]))


def run(ctx):
    a = ctx.tlc("Post1D", dict(Degrees="{0, 1, 2, 3}", Coefs="{0, 1, 4}", GridSizes="{3, 4, 5}", Expo="{0, 1, 3}", Moves=ctx.pick(2, 3)),
                ["LevelFree", "Monotone", "Mirror", "Ordered", "Positive", "Emit"], seed=ctx.seed)
    e = dedupe(ctx.take(a).emitted)
    poly = [t for t in e if t["kind"] == "poly"]
    grid = [t for t in e if t["kind"] == "grid"]
    ctx.extra["densities"] = len(poly)
    ctx.extra["weighted_grids"] = len(grid)
    reps = ctx.pick(1, 5)
    cases = []
    for g in (poly, grid):
        for r in range(reps):
            ctx.rng.shuffle(g)
            cases += [dict(t, k=k + 7 * r) for k, t in enumerate(g)]
    for k in range(ctx.pick(30, 300)):
        ds = [ctx.rng.choice(poly) for _ in range(ctx.rng.randint(1, 3))]
        cases.append(dict(table=ds, single=[unimodal(d["b"]) for d in ds], k=k))
    ctx.rng.shuffle(cases)
    run_drivers("post1d", {"cases": cases}, ctx, parts=2)
    # ingredients named by the call or read off the record of a fit
    items = '{"criterion", "reference", "model", "points"}'
    a = ctx.tlc("Sources", dict(Items=items, MaxCalls=2),
                ["NamedUsed", "RecordServes", "RefusedIffMissing", "MoreNeverHurts", "NoMemory", "Emit"], workers=2)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["pairs_of_calls"] = len(e)
    ctx.rng.shuffle(e)
    e = e[:ctx.pick(600, len(e))]
    cases = [dict(t, k=k, op="integrated" if k % 6 == 0 else "fast") for k, t in enumerate(e)]
    res = run_drivers("sources", {"cases": cases}, ctx, parts=2)
    validate_traces(ctx, "SourcesTrace", dict(Items=items, MaxCalls=0), res)
