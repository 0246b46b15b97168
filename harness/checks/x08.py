from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    a = ctx.tlc("Plots", dict(Kinds='{"criterion", "prediction", "ecdf"}', Draws=ctx.pick(3, 12), MaxDim=4, Depth=2),
                ["Through", "Monotone", "Emit"], seed=ctx.seed + 4, workers=1)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["figures"] = len(e)
    r = ctx.rng
    cases = []
    for kind, n in (("criterion", ctx.pick(60, 1000)), ("prediction", ctx.pick(50, 800)), ("ecdf", ctx.pick(12, 60))):
        t = [c for c in e if c["kind"] == kind]
        cases += r.sample(t, min(len(t), n))
    cases += [dict(kind=q) for q in ("bands", "loo", "figure") for _ in range(ctx.pick(8, 40))]
    cases += [dict(kind="map") for _ in range(ctx.pick(12, 60))]
    run_drivers("plots", {"cases": [dict(c, seed=r.randrange(10**6)) for c in cases]}, ctx, parts=2)
    # cross sections of the criterion and reference named by the call or read off the record of a fit
    items = '{"criterion", "reference"}'
    a = ctx.tlc("Sources", dict(Items=items, MaxCalls=2),
                ["NamedUsed", "RecordServes", "RefusedIffMissing", "MoreNeverHurts", "NoMemory", "Emit"], workers=1)
    e = dedupe(ctx.take(a).emitted)
    r.shuffle(e)
    cases = [dict(t, k=k, op="sections") for k, t in enumerate(e)]
    res = run_drivers("sources", {"cases": cases[:ctx.pick(40, len(cases))]}, ctx, parts=1)
    validate_traces(ctx, "SourcesTrace", dict(Items=items, MaxCalls=0), res)
