from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    c = dict(Chains="{1, 2, 3, 4}", Rows="{1, 2, 3, 4}", Cols="{1, 2, 3}", Values="{0, 1, 2, 3, 3, 4, 5, 6}", Side=3, Sampled=ctx.pick(200, 2000))
    a = ctx.tlc("Posterior", c, ["Rectangular", "OnePerChain", "NothingLost", "Emit"], workers=1, seed=ctx.seed)
    out = dedupe(ctx.take(a).emitted)
    forms = [t for t in out if t["kind"] == "form"]
    maps = [t for t in out if t["kind"] == "map"]
    maps = ctx.rng.sample(maps, min(len(maps), ctx.pick(100, 10**6)))
    ctx.extra["argument_shapes"], ctx.extra["criterion_tables"] = len(forms), len(maps)
    cases = forms + maps
    cases += [dict(kind="scalar", dim=1 + k % 3) for k in range(ctx.pick(10, 60))]
    cases += [dict(kind="model") for k in range(ctx.pick(2, 10))]
    ctx.rng.shuffle(cases)
    for i, t in enumerate(cases):
        t["i"] = i
    res = run_drivers("posterior", {"cases": cases}, ctx, parts=4)
    ctx.extra["recorded_samples"] = sum(o.get("recorded", 0) for _, o in res)
    validate_traces(ctx, "PosteriorTrace", {}, res)
