from lib import dedupe, run_drivers


def run(ctx):
    inv = ["Balanced", "Symmetric", "Inert", "Lonely", "Together", "Boxed", "Ends", "Emit"]
    out = []
    for n, dims, lo, hi, counts, cap in ((ctx.pick(500, 6000), "{1}", 1, 2, "{1, 2, 3}", 20), (ctx.pick(500, 6000), "{2}", 1, 1, "{2, 3, 4}", 20),
                                         (ctx.pick(120, 2000), "{1, 2, 3}", 1, 1, "{7, 10}", 22)):
        c = dict(Sampled=n, Counts=counts, Dims=dims, Lo=lo, Hi=hi, Cap=cap)
        out += ctx.take(ctx.tlc("SVGD", c, inv, workers=1, seed=ctx.seed)).emitted
    out = dedupe(out)
    plans = [t for t in out if t["kind"] == "plan"]
    steps = [t for t in out if t["kind"] == "step"]
    ctx.extra["updates"], ctx.extra["schedules"] = len(steps), len(plans)
    plans = ctx.rng.sample(plans, min(len(plans), ctx.pick(90, 10**6)))
    cases = steps + plans + [dict(kind="kinks", seed=ctx.rng.randrange(10**6)) for _ in range(ctx.pick(6, 40))]
    ctx.rng.shuffle(cases)
    for i, t in enumerate(cases):
        t["i"] = i
    run_drivers("svgd", {"cases": cases}, ctx, parts=3)
