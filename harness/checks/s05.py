from lib import dedupe, run_drivers


def run(ctx):
    ts = []
    for mode in ("power", "barrier"):
        ts.append((mode, ctx.tlc("Priors", dict(Dims="{1, 2}", Grid=ctx.pick(4, 6) if mode == "power" else 4,
                                                Mode=f'"{mode}"'),
                                 ["PowerConcave", "PowerPenalty", "BarrierCentre", "Emit"], workers=3)))
    fi = ctx.tlc("Fisher", dict(N=2, Diag=ctx.pick("{1, 2}", "{1, 2, 3}"), Off="{0, 1, 2, 3}"), ["Theorems", "Emit"], workers=2)
    for mode, t in ts:
        cases = sorted(ctx.take(t).emitted, key=repr)
        ctx.extra[mode + "_cases"] = len(cases)
        one = [c for c in cases if len(c["p"]) == 2]
        two = [c for c in cases if len(c["p"]) > 2]
        cases = (ctx.rng.sample(one, min(len(one), ctx.pick(3000, 10**6)))
                 + ctx.rng.sample(two, min(len(two), ctx.pick(3000, 30000))))
        for k, c in enumerate(cases):
            c["k"] = k
        run_drivers("priors", {"cases": cases, "mode": mode, "designs": ctx.pick(200, 3000)}, ctx,
                    parts=ctx.pick(2, 4), tag=mode)
    cases = dedupe(ctx.take(fi).emitted)
    ctx.extra["reference_cases"] = len(cases)
    run_drivers("priors", {"cases": cases, "mode": "reference"}, ctx, tag="reference")
