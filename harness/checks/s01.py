from lib import run_drivers, validate_traces


def run(ctx):
    mc = ctx.tlc("AutoSelect", dict(Ranks=2, Points=3, Depth=ctx.pick(4, 5)),
                 ["AnswerIsRight", "OthersRejected"])
    sc = ctx.tlc("AutoSelect", dict(Ranks=3, Points=ctx.pick(5, 6), Depth=0), ["Emit"],
                 spec=("SInit", "SNext"))
    ctx.take(mc)
    scripts = sorted(ctx.take(sc).emitted)
    ctx.extra["scripts_in_the_model"] = len(scripts)
    scripts = ctx.rng.sample(scripts, min(len(scripts), ctx.pick(2500, 20000)))
    cases = [{"k": k, "script": s} for k, s in enumerate(scripts)]
    cases += [{"k": k} for k in range(ctx.pick(500, 4000))]
    ctx.extra["histories"] = len(cases)
    res = run_drivers("autoselect", {"cases": cases}, ctx, parts=ctx.pick(2, 4))
    validate_traces(ctx, "AutoSelectTrace", dict(Ranks=3, Points=1, Depth=1), res)
