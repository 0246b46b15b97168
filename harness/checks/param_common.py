from lib import one_per_prefix, run_drivers, sample_by_length


def run_focus(ctx, focus, depth, sim_depth, sims, budget):
    runs = []
    for t in (1, 2, 3):
        runs.append((t, True, ctx.tlc("Param", dict(Template=t, Focus=f'"{focus}"', Depth=depth, Every="TRUE"),
                                ["NamesUnique", "Emit"], properties=["Isolated"])))
        runs.append((t, False, ctx.tlc("Param", dict(Template=t, Focus=f'"{focus}"', Depth=sim_depth, Every="FALSE"),
                                ["NamesUnique", "Emit"], simulate=sims, depth=sim_depth + 2,
                                seed=ctx.seed + t)))
    cases = []
    for t, last, r in runs:
        got = ctx.take(r).emitted
        got = sample_by_length(ctx, got, budget) if last else one_per_prefix(ctx, got)
        cases += [{"template": t, "last_only": last, "hist": h} for h in got]
    ctx.extra["histories"] = len(cases)
    run_drivers("param", {"focus": focus, "cases": cases}, ctx, parts=ctx.pick(2, 4))
