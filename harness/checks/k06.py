from lib import one_per_prefix, run_drivers, sample_by_length


def run(ctx):
    runs = []
    for mode in ("zero", "known", "linear"):
        c = dict(Mode=f'"{mode}"')
        runs.append((mode, ctx.tlc("Calls", dict(c, Depth=ctx.pick(2, 3)), ["Memoryless", "Table", "Emit"], workers=2),
                     ctx.tlc("Calls", dict(c, Depth=15), ["Memoryless", "Emit"], simulate=ctx.pick(60, 500), depth=17,
                             seed=ctx.seed)))
    n = 0
    for mode, full, sim in runs:
        got = ctx.take(full).emitted
        world = [g for g in got if isinstance(g, dict)]
        if len(world) != 1:
            raise RuntimeError("no answer table")
        hists = sample_by_length(ctx, [g for g in got if isinstance(g, list)], ctx.pick(500, 4000))
        hists += one_per_prefix(ctx, ctx.take(sim).emitted)
        n += len(hists)
        run_drivers("kcalls", {"what": "calls", "mode": mode, "world": world[0], "cases": hists}, ctx, tag=mode,
                    parts=ctx.pick(2, 4))
    ctx.extra["histories"] = n
