from lib import dedupe, run_drivers

INV = ["InOrder", "PosInRange", "Emit"]


def run(ctx):
    runs = []
    for w in (1, 2, 3):
        runs.append((w, ctx.tlc("LoaderMC", dict(MaxIts=2, Epochs="{0, 2}",
                     Depth=ctx.pick(4, 5), Which=w), INV,
                     properties=["EpochOnlyByExhaustion"], workers=1)))
    for w in (1, 2, 3, 4):
        runs.append((w, ctx.tlc("LoaderMC", dict(MaxIts=5, Epochs="{0, 1, 4}", Depth=30, Which=w),
                     INV, simulate=ctx.pick(150, 2000), depth=40, seed=ctx.seed + w)))
    cases = []
    for w, t in runs:
        for c in ctx.take(t).emitted:
            c["set"] = w
            cases.append(c)
    cases = dedupe(cases)
    ctx.extra["histories"] = len(cases)
    run_drivers("loader_hist", {"cases": cases}, ctx, parts=ctx.pick(2, 4))
