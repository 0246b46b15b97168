from lib import dedupe, run_drivers


def run(ctx):
    runs = [ctx.tlc("Fisher", dict(N=3, Diag="{1, 2}", Off=ctx.pick("{1, 3}", "{1, 2, 3}")),
                    ["Theorems", "Loses", "Emit"], workers=4),
            ctx.tlc("Fisher", dict(N=2, Diag=ctx.pick("{1, 2, 3}", "{1, 2, 3, 4}"),
                                   Off="{0, 1, 2, 3}"), ["Theorems", "Loses", "Emit"], workers=4)]
    cases = []
    for r in runs:
        cases += ctx.take(r).emitted
    cases = dedupe(cases)
    ctx.extra["families"] = len(cases)
    run_drivers("kcalls", {"what": "fisher", "cases": cases}, ctx, parts=2)
