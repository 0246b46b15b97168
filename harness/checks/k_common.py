from lib import dedupe, run_drivers

MODES = '{"zero", "known", "linear"}'


def consts(what, N, sizes, diag="{1, 2}", off="{1, 2, 3}", shift=0, modes=MODES,
           trends='{"const", "affine", "slope"}'):
    return dict(N=N, Diag=diag, Off=off, Shift=shift, Modes=modes, Trends=trends,
                Sizes=sizes, What=f'"{what}"')


def worlds(ctx, what, theorems, sim=(30, 12)):
    """Exhaustive three-point worlds, conditionally positive ones, random larger ones."""
    inv = theorems + ["Emit"]
    # a full enumeration in the thorough tier, a coarser grid of factors otherwise
    off = ctx.pick("{1, 3}", "{1, 2, 3}")
    runs = [ctx.tlc("KrigingMC", consts(what, 3, "{1, 2, 3}", off=off), inv, workers=4),
            ctx.tlc("KrigingMC", consts(what, 3, "{2, 3}", shift=5, off=off, modes='{"linear"}',
                                        trends='{"const", "affine"}'), inv, workers=2)]
    for k, (N, sizes) in enumerate(((4, "{2, 3, 4}"), (5, "{3, 4}"))):
        runs.append(ctx.tlc("KrigingMC",
                            consts(what, N, sizes, trends='{"const", "affine", "slope", "quad"}'),
                            inv, spec=("SimInit", "SimNext"), simulate=sim[0] * ctx.pick(1, 8),
                            depth=sim[1], seed=ctx.seed + k))
    cases = []
    for r in runs:
        cases += ctx.take(r).emitted
    return dedupe(cases)
