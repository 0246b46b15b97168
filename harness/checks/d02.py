from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    c = dict(MaxN=ctx.pick(11, 16), Depth=ctx.pick(3, 4), Seeds="{0, 7, 1234}")
    a = ctx.tlc("Splits", c, ["SizesAddUp", "SingleDone"], spec=("Init", "Single"))
    b = ctx.tlc("Splits", c, ["MixedDone"], spec=("Init", "Mixed"))
    cases = dedupe(ctx.take(a).emitted + ctx.take(b).emitted)
    ctx.extra["histories"] = len(cases)
    res = run_drivers("splits", {"cases": cases}, ctx)
    validate_traces(ctx, "SplitsTrace", c, res,
                    describe=lambda v, got, f: f"{got['op']}: {f}")
