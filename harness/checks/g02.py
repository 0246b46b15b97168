from lib import dedupe, run_drivers

def run(ctx):
    q = ctx.pick
    runs = [ctx.tlc("NumLayer", dict(Exact=q(4, 6), Draws=q(12, 60), Kind='"unary"'),
                    ["Consistent", "Emit"], seed=ctx.seed + 1),
            ctx.tlc("NumLayer", dict(Exact=q(4, 6), Draws=q(12, 60), Kind='"pair"'),
                    ["Emit"], seed=ctx.seed + 2),
            ctx.tlc("NumLayer", dict(Exact=0, Draws=q(40, 300), Kind='"system"'),
                    ["Emit"], seed=ctx.seed + 3)]
    cases = []
    for t in runs:
        got = dedupe(sorted(ctx.take(t).emitted, key=repr))
        ctx.extra[got[0]["kind"] + "_cases"] = len(got)
        cases += got
    ctx.rng.shuffle(cases)
    run_drivers("numlayer", {"cases": cases}, ctx, parts=ctx.pick(3, 4))
