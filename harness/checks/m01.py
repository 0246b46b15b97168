from lib import dedupe, run_drivers, validate_traces

INV = ["Law", "Independent", "Never_down", "Frozen", "Retained", "Emit"]
KINDS = '{"up", "same", "drop", "ninf", "nan", "err"}'


def walks(ctx, sim, depth=3):
    """Every walk of one chain to a depth, short pairs, and sampled longer runs of several chains."""
    a = ctx.tlc("MH", dict(ChainsSet="{1}", Totals="{" + ", ".join(map(str, range(1, depth + 1))) + "}", Intervals="{2}", Widths="{2}", Kinds=KINDS,
                           Starts='{"live", "dead"}', Pools="{1}", Sampled="FALSE"), INV, workers=4)
    b = ctx.tlc("MH", dict(ChainsSet="{1, 2, 3, 4}", Totals="{2, 3, 4, 5, 6, 7, 8, 9}", Intervals="{1, 2, 3}", Widths="{0, 2, 5, 40}", Kinds=KINDS,
                           Starts='{"live", "live2", "dead"}', Pools="{1, 2}", Sampled="TRUE"), INV, simulate=sim, depth=16, seed=ctx.seed + 1)
    ex = dedupe(sorted(ctx.take(a).emitted, key=repr))
    sm = dedupe(sorted(ctx.take(b).emitted, key=repr))
    ctx.extra["exhaustive"] = len(ex)
    ctx.extra["sampled_runs"] = len(sm)
    return ex, sm


def run(ctx):
    ex, sm = walks(ctx, ctx.pick(1200, 12000))
    cases = ctx.rng.sample(ex, min(len(ex), ctx.pick(1500, 10**6))) + sm
    for k, c in enumerate(cases):
        c["k"] = k
    ctx.rng.shuffle(cases)
    run_drivers("mh", {"cases": cases, "what": "walk"}, ctx, parts=3)
    r = ctx.rng
    rec = []
    for k in range(ctx.pick(40, 400)):
        rec.append(dict(kind="real", dim=r.randint(1, 3), n=r.randint(1, 4), N=r.choice([20, 35, 60]), B=r.choice([0, 7, 20]),
                        I=r.choice([5, 10]), edge=r.choice([0.8, 1.5, 3.0]), symmetric=k % 3 > 0, method=r.choice(["RM", "Haario"]),
                        width=r.choice([0.01, 0.3, 4.0])))
    for k in range(ctx.pick(8, 40)):
        rec.append(dict(kind="freq", num=(1, 1, 3, 1)[k % 4], den=(2, 4, 4, 8)[k % 4], trials=2000, level=r.choice([0.0, -500.0, 800.0]),
                        symmetric=k % 2 == 0))
    for k in range(ctx.pick(9, 60)):
        rec.append(dict(kind="law", form=("scales", "matrix", "matrices")[k % 3], dim=1 + k % 3 if k % 3 != 1 else 2, n=1 + k % 4, trials=800,
                        unit=(1.0, 1e-3, 100.0)[k // 3 % 3], symmetric=k % 2 == 0, seed=r.randrange(10**6)))
    res = run_drivers("mhrun", {"cases": rec}, ctx, parts=2, tag="runs")
    validate_traces(ctx, "MHTrace", {}, res)
