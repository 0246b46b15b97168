from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    inv = ["EssBounds", "WholeFits", "Proportional", "DeadStays", "Emit"]
    a = ctx.tlc("SMC", dict(Sizes="{2, 3}", Levels="{0, 2}", Depth=2, Sampled="FALSE"), inv, workers=4)
    b = ctx.tlc("SMC", dict(Sizes="{3, 4, 5}", Levels="{0, 1, 2, 3}", Depth=3, Sampled="TRUE"), inv,
                simulate=ctx.pick(300, 3000), depth=8, seed=ctx.seed + 2)
    tune = ctx.tlc("SmcTune", dict(Max=ctx.pick(4, 6), Steps=3), ["Bounded", "ScaleIsNet", "Reason"], spec=("Spec",),
                   properties=["Ends", "Settled"])
    ex = dedupe(sorted(ctx.take(a).emitted, key=repr))
    groups = {}
    for h in ctx.take(b).emitted:
        groups.setdefault(repr((h["n"], h["lev"], h["hist"][:-1])), []).append(h)
    sm = [ctx.rng.choice(g) for _, g in sorted(groups.items())]
    ctx.extra["exhaustive"], ctx.extra["sampled_histories"] = len(ex), len(sm)
    r = ctx.rng
    cases = [dict(c, kind="exact", k=k, seed=r.randrange(10**6)) for k, c in
             enumerate(r.sample(ex, min(len(ex), ctx.pick(1500, 10**6))) + sm)]
    for n in (7, 10, 49, 98, 103, 107, 161, 187, 197, 300):
        for scheme in ("residual", "multinomial"):
            for mix in (0, 1):
                cases.append(dict(kind="large", n=n, scheme=scheme, mix=mix, seed=r.randrange(10**6)))
    for scheme in ("residual", "multinomial"):
        for num in ([1, 2, 1], [3, 1, 1, 1], [5, 2, 1], [1, 7]):
            cases.append(dict(kind="often", scheme=scheme, num=num, reps=ctx.pick(200, 1000), seed=r.randrange(10**6)))
    for k in range(ctx.pick(24, 200)):
        cases.append(dict(kind="moves", n=r.choice([5, 20, 60]), dim=r.randint(1, 3), edges=r.choice([2, 3, 5]), steps=5,
                          scheme=("residual", "multinomial")[k % 2], s=r.choice([0.01, 0.5, 3.0]), cov=("normal", "knn")[k % 3 == 0],
                          seed=r.randrange(10**6)))
    for k in range(ctx.pick(8, 60)):
        cases.append(dict(kind="stages", n=r.choice([30, 80]), dim=r.randint(1, 3), scheme=("residual", "multinomial")[k % 2],
                          cov=("normal", "knn")[k % 4 == 0], mh=r.choice([1, 3]), betas=[0.5, 1.0, 2.0, 1.5],
                          offset=r.choice([0.0, 0.0, -100.0, 900.0, -4000.0]), seed=r.randrange(10**6)))
    for k in range(ctx.pick(24, 200)):
        lo, hi = r.choice([(1517, 3011), (2519, 5023), (4013, 7511), (113, 9877), (2517, 2617)])
        cases.append(dict(kind="tuning", n=r.choice([20, 60, 150]), dim=r.randint(1, 3), scheme=("residual", "multinomial")[k % 2],
                          mh=r.choice([1, 2, 5]), lo=lo, hi=hi, factor=r.choice([1.4, 2.0, 3.0]), max=r.choice([1, 3, 12]),
                          s=r.choice([1e-4, 0.5, 30.0]), betas=r.choice([[0.5, 1.0, 2.0], [1.0, 0.25]]), seed=r.randrange(10**6)))
    for k in range(ctx.pick(8, 60)):
        cases.append(dict(kind="noise", dim=1 + k % 3, unit=(1.0, 1e-3, 1e3)[k % 3], s=r.choice([0.02, 0.5, 4.0]), cov=("normal", "knn")[k % 4 == 0],
                          seed=r.randrange(10**6)))
    cases.append(dict(kind="errors"))
    r.shuffle(cases)
    res = run_drivers("smc", {"cases": cases}, ctx, parts=3)
    validate_traces(ctx, "MHTrace", {}, res)
    validate_traces(ctx, "SmcTuneTrace", {}, res, key="tune")
    ctx.take(tune)
