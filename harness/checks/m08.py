from lib import run_drivers, validate_traces


def run(ctx):
    inv = ["Connected", "OneMarkPerStage", "AllMoves", "Between", "Everything"]
    a = ctx.tlc("RunPlots", dict(Length=ctx.pick(4, 6), Values="{0, 1, 3}"), inv, workers=2)
    r = ctx.rng
    s = lambda: r.randrange(10**6)      # noqa: E731
    cases = []
    for k in range(ctx.pick(12, 80)):
        d = 1 + k % 3
        total = r.choice([6, 11, 30])
        cases.append(dict(kind="chains", dim=d, chains=1 + k // 3 % 3, total=total, burn=r.choice([0, 1, total // 2]), rate=bool(k % 4),
                          params=None if k % 2 else r.sample(range(d), r.randint(1, d)), other=(None, 0, 2)[k // 4 % 3], bins=r.choice([2, 4, 8]),
                          spread=r.choice([2, 5]), seed=s()))
    for k in range(ctx.pick(20, 200)):
        cases.append(dict(kind="nuts", warm=r.randint(1, 12), samples=r.randint(1, 12), chains=r.choice([0, 1, 3]), window=r.choice([1, 2, 3, 5, 12]),
                          save=k % 10 == 0, seed=s()))
    for k in range(ctx.pick(16, 100)):
        d = 1 + k % 3
        some = lambda: r.sample(range(d), r.randint(1, d))      # noqa: E731
        cases.append(dict(kind="cloud", n=r.choice([1, 2, 5, 20]) if k % 4 else 7, dim=d, spread=r.choice([2, 6]), same=k % 5 == 0, dead=bool(k % 2), bins=r.choice([2, 4, 8]),
                          one=None if k % 4 == 3 else some(), pool=None if k % 4 == 2 else some(), seed=s()))
    for k in range(ctx.pick(4, 24)):
        cases.append(dict(kind="stages", dim=1 + k % 2, n=r.choice([40, 64]), sharp=r.choice([3.0, 60.0, 900.0]), spread=4, bare=bool(k % 2), seed=s()))
    r.shuffle(cases)
    ctx.take(a)
    res = run_drivers("runplots", {"cases": cases}, ctx, parts=2)
    ctx.extra["stages_drawn"] = sum(o.get("stages", 0) for _, o in res)
    ctx.extra["plots_decided"] = sum(len(o["trace"]) for _, o in res)
    validate_traces(ctx, "RunPlotsTrace", dict(Length=1, Values="{0}"), res)
