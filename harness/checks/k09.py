from lib import dedupe, run_drivers, validate_traces

KINDS = ["zero", "known", "linear"]


def run(ctx):
    c = dict(Rows="{3, 4}", Cols="{1, 2}", Targets="{1, 3}")
    a = ctx.tlc("Shapes", dict(c, Depth=ctx.pick(3, 4)), ["ColumnFree", "Nested", "OneEach", "Noticed", "Emit"], workers=2)
    e = dedupe(ctx.take(a).emitted)
    ctx.extra["shapes"] = len(e)
    r = ctx.rng
    fit = [s for s in e if len(s["x"]) == 2 and (len(s["z"]) == 1 or s["z"][1:] == [1]) and s["x"][0] == s["z"][0] and len(s["t"]) == 2 and s["t"][1] == s["x"][1]]
    ctx.extra["fitting"] = len(fit)
    pool = [dict(s, op=op) for s in e for op in ("predict", "loo")]
    r.shuffle(pool)
    pool = pool[:ctx.pick(6000, 40000)]
    cases = []
    # unfitting requests with fitting ones in between
    for k in range(0, len(pool), 6):
        calls = pool[k:k + 6]
        for _ in range(3):
            calls.insert(r.randint(0, len(calls)), dict(r.choice(fit), op=r.choice(["predict", "loo"])))
        cases.append(dict(calls=calls, kind=KINDS[k // 6 % 3], seed=r.randrange(10**6)))
    res = run_drivers("shapes", {"cases": cases}, ctx, parts=2)
    ctx.extra["requests"] = sum(len(t) for _, o in res for t in o["trace"])
    validate_traces(ctx, "ShapesTrace", dict(c, Depth=0), res)
