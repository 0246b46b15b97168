from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    c = dict(Sizes="{2, 3}", Exps="{0, 1, 2}", Ends="{1, 3}", Needs="{2, 4, 6}")
    a = ctx.tlc("Temper", c, ["Increasing", "Within", "Decreasing"], properties=["Arrives"], spec=("Spec",), workers=3)
    b = ctx.tlc("Temper", dict(Sizes="{2, 3, 4, 5}", Exps="{0, 1, 2}", Ends="{1, 2, 3}", Needs="{1, 3, 4, 5, 7}"),
                ["Decreasing", "Emit"], constraint="First", workers=3)
    ctx.take(a)
    r = ctx.rng
    one = dedupe(ctx.take(b).emitted)
    ctx.extra["choices"] = len(one)
    cases = [dict(t, kind="choice", k=k) for k, t in enumerate(r.sample(one, min(len(one), ctx.pick(900, 10**6))))]
    for k in range(ctx.pick(150, 1500)):
        vals = [r.randint(0, 3) for _ in range(r.choice([2, 4, 7, 20]))]
        cases.append(dict(kind="jumps", vals=vals, need=r.choice([0.1, 0.3, 0.5, 0.75]), end=r.choice([0.5, 1.5, 2.5, 2.0]), k=k))
    for k in range(ctx.pick(12, 100)):
        t0, t1 = r.choice([(0.0, 1.0), (1.0, 0.0), (0.0, 1e-3), (5.0, 2000.0)])
        q = dict(n=r.choice([40, 100]), dim=r.randint(1, 2), rule=("ess", "p0")[k % 2], need=r.choice([0.3, 0.5, 0.7]),
                 sharp=r.choice([3.0, 100.0, 1e5]), t0=t0, t1=t1, mh=r.choice([1, 3]), seed=r.randrange(10**6), trunc=r.randint(0, 1))
        cases.append(dict(q, kind="whole"))
        cases.append(dict(q, kind="staged"))
    for k in range(ctx.pick(14, 100)):
        cases.append(dict(kind="subset", n=r.choice([200, 400]), dim=r.randint(1, 3), lo=r.choice([-2.0, 0.0]), width=r.choice([1.0, 4.0, 0.1]),
                          tail=("upper", "lower")[k % 2], law=("uniform", "triangular")[k % 3 == 2], mh=4, scheme=("residual", "multinomial")[k % 4 == 0],
                          fracs=r.choice([[-0.5], [0.5], [0.5, 0.75], [-1.0, 0.5, 0.75], [-2.0, -1.0], [0.5, 0.5], [0.3, 0.6, 0.6]])))
    r.shuffle(cases)
    res = run_drivers("temper", {"cases": cases}, ctx, parts=3)
    ctx.extra["recorded_stages"] = sum(o.get("stages", 0) for _, o in res)
    validate_traces(ctx, "TemperTrace", {}, res)
