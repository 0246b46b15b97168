from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    w = dict(Warm="{1, 2, 3, 5, 8, 9, 13, 20, 21, 40, 64, 100, 127}", Inits="{0, 1, 3, 7}", Terms="{0, 1, 4, 10}", Bases="{1, 2, 5}")
    inv = ["Contains", "Full", "Steps", "Good", "Distinct", "Reversible", "Tiles", "Emit"]
    a = ctx.tlc("Nuts", dict(w, MaxDepth=3, Sampled=ctx.pick(150, 3000)), inv, workers=1, seed=ctx.seed)
    r = ctx.rng
    cases = []
    for k in range(ctx.pick(420, 6000)):
        t = r.choice(["gauss", "gauss", "quartic", "banana", "cut", "cut", "hole"])
        d = 2 if t == "banana" else r.randint(1, 3)
        cases.append(dict(kind="move", target=t, dim=d, eps=r.choice([0.1, 0.3, 0.7, 1.3, 1.9]), limit=r.choice([1, 2, 3, 4, 5]),
                          delta=r.choice([0.05, 0.5, 1000.0]), scales=[r.choice([0.5, 1.0, 2.0]) for _ in range(3)],
                          mass=[r.choice([0.5, 1.0, 1.0, 4.0]) for _ in range(3)], seed=r.randrange(10**6)))
    for k in range(ctx.pick(8, 60)):
        cases.append(dict(kind="flow", target=("gauss", "cut")[k % 2], n=ctx.pick(600, 2500), dim=1 + k % 3 // 2, scale=r.choice([1.0, 0.3, 20.0]),
                          eps=r.choice([0.5, 1.0, 1.5]), mass=r.choice([1.0, 4.0]), limit=r.choice([1, 2, 3]), seed=r.randrange(10**6)))
    for k in range(ctx.pick(24, 200)):
        t = ("gauss", "gauss", "cut", "banana")[k % 4]
        one = k % 4 == 1
        cases.append(dict(kind="run", target=t, dim=1 if one else 2 if t == "banana" else r.randint(1, 2), chains=1 if one else r.randint(1, 3),
                          warm=r.choice([0, 12, 23, 160, 230] if one else [0, 1, 4, 12, 23]), samples=25 if one else r.choice([0, 1, 6]), scales=[r.choice([0.3, 1.0, 3.0]), 1.0, 1.0],
                          limit=r.choice([0, 1, 3, 5]) if not one else 5, eps_min=r.choice([1e-6, 0.05]), eps_max=r.choice([100.0, 0.6]),
                          delta=r.choice([1000.0, 0.5]), jitter=r.choice([1e-4, 0.5]), seed=r.randrange(10**6)))
    cases += [dict(kind="limits", seed=k) for k in range(4)]
    cases += [dict(kind="tune", dim=r.randint(1, 3), scale=r.choice([0.1, 1.0, 5.0]), target=r.choice([0.8, 0.9]), eps=r.choice([0, 0, 0.01, 2.5]), seed=r.randrange(10**6))
              for _ in range(ctx.pick(6, 40))]
    cases += [dict(kind="masses", scales=r.choice([[1.0, 10.0], [0.02, 1.0], [100.0, 1.0, 5.0], [0.05], [30.0, 30.0]]), shift=(0.0, 100.0, -300.0, 1000.0)[k % 4], seed=r.randrange(10**6))
              for k in range(ctx.pick(4, 24))]
    cases += dedupe(ctx.take(a).emitted)
    r.shuffle(cases)
    ctx.extra["window_plans"] = sum(c["kind"] in ("fixed", "ratio") for c in cases)
    res = run_drivers("nuts", {"cases": cases}, ctx, parts=4)
    for q in ("diverged", "turned", "full"):
        ctx.extra["transitions_" + q] = sum(o.get(q, 0) for _, o in res)
    validate_traces(ctx, "NutsTrace", {}, res)
