from lib import run_drivers, validate_traces
from checks.m01 import walks


def run(ctx):
    ex, sm = walks(ctx, ctx.pick(900, 9000), depth=2)
    cases = ctx.rng.sample(ex, min(len(ex), 200)) + sm
    for k, c in enumerate(cases):
        c["k"] = k
    ctx.rng.shuffle(cases)
    run_drivers("mh", {"cases": cases, "what": "adapt"}, ctx, parts=3)
    r = ctx.rng
    rec = []
    for k in range(ctx.pick(120, 1500)):
        B = r.choice([10, 41, 44, 60, 61, 90])
        rec.append(dict(kind="stop", n=r.randint(1, 3), B=B, N=B + r.choice([0, 1, 5, 12]), I=2, W=r.choice([8, 20, 200]),
                        span=r.choice([2, 4]), lag=r.choice([0, 0, 3]), late=r.choice([0, 20, 200]), rate=r.choice([0.3, 0.5, 0.6]),
                        method=r.choice(["RM", "Haario"]), seed=r.randrange(10**6)))
    res = run_drivers("mhrun", {"cases": rec}, ctx, parts=2, tag="runs")
    validate_traces(ctx, "MHTrace", {}, res)
    early = [t[0]["used"] < t[0]["B"] for _, o in res for t in o["trace"]]
    ctx.extra["runs_stopped_early"] = sum(early)
    ctx.extra["runs_to_full_burn_in"] = len(early) - sum(early)
