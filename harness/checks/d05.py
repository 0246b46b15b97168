import random

from lib import dedupe, run_drivers


def run(ctx):
    a = ctx.tlc("Scaler", dict(MaxN=ctx.pick(4, 6), Values="{0, 3, 4, 7}"),
                ["RoundTrip", "Standard", "Emit"])
    b = ctx.tlc("Scaler", dict(MaxN=ctx.pick(6, 9), Values="{3, 8}"),
                ["RoundTrip", "Standard", "Emit"])
    cols = dedupe(ctx.take(a).emitted + ctx.take(b).emitted)
    rng = random.Random(ctx.seed)
    by = {}
    for c in cols:
        by.setdefault(len(c["col"]), []).append(c)
    cases = [[c] for c in cols]
    # several columns at once: each is scaled on its own
    for c in cols:
        k = rng.randrange(1, 3)
        cases.append([c] + [rng.choice(by[len(c["col"])]) for _ in range(k)])
    ctx.extra["columns"] = len(cols)
    run_drivers("scalers", {"cases": cases}, ctx)
