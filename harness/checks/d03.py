from lib import dedupe, run_drivers, validate_traces


def run(ctx):
    c = dict(MaxN=ctx.pick(6, 8), MaxShards=3)
    cases = dedupe(ctx.take(ctx.tlc("Batches", c, ["PassIsPartition", "Emit"])).emitted)
    big = []
    import random
    rng = random.Random(ctx.seed)
    for _ in range(ctx.pick(150, 1500)):
        sizes = [rng.randrange(0, 12) for _ in range(rng.randrange(1, 6))]
        sizes[rng.randrange(len(sizes))] += 1
        n = sum(sizes)
        big.append(dict(n=n, sizes=sizes, bs=rng.randrange(1, n + 3), drop=rng.random() < .4,
                        shuffle=rng.random() < .5))
    cases += dedupe(big)
    ctx.extra["configurations"] = len(cases)
    res = run_drivers("batches", {"cases": cases}, ctx)
    validate_traces(ctx, "BatchesTrace", c, res, workers=4)
