from lib import run_drivers, validate_traces

DRAWS = ["rand", "rand1", "randn", "randn1", "choice", "choice_p", "few", "permutation", "shuffled", "normal", "mvn", "paths", "paths_svd", "chain",
         "posterior_chain", "hamilton", "cloud", "split", "folds", "shuffle"]
CALLS = ["predict", "loo", "likelihood", "fisher", "select", "guess", "plain", "statistics", "density"]
OWN = ["split_seed", "folds_seed", "repeated_seed", "shuffle_seed", "hamilton_seed"]


def names(s):
    return "{" + ", ".join(f'"{v}"' for v in s) + "}"


def run(ctx):
    c = dict(Seeds="{1, 2}")
    a = ctx.tlc("Streams", dict(c, Depth=ctx.pick(5, 6), Draws=names(["rand", "chain"]), Calls=names(["predict"]), Own=names(["split_seed"])),
                ["Tracked", "Fresh"], workers=2)
    ctx.take(a)
    r = ctx.rng
    cases = []
    # the same operations after the same seed, with calls and other seeds in between; every pair of neighbours over all sessions
    pairs = [(p, q) for p in DRAWS for q in DRAWS]
    r.shuffle(pairs)
    size = 4
    for k in range(0, len(pairs), size):
        h = []
        for p, q in pairs[k:k + size]:
            own = [dict(op=r.choice(OWN), arg=r.choice([1, 2])) for _ in range(r.randint(0, 1))]
            h += own + [dict(op="seed", arg=1), dict(op=p, arg=0), dict(op=q, arg=0), dict(op=q, arg=0), dict(op=r.choice(OWN), arg=r.choice([1, 2])),
                        dict(op=r.choice(DRAWS), arg=0), dict(op=r.choice(CALLS), arg=0), dict(op="seed", arg=1), dict(op=r.choice(CALLS), arg=0),
                        dict(op=p, arg=0), dict(op=r.choice(CALLS), arg=0), dict(op=q, arg=0), dict(op="seed", arg=2), dict(op=p, arg=0), dict(op=q, arg=0)]
        cases.append(h)
    for _ in range(ctx.pick(10, 120)):
        h = [dict(op="seed", arg=1)]
        few = r.sample(DRAWS, 3)
        for _ in range(40):
            w = r.random()
            h.append(dict(op="seed", arg=r.choice([1, 2])) if w < 0.25 else dict(op=r.choice(few), arg=0) if w < 0.7 else
                     dict(op=r.choice(CALLS), arg=0) if w < 0.9 else dict(op=r.choice(OWN), arg=r.choice([1, 2])))
        cases.append(h)
    res = run_drivers("streams", {"cases": cases}, ctx, parts=2)
    ctx.extra["operations"] = sum(len(t) for _, o in res for t in o["trace"])
    validate_traces(ctx, "StreamsTrace", dict(c, Depth=1, Draws=names(DRAWS), Calls=names(CALLS), Own=names(OWN)), res)
