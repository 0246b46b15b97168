"""Interleaved loader histories of Loader.tla on gpmp.dataloader.DataLoader."""
from base import *
from gpmp.dataloader import Dataset, DataLoader

SETS = [
    [(8, 4, False, True, 3, False), (8, 4, False, True, 3, True)],
    [(9, 4, True, True, 11, False), (8, 8, False, True, 3, False)],
    [(9, 5, False, True, 0, True), (9, 5, False, False, 0, False)],
    [(8, 3, False, True, 5, False), (10, 4, True, True, 5, True), (7, 2, False, True, 42, False)],
]
rec = Recorder()
memo = {}
orders = {}


def dataset(n):
    x = [[float(i), -float(i)] for i in range(n)]
    z = [100.0 + i for i in range(n)]
    c = n // 3
    return Dataset([arr(x[:c]), arr(x[c:])], [arr(z[:c]), arr(z[c:])])


def ids(batch):
    return [tonp(batch[0])[:, 0].astype(int).tolist(), (tonp(batch[1]).reshape(-1) - 100).astype(int).tolist()]


def see(cfg, epoch, b, batch, case, where):
    got = ids(batch)
    n, bs, drop, shuffle, seed, inf = cfg
    key = (n, bs, drop, shuffle, seed, epoch, b)
    ref = memo.setdefault(key, got)
    rec.eq(f"batch depends only on seed and epoch{where}", got, ref, key=key, case=case)
    rec.eq("inputs and observations stay paired", got[0], got[1], key=key, case=case)
    orders.setdefault((n, bs, drop, shuffle, seed), {})[(epoch, b)] = tuple(got[0])


def step_next(it):
    try:
        return next(it)
    except StopIteration:
        return "stop"


def one(case):
    cfgs = SETS[case["set"] - 1]
    lds = [DataLoader(dataset(c[0]), batch_size=c[1], drop_last=c[2], shuffle=c[3], seed=c[4],
                      infinite=c[5]) for c in cfgs]
    its = []
    for k, st in enumerate(case["steps"]):
        op = st["op"]
        if op == "open":
            its.append(iter(lds[st["ld"] - 1]))
            r = attempt(step_next, its[-1])
        elif op == "next":
            r = attempt(step_next, its[st["it"] - 1])
        elif op == "close":
            it = its[st["it"] - 1]
            if hasattr(it, "close"):
                it.close()
            its[st["it"] - 1] = None
            continue
        elif op == "setepoch":
            lds[st["ld"] - 1].set_epoch(st["epoch"])
            continue
        elif op == "draw":
            gnp.rand(2)
            gnp.permutation(3)
            continue
        elif op == "reseed":
            gnp.set_seed(99)
            continue
        if is_err(r):
            rec.bad("loader delivers", st, r, case=case, step=k)
            return
        if st["stop"]:
            rec.true("pass ends after its last batch", isinstance(r, str), ids(r) if not isinstance(r, str) else r,
                     case=case, step=k)
        elif isinstance(r, str):
            rec.bad("pass delivers all its batches", st, "stopped", case=case, step=k)
        else:
            see(cfgs[st["ld"] - 1], st["epoch"], st["batch"], r, case, "")
    # probe: the next pass of every loader starts at the epoch the specification ends with
    for l, cfg in enumerate(cfgs):
        n, bs, drop = cfg[:3]
        nb = n // bs if drop else -(-n // bs)
        it = iter(lds[l])
        for b in range(1, nb + 1):
            r = attempt(step_next, it)
            if is_err(r) or isinstance(r, str):
                rec.bad("pass delivers all its batches", f"batch {b}", r, case=case)
                break
            see(cfg, case["final"][l], b, r, case, " (next pass)")


gnp.set_seed(1 + rec.seed)
rec.each(rec.payload["cases"], one)
for cfg, seen in orders.items():
    if cfg[3] and not rec.mismatches:
        first = {}
        for (e, b), o in seen.items():
            first.setdefault(e, {})[b] = o
        full = [json.dumps(sorted(v.items())) for e, v in sorted(first.items()) if len(v) >= 1 and 1 in v]
        if len(full) >= 3:
            rec.true("successive passes use different orders", len(set(full)) > 1, full[:3], loader=cfg)
rec.extra["distinct_batches"] = len(memo)
rec.done()
