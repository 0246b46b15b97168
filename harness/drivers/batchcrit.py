"""Criterion objects over loaders: replay BatchCrit histories."""
from base import *
from gpmp.dataloader import Dataset, DataLoader
from gpmp.kernel import make_selection_criterion_with_gradient

rec = Recorder()


class Crit:
    """The loss of the specification, keeping a log of the batches it is given."""

    def __init__(self, mlen=0):
        self.log, self.mlen, self.params = [], mlen, []

    def loss(self, p, xb, zb):
        ids = [int(round(v)) for v in tonp(xb)[:, 0]]
        zs = [int(round(v)) - 100 for v in tonp(zb).reshape(-1)]
        self.log.append((ids, zs))
        a = sum(i * i + 1 for i in ids)
        b = ids[0] - 2 * len(ids)
        return a * p[0] * p[0] + b * p[1]

    def __call__(self, model, *args):
        if self.mlen:
            mean, cov, xb, zb = args
            self.params.append((len(mean), len(cov)))
            p = list(mean) + list(cov)
        else:
            p, xb, zb = args
        return self.loss(p, xb, zb)


MODEL = object()


def ask(f, p):
    v = attempt(f, arr([float(t) for t in p]))
    return v if is_err(v) else float(tonp(v).reshape(-1)[0])


def rows(c, b):
    return list(range((b - 1) * c["bs"], min(b * c["bs"], c["n"])))


def build(c, shuffle, mlen=0):
    n = c["n"]
    x = [[float(i), -1.0] for i in range(n)]
    z = [100.0 + i for i in range(n)]
    k = n // 3
    ds = Dataset(arr(x), arr(z)) if k == 0 else Dataset([arr(x[:k]), arr(x[k:])], [arr(z[:k]), arr(z[k:])])
    ld = DataLoader(ds, batch_size=c["bs"], drop_last=c["drop"], shuffle=shuffle, seed=3)
    objs = []
    for b in c["bpe"]:
        crit = Crit(mlen)
        f = make_selection_criterion_with_gradient(
            MODEL, crit, dataloader=ld, batches_per_eval=b,
            parameterized_mean=mlen > 0, meanparam_len=mlen if mlen else 1)
        objs.append((crit, f))
    return ld, objs


def foreign(ld, k):
    it = iter(ld)
    for _ in range(k):
        try:
            next(it)
        except StopIteration:
            break


HOW = {"value": 0, "pre": 1, "plain": 2}


def plain(case):
    c = case["cfg"]
    ld, objs = build(c, False, case.get("mlen", 0))
    for k, s in enumerate(case["hist"]):
        what = dict(cfg=c, upto=case["hist"][:k + 1])
        if s["op"] == "foreign":
            foreign(ld, s["k"])
            continue
        crit, f = objs[s["o"] - 1]
        del crit.log[:]
        if s["op"] in HOW:
            v = ask(f[HOW[s["op"]]], s["p"])
            rec.close("the criterion is the size-weighted mean over its batches", v, rat(s["value"]), **what)
            rec.eq("the evaluation reads the next batches of the loader", [r for r, _ in crit.log],
                   [rows(c, b) for b in s["read"]], **what)
            rec.true("batches keep inputs and observations paired", all(a == b for a, b in crit.log),
                     crit.log, **what)
        elif f[3] is not None:
            g = attempt(f[3], arr([float(t) for t in s["p"]]))
            if s["op"] == "grad":
                rec.close("the gradient refers to the batches of the value", g, [rat(t) for t in s["grad"]], **what)
            else:
                rec.raises("a gradient without its value is refused", g, **what)
            rec.eq("asking for a gradient reads no batch", crit.log, [], **what)
    if case.get("mlen"):
        for crit, _ in objs:
            rec.true("parameters are split into mean and covariance parts",
                     all(t == (case["mlen"], 2 - case["mlen"]) for t in crit.params), crit.params)


def shuffled(case):
    """The same history on a shuffled loader: judged from the batches read."""
    c = case["cfg"]
    ld, objs = build(c, True)
    nb = c["n"] // c["bs"] if c["drop"] else -(-c["n"] // c["bs"])
    seen = [[], []]
    for k, s in enumerate(case["hist"]):
        what = dict(cfg=c, upto=[t["op"] for t in case["hist"][:k + 1]])
        if s["op"] == "foreign":
            foreign(ld, s["k"])
            continue
        crit, f = objs[s["o"] - 1]
        if s["op"] not in HOW:
            continue
        del crit.log[:]
        v = ask(f[HOW[s["op"]]], s["p"])
        read = [r for r, _ in crit.log]
        rec.eq("an evaluation reads the requested number of batches", len(read), len(s["read"]), **what)
        w = sum(len(r) for r in read)
        want = sum(len(r) * (sum(i * i + 1 for i in r) * s["p"][0] ** 2 + (r[0] - 2 * len(r)) * s["p"][1])
                   for r in read) / max(w, 1)
        rec.close("the criterion is the size-weighted mean over its batches", v, want, **what)
        seen[s["o"] - 1].append(read)
    for o, b in enumerate(c["bpe"]):
        walk = [r for rd in seen[o] for r in rd]
        for j in range(0, len(walk) - nb + 1, nb):
            rws = [i for r in walk[j:j + nb] for i in r]
            rec.true("a round reads every row at most once", len(set(rws)) == len(rws), rws, cfg=c)
            if not c["drop"]:
                rec.eq("a round reads every row", sorted(rws), list(range(c["n"])), cfg=c)


def arrays(case):
    """The same calls on arrays: one batch holding every row."""
    c = case["cfg"]
    n = c["n"]
    crit = Crit()
    xi, zi = arr([[float(i), -1.0] for i in range(n)]), arr([100.0 + i for i in range(n)])
    f = make_selection_criterion_with_gradient(MODEL, crit, xi=xi, zi=zi)
    a, b = sum(i * i + 1 for i in range(n)), -2 * n
    last = None
    for k, s in enumerate(case["hist"]):
        if s["op"] == "foreign":
            continue
        what = dict(n=n, upto=[(t["op"], t.get("p")) for t in case["hist"][:k + 1]])
        p = s["p"]
        if s["op"] in HOW:
            rec.close("an array criterion is the loss of all rows", ask(f[HOW[s["op"]]], p),
                      a * p[0] ** 2 + b * p[1], **what)
            if s["op"] == "pre":
                last, used = p, False
        elif f[3] is not None:
            if last == p and not used:
                g = attempt(f[3], arr([float(t) for t in p]))
                rec.close("an array gradient belongs to its value", g, [2.0 * a * p[0], float(b)], **what)
                used = True
            elif last != p:
                g = attempt(f[3], arr([float(t) for t in p]))
                rec.raises("a gradient without its value is refused", g, **what)


def one(case):
    plain(case)
    if case["k"] % 3 == 0:
        shuffled(case)
    if case["k"] % 5 == 0:
        arrays(case)


def sources():
    xi, zi = arr([[1.0], [2.0]]), arr([1.0, 2.0])
    ld = DataLoader(Dataset(xi, zi), batch_size=1)
    mk = make_selection_criterion_with_gradient
    for kw in ({}, dict(xi=xi), dict(zi=zi), dict(xi=xi, zi=zi, dataloader=ld)):
        rec.raises("exactly one data source is required", attempt(mk, MODEL, Crit(), **kw), given=list(kw))
    rec.raises("a negative number of batches is refused",
               attempt(mk, MODEL, Crit(), dataloader=ld, batches_per_eval=-1))


rec.each(rec.payload["cases"], one)
sources()
rec.done()
