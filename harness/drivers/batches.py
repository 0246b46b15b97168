"""Record complete passes of real loaders for every configuration."""
from base import *
from gpmp.dataloader import Dataset, DataLoader, collate_batches

rec = Recorder()
out = []


def pack(b):
    x, z = tonp(b[0]), tonp(b[1])
    xi = x[:, 0]
    ok = np.array_equal(x[:, 1], 7 - 2 * xi) and len(x) == len(z)
    return {"x": [int(v) for v in xi] if ok else [-1] * len(x),
            "z": [int(v) for v in (z.reshape(-1) - 0.5) / 3]}


def outside_refused(ld, nb):
    return all(is_err(attempt(lambda: ld[i])) for i in (nb, nb + 1, -nb - 1, -nb - 2))


def one(c):
    n, sizes = c["n"], c["sizes"]
    xs, zs, p = [], [], 0
    for s in sizes:
        r = range(p, p + s)
        p += s
        xs.append(arr([[float(i), 7.0 - 2 * i] for i in r]).reshape(s, 2))
        zs.append(arr([3.0 * i + 0.5 for i in r]))
    single = len(sizes) == 1
    ds = Dataset(xs[0], zs[0]) if single else Dataset(xs, zs)
    bs = None if (c["bs"] == n and single) else c["bs"]
    ld = DataLoader(ds, batch_size=bs, shuffle=c["shuffle"], drop_last=c["drop"],
                    seed=None if n % 2 else 5)

    def go():
        r = {"cfg": c, "len": len(ld), "pass": [pack(b) for b in ld], "again": [pack(b) for b in ld]}
        batches = list(DataLoader(ds, batch_size=bs, shuffle=False, drop_last=c["drop"]))
        if c["shuffle"]:
            batches = list(ld)
            r["pass"] = [pack(b) for b in batches]
        r["collated"] = pack(collate_batches(batches)) if batches else {"x": [], "z": []}
        tot = sum(len(b["x"]) for b in r["pass"])
        r["mean_cnt"], r["mean_num"] = 0, 0
        if tot and not (c["drop"] and c["shuffle"]):
            for f, tr in ((lambda x, z: gnp.sum(z) / z.shape[0], lambda v: v),
                          (lambda x, z: gnp.sum(x, axis=0) / x.shape[0], lambda v: v[0] * 3 + 0.5)):
                m = tonp(ld.reduce_mean(f))
                v = (float(np.asarray(tr(m)).reshape(-1)[0]) - 0.5) / 3 * tot
                num = int(round(v))
                r["mean_num"] = num if abs(v - num) < 1e-6 else -10**6
                r["mean_cnt"] = tot
                if r["mean_num"] < 0:
                    break
        r["indexing"], r["byindex"], r["bynegative"], r["outside"], r["slices"] = "", [], [], True, []
        if c["shuffle"]:
            a, b = attempt(lambda: ld[0]), attempt(lambda: ld[0:1])
            r["indexing"] = "refused" if is_err(a) and is_err(b) else "allowed"
        else:
            nb = len(r["pass"])
            r["byindex"] = [pack(ld[i]) for i in range(nb)]
            r["bynegative"] = [pack(ld[i - nb]) for i in range(nb)]
            r["outside"] = outside_refused(ld, nb)
            for sl in (slice(None), slice(1, None), slice(None, -1), slice(0, nb, 2),
                       slice(None, None, -1), slice(nb, nb + 3)):
                r["slices"].append({"want": list(range(nb))[sl], "got": [pack(b) for b in ld[sl]]})
        return r

    r = attempt(go)
    if is_err(r):
        rec.bad("loader delivers", "a complete pass", r, cfg=c)
    else:
        out.append([r])


rec.each(rec.payload["cases"], one)
ds = Dataset(arr([[1.0], [2.0]]), arr([1.0, 2.0]))
for b in (0, -1):
    rec.raises("batch size below one is refused", attempt(DataLoader, ds, b))
rec.raises("collating nothing is refused", attempt(collate_batches, []))
rec.raises("inputs and observations of different length are refused",
           attempt(Dataset, arr([[1.0], [2.0]]), arr([1.0])))
rec.extra["trace"] = out
rec.done()
