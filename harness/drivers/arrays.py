"""Replay programs that make, convert, combine, copy and write to arrays."""
from base import *

rec = Recorder()
T = 2.0**-30
REQ = {"none": None, "float": float, "int": int, "bool": bool, "float64": "float64", "int64": "int64", "np.float64": np.float64,
       "np.int64": np.int64, "np.bool": np.bool_, "float32": "float32"}
NP = dict(real=np.float64, single=np.float32, int=np.int64, bool=np.bool_)


def kind(a):
    s = str(a.dtype).split(".")[-1]
    return "real" if s == "float64" else "single" if s == "float32" else "bool" if s == "bool" else "int" if "int" in s else s


def numbers(k, vals):
    v = [h / 2 + f * T for h, f in vals]
    return [int(x) for x in v] if k == "int" else [bool(x) for x in v] if k == "bool" else v


def given(o):
    v = numbers(o["kind"], o["vals"])
    return v if o["form"] == "list" else tuple(v) if o["form"] == "tuple" else np.array(v, dtype=NP[o["kind"]])


def want(o):
    return {} if o["req"] == "none" else {"dtype": REQ[o["req"]]}


def step(o, s):
    f, g = o["fn"], lambda n: getattr(gnp, n)
    if "form" in o:
        src = given(o)
        keep = np.array(src)
        out = g(f)(src, **want(o))
        rec.true("what is converted is not changed", bool((np.array(src) == keep).all()), None, op=o)
        return out
    if f in ("zeros", "ones"):
        return g(f)((o["n"],), **want(o))
    if f == "full":
        return g(f)((o["n"],), 2.5 + T, **want(o))
    if f == "arange":
        return g(f)(o["a"], o["a"] + o["n"] * o["d"], o["d"], **want(o))
    if f == "linspace":
        return g(f)(o["a"], o["a"] + (o["n"] - 1) * o["d"], o["n"], **want(o))
    if f == "eye":
        return (gnp.eye(o["n"], o["m"], **want(o)) if (o["n"], o["req"]) != (o["m"], "none") else gnp.eye(o["n"]))[o["row"] - 1]
    x = s[o["i"] - 1]
    if f in ("zeros_like", "ones_like", "copy", "asdouble", "asint"):
        return g(f)(x)
    if f == "full_like":
        return g(f)(x, 3)
    if f == "asarray":
        return g(f)(x, **want(o))
    if f == "rest":
        return x[1:]
    if f == "triple":
        return 3 * x
    if f == "halve":
        return x / 2
    if f == "positive":
        return x > 0
    if f == "sum":
        return gnp.sum(x).reshape((1,))
    if f == "plus":
        return x + s[o["j"] - 1]
    if f == "concatenate":
        return gnp.concatenate((x, s[o["j"] - 1]))
    return gnp.where(s[o["c"] - 1], x, s[o["j"] - 1])


def one(c):
    s = []
    for k, h in enumerate(c["hist"]):
        o = h["op"]
        w = dict(program=[q["op"] for q in c["hist"][:k + 1]])
        if o["fn"] == "write":
            a = attempt(s[o["i"] - 1].__setitem__, o["p"] - 1, 9)
            ok = not is_err(a)
        else:
            a = attempt(step, o, s)
            ok = rec.true(f"{o['fn']} makes an array", gnp.isarray(a), a, **w)
            s.append(a)
        if not ok:
            return
        for q, (x, y) in enumerate(zip(s, h["slots"])):
            new = q == len(s) - 1 and o["fn"] != "write"
            rec.eq(f"{o['fn']} has its element type" if new else "other arrays keep their type", kind(x), y["type"], **w)
            v = np.array([h2 / 2 + f * T for h2, f in y["vals"]])
            z = np.asarray(tonp(x), dtype=np.float64)
            rec.true(f"{o['fn']} has its values" if new else f"after {o['fn']} every array has its values",
                     z.shape == v.shape and bool((np.abs(z - v) <= 1e-13).all()), [z.tolist(), v.tolist()], **w)


rec.each(rec.payload["cases"], one)
rec.done()
