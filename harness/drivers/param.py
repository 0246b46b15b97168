"""Parameter-object histories of Param.tla on gpmp.parameter.Param."""
from base import *
import math
from gpmp.parameter import Param

rec = Recorder()
FOCUS = rec.payload["focus"]

TEMPLATES = [
    [("a", ["c", "var"], "log", None, 0), ("b", ["c", "len"], "log_inv", (1, 9), 5),
     ("c", ["c", "len"], "log_inv", None, -8), ("d", ["c2"], "none", (0, 5), 0)],
    [("a", ["m"], "none", (-2, 1), 5), ("b", ["c", "len"], "log", (1, 9), -8),
     ("c", ["m"], "none", None, 0), ("d", ["c"], "log_inv", (1, 4), 5)],
    [("a", ["c", "length", "x"], "log_inv", (1, 4), 0), ("b", ["c", "len"], "log", None, 5)],
]
EXTRA = [("u", ["c", "len"], "log", (1, 9), 5), ("v", ["c2"], "none", None, -8)]
QUERY = [["c"], ["c", "len"], ["c", "var"], ["m"], ["c2"], ["len"], ["c", "length", "x"], ["c->len"], []]


def make(t):
    return Param(values=arr([e[4] / 4 for e in t]), paths=[list(e[1]) for e in t],
                 normalizations=[e[2] for e in t], names=[e[0] for e in t],
                 bounds=[e[3] for e in t])


def internal(val, norm):
    if val["s"] == "i":
        return val["k"] / 4
    k = float(val["k"])
    return {"log": math.log(k), "log_inv": -math.log(k), "none": k}[norm]


def natural(val, norm):
    if val["s"] == "n":
        return float(val["k"])
    v = val["k"] / 4
    return {"log": math.exp(v), "log_inv": math.exp(-v), "none": v}[norm]


def prefix(p, q):
    return q[:len(p)] == p


def bnd(b):
    return None if b is None else [float(v) for v in b]


def see_edit(p, o, case, k, w):
    iv = [internal(e["val"], e["norm"]) for e in o]
    c = dict(case=case, step=k, object=w)
    rec.eq("number of parameters", attempt(lambda: int(p.dim)), len(o), **c)
    rec.eq("names", attempt(lambda: list(p.names)), [e["name"] for e in o], **c)
    rec.eq("paths", attempt(lambda: [list(q) for q in p.paths]), [e["path"] for e in o], **c)
    rec.eq("transformations", attempt(lambda: [n.value for n in p.normalizations]), [e["norm"] for e in o], **c)
    rec.eq("bounds", attempt(lambda: [bnd(b) for b in p.bounds]),
           [bnd(e["bounds"]) if e["bounds"] else None for e in o], **c)
    rec.close("value vector", attempt(lambda: p.values), iv, **c)
    for e, v in zip(o, iv):
        rec.close("read by name", attempt(p.get_by_name, e["name"]), v, name=e["name"], **c)
    rec.raises("unknown name is refused", attempt(p.get_by_name, "nope"), **c)
    for q in QUERY:
        ex = [i for i, e in enumerate(o) if e["path"] == q]
        pr = [i for i, e in enumerate(o) if prefix(q, e["path"])]
        if ex:
            rec.close("read by path", attempt(p.get_by_path, q), [iv[i] for i in ex], path=q, **c)
        if pr:
            rec.close("read by path prefix", attempt(lambda: p.get_by_path(q, prefix_match=True)),
                      [iv[i] for i in pr], path=q, **c)
            rec.close("select by path prefix", attempt(p.select_by_path_prefix, q), [iv[i] for i in pr], path=q, **c)
        rec.eq("indices by path prefix", attempt(lambda: [int(i) for i in p.indices_by_path_prefix(q)]), pr, path=q, **c)
        rec.eq("names by path prefix", attempt(lambda: list(p.names_by_path_prefix(q))),
               [o[i]["name"] for i in pr], path=q, **c)
        rec.eq("paths by prefix", attempt(lambda: [list(t) for t in p.get_paths(q)]), [o[i]["path"] for i in pr],
               path=q, **c)
    rec.eq("all paths", attempt(lambda: sorted(list(t) for t in p.get_paths())),
           sorted(list(t) for t in {tuple(e["path"]) for e in o}), **c)
    d = attempt(p.to_dict)
    if is_err(d):
        rec.bad("dictionary form", "a dictionary", d, **c)
    else:
        rec.eq("dictionary names", list(d), [e["name"] for e in o], **c)
        for e, v in zip(o, iv):
            r = d.get(e["name"], {})
            rec.close("dictionary value", r.get("value"), v, name=e["name"], **c)
            rec.eq("dictionary path", list(r.get("path")), e["path"], **c)
            rec.eq("dictionary transformation", r.get("normalization"), e["norm"], **c)
            rec.eq("dictionary bounds", bnd(r.get("bounds")), bnd(e["bounds"]) if e["bounds"] else None, **c)
    if o:
        rec.true("printable", isinstance(attempt(repr, p), str), **c)


def see_scale(p, o, case, k, w):
    c = dict(case=case, step=k, object=w)
    nv = [natural(e["val"], e["norm"]) for e in o]
    rec.close("internal values", attempt(lambda: p.values), [internal(e["val"], e["norm"]) for e in o], **c)
    rec.close("natural-scale values", attempt(lambda: p.denormalized_values), nv, **c)
    sd = attempt(p.to_simple_dict)
    rec.eq("simple dictionary names", list(sd) if not is_err(sd) else sd, [e["name"] for e in o], **c)
    d = attempt(p.to_dict)
    for e, v in zip(o, nv):
        rec.close("simple dictionary value", sd[e["name"]] if not is_err(sd) else sd, v, name=e["name"], **c)
        rec.close("dictionary natural value", d[e["name"]]["denormalized"] if not is_err(d) else d, v,
                  name=e["name"], **c)
    cb = attempt(p.check_bounds)
    rec.eq("bounds check", [bool(b) for b in cb] if not is_err(cb) else cb, [e["inside"] for e in o], **c)
    # writing back what is read changes nothing
    if k == len(case) - 1:
        den = attempt(lambda: p.denormalized_values)
        if not is_err(den):
            def back():
                p.denormalized_values = den
            attempt(back)
            rec.close("natural values written back", attempt(lambda: p.denormalized_values), nv, **c)
            rec.close("internal values after writing natural values back", attempt(lambda: p.values),
                      [internal(e["val"], e["norm"]) for e in o], **c)


PICK = {"last": lambda p: p[-1], "first": lambda p: p[0], "tail": lambda p: p[1:], "step": lambda p: p[::2],
        "reverse": lambda p: p[::-1], "whole": lambda p: p[:], "solo": lambda p: Param.concat(p),
        "empty_left": lambda p: Param() + p, "empty_right": lambda p: Param.concat(p, Param())}


def one(item):
    case = item["hist"]
    objs = [make(TEMPLATES[item["template"] - 1]), make(EXTRA)]
    handles = []
    for k, st in enumerate(case):
        a = st["act"]
        op = a["op"]
        p = objs[a["obj"] - 1] if "obj" in a else None

        def do():
            if op == "set_name":
                p.set_by_name(a["name"], a["k"] / 4)
            elif op == "set_path":
                v = [t / 4 for t in a["ks"]]
                p.set_by_path(list(a["path"]), arr(v) if k % 2 else v, prefix_match=a["prefix"])
            elif op == "set_nat":
                p.set_from_unnormalized(**{n: float(t) for n, t in zip(a["names"], a["ks"])})
            elif op == "set_all":
                p.values = arr([t / 4 for t in a["ks"]])
            elif op == "set_den":
                p.denormalized_values = [float(t) for t in a["ks"]]
            elif op == "pick":
                objs.append(PICK[a["how"]](p))
            elif op == "concat":
                q = objs[a["other"] - 1]
                objs.append(p + q if a["how"] == "add" else Param.concat(p, q))
            elif op == "read_path":
                handles.append(p.get_by_path(list(a["path"]), prefix_match=a["prefix"], return_view=a["view"]))
            elif op == "read_name":
                handles.append(p.get_by_name(a["name"], return_view=a["view"]))
            elif op == "read_dict":
                handles.append(p.to_dict())
            elif op == "write" and isinstance(handles[a["handle"] - 1], dict):
                h = handles[a["handle"] - 1]
                e = h[list(h)[a["pos"] - 1]]
                if hasattr(e["value"], "fill_"):
                    e["value"].fill_(a["k"] / 4)
                    e["denormalized"].fill_(-77.0)
                else:
                    e["value"] = a["k"] / 4
            elif op == "write":
                handles[a["handle"] - 1][a["pos"] - 1] = a["k"] / 4

        nobj, nh = len(objs), len(handles)
        r = attempt(do)
        if a["refused"]:
            rec.raises(f"{op} is refused", r, case=case, step=k)
            del objs[nobj:]
            del handles[nh:]
        elif is_err(r):
            rec.bad(f"{op} succeeds", "no exception", r, case=case, step=k)
            return
        if item["last_only"] and k < len(case) - 1:
            continue
        for w, o in enumerate(st["objs"]):
            if FOCUS == "edit":
                see_edit(objs[w], o, case, k, w + 1)
            elif FOCUS == "scale":
                see_scale(objs[w], o, case, k, w + 1)
            else:
                rec.close("object values", attempt(lambda: objs[w].values),
                          [internal(e["val"], e["norm"]) for e in o], case=case, step=k, object=w + 1)
        if FOCUS == "alias":
            for h, hd in enumerate(st["handles"]):
                if hd["kind"] != "dead":
                    want = [internal(v["val"], v["norm"]) for v in hd["vals"]]
                    if hd["kind"] == "dict":
                        rec.close("dictionary values", [float(e["value"]) for e in handles[h].values()], want, case=case,
                                  step=k, handle=h + 1)
                        continue
                    rec.close(f"{hd['kind']} handle values", handles[h], want[0] if hd["kind"] == "scalar" else want,
                              case=case, step=k, handle=h + 1)


rec.each(rec.payload["cases"], one)

if FOCUS == "scale":
    from gpmp.parameter import (make_anisotropic_param, param_from_covparam_anisotropic,
                                param_from_covparam_anisotropic_noisy)
    for d in (1, 2, 5):
        cov = [0.3] + [-0.5 + 0.4 * j for j in range(d)]
        for name, p in (("built", make_anisotropic_param(values=arr(cov), name_prefix="t_")),
                        ("from vector", param_from_covparam_anisotropic(arr(cov), name_prefix="t_"))):
            rec.eq(f"{name}: names", list(p.names), ["t_sigma2"] + [f"t_rho_{j}" for j in range(d)])
            rec.close(f"{name}: values", p.values, cov)
            rec.eq(f"{name}: transformations", [n.value for n in p.normalizations], ["log"] + ["log_inv"] * d)
            rec.close(f"{name}: natural values", p.denormalized_values,
                      [math.exp(cov[0])] + [math.exp(-v) for v in cov[1:]])
        p = make_anisotropic_param(d=d)
        rec.close("built by dimension: values", p.values, [0.0] + [-1.0] * d)
        nz = [0.3, -4.0] + cov[1:]
        p = param_from_covparam_anisotropic_noisy(arr(nz))
        rec.eq("noisy: names", list(p.names), ["sigma2", "sigma2_noise"] + [f"rho_{j}" for j in range(d)])
        rec.close("noisy: natural values", p.denormalized_values,
                  [math.exp(nz[0]), math.exp(nz[1])] + [math.exp(-v) for v in nz[2:]])
        p = param_from_covparam_anisotropic(arr(cov), logsigma2_bounds=(0.1, 9.0), loginvrho_bounds=(0.2, 3.0))
        rec.eq("builder bounds", [bnd(b) for b in p.bounds], [[0.1, 9.0]] + [[0.2, 3.0]] * d)
    p = Param(values=[1, 2, 3])
    p.set_by_name("param_1", 0.5)
    rec.close("integer initial values accept fractional edits", p.values, [1.0, 0.5, 3.0])
    rec.raises("unknown transformation is refused", attempt(lambda: Param(values=[1.0], normalizations=["cube"])))
    rec.raises("fields of different lengths are refused",
               attempt(lambda: Param(values=[1.0, 2.0], names=["a"])))
rec.done()
