"""Replay settings histories; imports of the numerical layer in fresh processes."""
import importlib
import torch
import subprocess
from base import *
import gpmp.config

rec = Recorder()
KEEP = {k: os.environ.get(k) for k in ("GPMP_BACKEND", "GPMP_DTYPE")}


def types(t):
    return {"float": float, "np64": np.float64, "np32": np.float32, "<f8": np.dtype("<f8"),
            "longdouble": np.longdouble, "f4": np.dtype("f4"), "complex64": np.complex64, "object": object, "int": int,
            "bool": bool, "complex": complex, "np16": np.float16, "np128c": np.complex128, "npint": np.int64,
            "torch64": torch.float64, "torch32": torch.float32, "torch16": torch.float16, "list": []}.get(t, t)


def env(k, v):
    if v == "unset":
        os.environ.pop(k, None)
    else:
        os.environ[k] = v


def look(c, seed0, dev0):
    g = c.get_config()
    return {"backend": g.backend if g.backend is not None else "unset",
            "envb": os.environ.get("GPMP_BACKEND", "unset"), "envd": os.environ.get("GPMP_DTYPE", "unset"),
            "device": 0 if g.device == dev0 else int(str(g.device)[3:]),
            "seed": 0 if g.seed == seed0 else g.seed, "caches": sorted(g.caches)}


def one(case):
    env("GPMP_BACKEND", case["envb"])
    env("GPMP_DTYPE", case["envd"])
    c = importlib.reload(gpmp.config)
    g = c.get_config()
    seed0, dev0 = g.seed, g.device
    for k, h in enumerate(case["hist"]):
        r, s = h["r"], h["s"]
        what = dict(environment=[case["envb"], case["envd"]], upto=[t["r"] for t in case["hist"][:k + 1]])
        op = r["op"]
        if op in ("get_backend", "init_backend"):
            a = attempt(getattr(c, op))
            if r["ok"]:
                rec.eq("the backend answered is the one in force", a, r["ans"], **what)
        elif op == "set_backend":
            a = attempt(c.set_backend, None if r["w"] == "none" else r["w"])
        elif op == "set_dtype":
            a = attempt(c.set_dtype, types(r["t"]))
        elif op == "update":
            kw = {}
            for n, key in (("backend", "w"), ("dtype", "t")):
                if r[key] != "-":
                    kw[n] = types(r[key]) if n == "dtype" else r[key]
            if r["seed"]:
                kw["seed"] = r["seed"]
            if len(case["hist"]) % 2:
                kw = dict(reversed(list(kw.items())))
            a = attempt(g.update, **kw)
        elif op == "environment":
            env("GPMP_BACKEND", r["w"])
        elif op == "set_device":
            c.set_device(f"dev{r['k']}")
        elif op == "put":
            g.caches[r["k"]] = {"x": 1}
        else:
            attempt(c.clear_caches, None if r["k"] == "all" else r["k"])
        if r.get("ok") is True:
            rec.true("an admissible request is accepted", not is_err(a), a, **what)
        elif r.get("ok") is False:
            rec.raises("an inadmissible request is refused", a, **what)
        s = dict(s, caches=sorted(s["caches"]))
        rec.eq("settings and environment are those accepted", look(c, seed0, dev0), s, **what)
        rec.eq("the precision is double", g.dtype, "float64", **what)
        rec.true("the settings object stays the same", c.get_config() is g, **what)


CODE = """
import sys, numpy as np
import gpmp, gpmp.num as gnp, gpmp.config as c
a = gnp.ones((2,))
print(type(a).__module__.split('.')[0], str(a.dtype).split('.')[-1], c.get_backend(), gpmp.num.get_dtype() is not None)
"""


def processes():
    """Fresh processes: the numerical layer that is loaded is the backend named."""
    for b, d, want in (("numpy", "unset", "numpy float64 numpy True"), ("torch", "float64", "torch float64 torch True"),
                       ("NumPy", "double", "numpy float64 numpy True"), ("unset", "unset", "torch float64 torch True"),
                       ("jax", "unset", None), ("numpy", "float32", None), ("numpy", "int64", None)):
        e = dict(os.environ)
        for k, v in (("GPMP_BACKEND", b), ("GPMP_DTYPE", d)):
            e.pop(k, None)
            if v != "unset":
                e[k] = v
        p = subprocess.run([sys.executable, "-c", CODE], env=e, capture_output=True, text=True, timeout=200)
        if want is None:
            rec.true("an inadmissible environment is refused", p.returncode != 0, p.stdout, backend=b, dtype=d)
        else:
            rec.eq("the numerical layer follows the environment", p.stdout.strip().splitlines()[-1:], [want],
                   backend=b, dtype=d, stderr=p.stderr[-300:])


try:
    rec.each(rec.payload["cases"], one)
finally:
    for k, v in KEEP.items():
        env(k, "unset" if v is None else v)
if rec.payload.get("part", 0) == 0 and BACKEND == "numpy":
    processes()
rec.done()
