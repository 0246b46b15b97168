"""Replay edits of labelled tables."""
from base import *
from gpmp.misc.dataframe import DataFrame

rec = Recorder()


def view(t):
    d = np.asarray(t.data)
    return {"rows": list(t.rownames), "cols": list(t.colnames), "m": d.tolist() if d.ndim == 2 else "not a matrix"}


def check(tab, want, **w):
    for n, t in tab.items():
        e = want[n]
        ok = rec.eq("labels and data of a table", attempt(view, t), {"rows": e["rows"], "cols": e["cols"], "m": e["m"]}, table=n, **w)
        if not ok:
            return False
        for i, r in enumerate(e["rows"]):
            for j, c in enumerate(e["cols"]):
                rec.eq("cell by its labels", attempt(lambda: float(t[r, c])), float(e["m"][i][j]), table=n, r=r, c=c, **w)
        rec.raises("an unknown label is refused", attempt(lambda: t["nowhere"]), table=n, **w)
        lines = attempt(lambda: repr(t).splitlines())
        if rec.true("the table prints", not is_err(lines), lines, table=n, **w):
            rec.eq("printed table", [l.split() for l in lines],
                   [e["cols"]] + [[r + ":"] + [cell(v) for v in m] for r, m in zip(e["rows"], e["m"])], table=n, **w)
    return True


def cell(v):
    """Printed form of the integers used here (three decimals, exponent from a thousand on)."""
    return f"{v:.3f}" if abs(v) < 1000 else f"{v / 1000:.3f}e3"


def one(case):
    tab = {}
    for n, e in case["start"].items():
        names = (list(e["cols"]), list(e["rows"]))
        tab[n] = DataFrame(np.array(e["m"], dtype=float), *names)
    if not check(tab, case["start"], at="start"):
        return
    for k, h in enumerate(case["hist"]):
        o = h["op"]
        w = dict(start=case["start"], upto=[t["op"] for t in case["hist"][:k + 1]])
        op = o["op"]
        if op in ("append_row", "append_col"):
            vals = [float(v) for v in o["values"]]
            a = attempt(getattr(tab[o["on"]], op), vals if k % 2 else np.array(vals), o["label"])
        elif op == "concat":
            a = attempt(tab[o["a"]].concat, tab[o["b"]], axis=o["axis"])
            if o["ok"] and not is_err(a):
                tab[o["into"]] = a
        elif op == "set_unknown":
            def f():
                tab[o["on"]]["nowhere"] = 1.0
            a = attempt(f)
        elif op.startswith("set_"):
            t = tab[o["on"]]
            i = list(h["tab"][o["on"]]["rows"]).index(o["r"]) if "r" in o else None

            def f():
                if op == "set_cell":
                    t[o["r"], o["c"]] = float(o["value"])
                elif op == "set_block":
                    rs, cs = slice(o["i"], o["j"]), slice(o["k"], o["l"])
                    v = np.array(o["values"], dtype=float)
                    if o["how"] == "both":
                        t[rs, cs] = v
                    elif o["how"] == "rowslice":
                        t[o["r"], cs] = v[0]
                    else:
                        t[rs, o["c"]] = v[:, 0]
                elif op == "set_row":
                    key = o["r"] if k % 2 else (o["r"], slice(None))
                    t[key] = np.array(o["values"], dtype=float)
                else:
                    key = o["c"] if k % 2 else (slice(None), o["c"])
                    t[key] = np.array(o["values"], dtype=float)
            a = attempt(f)
        else:
            rs, cs = slice(o["i"], o["j"]), slice(o["k"], o["l"])
            key = {"both": (rs, cs), "row": o["r"], "col": o["c"], "rowslice": (o["r"], cs), "colslice": (rs, o["c"])}[o["how"]]
            a = attempt(lambda: tab[o["on"]][key])
            if not is_err(a):
                tab[o["into"]] = a
        if o["ok"]:
            if not rec.true("an admissible edit is accepted", not is_err(a), a, **w):
                return
        else:
            rec.raises("a mismatched edit is refused", a, **w)
        if not check(tab, h["tab"], **w):
            return


def printed():
    """Printed cells read back as the numbers stored, whatever their size."""
    vals = [s * m * 10.0 ** e for e in range(-12, 13) for m in (1.0, 1.004, 1.26, 2.5, 4.44, 9.99) for s in (1, -1)] + [0.0, math.inf, -math.inf, math.nan]
    for k in range(0, len(vals), 4):
        row = vals[k:k + 4]
        cols = ["a", "b", "c", "d"][:len(row)]
        lines = attempt(lambda: repr(DataFrame(np.array([row]), cols, ["r"])).splitlines())
        if rec.true("the table prints", not is_err(lines), lines, row=row):
            got = attempt(lambda: [float(v) for v in lines[1].split()[1:]])
            rec.close("printed cells read back", got, row, rtol=6e-3, atol=0, row=row)
    a, b = DataFrame([[1.0, 2.0]], ["p", "q"], ["u"]), DataFrame([[3.0, 4.0]], ["p", "q"], ["v"])
    rec.eq("tables are put one below the other by default", attempt(lambda: view(a.concat(b))),
           {"rows": ["u", "v"], "cols": ["p", "q"], "m": [[1.0, 2.0], [3.0, 4.0]]})


rec.each(rec.payload["cases"], one)
printed()
rec.done()
