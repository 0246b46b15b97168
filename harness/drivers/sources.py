"""Ingredients of diagnostics: named by the call, or read off the record of a fit (Sources.tla)."""
import contextlib
import io
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from base import *
from gpmp.modeldiagnosis import param_stats as ps
from gpmp.modeldiagnosis import plotting

rec = Recorder()
rec.extra["trace"] = []
# the two candidates of every ingredient can be told apart
REF = {"recorded": [0.25, -1.5], "given": [2.0, 0.75]}
PTS = {"recorded": [[1.0, 2.0], [0.0, 4.0]], "given": [[3.0, 5.0]]}


class Stub:
    def __init__(self, name, asked):
        self.name, self.asked = name, asked

    def fisher_information(self, xi, covparam, epsilon=1e-3):
        self.asked.append((self.name, tolist(xi), tolist(covparam)))
        return self.name


def criterion(name, seen):
    def f(p):
        v = tonp(p).reshape(-1)
        seen.append((name, v.tolist()))
        return 0.5 * float((v ** 2).sum())
    return f


def which(names):
    s = sorted(set(names))
    return s[0] if len(s) == 1 else "several" if s else "nowhere"


def one(c):
    op, d = c["op"], 2
    seen, asked = [], []
    item = {n: dict(criterion=criterion(n, seen), reference=arr(REF[n]), model=Stub(n, asked), points=arr(PTS[n])) for n in ("recorded", "given")}
    attrs = dict(criterion="selection_criterion_nograd", reference="covparam", model="model", points="xi")
    args = dict(criterion="selection_criterion", reference="covparam", model="model", points="xi")

    class Record:
        pass
    info = Record()
    for i in c["record"]:
        setattr(info, attrs[i], item["recorded"][i])
    before = {k: v for k, v in vars(info).items()}
    bare = not c["record"]
    tr = []
    for k, given in enumerate(c["calls"]):
        del seen[:], asked[:]
        kw = {args[i]: item["given"][i] for i in given}
        if not (bare and (k + c["k"]) % 2):
            kw["info"] = info
        if op == "sections":
            f = lambda: plotting.plot_selection_criterion_crosssections(n_points=4, delta=0.5, **kw)
        elif op == "fast":
            f = lambda: ps.selection_criterion_statistics_fast(n_points=5, **kw)
        else:
            f = lambda: ps.selection_criterion_statistics(delta=1.0, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            r = attempt(f)
        plt.close("all")
        used = dict(criterion=which(n for n, _ in seen))
        # all evaluations agree with one of the references but for the coordinate being moved
        used["reference"] = which([n for n in REF if seen and all(sum(abs(a - b) > 1e-12 for a, b in zip(v, REF[n])) <= 1 for _, v in seen)])
        if op != "sections":
            used["model"] = which(n for n, _, _ in asked)
            used["points"] = which([n for n in PTS for _, x, _ in asked if x == PTS[n]])
            if not is_err(r):
                rec.eq("the information is that of the model asked", r["fisher_information"], used["model"], call=given, record=c["record"], op=op)
                rec.true("the information is taken at the reference", [v for _, _, v in asked] == [REF.get(used["reference"])], asked,
                         call=given, record=c["record"], op=op)
        kept = vars(info).keys() == before.keys() and all(vars(info)[a] is before[a] for a in before)
        kept = kept and all(tolist(item[n]["reference"]) == REF[n] and tolist(item[n]["points"]) == PTS[n] for n in REF)
        tr.append(dict(record=c["record"], given=given, refused=is_err(r), used=used, record_kept=bool(kept)))
    rec.extra["trace"].append(tr)


rec.each(rec.payload["cases"], one)
rec.done()
