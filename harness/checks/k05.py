from checks.k_common import worlds
from lib import dedupe, run_drivers


def run(ctx):
    ind = [ctx.tlc("Indef", dict(N=n, Values=v), ["Theorems", "Lifted", "Emit"], workers=2)
           for n, v in ((1, "{0, 1, 2, 3}"), (2, "{0, 1, 2, 3, 4}"), (3, ctx.pick("{1, 2, 3}", "{0, 1, 2, 3, 4}")))]
    cases = worlds(ctx, "lik", ["LikTheorems"], sim=(20, 12))
    bad = []
    for t in ind:
        bad += ctx.take(t).emitted
    bad = dedupe(bad)
    ctx.extra.update(worlds=len(cases), invalid_matrices=len(bad))
    run_drivers("kriging", {"what": "lik", "cases": cases}, ctx, parts=2)
    run_drivers("kriging", {"what": "indef", "cases": bad}, ctx, tag="indef")
