import json

from checks.k_common import consts
from lib import dedupe, run_drivers


def run(ctx):
    c = consts("predict", 3, ctx.pick("{3}", "{2, 3}"), trends='{"const", "affine"}')
    a = ctx.tlc("Regroup", c, ["Invisible", "REmitCase", "REmitPlan"], spec=("RInit", "RNext"), workers=6)
    got = ctx.take(a).emitted
    base = dedupe([g for g in got if "mean" in g])
    plans = dedupe([g for g in got if "plan" in g])
    items = []
    for b in base:
        mine = [p["plan"] for p in plans if p["obs"] == b["obs"]]
        k = min(len(mine), ctx.pick(250, 100000))
        items += [{"case": b, "plan": p} for p in ctx.rng.sample(mine, k)]
    for k, it in enumerate(items):
        if k % 40 == 0:
            it["plan"] = dict(it["plan"], many=ctx.rng.choice([30, 100, 333, 1000]))
    ctx.extra.update(presentations=len(items), base_cases=len(base))
    run_drivers("kriging", {"what": "regroup", "cases": items}, ctx, parts=2)
