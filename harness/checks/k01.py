from checks.k_common import worlds
from lib import run_drivers


def run(ctx):
    cases = worlds(ctx, "predict", ["Theorems"], sim=(12, 12))
    ctx.extra["worlds"] = len(cases)
    run_drivers("kriging", {"what": "predict", "cases": cases}, ctx, parts=2)
