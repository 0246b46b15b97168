from checks.k_common import worlds
from lib import run_drivers


def run(ctx):
    cases = worlds(ctx, "loo", [], sim=(20, 12))
    ctx.extra["worlds"] = len(cases)
    run_drivers("kriging", {"what": "loo", "cases": cases}, ctx, parts=2)
