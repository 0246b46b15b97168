from checks.k_common import worlds
from lib import run_drivers


def run(ctx):
    cases = worlds(ctx, "paths", ["PathTheorems"], sim=(10, 10))
    tables = sorted({str(c["w"]["g"]): c["w"]["g"] for c in cases if c["mode"] != "linear"}.values())
    tables = ctx.rng.sample(tables, min(len(tables), ctx.pick(12, 60)))
    ctx.extra.update(worlds=len(cases), covariance_tables=len(tables))
    run_drivers("kriging", {"what": "paths", "cases": cases}, ctx, parts=2)
    run_drivers("kriging", {"what": "draws", "tables": tables}, ctx, tag="draws")
