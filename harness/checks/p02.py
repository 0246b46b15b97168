from checks.param_common import run_focus


def run(ctx):
    run_focus(ctx, "scale", 2, 10, ctx.pick(60, 600), ctx.pick(1200, 10**6))
