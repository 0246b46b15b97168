from checks.param_common import run_focus


def run(ctx):
    run_focus(ctx, "edit", 2, 12, ctx.pick(30, 400), ctx.pick(500, 10**6))
