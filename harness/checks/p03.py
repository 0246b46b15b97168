from checks.param_common import run_focus


def run(ctx):
    run_focus(ctx, "alias", ctx.pick(2, 3), 14, ctx.pick(120, 800), ctx.pick(6000, 40000))
