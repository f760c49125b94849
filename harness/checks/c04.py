"""C04: each Newton step solves the exact first-order linearisation of the physics."""
from checks import c03


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Net", min_states=300)
    ctx.prewarm_wait()
    ctx.judge_cases("NetCase", c03.cases(ctx, "lin"))
