"""C15: generation is adjusted until the artificial swing bus is idle, and never after a failure (spec/TimeSeries.tla)."""
import tseries
from checks.c14 import summarise


def run(ctx):
    ctx.prewarm_start(("pq", "rest"))
    ctx.model_check("MC_TimeSeries", min_states=1000)
    rng = ctx.rng
    traces = [tseries.run(ctx, rng, f"a{i}", True) for i in range(ctx.pick(160, 2500))]
    ctx.prewarm_wait()
    traces += [tseries.run(ctx, rng, f"r{i}", True, real=True) for i in range(ctx.pick(10, 100))]
    summarise(ctx, traces)
