"""C14: a time series solves every hour once, in order, with the loads of that hour (spec/TimeSeries.tla)."""
import tseries


def run(ctx):
    ctx.prewarm_start(("pq", "rest"))
    ctx.model_check("MC_TimeSeries", min_states=1000)
    rng = ctx.rng
    traces = [tseries.run(ctx, rng, f"s{i}", rng.random() < 0.15) for i in range(ctx.pick(160, 2500))]
    ctx.prewarm_wait()
    traces += [tseries.run(ctx, rng, f"r{i}", False, real=True) for i in range(ctx.pick(10, 100))]
    summarise(ctx, traces)


def summarise(ctx, traces):
    stat = {}
    for t in traces:
        k = f"{t['events'][-1]['e']} after {min(9, sum(e['e'] == 'solve' for e in t['events']))} solves"
        stat[k] = stat.get(k, 0) + 1
    ctx.coverage["ends"] = stat
    ctx.say(stat)
    ctx.samples.append(str(traces[0]["events"])[:600])
    ctx.judge_traces("Trace_TimeSeries", traces)
