"""C22: the command line does what its arguments say (spec/Cli.tla)."""
import clirun


def run(ctx):
    ctx.prewarm_start(("pq", "gen", "rest"))
    ctx.model_check("MC_Cli", min_states=3000)
    ctx.prewarm_wait()
    rng, stat, traces = ctx.rng, {}, []
    for i in range(ctx.pick(300, 3000)):
        t = clirun.run(ctx, rng, f"k{i}", process=i < ctx.pick(4, 20))
        a, z = t["events"][0]["args"], t["events"][-1]
        for k in (a["kind"], "series" if a["series"] else "adjusted" if a["swing"] and a["neg"] else "plain", f"exit {z['got'][0]['code']}",
                  f"{min(3, sum(e['e'] == 'solve' for e in t['events']))} solves", f"{len(z['got'][0]['files'])} results written") + tuple(k for k in ("infeas", "stepping", "verbose", "debug", "select", "remote") if a[k]):
            stat[k] = stat.get(k, 0) + 1
        traces.append(t)
    ctx.coverage["runs"] = stat
    ctx.say(stat)
    ctx.samples.append(str(traces[0])[:800])
    ctx.judge_traces("Trace_Cli", traces)
