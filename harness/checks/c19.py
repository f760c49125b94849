"""C19: a RAW file is imported with the meaning of its records (spec/Raw.tla)."""
import os
import rawfile


def run(ctx):
    ctx.prewarm_start(("pq", "gen", "rest"))
    ctx.model_check("MC_Raw", min_states=100)
    rng, cases, stat = ctx.rng, [], {}
    d = os.path.join(ctx.scratch, "raw")
    os.makedirs(d)
    ctx.prewarm_wait()
    for i in range(ctx.pick(160, 1500)):
        f = rawfile.random_case(rng)
        p = os.path.join(d, f"case{i}.RAW")
        with open(p, "w") as h:
            h.write(rawfile.text(rng, f))
        c = rawfile.observe(f"f{i}", rng, f, p)
        os.remove(p)
        for k in ("loads", "fsh", "gens", "brs", "x2", "x3", "ss"):
            stat[k] = stat.get(k, 0) + len(f[k])
        stat[f"rev {f['rev']}"] = stat.get(f"rev {f['rev']}", 0) + 1
        cases.append(c)
    ctx.coverage["records"] = stat
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:500])
    ctx.judge_cases("RawCase", cases)
