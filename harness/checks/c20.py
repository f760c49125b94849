"""C20: a GLM file is imported with the meaning of its objects (spec/Glm.tla)."""
import os
import glmfile


def run(ctx):
    ctx.prewarm_start(("pq", "gen", "rest"))
    ctx.model_check("MC_Glm", min_states=80)
    rng, cases, stat = ctx.rng, [], {}
    d = os.path.join(ctx.scratch, "glm")
    os.makedirs(d)
    ctx.prewarm_wait()
    for i in range(ctx.pick(130, 1500)):
        g = glmfile.random_case(rng, cap=rng.random() < 0.8)
        p = glmfile.write(g, d, i)
        cases.append(glmfile.observe(f"g{i}", g, p))
        for k, v in g.stat.items():
            stat[k] = stat.get(k, 0) + v
    ctx.coverage["objects"] = stat
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:500])
    ctx.judge_cases("GlmCase", cases)
