"""C13: nominal voltages must agree within every part of the network not separated by a transformer or regulator (spec/Graph.tla)."""
import nets
from checks.c12 import strip, observe


def run(ctx):
    ctx.model_check("MC_Graph", min_states=1000)
    rng, cases, stat = ctx.rng, [], {}
    for i in range(ctx.pick(150, 1500)):
        net = nets.random_dx(rng, rng.randint(2, 5))
        strip(net)
        names = sorted({b["name"] for b in net.buses if not b["virt"]})
        how = rng.choice(["as is", "small", "big", "big", "tie", "tie"])
        if how in ("small", "big"):
            for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2]))):
                d = rng.uniform(-4.7, 4.7) if how == "small" else rng.choice([-1, 1]) * rng.choice([rng.uniform(21, 23), rng.uniform(21, 100)])
                for b in net.buses:
                    if b["name"] == n:
                        b["vm"] += d
        elif how == "tie" and len(names) > 2:
            # a second path, possibly bypassing a transformer
            a, b = rng.sample(names, 2)
            across = [e for e in net.els if e["t"] in ("xfmr", "reg")]
            if across and rng.random() < 0.7:
                e = rng.choice(across)
                a, b = (net.buses[e[k] - 1]["name"] for k in (("fp", "tp") if e["t"] == "xfmr" else ("f", "to")))
            for p in "ABC":
                f = [j + 1 for j, q in enumerate(net.buses) if q["name"] == a and q["phase"] == p and not q["virt"]]
                t = [j + 1 for j, q in enumerate(net.buses) if q["name"] == b and q["phase"] == p and not q["virt"]]
                if f and t:
                    net.add("switch", f=f[0], to=t[0], closed=rng.random() < 0.8, phase=p)
        if rng.random() < 0.5:
            rng.shuffle(net.els)
        c = observe(f"v{i}", net, nets.Built(net))
        k = f"{how}: {'refused' if c['raised'] else 'accepted'}"
        stat[k] = stat.get(k, 0) + 1
        cases.append(c)
    ctx.coverage["outcomes"] = stat
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:500])
    ctx.judge_cases("GraphCase", cases)
