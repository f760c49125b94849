"""C12: a network that falls into several islands is refused before it is solved (spec/Graph.tla)."""
import nets
from vlib import num


def strip(net):
    """Only impedances and injected currents, so that accepted networks solve at once."""
    for e in net.els:
        if e["t"] == "load":
            e["p"] = e["q"] = 0.0
            if not e["z"]:
                e["z"] = complex(100.0, 1.0)


def observe(cid, net, built):
    from logic.graphanalyzer import GraphAnalyzer
    els = []
    for e in nets.spec_els(net.els):
        r = {k: v for k, v in e.items() if k in ("t", "f", "to", "fs", "ts", "closed", "fp", "fn", "tp", "tn", "to1", "to2")}
        els.append(r)
    for r, e in zip(els, net.els):
        if e["t"] == "fuse":
            r["blown"] = bool(e.get("blown", False))
    c = dict(id=cid, name=[b["name"] for b in net.buses], virt=[b["virt"] for b in net.buses], vnom=[num(b["vm"]) for b in net.buses], els=els,
             islands=[], count=-1, raised=False, exc="", saysisland=False, saysvoltage=False)
    with nets.quiet():
        ga = GraphAnalyzer(built.network)
        c["islands"] = [sorted(str(n) for n in i) for i in ga.get_islands()]
        c["count"] = int(ga.get_island_count())
    res, exc = nets.execute(built, device_control=False)
    c["raised"], c["exc"] = res is None, exc.replace("|", "/")[:150]
    c["saysisland"] = res is None and "island" in exc.lower()
    c["saysvoltage"] = res is None and "nominal voltage" in exc.lower()
    return c


def run(ctx):
    ctx.model_check("MC_Graph", min_states=1000)
    rng, cases, stat = ctx.rng, [], {}
    from models.components.fuse import FuseStatus
    for i in range(ctx.pick(150, 1500)):
        if i % 2:
            net = nets.random_tx(rng, rng.randint(2, 7), features=("xfmr", "shunt", "ic", "z"))
        else:
            net = nets.random_dx(rng, rng.randint(1, 5))
        strip(net)
        # extra ties, then cuts
        cand = [b + 1 for b, x in enumerate(net.buses) if not x["virt"] and x["phase"] in ("NA", "A")]
        for _ in range(rng.randint(0, 2)):
            if len(cand) > 1:
                a, b = rng.sample(cand, 2)
                kind = rng.choice(["switch", "line", "load", "cap", "vs"])
                if kind == "switch":
                    net.add("switch", f=a, to=b, closed=rng.random() < 0.6)
                elif kind == "line":
                    net.add("line", f=a, to=b, r=0.1, x=1.0, b=0.0)
                elif kind == "load":
                    net.add("load", f=a, to=b, p=0.0, q=0.0, ip=0.0, iq=0.0, z=complex(100, 1))
                elif kind == "cap" and net.kind == "dx":
                    net.add("cap", f=a, to=rng.choice([0, b]), var=100.0, vnom=2400.0, closed=True, mode="MANUAL")
        cut = rng.choice(["none", "open", "drop", "blow", "node"])
        branch = [e for e in net.els if e["t"] in ("line", "switch", "xfmr", "uline", "fuse", "reg", "ct")]
        if cut == "open":
            for e in branch:
                if e["t"] == "switch" and rng.random() < 0.7:
                    e["closed"] = False
        elif cut == "drop" and branch:
            e = rng.choice(branch)
            net.els.remove(e)
        elif cut == "node":
            net.bus(net.buses[0]["vm"], 0.0, "alone", "A")
        elif cut == "blow":
            for e in net.els:
                if e["t"] == "fuse":
                    e["blown"] = True
        if rng.random() < 0.3:
            rng.shuffle(net.els)
        b = nets.Built(net)
        for e, o in zip(net.els, b.objs):
            if e.get("blown"):
                o.status = FuseStatus.BLOWN
        c = observe(f"g{i}", net, b)
        k = f"{c['count'] if c['count'] < 3 else 'many'} island(s), {'refused' if c['raised'] else 'accepted'}"
        stat[k] = stat.get(k, 0) + 1
        cases.append(c)
    ctx.coverage["outcomes"] = stat
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:500])
    ctx.judge_cases("GraphCase", cases)
