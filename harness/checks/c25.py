"""C25: a power flow depends only on the network as it is now (spec/Rerun.tla, RerunCase.tla)."""
import copy, math
import numpy as np
import nets
from vlib import num, nums


def outcome(b, res, exc):
    o = dict(exc=exc.split(":")[0] if exc else "", ok=False, x=[], buses=[], gens=[], loads=[])
    if res is None:
        return o
    at = {id(q): i for i, q in enumerate(b.buses)}
    el = {id(q): i for i, q in enumerate(b.objs)}
    o.update(ok=bool(res.is_success), x=nums([res.v_final[k] for k in b.unknowns()]), buses=[at.get(id(r.bus), -1) for r in res.bus_results],
             gens=[el.get(id(r.generator), -1) for r in res.generator_results], loads=[el.get(id(r.load), -1) for r in res.load_results])
    return o


def settings(rng, tx):
    return dict(tolerance=1e-7 if tx else 1e-5, max_iters=30, flat_start=tx and rng.random() < 0.2, tx_stepping=rng.random() < 0.3,
                voltage_limiting=False, debug=rng.random() < 0.1)


def change(rng, net, b, log):
    """One change, applied alike to the data and to the live objects."""
    nw = b.network
    loads = [(e, o) for e, o in zip(net.els, b.objs) if e["t"] == "load"]
    gens = [(e, o) for e, o in zip(net.els, b.objs) if e["t"] == "gen"]
    sw = [(e, o) for e, o in zip(net.els, b.objs) if e["t"] == "switch"]
    caps = [(e, o) for e, o in zip(net.els, b.objs) if e["t"] == "cap"]
    regs = [(e, o) for e, o in zip(net.els, b.objs) if e["t"] == "reg"]
    ways = ["opt", "bus"] + ["load"] * 3 * bool(loads) + ["zero"] * 2 * bool(loads) + ["gen"] * 2 * bool(gens) + ["switch"] * 3 * bool(sw) + ["cap"] * 2 * bool(caps) + ["reg"] * 3 * bool(regs) \
        + ["addload"] + ["drop"] * 2 * bool(loads) + ["addgen"] * (net.kind == "tx")
    w = rng.choice(ways)
    log.append(w)
    if w == "load":
        e, o = rng.choice(loads)
        f = rng.uniform(0.5, 1.3)
        o.P = e["p"] = e["p"] * f
        o.Q = e["q"] = e["q"] * f
    elif w == "zero":
        e, o = rng.choice(loads)
        p, q = (0.0, 0.0) if e["p"] or e["q"] else ((0.02, 0.01) if net.kind == "tx" else (700.0, 90.0))
        o.P = e["p"] = p
        o.Q = e["q"] = q
    elif w == "gen":
        e, o = rng.choice(gens)
        e["p"] *= rng.uniform(0.5, 1.2)
        o.P = -e["p"]
    elif w == "switch":
        e, o = rng.choice(sw)
        e["closed"] = not e["closed"]
        o.status = type(o.status).CLOSED if e["closed"] else type(o.status).OPEN
    elif w == "cap":
        e, o = rng.choice(caps)
        e["closed"] = not e["closed"]
        o.switch = type(o.switch).CLOSED if e["closed"] else type(o.switch).OPEN
    elif w == "reg":
        e, o = rng.choice(regs)
        o.try_increment_tap_position(rng.choice([-3, -1, 1, 2, 40]))
        e["tap"] = int(o.tap_position)
    elif w == "opt":
        from models.optimization.L2infeasibility import load_infeasibility_analysis
        nw.optimization = None if nw.optimization is not None else load_infeasibility_analysis(nw)
    elif w == "bus":      # another start
        i = rng.randrange(net.n)
        if not any(e["t"] == "slack" and e["f"] == i + 1 for e in net.els):
            net.buses[i].setdefault("vnom", net.buses[i]["vm"])
            net.buses[i]["vm"] *= rng.uniform(0.98, 1.02)
            d = net.buses[i]
            b.buses[i].Vr_init, b.buses[i].Vi_init = d["vm"] * math.cos(d["va"]), d["vm"] * math.sin(d["va"])
    elif w == "drop":
        e, o = rng.choice(loads)
        if net.kind == "dx" and e["z"] and e["p"] == 0:      # may be all that ties a delta to ground
            return
        k = next(i for i, x in enumerate(b.objs) if x is o)
        del b.objs[k], net.els[k]
        nw.loads[:] = [x for x in nw.loads if x is not o]
    elif w in ("addload", "addgen"):
        i = rng.randint(1, net.n)
        one = nets.Net(net.kind)
        one.buses = net.buses
        if w == "addload":
            if net.kind == "dx" and net.buses[i - 1]["virt"]:
                return
            s = 0.02 if net.kind == "tx" else net.buses[i - 1]["vm"]
            one.add("load", f=i, to=0, p=s * rng.random(), q=0.1 * s, ip=0.0, iq=0.0, z=0)
        else:
            if any(e["t"] in ("gen", "slack") and e["f"] == i for e in net.els):
                return
            one.add("gen", f=i, p=0.01, v=1.0, qinit=0.05)
        o = nets.Built(one).objs[0]
        if w == "addload":
            o.from_bus = b.buses[i - 1]
        else:
            o.bus = b.buses[i - 1]
        at = rng.randint(0, len(b.objs))
        b.objs.insert(at, o)
        net.els.insert(at, one.els[0])
        same = [x for x, e in zip(b.objs, net.els) if e["t"] == one.els[0]["t"]]
        (nw.loads if w == "addload" else nw.generators)[:] = same


def case(cid, rng):
    from logic.powerflowsettings import PowerFlowSettings
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    tx = rng.random() < 0.5
    net = nets.random_tx(rng, rng.randint(2, 5)) if tx else nets.random_dx(rng, rng.randint(1, 3), features=("xfmr", "ct", "reg", "switch", "cap", "z"))
    b = nets.Built(net)
    c = dict(id=cid, tx=tx, runs=[])
    log = []
    for r in range(rng.randint(2, 4)):
        if r:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                change(rng, net, b, log)
            if rng.random() < 0.2:      # other networks in between
                nets.execute(nets.Built(nets.random_tx(rng, 2) if rng.random() < 0.7 else nets.random_dx(rng, 1)))
                log.append("other")
        kw = settings(rng, tx)
        now = nets.Net(net.kind)
        now.buses, now.els = copy.deepcopy(net.buses), copy.deepcopy(nets.end_els(b))
        res, exc = nets.execute(b, **kw)
        f = nets.Built(now)
        if b.network.optimization is not None:
            f.network.optimization = load_infeasibility_analysis(f.network)
        fr, fexc = nets.execute(f, **kw)
        run = dict(n=net.n, els=nets.spec_els(now.els), flat=bool(kw["flat_start"]), opt=b.network.optimization is not None, size=int(b.network.size_Y or 0),
                   at=[], start=[], bus=[dict(vm=num(d["vm"]), va=num(d["va"])) for d in now.buses], got=outcome(b, res, exc), new=outcome(f, fr, fexc))
        if res is not None:
            run["at"] = b.unknowns()
            v0 = b.network.generate_v_init(PowerFlowSettings(**kw))
            run["start"] = nums([v0[k] for k in run["at"]])
        c["runs"].append(run)
        log.append("run" if res is not None else "refused")
    return c, log


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Rerun", min_states=500)
    ctx.prewarm_wait()
    rng, cases, stat = ctx.rng, [], {}
    for i in range(ctx.pick(90, 1200)):
        c, log = case(f"h{i}", rng)
        cases.append(c)
        for w in log:
            stat[w] = stat.get(w, 0) + 1
        for r in c["runs"]:
            k = "successful" if r["got"]["ok"] else "raised" if r["got"]["exc"] else "not solved"
            stat[k] = stat.get(k, 0) + 1
        if i == 0:
            ctx.samples.append(" ".join(log))
    ctx.coverage["history"] = stat
    ctx.say(stat)
    ctx.judge_cases("RerunCase", cases)
