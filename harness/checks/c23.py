"""C23: voltage limiting keeps bus voltages within reach and touches nothing else (spec/Limit.tla)."""
import numpy as np
import nets
from vlib import like, nums


def isv(b):
    vs = {int(k) for o in b.buses for k in (o.node_Vr, o.node_Vi)}
    return [k in vs for k in range(b.network.size_Y)]


def grow(rng, net, b):
    """Add an element with unknowns of its own to the built network."""
    from models.components.bus import Bus
    from models.components.generator import Generator
    from models.components.line import Line
    o = rng.choice(b.buses)
    if rng.random() < 0.5:
        b.network.generators.insert(0, Generator(o, 0.1, 1.0, 9.0, -9.0, 9.0, -9.0, 0.0, None, 100, None))
    else:
        n = Bus(900 + len(b.buses), 1, 1.0, 0.0, None, f"x{len(b.buses)}", "NA", False)
        b.network.buses.insert(rng.randint(0, len(b.network.buses)), n)
        b.network.lines.append(Line(o, n, 0.01, 0.1, 0.0, True, None, None, None))
        b.buses.append(n)


def direct(cid, rng):
    """One limiter over the life of a network that changes."""
    from logic.v_limiting import PositiveSeqVoltageLimiting
    net = nets.random_tx(rng, rng.randint(1, 4))
    b = nets.Built(net)
    lim = PositiveSeqVoltageLimiting(b.network)
    c = dict(id=cid, steps=[], run=False, wanted=False, several=False, exc="")
    pick = lambda: rng.choice([0.0, 1.0, -1.0, 2.0, -2.0, rng.uniform(-1.2, 1.2), rng.uniform(-1.2, 1.2), rng.uniform(-4, 4), rng.uniform(-1e4, 1e4), 1e-9])
    try:
        for _ in range(rng.randint(1, 3)):
            b.network.assign_matrix()
            n = b.network.size_Y
            for _ in range(rng.randint(1, 2)):
                prev = np.array([pick() for _ in range(n)])
                nxt = np.array([p + pick() if rng.random() < 0.5 else pick() for p in prev])
                p0, n0 = prev.copy(), nxt.copy()
                got = lim.apply_limiting(nxt, prev)
                c["steps"].append(dict(isv=isv(b), prev=nums(p0), next=nums(n0), got=nums(np.asarray(got, dtype=float))))
            grow(rng, net, b)
    except Exception as e:
        c["exc"] = f"{type(e).__name__}: {e}"[:300]
    return c


def real(cid, rng):
    """A power flow, with what its limiter was given and returned."""
    from logic.v_limiting import PositiveSeqVoltageLimiting as L
    net = nets.random_tx(rng, light=rng.random() < 0.5) if rng.random() < 0.8 else nets.random_dx(rng, 1)
    if net.kind == "tx" and rng.random() < 0.6:        # a start far from home
        for k in net.buses:
            k["vm"], k["va"] = rng.uniform(0.2, 1.9), rng.uniform(-3, 3)
    b = nets.Built(net)
    wanted = rng.random() < 0.7
    c = dict(id=cid, steps=[], run=True, wanted=bool(wanted and net.kind == "tx"), several=False, exc="")
    true = L.apply_limiting
    calls = []

    @like(true)
    def spy(self, v_next, v_previous):
        n0, p0 = v_next.copy(), v_previous.copy()
        got = true(self, v_next, v_previous)
        calls.append((n0, p0, np.array(got)))
        return got

    L.apply_limiting = spy
    try:
        res, exc = nets.execute(b, tolerance=1e-6, max_iters=12, voltage_limiting=wanted, tx_stepping=rng.random() < 0.2)
    finally:
        L.apply_limiting = true
    if res is None:
        c["run"] = False       # singular: nothing to conclude about use
    else:
        c["several"] = bool(res.iterations > 0) or bool(calls)
        if res.iterations == 0 and not res.is_success:
            c["run"] = False
    mask = isv(b) if calls else []
    rng.shuffle(calls)
    c["steps"] = [dict(isv=mask, prev=nums(p), next=nums(n), got=nums(g)) for n, p, g in calls[:4]]
    return c


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Limit", min_states=500)
    rng = ctx.rng
    cases = [direct(f"d{i}", rng) for i in range(ctx.pick(300, 4000))]
    ctx.prewarm_wait()
    cases += [real(f"p{i}", rng) for i in range(ctx.pick(80, 800))]
    stat = {"limiter calls": sum(len(c["steps"]) for c in cases), "clipped": sum(s["got"] != s["next"] for c in cases for s in c["steps"]),
            "runs limited": sum(c["run"] and len(c["steps"]) > 0 for c in cases), "runs not limited": sum(c["run"] and not c["steps"] for c in cases)}
    ctx.coverage.update(stat)
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:500])
    ctx.judge_cases("LimitCase", cases)
