"""C08: a solution is only returned together with devices that are settled at it (spec/DeviceLoop.tla).
The real device controller runs over real devices with a scripted solver; then over the real
solver on random feeders."""
import math, traceback, types
import numpy as np
import nets
from vlib import like, num, nums


class Watch:
    """Devices of a built network, as the specification sees them."""

    def __init__(self, built):
        self.b = built
        self.devs = [(e, o) for e, o in zip(built.net.els, built.objs) if e["t"] in ("cap", "fuse")]

    def records(self):
        out = []
        for e, o in self.devs:
            if e["t"] == "cap":
                out.append(dict(t="cap", mode=o.mode.name, closed=o.switch.name == "CLOSED", low=num(o.low_voltage or 0), high=num(o.high_voltage or 0)))
            else:
                out.append(dict(t="fuse", limit=num(o.current_limit), blown=o.status.name == "BLOWN"))
        return out

    def pos(self):
        return [o.switch.name == "CLOSED" if e["t"] == "cap" else o.status.name == "BLOWN" for e, o in self.devs]

    def seen(self, v):
        out = []
        for e, o in self.devs:
            if e["t"] == "cap":
                out.append(nums([v[o.from_bus.node_Vr], v[o.from_bus.node_Vi]]))
            else:
                out.append(nums(o.current_sensor.get_current(v)))
        return out


class Homotopy:
    """What the device loop solves with: a script, or the real controller; recorded."""

    def __init__(self, settings, network, ev, solve):
        self.settings, self.network, self.ev, self.solve = settings, network, ev, solve
        self.nrsolver = types.SimpleNamespace(network=network, settings=settings)
        self.n = 0

    @like("logic.homotopycontroller", "HomotopyController.run_powerflow")
    def run_powerflow(self, v_init):
        if self.first:
            self.first = False
            self.ev.append(dict(e="begin", devs=self.watch.records0, v=nums(v_init), q=self.watch.seen(v_init)))
        if self.n:
            self.ev.append(dict(e="respond"))
        self.n += 1
        v0, pos = nums(v_init), self.watch.pos()
        try:
            out = self.solve(v_init)
        except Exception:
            # cannot be solved (a blown fuse, or a singular system)
            self.ev.append(dict(e="unsupported", pos=pos))
            raise
        ok, v = out[0], out[1]
        self.ev.append(dict(e="solve", v0=v0, pos=pos, ok=bool(ok), v=nums(v), q=self.watch.seen(v)))
        return out


def loop(cid, built, control, solve_factory, kw=None, threephase=True):
    from logic.devicecontroller import DeviceController
    from logic.powerflowsettings import PowerFlowSettings
    settings = PowerFlowSettings(device_control=control, **(kw or {}))
    ev = []
    w = Watch(built)
    w.records0 = w.records()
    h = Homotopy(settings, built.network, ev, None)
    h.watch = w
    h.first = True
    h.solve = solve_factory(settings)
    case = dict(id=cid, control=bool(control), threephase=threephase, events=ev)
    try:
        with nets.quiet():
            ok, v, *_ = DeviceController(settings, h).run_powerflow()
        ev.append(dict(e="return", ok=bool(ok), v=nums(v), pos=w.pos()))
    except Exception as e:
        if ev and ev[-1]["e"] == "unsupported":
            ev.append(dict(e="stopped"))
        elif ev and ev[-1]["e"] == "solve" and h.n > 1:
            ev.append(dict(e="respond"))
            ev.append(dict(e="refused", pos=w.pos(), why=str(e)[:200]))
        else:
            ev.append(dict(e="broke", why=traceback.format_exc()[-400:]))
    return case


def fleet(rng, ncap, nfuse, kind="dx"):
    net = nets.Net(kind)
    v = 2400.0
    a = nets.dx_node(net, "src", "ABC", v)
    for p in "ABC":
        net.add("slack", f=a[p], v=v, ang=nets.PH[p])
    for i in range(ncap):
        lo = rng.choice([2300.0, 2380.0])
        net.add("cap", f=a[rng.choice("ABC")], to=0, var=1000.0, vnom=v, closed=rng.random() < 0.5,
                mode=rng.choice(["VOLT", "VOLT", "VOLT", "MANUAL"]), low=lo, high=rng.choice([2420.0, 2500.0]))
    for i in range(nfuse):
        p = rng.choice("ABC")
        n = net.bus(v, nets.PH[p], f"f{i}", p)
        m = net.bus(v, nets.PH[p], "src-Fuse", p, True)
        net.add("fuse", f=a[p], to=n, mid=m, limit=rng.choice([10.0, 100.0, 1000.0]), phase=p)
    return net


def scripted(rng, cid, built, levels, control, threephase=True):
    """levels(k): level of solve k: voltage magnitude per cap and current per fuse are drawn around it."""
    k = [0]

    def factory(settings):
        def solve(v_init):
            size = built.network.size_Y
            v = np.array([rng.uniform(-1, 1) for _ in range(size)])
            lv, amps, ok = levels(k[0])
            k[0] += 1
            for e, o in zip(built.net.els, built.objs):
                ph = rng.uniform(-3, 3)
                if e["t"] == "cap":
                    v[o.from_bus.node_Vr], v[o.from_bus.node_Vi] = lv * math.cos(ph), lv * math.sin(ph)
            for e, o in zip(built.net.els, built.objs):
                ph = rng.uniform(-3, 3)
                if e["t"] == "fuse":
                    i, j = (int(x) for x in o.current_sensor.get_current(np.arange(size)))
                    v[i], v[j] = amps * math.cos(ph), amps * math.sin(ph)
            return ok, v, 3, 0, None
        return solve
    return loop(cid, built, control, factory, threephase=threephase)


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_DeviceLoop", min_states=100)
    rng, traces = ctx.rng, []
    for i in range(ctx.pick(150, 1500)):
        net = fleet(rng, rng.randint(0, 3), rng.randint(0, 2))
        if rng.random() < 0.1:
            net.kind = "tx"
        b = nets.Built(net)
        plan = []
        mode = rng.choice(["settle", "alternate", "random", "alternate", "long"])
        settle = rng.randint(0, 12)
        for k in range(30):
            lv = rng.choice([2200.0, 2350.0, 2400.0, 2450.0, 2600.0, 2420.0])
            if mode in ("alternate", "long"):
                lv = 2200.0 if k % 2 else 2600.0
            if mode in ("settle", "alternate") and k >= settle:
                lv = 2400.0
            amps = rng.choice([1.0, 9.9, 10.1, 50.0]) if k < 3 else rng.choice([1.0, 9.0, 101.0 if k == settle else 9.0])
            plan.append((lv, amps, rng.random() < 0.97))
        traces.append(scripted(rng, f"s{i}", b, lambda k: plan[min(k, 29)], rng.random() < 0.85, net.kind == "dx"))
    ctx.prewarm_wait()
    from logic.homotopycontroller import HomotopyController
    from logic.nrsolver import NRSolver
    for i in range(ctx.pick(30, 300)):
        net = nets.random_dx(rng, light=False, features=("xfmr", "reg", "switch", "fuse", "fuse", "cap", "ic", "z"))
        if not any(e["t"] == "cap" for e in net.els):
            net.add("cap", f=1, to=0, var=5e4, vnom=net.buses[0]["vm"], closed=True, mode="MANUAL")
        for e in net.els:
            if e["t"] == "cap":
                e["mode"] = "VOLT"
                e["var"] *= rng.choice([1, 20])
                e["high"], e["low"] = e["vnom"] * rng.choice([0.99, 0.999, 1.00037, 1.05]), e["vnom"] * rng.choice([0.9, 0.98, 0.98513])
            if e["t"] == "fuse" and rng.random() < 0.15:
                e["limit"] = rng.choice([1.0, 30.0])
        b = nets.Built(net)

        def factory(settings, b=b):
            real = HomotopyController(settings, b.network, NRSolver(settings, b.network, None))
            return real.run_powerflow
        traces.append(loop(f"n{i}", b, rng.random() < 0.9, factory))
    ends = {}
    for t in traces:
        k = (t["events"][-1]["e"] if t["events"] else "nothing", sum(e["e"] == "solve" for e in t["events"]))
        ends[f"{k[0]} after {k[1]}"] = ends.get(f"{k[0]} after {k[1]}", 0) + 1
    ctx.coverage["ends"] = ends
    ctx.say("ends", ends)
    ctx.samples += [str([e["e"] for e in t["events"]]) for t in traces[:3]]
    ctx.judge_traces("Trace_DeviceLoop", traces)
