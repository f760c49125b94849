"""C07: continuation claims success only for the network as given (spec/Homotopy.tla).
The real controller runs against a scripted solver, on a real network; then whole runs of
the real composition are recorded."""
import traceback
import numpy as np
import nets
from vlib import Endless, like, num, nums


class Solver:
    def __init__(self, ev, rng, script):
        self.ev, self.rng, self.script, self.k = ev, rng, script, 0

    @like("logic.nrsolver", "NRSolver.run_powerflow")
    def run_powerflow(self, stamper, v_init, tx_factor):
        if self.k > 300:
            raise Exception("solved without end")
        ok = self.script(self.k, tx_factor)
        self.k += 1
        v0 = nums(v_init)
        if ok is None:
            self.ev.append(dict(e="broke", tx=num(tx_factor), v0=v0))
            raise Exception("Error solving linear system")
        v = np.array([self.rng.uniform(-2, 2) for _ in v_init])
        self.ev.append(dict(e="solve", tx=num(tx_factor), v0=v0, ok=bool(ok), v=nums(v)))
        return bool(ok), v, self.rng.randint(0, 20)


def scripted(rng, cid, built, script, stepping):
    from logic.homotopycontroller import HomotopyController
    from logic.powerflowsettings import PowerFlowSettings
    from logic.stamping.matrixstamper import build_matrix_stamper
    nw = built.network
    ev = []
    v0 = np.array([rng.uniform(-2, 2) for _ in range(nw.size_Y)])
    settings = PowerFlowSettings(tx_stepping=stepping)
    ev.append(dict(e="begin", v=nums(v0), stepping=bool(stepping)))
    keep = v0.copy()
    try:
        with nets.quiet():
            ok, v, it, tx, res = HomotopyController(settings, nw, Solver(ev, rng, script)).run_powerflow(v0)
            want = build_matrix_stamper(nw).calc_residuals(0, np.array(v), 0)
        ev.append(dict(e="return", ok=bool(ok), v=nums(v), tx=num(tx)))
        ev.append(dict(e="residual", v=nums(v), got=nums(res.residuals), want=nums(want.residuals)))
        ev.append(dict(e="intact", same=bool((v0 == keep).all())))
    except Exception:
        ev.append(dict(e="raised", what=traceback.format_exc()[-400:]))
    return dict(id=cid, events=ev)


class Recorder:
    """The real solver, recorded."""

    def __init__(self, ev, real):
        self.ev, self.real, self.network, self.k = ev, real, real.network, 0

    @like("logic.nrsolver", "NRSolver.run_powerflow")
    def run_powerflow(self, stamper, v_init, tx_factor):
        v0 = nums(v_init)
        self.k += 1
        if self.k > 300:
            raise Endless("run_powerflow of the homotopy controller solves without end")
        try:
            ok, v, it = self.real.run_powerflow(stamper, v_init, tx_factor)
        except Exception:
            self.ev.append(dict(e="broke", tx=num(tx_factor), v0=v0))
            raise
        self.ev.append(dict(e="solve", tx=num(tx_factor), v0=v0, ok=bool(ok), v=nums(v)))
        return ok, v, it


def real(rng, cid, net, **kw):
    from logic.homotopycontroller import HomotopyController
    from logic.nrsolver import NRSolver
    from logic.powerflowsettings import PowerFlowSettings
    from logic.stamping.matrixstamper import build_matrix_stamper
    b = nets.Built(net)
    nw = b.network
    settings = PowerFlowSettings(**kw)
    nw.assign_matrix()
    v0 = nw.generate_v_init(settings)
    ev = [dict(e="begin", v=nums(v0), stepping=bool(settings.tx_stepping))]
    try:
        with nets.quiet():
            ok, v, it, tx, res = HomotopyController(settings, nw, Recorder(ev, NRSolver(settings, nw, None))).run_powerflow(v0)
            want = build_matrix_stamper(nw).calc_residuals(0, np.array(v), 0)
        ev.append(dict(e="return", ok=bool(ok), v=nums(v), tx=num(tx)))
        ev.append(dict(e="residual", v=nums(v), got=nums(res.residuals), want=nums(want.residuals)))
    except Exception:
        ev.append(dict(e="raised", what=traceback.format_exc()[-400:]))
    return dict(id=cid, events=ev)


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Homotopy", min_states=50)
    rng = ctx.rng
    net = nets.Net("tx")
    a, b_ = net.bus(1.0, 0.0, "a"), net.bus(0.98, -0.1, "b")
    net.add("slack", f=a, v=1.0, ang=0.0)
    net.add("line", f=a, to=b_, r=0.01, x=0.1, b=0.02)
    net.add("xfmr", fp=a, fn=0, tp=b_, tn=0, r=0.01, x=0.1, tr=0.95, ang=10.0)
    net.add("load", f=b_, to=0, p=0.0, q=0.0, ip=0.1, iq=0.05, z=complex(5, 1))
    built = nets.Built(net)
    built.network.assign_matrix()
    traces = []
    # fail at each possible solve of the path; and never; and with solves that recover
    fails = list(range(0, 103)) if not ctx.quick else sorted(set([0, 1, 2, 3, 50, 51, 99, 100, 101, 102] + rng.sample(range(103), 10)))
    for at in fails:
        traces.append(scripted(rng, f"f{at}", built, lambda k, tx: k > 0 and k != at, True))
    for ok in (True, False):
        for st in (True, False):
            traces.append(scripted(rng, f"d{ok}{st}", built, lambda k, tx: ok, st))
            traces.append(scripted(rng, f"e{ok}{st}", built, lambda k, tx: ok if k == 0 else not ok, st))
    for at in (0, 1, 40):
        traces.append(scripted(rng, f"b{at}", built, lambda k, tx: None if k == at else k > 0, True))
    for i in range(ctx.pick(20, 100)):
        p = rng.choice([0.9, 0.98, 0.995])
        traces.append(scripted(rng, f"r{i}", built, lambda k, tx: None if rng.random() < 0.003 else rng.random() < p, rng.random() < 0.8))
    ctx.prewarm_wait()
    outcome = {}
    for i in range(ctx.pick(24, 200)):
        net = nets.random_tx(rng, light=False) if i % 2 else nets.random_dx(rng, light=False)
        k = rng.choice([1.0, 4.0, 15.0])
        for e in net.els:
            if e["t"] == "load":
                e["p"], e["q"] = e["p"] * k, e["q"] * k
        t = real(rng, f"n{i}", net, tx_stepping=rng.random() < 0.8, max_iters=rng.choice([50, 50, 3, 4, 5]), flat_start=rng.random() < 0.3)
        n = sum(e["e"] == "solve" for e in t["events"])
        key = f"{'one solve' if n == 1 else 'stopped on the path' if n < 102 else 'whole path'}/{t['events'][-2].get('ok')}"
        outcome[key] = outcome.get(key, 0) + 1
        traces.append(t)
    ctx.coverage["runs"] = outcome
    ctx.say("recorded runs", outcome)
    ctx.samples += [f"{t['id']}: {[e['e'] for e in t['events']][:6]}.. {len(t['events'])} events" for t in traces[:3]]
    ctx.judge_traces("Trace_Homotopy", traces)
