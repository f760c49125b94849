"""C06: the Newton iteration accepts exactly converged points (spec/Newton.tla).
The real solver runs against a scripted stamper, limiter and network."""
import traceback, types
import numpy as np
import nets
from vlib import like, num, nums


class Script:
    """A stamper whose linear systems and residuals are scripted; records every call."""

    def __init__(self, ev, size, lin, b, nl, c, res):
        self.ev, self.size, self.lin, self.b, self.nl, self.c, self.res = ev, size, lin, b, nl, c, res
        self.k = 0
        self.started = 0

    def resume(self):
        if self.started < self.k:
            self.started = self.k
            self.ev.append(dict(e="continue"))

    @like("logic.stamping.matrixstamper", "MatrixStamper.stamp_linear")
    def stamp_linear(self, Y, J, tx_factor):
        self.resume()
        self.ev.append(dict(e="linear", tx=num(tx_factor)))
        for r, c, v in self.lin:
            Y.stamp(r, c, v)
        for i, v in enumerate(self.b):
            J[i] += v

    @like("logic.stamping.matrixstamper", "MatrixStamper.stamp_nonlinear")
    def stamp_nonlinear(self, Y, J, v_prev, iteration_num):
        self.resume()
        self.ev.append(dict(e="nonlinear", v=nums(v_prev)))
        for r, c, x in self.nl[self.k]:
            Y.stamp(r, c, x)
        for i, x in enumerate(self.c[self.k]):
            J[i] += x

    @like("logic.stamping.matrixstamper", "MatrixStamper.calc_residuals")
    def calc_residuals(self, tx_factor, v_result, iteration_num):
        tx, v = tx_factor, v_result
        r = self.res[self.k]
        self.k += 1
        self.ev.append(dict(e="residual", tx=num(tx), v=nums(v)))
        self.ev.append(dict(e="evaluated", r=num(r)))
        vec = np.zeros(self.size)
        at = (self.k * 7) % self.size
        vec[at] = r if self.k % 2 else -r
        return types.SimpleNamespace(max_residual=r, max_residual_idx=at, residuals=vec, residual_contributions=[])


class Limiter:
    def __init__(self, ev):
        self.ev = ev

    @like("logic.v_limiting", "PositiveSeqVoltageLimiting.apply_limiting")
    def apply_limiting(self, v_next, v_previous):
        vn, vp = v_next, v_previous
        self.ev.append(dict(e="limit", vn=nums(vn), vp=nums(vp)))
        vn[:] = (vn + vp) / 2
        return vn


def script(rng, size, k):
    """k Newton systems over a changing set of entries, always diagonally dominant."""
    def entries(extra):
        out = [[i, i, float(rng.randint(2, 4) * 4)] for i in range(size)]
        for _ in range(extra):
            i, j = rng.randrange(size), rng.randrange(size)
            out.append([i, j, float(rng.choice([-1, 1])) / 2])
        return out
    lin = entries(rng.randint(0, 3))
    nl = [[e for e in entries(rng.randint(0, 3)) if rng.random() < 0.7] for _ in range(k)]
    b = [float(rng.randint(-9, 9)) for _ in range(size)]
    c = [[float(rng.randint(-9, 9)) for _ in range(size)] for _ in range(k)]
    return lin, nl, b, c


def trace(rng, cid, mx, tol, res, limiting, size, debug=False):
    from logic.nrsolver import NRSolver
    from logic.powerflowsettings import PowerFlowSettings
    lin, nl, b, c = script(rng, size, mx)
    ev = []
    st = Script(ev, size, lin, b, nl, c, res)
    settings = PowerFlowSettings(tolerance=tol, max_iters=mx, debug=debug, voltage_limiting=limiting)
    network = types.SimpleNamespace(matrix_map={0: "bus:n:r"}, size_Y=size, buses=[], matrix_version=0, is_three_phase=False, optimization=None)
    v0 = np.array([float(rng.randint(-5, 5)) for _ in range(size)])
    keep = v0.copy()
    tx = rng.choice([0, 0.0, 0.37, 1.0])
    ev.append(dict(e="begin", v=nums(v0), tx=num(tx), par=dict(tol=num(tol), max=mx, limiting=limiting)))
    try:
        with nets.quiet():
            ok, v, it = NRSolver(settings, network, Limiter(ev) if limiting else None).run_powerflow(st, v0, tx)
        ev.append(dict(e="return", ok=bool(ok), v=nums(v), it=int(it)))
        ev.append(dict(e="intact", same=bool((v0 == keep).all())))
    except Exception:
        ev.append(dict(e="raised", what=traceback.format_exc()[-400:]))
    idx = lambda es: [[i + 1, j + 1, num(x)] for i, j, x in es]
    return dict(id=cid, size=size, lin=idx(lin), nl=[idx(e) for e in nl], b=nums(b), c=[nums(x) for x in c], events=ev)


def run(ctx):
    rng = ctx.rng
    ctx.model_check("MC_Newton")
    traces = []
    # every script of three levels over up to N iterations
    import itertools
    lv = {"lo": 0.5e-5, "hi": 3e-5, "hh": 9e-5, "eq": 1e-5, "neg": 0.0}
    n = 0
    for mx in (1, 2, 3, 4):
        for s in itertools.product(["lo", "hi", "hh"], repeat=mx):
            for lim in (False, True):
                if mx == 4 and ctx.quick and rng.random() < 0.6:
                    continue
                traces.append(trace(rng, f"e{n}", mx, 1e-5, [lv[x] for x in s], lim, rng.randint(1, 4), debug=rng.random() < 0.2))
                n += 1
    for k in range(ctx.pick(40, 400)):
        mx = rng.choice([49, 50, 51, 99, 100, 101, 130, 60])
        kind = rng.choice(["rise", "fall", "wave", "flat", "late", "noise", "plateau", "plateau", "climb", "stairs"])
        slope = 10 ** rng.uniform(-8, -1)
        f = {"rise": lambda i: 1.0 + 0.1 * i, "fall": lambda i: 20.0 / (1 + i), "wave": lambda i: 1.0 + (i % 7),
             "flat": lambda i: 2.0, "late": lambda i: 50.0 - i if i < 49 else 1e9, "noise": lambda i: rng.uniform(1, 9),
             "plateau": lambda i: 20.0 - slope * i, "climb": lambda i: 20.0 + slope * i, "stairs": lambda i: 20.0 - slope * (i // 10) + slope / 100 * (i % 10)}[kind]
        res = [f(i) for i in range(mx)]
        if rng.random() < 0.5:
            res[rng.choice([mx - 1, min(49, mx - 1), rng.randrange(mx)])] = rng.choice([0.0, 1e-6, 1e-5])
        traces.append(trace(rng, f"w{k}", mx, 1e-5, res, rng.random() < 0.3, rng.randint(1, 3)))
    ctx.samples += [str([e["e"] for e in t["events"]]) for t in traces[:2]]
    ctx.judge_traces("Trace_Newton", traces)
