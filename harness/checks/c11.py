"""C11: tap changers move within their range, and the network sees exactly the ratio of the position.
Histories of real regulators (spec/Trace_Device); the ratio the equations use is measured, not read."""
import itertools
import numpy as np
import nets
from vlib import num


def measured(bt, reg):
    """Ratio the assembled equations impose between primary and internal secondary voltage."""
    from logic.stamping.matrixstamper import build_matrix_stamper
    st = build_matrix_stamper(bt.network)
    size = bt.network.size_Y
    x = reg.transformer

    def row(i):
        v = np.zeros(size)
        v[i] = 1.0
        return st.calc_residuals(0, v, 0).residuals - st.calc_residuals(0, np.zeros(size), 0).residuals
    pri, sec = row(reg.from_node.node_Vr), row(x.node_secondary_Vr)
    # the equation in which only these two voltages appear: primary - ratio * secondary = 0
    k = next(i for i in range(size) if abs(abs(pri[i]) - 1.0) < 1e-9 and sec[i] != 0)
    return float(-sec[k] / pri[k])


def history(rng, cid, tap, step, rtype, up, lo, moves):
    net = nets.Net("dx")
    a, b = net.bus(2400.0, 0.0, "a", "A"), net.bus(2400.0, 0.0, "b", "A")
    m = net.bus(2400.0, 0.0, "a-Reg", "A", True)
    net.add("vs", f=a, to=0, vr=2400.0, vi=0.0)
    net.add("reg", f=a, to=b, mid=m, tap=tap, step=step, rtype=rtype, **{"raise": up, "lower": lo})
    net.add("load", f=b, to=0, p=0.0, q=0.0, ip=0.0, iq=0.0, z=complex(100, 0))
    ev = [dict(e="reg", tap=tap, step=num(step), rtype=rtype, lower=lo, **{"raise": up})]
    try:
        bt = nets.Built(net)
        reg = bt.objs[1]

        def at():
            bt.network.assign_matrix()
            ev.append(dict(e="at", tap=int(reg.tap_position), ratio=num(reg.turn_ratio), used=num(measured(bt, reg))))
        at()
        for k, inc in enumerate(moves):
            ev.append(dict(e="move", inc=inc, changed=bool(reg.try_increment_tap_position(inc))))
            if k % 3 == 0 or k == len(moves) - 1:
                at()
    except Exception as e:
        ev.append(dict(e="raised", why=str(e)[:200]))
    return dict(id=cid, events=ev)


def run(ctx):
    ctx.model_check("MC_Devices", min_states=1000)
    rng, traces = ctx.rng, []
    k = 0
    for up, lo in ((2, 2), (0, 3), (1, 0), (16, 16)):
        for rtype in "AB":
            for moves in itertools.product([-1, 1, 3], repeat=ctx.pick(2, 4)):
                for tap in (0, up, -lo, up + 5, -lo - 2):
                    if ctx.quick and rng.random() < 0.4:
                        continue
                    traces.append(history(rng, f"x{k}", tap, 0.00625, rtype, up, lo, moves))
                    k += 1
    for i in range(ctx.pick(60, 600)):
        up, lo = rng.randint(0, 20), rng.randint(0, 20)
        traces.append(history(rng, f"r{i}", rng.randint(-25, 25), nets.rnd(rng, 0.002, 0.02), rng.choice("AB"), up, lo,
                              [rng.choice([-1, 1, 1, -1, 2, -3, 0, 40, -40, 7]) for _ in range(rng.randint(1, 12))]))
    ctx.samples.append(str(traces[0]["events"]))
    ctx.judge_traces("Trace_Device", traces)
