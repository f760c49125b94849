"""C09: a voltage-controlled capacitor connects when the voltage is low and disconnects when it is high (spec/Devices.tla)."""
import itertools, math
import numpy as np
import nets
from vlib import num


def one(rng, cid, mode, closed, mag, low, high, vnom):
    return step(rng, cid, *place(rng, mode, closed, low, high, vnom), mag)


def place(rng, mode, closed, low, high, vnom):
    """A capacitor of its own in a network: the network built, its record."""
    n = nets.Net("dx")
    a = n.bus(vnom, 0.0, "a", "A")
    b = n.bus(vnom, 0.1, "b", "A")
    to = rng.choice([0, 0, b])
    n.add("slack", f=b, v=vnom, ang=0.1)
    n.add("load", f=a, to=b, p=0.0, q=0.0, ip=0.0, iq=0.0, z=complex(100, 0))
    n.add("cap", f=a, to=to, var=1000.0, vnom=vnom, closed=closed, mode=mode, high=high, low=low)
    bt = nets.Built(n)
    bt.network.assign_matrix()
    return bt, n.els[-1]


def step(rng, cid, bt, e, mag):
    """What it does at a voltage, and what it is then; e holds where it was last seen."""
    from models.components.capacitor import CapSwitchState, CapacitorMode
    from logic.stamping.matrixstamper import build_matrix_stamper
    cap, mode, closed, low, high, to = bt.objs[-1], e["mode"], e["closed"], e["low"], e["high"], e["to"]
    if rng.random() < 0.5:
        build_matrix_stamper(bt.network)
    v = np.array([rng.uniform(-9, 9) for _ in range(bt.network.size_Y)])
    ang = rng.uniform(-math.pi, math.pi)
    v[bt.buses[0].node_Vr], v[bt.buses[0].node_Vi] = mag * math.cos(ang), mag * math.sin(ang)
    c = dict(id=cid, mode=mode, closed=bool(closed), mag=num(abs(complex(v[bt.buses[0].node_Vr], v[bt.buses[0].node_Vi]))), low=num(low), high=num(high),
             raised=False, after=False, changed=False, same=True, contributes=False)
    try:
        with nets.quiet():
            c["changed"] = bool(cap.try_adjust_device(v))
        c["after"] = e["closed"] = cap.switch == CapSwitchState.CLOSED
        c["same"] = cap.mode == CapacitorMode[mode] and cap.high_voltage == high and cap.low_voltage == low
        # does it now draw current? one volt across it
        st = build_matrix_stamper(bt.network)
        w = np.zeros(bt.network.size_Y)
        r0 = st.calc_residuals(0, w, 0).residuals[bt.buses[0].node_Vi]
        w[bt.buses[0].node_Vr] = 1.0
        if to:
            w[bt.buses[1].node_Vr] = 0.0
        c["contributes"] = bool(abs(st.calc_residuals(0, w, 0).residuals[bt.buses[0].node_Vi] - r0) > 1e-12)
    except Exception as e:
        c["raised"] = True
        c["why"] = str(e)[:100]
    return c


def run(ctx):
    ctx.model_check("MC_Devices", min_states=1000)
    rng, cases = ctx.rng, []
    k = 0
    for rep in range(ctx.pick(3, 30)):
        vnom = rng.choice([120.0, 277.1281292, 2401.7771, 7199.5])
        low, high = vnom * rng.uniform(0.9, 0.99), vnom * rng.uniform(1.005, 1.1)
        for mode, closed in itertools.product(["VOLT", "MANUAL", "VAR", "VARVOLT"], [True, False]):
            for mag in (0.0, low * 0.5, low * (1 - 1e-6), low * (1 + 1e-6), low, vnom, (low + high) / 2, high, high * (1 - 1e-6), high * (1 + 1e-6), high * 2):
                c = one(rng, f"c{k}", mode, closed, mag, low, high, vnom)
                # the same capacitor from the other position, and at a very high voltage
                c["other"] = one(rng, "", mode, not closed, mag, low, high, vnom)["after"]
                c["far"] = one(rng, "", mode, closed, 3 * high, low, high, vnom)["after"]
                cases.append(c)
                k += 1
    # a capacitor over its life, with others beside it
    for rep in range(ctx.pick(12, 150)):
        vnom = rng.choice([120.0, 277.1281292, 2401.7771, 7199.5])
        fleet = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            low, high = vnom * rng.uniform(0.9, 0.99), vnom * rng.uniform(1.005, 1.1)
            mode, closed = rng.choice(["VOLT", "VOLT", "VOLT", "MANUAL"]), rng.random() < 0.5
            fleet.append((*place(rng, mode, closed, low, high, vnom), mode, low, high))
        swings = rep % 3 == 0                      # from one side of its band to the other, over and over
        for j in range(rng.choice([5, 12, 30, 60])):
            bt, e, mode, low, high = rng.choice(fleet)
            closed = e["closed"]
            mag = rng.choice([low * rng.uniform(0.5, 0.999), high * rng.uniform(1.001, 2), rng.uniform(low, high), rng.uniform(0.8, 1.2) * vnom])
            if swings:
                mag = high * 1.02 if j // len(fleet) % 2 else low * 0.98
            c = step(rng, f"h{rep}.{j}", bt, e, mag)
            c["other"] = one(rng, "", mode, not closed, mag, low, high, vnom)["after"]
            c["far"] = one(rng, "", mode, closed, 3 * high, low, high, vnom)["after"]
            cases.append(c)
    ctx.coverage["responses in histories"] = len(cases) - k
    ctx.samples += [str(c) for c in cases[:2]]
    ctx.judge_cases("CapCase", cases)
