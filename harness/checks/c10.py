"""C10: a fuse blows exactly when its current exceeds its limit, stays blown, and is never solved as intact.
Histories of real fuses (spec/Trace_Device), and whole runs whose successful results are judged by spec/NetCase."""
import itertools, math
import numpy as np
import nets
from vlib import num, nums


def history(rng, cid, limit, currents, blown=False):
    from models.components.fuse import FuseStatus
    from logic.stamping.matrixstamper import build_matrix_stamper
    net = nets.Net("dx")
    a, b = net.bus(2400.0, 0.0, "a", "A"), net.bus(2400.0, 0.0, "b", "A")
    m = net.bus(2400.0, 0.0, "a-Fuse", "A", True)
    net.add("slack", f=a, v=2400.0, ang=0.0)
    net.add("fuse", f=a, to=b, mid=m, limit=limit, phase="A")
    net.add("load", f=b, to=0, p=0.0, q=0.0, ip=0.0, iq=0.0, z=complex(100, 0))
    bt = nets.Built(net)
    bt.network.assign_matrix()
    fuse = bt.objs[1]
    if blown:
        fuse.status = FuseStatus.BLOWN
    ev = [dict(e="fuse", limit=num(limit), blown=blown)]
    size = bt.network.size_Y
    i, j = (int(x) for x in fuse.current_sensor.get_current(np.arange(size)))
    for amps in currents:
        v = np.array([rng.uniform(-3000, 3000) for _ in range(size)])
        ang = rng.uniform(-math.pi, math.pi)
        v[i], v[j] = amps * math.cos(ang), amps * math.sin(ang)
        try:
            ch = bool(fuse.try_adjust_device(v))
            ev.append(dict(e="see", i=nums([v[i], v[j]]), blown=fuse.status == FuseStatus.BLOWN, changed=ch))
            conn = len(fuse.get_connections()) > 0
            try:
                carries = len(fuse.get_stamps()) > 0
            except Exception:
                carries = False
            ev.append(dict(e="wired", connects=conn, carries=carries))
        except Exception as e:
            ev.append(dict(e="raised", why=str(e)[:200]))
    return dict(id=cid, events=ev)


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Devices", min_states=1000)
    rng, traces = ctx.rng, []
    k = 0
    for limit in (0.5, 12.0, 300.0):
        al = [0.0, limit * 0.999, limit * 1.001, limit * 5]
        for n in (1, 2, 3):
            for seq in itertools.product(al, repeat=n):
                traces.append(history(rng, f"f{k}", limit, seq, blown=k % 11 == 0))
                k += 1
    # no limit, a limit of nothing, and long lives
    for limit in (0.0, float("inf"), 1e-6, 40.0):
        for j in range(ctx.pick(4, 20)):
            al = [0.0, 1e-9, 0.5, 30.0, 1e5] if limit in (0.0, float("inf")) else [0.0, limit * 0.5, limit * 0.9999, limit * (1.0001 if j % 2 else 0.99)]
            traces.append(history(rng, f"l{k}", limit, [rng.choice(al) for _ in range(rng.choice([3, 40]))], blown=j % 4 == 3))
            k += 1
    ctx.judge_traces("Trace_Device", traces)
    ctx.samples.append(str(traces[5]["events"]))
    ctx.prewarm_wait()
    cases, stat = [], {}
    for i in range(ctx.pick(40, 400)):
        net = nets.random_dx(rng, light=rng.random() < 0.5, features=("fuse", "fuse", "fuse", "switch", "ic", "z", "xfmr"))
        if not any(e["t"] == "fuse" for e in net.els):
            p = rng.choice("ABC")
            b = next(j + 1 for j, q in enumerate(net.buses) if q["phase"] == p)
            nb = net.bus(net.buses[b - 1]["vm"], net.buses[b - 1]["va"], "extra", p)
            mid = net.bus(net.buses[b - 1]["vm"], net.buses[b - 1]["va"], net.buses[b - 1]["name"] + "-Fuse", p, True)
            net.add("fuse", f=b, to=nb, mid=mid, limit=1e7, phase=p)
            nets.rload(net, rng, nb, 0, net.buses[b - 1]["vm"], 4 * net.buses[b - 1]["vm"], (), "extra", p)
        for e in net.els:
            if e["t"] == "fuse":
                e["limit"] = rng.choice([0.5, 3.0, 8.0, 20.0, 50.0, 1e4])
        b = nets.Built(net)
        control = rng.random() < 0.8
        kw = dict(device_control=control, tx_stepping=False)
        res, exc = nets.execute(b, **kw)
        c = nets.result_case(f"n{i}", b, res, exc, kw)
        c["fuses"] = [dict(el=j + 1, limit=num(e["limit"])) for j, e in enumerate(net.els) if e["t"] == "fuse"] if control else []
        key = "refused" if res is None else "solved" if c["ok"] else "not solved"
        stat[key] = stat.get(key, 0) + 1
        cases.append(c)
    ctx.coverage["runs"] = stat
    ctx.say("runs", stat)
    ctx.judge_cases("NetCase", cases)
