"""C17: a snapshot is marked exactly when some equipment is beyond its rating (spec/RatingCase.tla)."""
import glob, os, tempfile
import numpy as np
import nets
from vlib import num, nums


def actual(net, built, res):
    """What flows, to place ratings near it: {(el, phase): amps}, {el: VA}."""
    v = res.v_final
    V = lambda i: complex(v[built.buses[i - 1].node_Vr], v[built.buses[i - 1].node_Vi]) if i else 0j
    amps, power = {}, {}
    for k, (e, o) in enumerate(zip(net.els, built.objs)):
        if e["t"] == "uline":
            y = np.linalg.inv(np.array(e["z"], dtype=complex) * e["len"])
            i = y @ np.array([V(a) - V(b) for a, b in zip(e["fs"], e["ts"])])
            for p in range(len(i)):
                amps[k, p] = abs(i[p])
        elif e["t"] == "xfmr":
            power[k] = abs((V(e["fp"]) - V(e["fn"])) * complex(v[o.node_primary_Ir], -v[o.node_primary_Ii]))
        elif e["t"] == "ct":
            power[k] = abs(V(e["s1"]) * complex(v[o.node_L1_Ir], -v[o.node_L1_Ii]) + V(e["s2"]) * complex(v[o.node_L2_Ir], -v[o.node_L2_Ii]))
    return amps, power


def run(ctx):
    ctx.prewarm_start(("pq", "rest"))
    ctx.model_check("MC_Net", min_states=300)
    ctx.prewarm_wait()
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    rng, cases, stat = ctx.rng, [], {}
    want = ctx.pick(90, 900)
    tries = 0
    while len(cases) < want and tries < 4 * want:
        tries += 1
        net = nets.random_dx(rng, rng.randint(1, 4), light=rng.random() < 0.7, features=("xfmr", "xfmr", "ct", "reg", "switch", "cap", "delta", "ic", "z"))
        for e in net.els:
            if e["t"] == "reg":
                e["tap"] = rng.choice([0, 0, 1, -1])
        cause = rng.choice(["none", "line", "line", "xfmr", "xfmr", "volt", "volt", "mix", "fail"])
        if cause == "volt" or rng.random() < 0.1:
            d = rng.choice([-1, 1]) * rng.uniform(0.035, 0.06)
            for e in net.els:
                if e["t"] == "slack":
                    e["v"] *= 1 + d
        scale = rng.uniform(0.02, 0.6)
        if cause not in ("volt", "mix"):
            for e in net.els:
                if e["t"] == "load":
                    for k in ("p", "q", "ip", "iq"):
                        e[k] *= scale
        built = nets.Built(net)
        kw = dict(tx_stepping=False, tolerance=1e-5)
        res, exc = nets.execute(built, **kw)
        if res is None or not res.is_success:
            continue
        amps, power = actual(net, built, res)
        amps = {k: v for k, v in amps.items() if v > 1e-3}
        power = {k: v for k, v in power.items() if v > 1.0}
        setA, setS = {}, {}

        def place(x, near):
            return x * (rng.choice([0.9, 0.99, 0.999, 1.001, 1.01, 1.1]) if near else rng.uniform(1.2, 4))
        for k, v in amps.items():
            if rng.random() < 0.6:
                setA[k] = place(v, cause == "mix")
        for k, v in power.items():
            if rng.random() < 0.6 or net.els[k]["t"] == "ct":
                setS[k] = place(v, cause == "mix")
        for k, e in enumerate(net.els):          # the rating of an idle transformer
            if e["t"] == "ct" and k not in power:
                setS[k] = 1000.0
        if cause == "line" and amps:
            k = rng.choice(sorted(amps))
            setA[k] = place(amps[k], True)
        if cause == "xfmr" and power:
            k = rng.choice(sorted(power))
            setS[k] = place(power[k], True)
        for k, e in enumerate(net.els):
            o = built.objs[k]
            if e["t"] == "uline":
                o.ampacities = [setA.get((k, p)) for p in range(len(e["fs"]))]
            elif e["t"] in ("xfmr", "ct"):
                o.power_rating = setS.get(k)
        d = tempfile.mkdtemp(dir=ctx.scratch)
        series = rng.random() < 0.4
        out = os.path.join(d, "r")
        if series:
            with open(d + "/l.csv", "w") as f:
                f.write("hour,none\n1,1.0\n")
            ts = TimeSeriesSettings(loadfile_name=d + "/l.csv", loadfile_start=0, loadfile_end=1, outputfile=out)
        else:
            ts = TimeSeriesSettings(artificialswingbus="src")
        if cause == "fail":
            kw = dict(kw, max_iters=1, tolerance=1e-13)
        flow = PowerFlow(built.network, PowerFlowSettings(**kw))
        c = dict(id=f"r{tries}", n=net.n, els=nets.spec_els(net.els), vnom=[num(b["vm"]) for b in net.buses], virt=[b["virt"] for b in net.buses],
                 amps=[dict(el=k + 1, ph=p + 1, a=num(a)) for (k, p), a in setA.items()], powers=[dict(el=k + 1, s=num(s)) for k, s in setS.items() if s is not None],
                 ok=False, marked=False, filemark=False, exc="", x=[], cause=cause)
        with nets.quiet():
            r = TimeSeriesProcessor(ts, flow).execute()
            if series:
                r = list(r.powerflow_snapshot_results.values())[0]
            else:
                r.output(out)
        c["ok"] = bool(r.is_success)
        c["marked"] = bool(getattr(r, "violates_equipment_ratings", False))
        said = ["VIOLATED EQUIPMENT RATINGS" in open(p).read() for p in sorted(glob.glob(out + "*.csv"))]
        if len(said) != 2 or said[0] != said[1]:
            ctx.fail(c["id"], "both files are written and agree", str(said), {"case": c})
        c["filemark"] = any(said)
        c["x"] = nums([r.v_final[k] for k in built.unknowns()])
        key = f"{cause}: {'marked' if c['marked'] else 'not marked' if c['ok'] else 'failed'}"
        stat[key] = stat.get(key, 0) + 1
        cases.append(c)
    ctx.coverage["causes"] = stat
    ctx.say(stat)
    ctx.samples.append(str({k: cases[0][k] for k in ("amps", "powers", "marked", "cause")}))
    ctx.judge_cases("RatingCase", cases)
