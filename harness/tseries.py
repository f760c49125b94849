"""Runs of the time series processor over a scripted or real power flow, recorded for spec/Trace_TimeSeries.tla."""
import math, os, re, tempfile, types
import numpy as np
import nets
from vlib import num, nums


def build(rng, neg=True, real=False):
    """A feeder around an artificial swing bus; returns (net, load descriptions)."""
    net = nets.Net("dx")
    v = 2400.0
    sw = nets.dx_node(net, "swing", "ABC", v)
    for p in "ABC":
        net.add("slack", f=sw[p], v=v, ang=nets.PH[p])
    other = None
    if not real and rng.random() < 0.5:
        other = nets.dx_node(net, "other", "ABC", v)
        for p in "ABC":
            net.add("slack", f=other[p], v=v, ang=nets.PH[p])
    node = sw
    if real:
        node = nets.dx_node(net, "far", "ABC", v)
        net.add("uline", **{"from": "swing"}, tonode="far", phases="ABC", fs=[sw[p] for p in "ABC"], ts=[node[p] for p in "ABC"],
                z=[[complex(4e-4, 7e-4) if a == b else complex(6e-5, 2e-4) for b in range(3)] for a in range(3)], bl=None, len=nets.rnd(rng, 50, 300))
    loads, nums_ = [], rng.sample(range(1, 60), 10)
    phases = [rng.choice("ABC") for _ in range(rng.randint(1, 4))] + ([] if real else [rng.choice(["1", "2", "12"]) for _ in range(rng.randint(0, 2))])
    for ph in phases:
        p, q = rng.choice([(nets.rnd(rng, 100, 3000), nets.rnd(rng, -2000, 2000)), (nets.rnd(rng, -3000, -100), nets.rnd(rng, -900, 900)),
                           (nets.rnd(rng, 100, 900), 0.0), (0.0, nets.rnd(rng, -900, 900)), (0.0, 0.0)])
        loads.append(dict(num=str(nums_.pop()), phase=ph, tri=rng.choice("ABC") if ph.isnumeric() else None, p=p, q=q, neg=False))
    if not real and rng.random() < 0.5:       # the same load on a second phase
        x = dict(loads[0])
        if x["phase"] in "ABC":
            x["phase"] = "ABC"[("ABC".index(x["phase"]) + 1) % 3]
            if not any(o["num"] == x["num"] and o["phase"] == x["phase"] for o in loads):
                loads.append(x)
    if neg:
        n1 = str(nums_.pop())
        for i, p in enumerate("ABC"):
            tri = not real and rng.random() < 0.3
            loads.append(dict(num=n1 if rng.random() < 0.7 else str(nums_.pop()), phase=rng.choice("12") if tri else p, tri=p if tri else None,
                              p=rng.choice([0.0, nets.rnd(rng, -500, 100)]), q=rng.choice([0.0, nets.rnd(rng, -100, 100)]), neg=True))
    rng.shuffle(loads)
    for l in loads:
        b = node[l["tri"] or l["phase"]] if rng.random() < 0.7 or l["neg"] else sw[l["tri"] or l["phase"]]
        z = complex(200.0, 50.0) if real and not l["neg"] else 0
        net.add("load", f=b, to=0, p=l["p"], q=l["q"], ip=0.0, iq=0.0, z=z, lnum=l["num"], phase=l["phase"], tri=l["tri"])
    net.bus(1000.0, 0.0, "tag", "A")
    if real:
        net.add("uline", **{"from": "swing"}, tonode="tag", phases="A", fs=[sw["A"]], ts=[net.n], z=[[complex(4e-4, 7e-4)]], bl=None, len=100.0)
    # a negative number may be shared only among negative loads
    negs = {l["num"] for l in loads if l["neg"]}
    for l in loads:
        l["neg"] = l["num"] in negs
    return net, loads


def filename(l):
    return f"cl_{l['num']}{l['phase']}" if l["phase"].isalpha() else f"rl_{l['num']}_{l['phase'][0]}"


def run(ctx, rng, cid, adjust, real=False):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    from logic.powerflowresults import PowerFlowResults
    net, loads = build(rng, adjust or rng.random() < 0.3, real)
    if real:
        net.buses[-1]["vm"] = 2400.0
    built = nets.Built(net)
    lobjs = [o for e, o in zip(net.els, built.objs) if e["t"] == "load"]
    hours = rng.randint(1, 5)
    start = rng.choice([0, 0, rng.randint(0, hours - 1)])
    end = rng.choice([hours, rng.randint(start + 1, hours), rng.randint(start + 1, hours), rng.randint(0, hours)])
    names, used = [filename(l) for l in loads], set()
    cols = {}
    for i, n in enumerate(names):
        if names.count(n) == 1 and rng.random() < 0.6:
            cols[i] = [rng.choice([nets.rnd(rng, 1, 5000 if not real else 2000), float(rng.randint(1, 900)), 0.0]) for _ in range(hours)]
    d = tempfile.mkdtemp(dir=ctx.scratch)
    f = os.path.join(d, "loads.csv")
    order = list(cols)
    rng.shuffle(order)
    heads = ["hour"] + [names[i] for i in order] + ["cl_99Z"]
    with open(f, "w") as h:
        h.write(",".join(heads) + "\n")
        for r in range(hours):
            h.write(",".join([str(r + 1)] + [repr(cols[i][r]) for i in order] + ["17"]) + "\n")
    single = adjust and rng.random() < 0.25            # no load file: one snapshot with adjustment
    out = os.path.join(d, "res", "out") if rng.random() < 0.5 and not single else None
    negnames = sorted({"neg_" + l["num"] for l in loads if l["neg"]})
    has_neg = bool(negnames)
    swing_on, neg_on = (True, True) if adjust else rng.choice([(False, False), (True, False), (False, True)])
    settings = TimeSeriesSettings(loadfile_name=None if single else f, loadfile_start=rng.choice([str(start), start]), loadfile_end=rng.choice([str(end), end]),
                                  artificialswingbus="swing" if swing_on else None, negativeloads=(negnames or ["neg_0"]) if neg_on else None, outputfile=out)
    if single:
        start, end = 0, 1
        cols = {}
    negnums = {l["num"] for l in loads if l["neg"]}
    orig = [dict(p=num(o.P), q=num(o.Q), key=l["tri"] or l["phase"], neg=bool(adjust and l["neg"])) for l, o in zip(loads, lobjs)]
    ev = [dict(e="begin", cfg=dict(start=start, end=end, table=[nums(cols.get(i, [])) for i in range(len(loads))], orig=orig, adjust=bool(adjust)))]
    made = []
    pset = PowerFlowSettings(tx_stepping=False)
    plan = [rng.choice(["big", "small", "fail", "small", "tiny", "one"]) for _ in range(40)]

    class Flow:
        network = built.network

        def __init__(self):
            self.settings = pset
            self.real = PowerFlow(built.network, pset) if real else None

        def execute(self):
            seen = [dict(p=num(o.P), q=num(o.Q)) for o in lobjs]
            n = len(made) + 1
            if real:
                res = self.real.execute()
            else:
                nw = built.network
                nw.assign_matrix()
                v = np.zeros(nw.size_Y)
                for b in built.buses:
                    v[b.node_Vr], v[b.node_Vi] = b.Vr_init, b.Vi_init
                v[built.buses[-1].node_Vr] = 1000.0 + n
                v[built.buses[-1].node_Vi] = 0.0
                kind = plan[(n - 1) % 40] if n < 30 else "small"
                for k, s in enumerate(nw.slack):
                    size = {"big": 500.0, "small": 0.01, "fail": 300.0, "tiny": 0.0, "one": 0.5}[kind]
                    if s.bus.NodeName == "other":
                        size = 700.0
                    elif kind == "one" and s.bus.NodePhase != "B":
                        size = 0.0
                    c = complex(rng.uniform(-1, 1) * size, rng.uniform(-1, 1) * size)
                    if kind == "one" and s.bus.NodePhase == "B":
                        c = rng.choice([complex(0, -0.5), complex(0.4, 0), complex(-0.09, 0.09)])
                    vs = complex(v[s.bus.node_Vr], v[s.bus.node_Vi])
                    i = (c / vs).conjugate()
                    v[s.get_slack_Ir_index()], v[s.get_slack_Ii_index()] = i.real, i.imag
                res = PowerFlowResults(kind != "fail", 3, 0, 0.1, nw, v, pset, types.SimpleNamespace(max_residual=1e-6, max_residual_idx=0, residuals=[]))
            swing = [dict(key=g.generator.bus.NodePhase, p=num(g.P), q=num(g.Q)) for g in res.generator_results
                     if g.generator.bus.NodeName == "swing"]
            made.append(res)
            ev.append(dict(e="solve", loads=seen, ok=bool(res.is_success), swing=swing))
            if len(made) > 200:
                raise RuntimeError("does not settle")
            return res

    exc = ""
    try:
        with nets.quiet():
            res = TimeSeriesProcessor(settings, Flow()).execute()
        which = lambda r: next((k + 1 for k, x in enumerate(made) if x is r), 0)
        if single:
            kept = [[0, which(res)]]
        else:
            kept = [[int(h), which(r)] for h, r in res.powerflow_snapshot_results.items()]
        ev.append(dict(e="end", kept=kept, wanted=out is not None, files=files(d, kept, made, real)))
    except Exception as e:
        ev.append(dict(e="raised", why=f"{type(e).__name__}: {e}"[:300]))
    return dict(id=cid, events=ev)


def files(d, kept, made, real):
    """<<hour, solve it reports>> for every pair of files written, by the voltage of the tag bus."""
    got = {}
    r = os.path.join(d, "res")
    if not os.path.isdir(r):
        return []
    for n in sorted(os.listdir(r)):
        m = re.fullmatch(r"out_(\d+)_(voltage|power)\.csv", n)
        if not m:
            return [["unexpected file", n]]
        got.setdefault(int(m.group(1)), {})[m.group(2)] = open(os.path.join(r, n)).read()
    out = []
    for h in sorted(got):
        g = got[h]
        if set(g) != {"voltage", "power"}:
            out.append([h, -1])
            continue
        k = dict((a, b) for a, b in kept).get(h, 0)
        if g["voltage"].startswith("FAILURE") or real:
            same = k and made[k - 1].is_success == (not g["voltage"].startswith("FAILURE"))
            out.append([h, k if same else -2])
        else:
            line = next((l for l in g["voltage"].splitlines() if ",tag:A," in l), "")
            out.append([h, round(float(line.split(",")[2]) - 1000.0) if line else -3])
    return out
