"""C18: result files and the display state exactly the result (spec/Report.tla)."""
import os, re, tempfile, types
from decimal import Decimal
import numpy as np
import nets
from vlib import num


def exact(x):
    return str(Decimal(float(x)))


def text(s):
    """A printed number: its value and how many decimals it shows."""
    if not re.fullmatch(r"-?\d+(\.\d+)?", s):
        return [s, -1]
    return [s, len(s.split(".")[1]) if "." in s else 0]


def fields(line):
    f = line.split(",")
    return f[:2] + [text(x) for x in f[2:]] if len(f) == 4 and f[0] != "bus" else f


def directory(d):
    got = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            m = re.fullmatch(r"(.*)_(voltage|power)\.csv", os.path.relpath(os.path.join(root, f), d))
            if not m:
                got.setdefault("unexpected " + f, {})
                continue
            raw = open(os.path.join(root, f)).read()
            got.setdefault(m.group(1), {})[m.group(2)] = [fields(x) for x in raw.split("\n")[:-1] if True] + ([fields(raw.split("\n")[-1])] if raw.split("\n")[-1] else [])
    return [dict(name=n, voltage=g.get("voltage", []), power=g.get("power", [])) for n, g in sorted(got.items())]


def result(rng, ok=None):
    """A network with a made-up solution vector, and what a report of it has to say."""
    from logic.powerflowresults import PowerFlowResults
    from logic.powerflowsettings import PowerFlowSettings
    if rng.random() < 0.5:
        net = nets.random_tx(rng, rng.randint(1, 5))
    else:
        net = nets.random_dx(rng, rng.randint(1, 3))
    built = nets.Built(net)
    nw = built.network
    nw.assign_matrix()
    scale = rng.choice([1e-3, 1.0, 1.0, 7200.0, 1e6])
    v = np.array([rng.uniform(-1, 1) * scale for _ in range(nw.size_Y)])
    for b in built.buses:
        k = rng.random()
        if k < 0.08:
            v[b.node_Vr] = v[b.node_Vi] = 0.0
        elif k < 0.16:
            v[b.node_Vr], v[b.node_Vi] = -abs(v[b.node_Vr]), 0.0
        elif k < 0.3:                 # just beside a rounding boundary
            v[b.node_Vr], v[b.node_Vi] = rng.randint(1, 9000) + rng.choice([0.0004999, 0.0005001, 0.0625, 0.9995001, 0.9994999]), 0.0
    good = rng.random() < 0.75 if ok is None else ok
    iters = rng.randint(1, 60)
    res = PowerFlowResults(good, iters, 0, rng.uniform(0, 9), nw, v, PowerFlowSettings(),
                           types.SimpleNamespace(max_residual=1e-6, max_residual_idx=0, residuals=np.zeros(nw.size_Y)))
    marked = rng.random() < 0.3
    if marked or rng.random() < 0.3:
        res.violates_equipment_ratings = marked
    srcs = []
    for e, o in zip(net.els, built.objs):
        if e["t"] == "gen":
            srcs.append(dict(kind="PV", bus=str(o.bus.Bus), p=exact(o.P), q=exact(v[o.get_Q_index()]), v=["0", "0"], i=["0", "0"]))
    for e, o in zip(net.els, built.objs):
        if e["t"] == "slack":
            srcs.append(dict(kind="Slack", bus=str(o.bus.Bus), p="0", q="0", v=[exact(v[o.bus.node_Vr]), exact(v[o.bus.node_Vi])],
                             i=[exact(v[o.get_slack_Ir_index()]), exact(v[o.get_slack_Ii_index()])]))
    said = dict(ok=good, marked=bool(marked), iters=str(iters),
                bus=[dict(id=str(i + 1), label=f"{b['name']}:{b['phase']}", v=[exact(v[o.node_Vr]), exact(v[o.node_Vi])])
                     for i, (b, o) in enumerate(zip(net.buses, built.buses)) if not b["virt"]],
                srcs=srcs, loads=[dict(bus=net.buses[e["f"] - 1]["name"], p=exact(o.P), q=exact(o.Q)) for e, o in zip(net.els, built.objs) if e["t"] == "load"])
    return res, said


def screen(out):
    s = dict(ok="", iters="", bus=[], srcs=[], loads=[])
    for l in out.splitlines():
        if m := re.fullmatch(r"Successful: (\w+)", l):
            s["ok"] += m.group(1)
        elif m := re.fullmatch(r"Iterations: (\d+)", l):
            s["iters"] += m.group(1)
        elif m := re.fullmatch(r"Bus (\d+) \((.*)\) V mag: (\S+), V ang \(deg\): (\S+)", l):
            s["bus"].append([m.group(1), m.group(2), text(m.group(3)), text(m.group(4))])
        elif m := re.fullmatch(r"(PV|Slack|Inf) @ bus (\d+) P \(MW\): (\S+), Q \(MVar\): (\S+)", l):
            s["srcs"].append([m.group(1), m.group(2), text(m.group(3)), text(m.group(4))])
        elif m := re.fullmatch(r"PQ from bus .* P: (\S+), Q: (\S+)", l):
            s["loads"].append([text(m.group(1)), text(m.group(2))])
    return s


def run(ctx):
    ctx.model_check("MC_Report", min_states=100)
    from logic.powerflowresults import QuasiTimeSeriesResults
    rng, traces, stat = ctx.rng, [], {}
    for i in range(ctx.pick(100, 1500)):
        d = tempfile.mkdtemp(dir=ctx.scratch)
        names = ["a", "sub/dir/b", "c d", "v1.2", "run.3/a"]
        ev = []
        try:
            for _ in range(rng.randint(1, 5)):
                how = rng.choice(["write", "write", "write", "hours", "nothing", "show"])
                stat[how] = stat.get(how, 0) + 1
                if how == "hours":
                    q = QuasiTimeSeriesResults()
                    base, some = rng.choice(names), []
                    for h in sorted(rng.sample(range(0, 12), rng.randint(0, 3)), key=lambda _: rng.random()):
                        r, said = result(rng)
                        q.add_powerflow_snapshot_results(h, r)
                        some.append((f"{base}_{h}", said))
                    q.output(os.path.join(d, base))
                    for n, said in some[:-1]:
                        ev.append(dict(e="part", name=n, result=said))
                    if some:
                        ev.append(dict(e="write", name=some[-1][0], result=some[-1][1], files=directory(d)))
                elif how == "show":
                    r, said = result(rng)
                    verbose = rng.random() < 0.6
                    with nets.quiet() as f:
                        r.display(verbose=verbose)
                    ev.append(dict(e="show", result=said, verbose=verbose, screen=screen(f.getvalue())))
                else:
                    r, said = result(rng)
                    n = rng.choice(names) if how == "write" else ""
                    cwd = os.getcwd()
                    os.chdir(d)
                    try:
                        r.output(os.path.join(d, n) if n else rng.choice([None, ""]))
                    finally:
                        os.chdir(cwd)
                    ev.append(dict(e="write", name=n, result=said, files=directory(d)))
        except Exception as e:
            import traceback
            ev.append(dict(e="raised", why=traceback.format_exc()[-400:]))
        if ev:
            traces.append(dict(id=f"o{i}", events=ev))
    ctx.coverage["operations"] = stat
    ctx.samples.append(str(traces[0]["events"][0])[:700])
    ctx.judge_traces("Trace_Report", traces)
