"""C26: diagnostics describe the system that was solved (spec/Dump.tla, spec/DiagCase.tla).
The real solver runs against scripted systems, and real networks are solved, with dumping on, in a scratch directory."""
import contextlib, os, re, shutil, traceback, types
import numpy as np
import nets
from checks import c06
from vlib import num, nums

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LINE = re.compile(r"maximum residual for iteration (\d+) is (\S+) at (.*)")


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def progress(out):
    """[[iteration, residual, place]] of the lines printed."""
    got = []
    for s in ANSI.sub("", out).splitlines():
        m = LINE.search(s)
        if m:
            got.append([int(m.group(1)), num(float(m.group(2))), label(m.group(3))])
    return got


def label(s):
    return s.strip().replace("-pri", "_pri").replace("-sec", "_sec").replace("L1-", "L1_").replace("L2-", "L2_")


def entries(text):
    """Entries "i, j: value" (or "i: value") as [i, j, value]."""
    got = []
    for s in re.split(r"[\r\n]+", text):
        if s.strip():
            at, v = s.split(":", 1)
            got.append([int(x) for x in at.split(",")] + [num(float(v))])
    return got


def table(text):
    got = []
    for s in re.split(r"[\r\n]+", text):
        if s.strip():
            at, v = s.split(":", 1)
            got.append([int(at), label(v)])
    return got


def read(path):
    with open(path, newline="") as f:
        return f.read()


def dumped(d):
    """The files there are: name in the specification -> text."""
    got = {}
    d = os.path.join(d, "dumps")
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            m = re.fullmatch(r"([YJ])(\d+)_output\.txt", f)
            n = m.group(1) + str(int(m.group(2))) if m else {"v_output.txt": "v", "lookup.txt": "lookup"}.get(f, "other file " + f)
            got[n] = read(os.path.join(d, f))
    return got


class Script(c06.Script):
    """c06's scripted systems, with residuals spread over the vector."""

    def calc_residuals(self, *args, **kw):
        details = super().calc_residuals(*args, **kw)
        self.ats.append(int(details.max_residual_idx))
        return details


def vary(rng, es, spread):
    return [[i, j, float(f"{x * 10 ** rng.uniform(-spread, spread):.9g}")] for i, j, x in es]


def solves(rng, ctx, cid):
    """A history of solves in one directory."""
    from logic.nrsolver import NRSolver
    from logic.powerflowsettings import PowerFlowSettings
    d = ctx.path("dump")
    ev = []
    with cwd(d):
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            size = rng.randint(1, 5)
            long_ = rng.random() < 0.12
            mx = rng.choice([50, 53, 60]) if long_ else rng.randint(1, 6)
            if long_:
                res = [1.0 + 0.1 * i * (1 if rng.random() < 0.97 else -1) for i in range(mx)]
            else:
                res = [rng.choice([3e-5, 1.0, 0.123456789, 7e4, 2e-6 if i else 5.0]) for i in range(mx)]
            if size > 2:
                size = min(size, 3 if long_ else size)
            lin, nl, b, c = c06.script(rng, size, mx)
            spread = rng.choice([0, 0.01, 0.05])
            lin = vary(rng, lin, spread)
            nl = [vary(rng, es, spread) for es in nl]
            if rng.random() < 0.5:      # an entry that cancels
                i, j, x = rng.randrange(size), rng.randrange(size), 0.25
                lin += [[i, j, x], [i, j, -x]]
            s = 10 ** rng.uniform(-6, 6)
            b = [float(f"{x * s:.9g}") for x in b]
            c = [[float(f"{x * s:.9g}") for x in r] for r in c]
            on = rng.random() < 0.85
            names = {i: rng.choice(["bus", "xfmr", "slack"]) + f":n{rng.randint(1, 99)}:{rng.choice('ABC')}:{rng.choice(['Vr', 'Ii'])}" for i in range(size) if rng.random() < 0.7}
            st = Script([], size, lin, b, nl, c, res)
            st.ats = []
            limiting = rng.random() < 0.3
            settings = PowerFlowSettings(tolerance=1e-5, max_iters=mx, debug=rng.random() < 0.2, voltage_limiting=limiting, dump_matrix=on)
            network = types.SimpleNamespace(matrix_map=dict(names), size_Y=size, buses=[], matrix_version=k, is_three_phase=False, optimization=None)
            before = dumped(d)
            ev.append(dict(e="start", table=[[i, n] for i, n in names.items()], on=on))
            v0 = np.array([float(rng.randint(-5, 5)) for _ in range(size)])
            try:
                with nets.quiet() as out:
                    _, v, _ = NRSolver(settings, network, c06.Limiter([]) if limiting else None).run_powerflow(st, v0, rng.choice([0, 0.37]))
            except Exception:
                ev.append(dict(e="raised", what=traceback.format_exc()[-400:]))
                break
            for n in range(st.k):
                ev.append(dict(e="iterate", Y=[[i, j, num(x)] for i, j, x in lin + nl[n]],
                               J=[[i, num(x)] for i, x in list(enumerate(b)) + list(enumerate(c[n]))], r=num(res[n]), at=st.ats[n]))
            ev.append(dict(e="return", v=nums(v)))
            said = progress(out.getvalue())
            for n, (it, r, place) in enumerate(said):
                ev.append(dict(e="line", k=n, it=it, r=r, place=place))
            ev.append(dict(e="lines", n=len(said)))
            now = dumped(d)
            ev.append(dict(e="listing", names=list(now), untouched=now == before))
            mine = {"lookup", "v"} | {x + str(n + 1) for x in "YJ" for n in range(st.k)}
            for n in sorted(now):
                if on and n in mine:
                    ev.append(dict(e="file", name=n, content=table(now[n]) if n == "lookup" else entries(now[n])))
    shutil.rmtree(d, True)
    return dict(id=cid, events=ev)


def network(rng):
    k = rng.random()
    if k < 0.45:
        net = nets.random_tx(rng, rng.randint(1, 6))
        if rng.random() < 0.5:
            for b in net.buses:
                b["phase"] = rng.choice("ABC")
        return net
    return nets.random_dx(rng, rng.choice([1, 1, 2, 2, 3, 3, 5]))


def overview(nw):
    with nets.quiet() as out:
        nw.display()
    s = ANSI.sub("", out.getvalue())
    got = []
    for rx in (r"Nodes:\s*(\d+) \((\d+) phase buses\)", r"Lines:\s*(\d+)", r"Loads:\s*(\d+) \((\d+) phase loads\)"):
        m = re.search(rx, s)
        got += [int(x) for x in m.groups()] if m else [-1]
    return got


def solve(net, kw, d, before):
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    built = nets.Built(net)
    nw = built.network
    opt = kw.pop("optimization", False)
    if before:      # solved earlier, with the other unknowns there are then
        nw.optimization = None if opt else load_infeasibility_analysis(nw)
        with cwd(d), nets.quiet():
            try:
                PowerFlow(nw, PowerFlowSettings(max_iters=2)).execute()
            except Exception:
                pass
    nw.optimization = load_infeasibility_analysis(nw) if opt else None
    res, exc = None, ""
    with cwd(d), nets.quiet() as out:
        try:
            res = PowerFlow(built.network, PowerFlowSettings(**kw)).execute()
        except Exception as e:
            exc = f"{type(e).__name__}: {e}"[:200]
    return built, res, exc, out.getvalue()


def diag(rng, ctx, cid):
    """One network solved with and without dumping."""
    net = network(rng)
    kw = dict(tolerance=1e-5, max_iters=rng.choice([50, 50, 50, 2, 1]), tx_stepping=rng.random() < 0.15,
              voltage_limiting=rng.random() < 0.2, flat_start=net.kind == "tx" and rng.random() < 0.2)
    opt = rng.random() < 0.15
    before = rng.random() < 0.3
    d0, d1 = ctx.path("plain"), ctx.path("dump")
    _, r0, exc0, _ = solve(net, dict(kw, optimization=opt), d0, before)
    built, r1, exc, out = solve(net, dict(kw, optimization=opt, dump_matrix=True), d1, before)
    files = dumped(d1)
    nw = built.network
    c = dict(id=cid, exc=exc, exc0=exc0, ok=False, ok0=False, x=[], x0=[], size=0, buses=[], slacks=[], xfmrs=[], table=[], Y=[], J=[], v=[],
             lines=[], iters=0, res=[], parts=[], maxres="0", at=0, overview=overview(nw), nlines=sum(e["t"] in ("line", "uline") for e in net.els),
             loads=[str(o.load_num) if e.get("lnum") is not None else f"#{k}" for k, (e, o) in enumerate(zip(net.els, built.objs)) if e["t"] == "load"],
             final=not kw["tx_stepping"])
    c["buses"] = [dict(name=b["name"], phase=b["phase"], at=[int(o.node_Vr), int(o.node_Vi)]) for b, o in zip(net.buses, built.buses)]
    # buses made by the components themselves
    extra = [b for b in nw.buses if not any(b is o for o in built.buses)]
    c["buses"] += [dict(name=b.NodeName, phase=b.NodePhase, at=[int(b.node_Vr), int(b.node_Vi)]) for b in extra]
    if r0 is not None:
        c["ok0"], c["x0"] = bool(r0.is_success), nums(r0.v_final)
    if r1 is None:
        return c
    for e, o in zip(net.els, built.objs):
        if e["t"] == "slack":
            c["slacks"].append(dict(bus=e["f"], at=[int(o.get_slack_Ir_index()), int(o.get_slack_Ii_index())]))
        elif e["t"] == "xfmr":
            c["xfmrs"].append(dict(ct=False, bus=e["fp"], at=[int(o.node_primary_Ir), int(o.node_primary_Ii), int(o.node_secondary_Vr), int(o.node_secondary_Vi)]))
        elif e["t"] == "ct":
            c["xfmrs"].append(dict(ct=True, bus=e["f"], at=[int(o.node_L1_Ir), int(o.node_L1_Ii), int(o.node_L2_Ir), int(o.node_L2_Ii)]))
    c["size"] = len(r1.v_final)
    c["ok"], c["x"], c["iters"] = bool(r1.is_success), nums(r1.v_final), int(r1.iterations)
    c["table"] = table(files.get("lookup", ""))
    c["v"] = entries(files.get("v", ""))
    if c["final"]:
        c["Y"] = entries(files.get(f"Y{c['iters'] + 1}", ""))
        c["J"] = entries(files.get(f"J{c['iters'] + 1}", ""))
    said = progress(out)
    start = max([k for k, s in enumerate(said) if s[0] == 0], default=0)
    c["lines"] = said[start:]
    rd = r1.residuals
    c["res"], c["maxres"], c["at"] = nums(rd.residuals), num(rd.max_residual), int(rd.max_residual_idx)
    c["parts"] = [[int(i), num(x)] for _, i, x in rd.residual_contributions]
    for d in (d0, d1):
        shutil.rmtree(d, True)
    return c


def run(ctx):
    rng = ctx.rng
    ctx.prewarm_start()
    ctx.model_check("MC_Dump")
    traces = [solves(rng, ctx, f"s{k}") for k in range(ctx.pick(160, 1500))]
    ctx.samples += [f"{t['id']}: " + " ".join(e["e"] for e in t["events"])[:300] for t in traces[:2]]
    ctx.judge_traces("Trace_Dump", traces)
    ctx.prewarm_wait()
    cases = [diag(rng, ctx, f"n{k}") for k in range(ctx.pick(60, 400))]
    ctx.samples += [f"{c['id']}: {len(c['buses'])} phase buses, {len(c['xfmrs'])} transformers, ok {c['ok']}" for c in cases[:4]]
    ctx.judge_cases("DiagCase", cases)
