"""Runs of the command line program, recorded for spec/Trace_Cli.tla."""
import contextlib, functools, http.server, io, os, re, shutil, subprocess, sys, tempfile, threading
import numpy as np
import nets, vlib
from vlib import num, nums

PHASES = "ABC"
ANG = {"A": 0.0, "B": -120.0, "C": 120.0}


def glm(rng, parts=1):
    """A feeder: text, negative load's name or None."""
    v = 2400.0
    o = ["clock {\n  timezone EST+5EDT;\n}", "module powerflow;"]
    z = lambda a, b: f"{a:.4f}+{b:.4f}j"
    o.append("object line_configuration {\n  name lc;\n" + "".join(
        f"  z{i}{j} {z(rng.uniform(.3, .6), rng.uniform(.9, 1.2)) if i == j else z(.15, .4)};\n" for i in (1, 2, 3) for j in (1, 2, 3)) + "}")
    o.append("object node {\n  name swing;\n  phases ABCN;\n  bustype SWING;\n  nominal_voltage %s;\n}" % v)
    prev = "swing"
    for k in range(rng.randint(1, 2)):
        o.append("object node {\n  name far%d;\n  phases ABCN;\n  nominal_voltage %s;\n}" % (k, v))
        o.append("object overhead_line {\n  name l%d;\n  phases ABCN;\n  from %s;\n  to far%d;\n  length %d ft;\n  configuration lc;\n}" % (k, prev, k, rng.randint(100, 900)))
        prev = f"far{k}"
    names, used = [], rng.sample(range(1, 90), 6)
    for k in range(rng.randint(1, 3)):
        name = f"load_{used.pop()}"
        ph = "".join(sorted(rng.sample(PHASES, rng.randint(1, 3))))
        kinds = {p: rng.choice(["power", "power", "power", "current", "impedance"]) for p in ph}
        val = {"power": lambda: z(rng.uniform(200, 4000), rng.uniform(-500, 900)).replace("+-", "-"),
               "current": lambda: z(rng.uniform(0.1, 1), -rng.uniform(0.01, .3)).replace("+-", "-"),
               "impedance": lambda: z(rng.uniform(3000, 9000), rng.uniform(100, 900))}
        o.append("object load {\n  name %s;\n  parent %s;\n  phases %sN;\n  nominal_voltage %s;\n" % (name, prev, ph, v)
                 + "".join(f"  constant_{kinds[p]}_{p} {val[kinds[p]]()};\n" for p in ph) + "}")
        names += [(name, p) for p in ph if kinds[p] == "power"]
    neg = None
    if rng.random() < 0.6:
        neg = f"load_{used.pop()}"
        o.append("object load {\n  name %s;\n  parent %s;\n  phases ABCN;\n  nominal_voltage %s;\n" % (neg, prev, v)
                 + "".join(f"  constant_power_{p} {z(-rng.uniform(1, 500), rng.uniform(1, 50))};\n" for p in PHASES) + "}")
    if parts == 2:
        for n in ("lone1", "lone2"):
            o.append("object node {\n  name %s;\n  phases ABCN;\n%s  nominal_voltage %s;\n}" % (n, "  bustype SWING;\n" if n == "lone1" else "", v))
        o.append("object overhead_line {\n  name lx;\n  phases ABCN;\n  from lone1;\n  to lone2;\n  length 10 ft;\n  configuration lc;\n}")
        o.append("object load {\n  name lone_%d;\n  parent lone2;\n  phases BN;\n  nominal_voltage %s;\n  constant_power_B 700+20j;\n}" % (used.pop(), v))
    return "\n".join(o) + "\n", names, neg


def raw(rng, parts=1):
    n = rng.randint(2, 4)
    r = lambda a, b: nets.rnd(rng, a, b)
    out = ["0, 100.0, 33, 0, 1, 60.0", "A CASE", "made for a test"]
    for i in range(1, n + 1 + 2 * (parts - 1)):
        ide = 3 if i == 1 or i == n + 1 else 1
        out.append(f"{i},'B{i}',138.0,{ide},1,1,1,{1.0 if ide == 1 else 1.02},0.0,1.1,0.9,1.1,0.9")
    out.append("0 / END OF BUS DATA")
    for i in range(2, n + 1):
        for k in range(rng.randint(1, 2)):
            out.append(f"{i},'{k+1}',1,1,1,{r(-3, 20)},{r(-3, 8)},{rng.choice([0.0, r(0, 2)])},{rng.choice([0.0, r(-1, 1)])},{rng.choice([0.0, r(0, 2)])},0.0,1,1,0")
    out += ["0", "0"]
    for s in [1] + ([n + 1] if parts == 2 else []):
        out.append(f"{s},'1',0.0,0.0,999.0,-999.0,1.02,0,100.0,0.0,1.0,0.0,0.0,1.0,1,100.0,9999.0,-9999.0,1,1.0,0,1.0,0,1.0,0,1.0,0,1.0")
    out.append("0")
    for i in range(2, n + 1):
        out.append(f"{rng.randint(1, i-1)},{i},'1',{r(.005, .02)},{r(.02, .1)},{rng.choice([0.0, r(.01, .1)])},100.0,110.0,120.0,0.0,0.0,0.0,0.0,1,1,0.0,1,1.0")
    if parts == 2:
        out.append(f"{n+1},{n+2},'1',0.01,0.1,0.0,100.0,110.0,120.0,0.0,0.0,0.0,0.0,1,1,0.0,1,1.0")
    return "\n".join(out + ["0"] * 16 + ["Q"]) + "\n"


def rest_of(nw, rng_x):
    """What the network is apart from its loads' constant power: residuals at a fixed point."""
    from logic.stamping.matrixstamper import build_matrix_stamper
    keep = [(l, l.P, l.Q) for l in nw.loads]
    opt, nw.optimization = nw.optimization, None
    try:
        for l in nw.loads:
            l.P = l.Q = 0
        nw.assign_matrix()
        x = np.cos(np.arange(nw.size_Y) * 1.7 + rng_x) * (1.0 if not nw.is_three_phase else 1000.0) + 3.0
        st = build_matrix_stamper(nw)
        return [float(v) for v in np.array(st.calc_residuals(0, x, 0).residuals)[:nw.size_Y]]
    finally:
        for l, p, q in keep:
            l.P, l.Q = p, q
        nw.optimization = opt


def describe(nw, negnums):
    return [dict(home=not str(l.from_bus.NodeName).startswith("lone"), p=num(l.P), q=num(l.Q), key=str(l.triplex_phase if getattr(l, "triplex_phase", None) else l.phase), neg=l.load_num in negnums) for l in nw.loads]


@contextlib.contextmanager
def served(d):
    """An http server on the loopback network for the files of d, and a place of its own for what is fetched from it."""
    class Quiet(http.server.SimpleHTTPRequestHandler):
        def log_message(self, *a):
            pass
    web = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(Quiet, directory=d))
    threading.Thread(target=web.serve_forever, daemon=True).start()
    old, tempfile.tempdir = tempfile.tempdir, os.path.join(d, "tmp")
    os.makedirs(tempfile.tempdir)
    try:
        yield f"http://127.0.0.1:{web.server_port}/"
    finally:
        tempfile.tempdir = old
        web.shutdown()
        web.server_close()


def run(ctx, rng, cid, process=False):
    import run_solver
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    d = tempfile.mkdtemp(dir=ctx.scratch)
    kind = rng.choice(["glm", "glm", "glm", "raw", "raw", "txt" if rng.random() < 0.3 else "raw"])
    parts = 2 if rng.random() < 0.15 else 1
    exists = rng.random() > 0.06
    names, neg = [], None
    if kind == "glm":
        text, names, neg = glm(rng, parts)
    else:
        text = raw(rng, parts)
    case = os.path.join(d, "case" + {"glm": ".glm", "raw": ".RAW", "txt": ".txt"}[kind])
    if exists:
        open(case, "w").write(text)
    refused = not exists or kind == "txt" or parts != 1
    a = dict(kind=kind, exists=exists, parts=parts, factor="1", series=False, start=0, end=0, swing=False, neg=False, output=False,
             verbose=rng.random() < 0.3, stepping=rng.random() < 0.4, debug=rng.random() < 0.2, infeas=rng.random() < 0.25)
    a["remote"] = not process and rng.random() < 0.15
    argv = [case]
    if rng.random() < 0.7:
        a["factor"] = rng.choice(["1", "1.0", "0.5", "2", "1.25", "0", "-0.5", "0.001"])
        argv += ["--load_factor", a["factor"]] if a["factor"][0] != "-" else ["--load_factor=" + a["factor"]]
    for k, f in (("verbose", "--verbose"), ("stepping", "--tx_stepping"), ("debug", "--debug"), ("infeas", "--infeasibility")):
        if a[k]:
            argv.append(f)
    out = os.path.join(d, "res")
    os.makedirs(out)
    if rng.random() < 0.6:
        a["output"] = True
        argv += ["--outputfile", os.path.join(out, "o")]
    cols, hours = {}, rng.randint(1, 3)
    if kind == "glm":
        if rng.random() < 0.45 and float(a["factor"]) > 0:
            a["series"] = True
            cols = {n: [nets.rnd(rng, 50, 3000) for _ in range(hours)] for n in names if rng.random() < 0.7}
            f = os.path.join(d, "loads.csv")
            with open(f, "w") as h:
                h.write(",".join(["hour"] + [f"cl_{n.split('_')[-1]}{p}" for n, p in cols]) + "\n")
                for r in range(hours):
                    h.write(",".join([str(r)] + [repr(c[r]) for c in cols.values()]) + "\n")
            argv += ["--loadfile", f]
            a["start"] = rng.choice([0, 0, rng.randint(0, hours - 1)])
            a["end"] = rng.choice([hours, hours, rng.randint(a["start"] + 1 if parts == 2 else 0, hours)])
            if a["start"] or rng.random() < 0.5:
                argv += ["--loadstart", str(a["start"])]
            if a["end"] or rng.random() < 0.5:
                argv += ["--loadend", str(a["end"])]
        if neg and rng.random() < 0.4:
            a["neg"] = True
            argv += ["--negativeloads", neg]
        if rng.random() < (0.8 if a["neg"] else 0.3):
            a["swing"] = True
            argv += ["--artificialswingbus", "swing"]
    a["select"] = kind == "glm" and rng.random() < (0.8 if parts == 2 else 0.2)
    if a["select"]:
        argv += ["--select_island", "yes"]
    selecting = a["select"] and a["swing"]
    negnums = {neg.split("_")[-1]} if neg and a["neg"] and a["swing"] else set()
    mark = rng.uniform(0, 6)
    rest0 = []
    a["loads"], a["table"] = [], []
    if exists and kind != "txt":
        with nets.quiet():
            nw = NetworkLoader(PowerFlowSettings()).from_file(case)
            a["loads"] = describe(nw, negnums)
            a["table"] = [nums(cols.get((f"load_{l.load_num}", str(l.phase)), [])) for l in nw.loads]
            rest0 = rest_of(nw, mark)
    ev = [dict(e="begin", args=a)]
    made, texts = [], []
    true = PowerFlow.execute

    def execute(self):
        nw, s = self.network, self.settings
        r = rest_of(nw, mark)
        e = dict(e="solve", loads=describe(nw, negnums),
                 opts=dict(tol=num(s.tolerance), iters=int(s.max_iters), stepping=bool(s.tx_stepping), debug=bool(s.debug), infeas=nw.optimization is not None,
                           limiting=bool(s.voltage_limiting), flat=bool(s.flat_start), devices=bool(s.device_control)),
                 same=selecting or len(r) == len(rest0) and all(abs(x - y) <= 1e-9 * (abs(x) + abs(y)) + 1e-9 for x, y in zip(r, rest0)))
        res = true(self)
        made.append(res)
        e["ok"] = bool(res.is_success)
        e["swing"] = [dict(key=g.generator.bus.NodePhase, p=num(g.P), q=num(g.Q)) for g in res.generator_results
                      if g.generator.bus.NodeName == "swing"]
        res.duration_sec = 1000.0 + len(made)
        t = {}
        for vb in (False, True):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                res.display(vb)
            t[vb] = buf.getvalue()
        with nets.quiet():
            res.output(os.path.join(d, "ref", f"{len(made)}"))
        t["files"] = {k: open(os.path.join(d, "ref", f"{len(made)}_{k}.csv")).read() for k in ("voltage", "power")}
        texts.append(t)
        ev.append(e)
        if len(made) > 60:
            raise RuntimeError("does not settle")
        return res

    os.makedirs(os.path.join(d, "ref"))
    buf, old, code, why = io.StringIO(), sys.argv, 0, ""
    PowerFlow.execute = execute
    cwd = os.getcwd()
    served_case = contextlib.ExitStack()
    try:
        os.chdir(d)
        if a["remote"]:
            url = served_case.enter_context(served(d))
            argv[0] = url + os.path.basename(case)
            if rng.random() < 0.6:                  # what an earlier run, of another case of that name, left
                old_text = dict(glm=lambda: glm(rng)[0], raw=lambda: raw(rng), txt=lambda: "x")[kind]()
                open(os.path.join(d, "tmp", os.path.basename(case)), "w").write(old_text)
        sys.argv = ["run_solver.py"] + argv
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            run_solver.main()
    except SystemExit as e:
        code = 0 if not e.code else 1
    except Exception as e:
        code, why = 1, f"{type(e).__name__}: {e}"[:200]
    finally:
        os.chdir(cwd)
        served_case.close()
        sys.argv = old
        PowerFlow.execute = true
    got = [dict(code=code, files=written(out, texts))]
    if process:      # the program as a process of its own
        shutil.rmtree(out)
        os.makedirs(out)
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(vlib.REPO, "src", "run_solver.py")] + argv, capture_output=True, text=True, cwd=d, timeout=300)
        got.append(dict(code=1 if r.returncode else 0, files=written(out, texts)))
    ev.append(dict(e="exit", why=why, shown=shown(buf.getvalue(), texts), got=got))
    return dict(id=cid, events=ev, argv=argv)


def shown(stdout, texts):
    """<<solve, verbose>> for each result display found in the output, in order; <<0, ..>> for one that is no solve's."""
    out = []
    for m in re.finditer(r"=+\n=+\nPowerflow Results:", stdout):
        tail = stdout[m.start():]
        hit = [(k + 1, vb) for k, t in enumerate(texts) for vb in (True, False) if tail.startswith(t[vb])]
        out.append([hit[0][0], hit[0][1]] if hit else [0, False])
    return out


def written(out, texts):
    """Per result written: the name's ending and the solves whose result it states."""
    got = {}
    for n in sorted(os.listdir(out)):
        m = re.fullmatch(r"o(.*)_(voltage|power)\.csv", n)
        if not m:
            return [dict(ending="unexpected file " + n, solves=[])]
        got.setdefault(m.group(1), {})[m.group(2)] = open(os.path.join(out, n)).read()
    return [dict(ending=k, solves=[i + 1 for i, t in enumerate(texts) if t["files"] == got[k]]) for k in sorted(got)]
