"""Networks as plain data (the specification's element records) and their construction
with the repository's classes. Bus numbers start at 1; 0 is ground."""
import cmath, contextlib, io, math
import numpy as np
from vlib import num, nums


class Net:
    def __init__(self, kind):
        self.kind = kind                      # "tx" or "dx"
        self.buses = []                       # dict(vm, va, name, phase, virt, vnom)
        self.els = []

    @property
    def n(self):
        return len(self.buses)

    def bus(self, vm, va, name, phase="NA", virt=False):
        self.buses.append(dict(vm=vm, va=va, name=name, phase=phase, virt=virt))
        return len(self.buses)

    def add(self, t, **kw):
        self.els.append(dict(t=t, **kw))
        return self.els[-1]


def spec_els(els):
    """The records of the specification: every real a decimal string."""
    out = []
    for e in els:
        r = {}
        for k, v in e.items():
            if k in ("t", "rtype", "phases", "from", "tonode", "mode", "limit", "high", "low", "lnum", "phase", "status", "rate", "vset",
                     "rating2", "pinit", "qinit", "tri", "amps", "fq", "key"):
                if k in ("t", "rtype"):
                    r[k] = v
                continue
            r[k] = conv(v)
        if e["t"] == "load":
            z = e.get("z", 0)
            r["zr"], r["zx"] = num(z.real), num(z.imag)
            r.pop("z", None)
        if e["t"] == "gen":
            r["v"] = num(e["v"])
        if e["t"] == "uline":
            y = np.linalg.inv(np.array(e["z"], dtype=complex) * e["len"])
            r["y"] = [[cpl(q) for q in row] for row in y]
            bl = e.get("bl")
            k = len(e["fs"])
            bl = bl if bl is not None else [[0.0] * k for _ in range(k)]
            r["bl"] = [[num(q) for q in row] for row in bl]
            r["b"] = [[num(q * e["len"]) for q in row] for row in bl]
            r["z"] = [[cpl(q) for q in row] for row in e["z"]]
        out.append(r)
    return out


INTKEYS = {"f", "to", "fp", "fn", "tp", "tn", "mid", "s1", "s2", "to1", "to2", "tap", "raise", "lower"}


def cpl(z):
    return [num(z.real), num(z.imag)]


def conv(v):
    if isinstance(v, bool) or isinstance(v, int):
        return v if isinstance(v, bool) else v
    if isinstance(v, complex):
        return cpl(v)
    if isinstance(v, float):
        return num(v)
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    return v


def fl(e, **kw):
    """float() the numeric fields"""
    return e


class Built:
    """The repository's objects for a Net, and where its unknowns live."""

    def __init__(self, net, optimization=False):
        import logic.powerflow  # the repository's import cycle resolves from here
        from models.components.bus import Bus, GROUND
        from models.components.line import Line
        from models.components.load import Load
        from models.components.generator import Generator
        from models.components.slack import Slack
        from models.components.voltagesource import VoltageSource
        from models.components.switch import Switch, SwitchStatus
        from models.components.fuse import Fuse, FuseStatus
        from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState
        from models.components.regulator import Regulator, RegType, RegControl
        from models.components.transformer import Transformer
        from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
        from models.components.unbalanced_line import UnbalancedLine
        from models.components.shunt import Shunt
        from logic.network.networkmodel import TxNetworkModel, DxNetworkModel
        self.net = net
        nw = self.network = TxNetworkModel() if net.kind == "tx" else DxNetworkModel()
        self.buses = []
        for i, b in enumerate(net.buses):
            o = Bus(i + 1, 1, b["vm"], b["va"], None, b["name"], b["phase"], b["virt"])
            if "vnom" in b:      # started elsewhere than at its nominal voltage
                o.V_Nominal = b["vnom"]
            nw.buses.append(o)
            self.buses.append(o)
            if net.kind == "dx":
                nw.bus_name_map[b["name"] + "_" + b["phase"]] = o
        B = lambda i: GROUND if i == 0 else self.buses[i - 1]
        self.objs = []
        for e in net.els:
            t = e["t"]
            if t == "line":
                o = Line(B(e["f"]), B(e["to"]), e["r"], e["x"], e["b"], True, None, None, None)
                nw.lines.append(o)
            elif t == "shunt":
                o = Shunt(B(e["f"]), e["g"] * 100, e["b"] * 100, 0, 0, 0, 0, 0, 0, None)
                (nw.shunts if net.kind == "tx" else nw.misc).append(o)
            elif t == "cap":
                o = Capacitor(B(e["f"]), B(e["to"]), e["var"], e["vnom"], CapacitorMode[e.get("mode", "MANUAL")], e.get("high"), e.get("low"))
                o.switch = CapSwitchState.CLOSED if e["closed"] else CapSwitchState.OPEN
                (nw.capacitors if net.kind == "dx" else nw.misc).append(o)
            elif t == "load":
                ph = e.get("phase")
                if ph is None and net.kind == "dx":
                    ph = net.buses[e["f"] - 1]["phase"] + (net.buses[e["to"] - 1]["phase"] if e["to"] else "")
                o = Load(B(e["f"]), B(e["to"]), e["p"], e["q"], e["z"], e["ip"], e["iq"], e.get("lnum"), ph, e.get("tri"))
                nw.loads.append(o)
            elif t == "gen":
                o = Generator(B(e["f"]), e["p"], e["v"], 9.0, -9.0, 9.0, -9.0, e.get("qinit", 0.0), None, 100, None)
                nw.generators.append(o)
            elif t == "slack":
                o = Slack(B(e["f"]), e["v"], e["ang"], e.get("pinit", 0.0), e.get("qinit", 0.0))
                nw.slack.append(o)
            elif t == "vs":
                o = VoltageSource(B(e["f"]), B(e["to"]), e["vr"], e["vi"])
                (nw.voltage_sources if net.kind == "tx" else nw.misc).append(o)
            elif t == "switch":
                o = Switch(B(e["f"]), B(e["to"]), SwitchStatus.CLOSED if e["closed"] else SwitchStatus.OPEN, e.get("phase"))
                nw.switches.append(o)
            elif t == "fuse":
                o = Fuse(B(e["f"]), B(e["to"]), B(e["mid"]), e.get("limit", 1e9), FuseStatus.GOOD, e.get("phase"))
                (nw.fuses if net.kind == "dx" else nw.misc).append(o)
            elif t == "xfmr":
                o = Transformer(B(e["fp"]), B(e["fn"]), B(e["tp"]), B(e["tn"]), e["r"], e["x"], True, e["tr"], e["ang"], 0, 0, e.get("rate"))
                nw.transformers.append(o)
            elif t == "reg":
                o = Regulator(B(e["f"]), B(e["to"]), B(e["mid"]), e["tap"], e["step"], RegType[e["rtype"]], RegControl.MANUAL,
                              0.0, 1e9, e["raise"], e["lower"])
                (nw.regulators if net.kind == "dx" else nw.misc).append(o)
            elif t == "ct":
                c = [CenterTapTransformerCoil(e["vn"][i], e["rating"], None, None, e["cr"][i], e["cx"][i]) for i in range(3)]
                c[0].from_node, c[0].primary_node = B(e["f"]), B(e["mid"])
                c[1].sending_node, c[1].to_node = B(e["s1"]), B(e["to1"])
                c[2].sending_node, c[2].to_node = B(e["s2"]), B(e["to2"])
                o = CenterTapTransformer(c[0], c[1], c[2], e.get("phase", "A"), e["tr"], e["rating"], 0, 0)
                nw.transformers.append(o)
            elif t == "uline":
                bl = e.get("bl")
                sh = None if bl is None else [[1j * q for q in row] for row in bl]
                o = UnbalancedLine(nw, [list(r) for r in e["z"]], sh, e["from"], e["tonode"], e["len"], e["phases"], e.get("amps", [None] * len(e["phases"])))
                nw.lines.append(o)
            else:
                raise KeyError(t)
            self.objs.append(o)

    def unknowns(self):
        """Positions, in the code's vector, of the specification's unknowns in its order."""
        nw = self.network
        size = nw.size_Y
        ar = np.arange(size, dtype=float)

        def cur(vs):
            a, b = vs.get_current(ar)
            return [int(a), int(b)]

        ix = []
        for b in self.buses:
            ix += [b.node_Vr, b.node_Vi]
        for e, o in zip(self.net.els, self.objs):
            t = e["t"]
            if t == "gen":
                ix.append(o.get_Q_index())
            elif t == "slack":
                ix += [o.get_slack_Ir_index(), o.get_slack_Ii_index()]
            elif t == "vs":
                ix += cur(o)
            elif t == "switch":
                if e["closed"]:
                    ix += cur(o.vs)
            elif t == "fuse":
                ix += cur(o)
            elif t == "xfmr":
                ix += [o.node_primary_Ir, o.node_primary_Ii, o.node_secondary_Vr, o.node_secondary_Vi]
            elif t == "reg":
                x = o.transformer
                ix += [x.node_primary_Ir, x.node_primary_Ii, x.node_secondary_Vr, x.node_secondary_Vi] + cur(o.current_sensor)
            elif t == "ct":
                ix += [o.node_L1_Ir, o.node_L1_Ii, o.node_L2_Ir, o.node_L2_Ii]
        return [int(i) for i in ix]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


PH = {"A": 0.0, "B": -2 * math.pi / 3, "C": 2 * math.pi / 3}


def rnd(rng, a, b, d=4):
    """A random number with few digits (so its decimal form is exact enough to read)."""
    return float(f"{rng.uniform(a, b):.{d}g}")


def random_tx(rng, n=None, light=True, features=("xfmr", "gen", "shunt", "ic", "z", "vs")):
    """A connected positive-sequence network in per unit."""
    net = Net("tx")
    n = n or rng.randint(2, 7)
    for i in range(n):
        net.bus(rnd(rng, 0.95, 1.05), rnd(rng, -0.2, 0.2), f"n{i+1}")
    s = 0.1 if light else 1.0
    sb = rng.randint(1, n)
    net.add("slack", f=sb, v=rnd(rng, 0.97, 1.05), ang=rng.choice([0.0, rnd(rng, -0.5, 0.5)]), pinit=rnd(rng, -50, 50), qinit=rnd(rng, -50, 50))
    net.buses[sb - 1]["vm"], net.buses[sb - 1]["va"] = net.els[0]["v"], net.els[0]["ang"]
    edges = [(rng.randint(1, i - 1), i) for i in range(2, n + 1)]
    extra = rng.randint(0, max(0, n - 2))
    for _ in range(extra):
        a, b = rng.sample(range(1, n + 1), 2)
        edges.append((a, b))
    for k, (a, b) in enumerate(edges):
        if rng.random() < 0.5:
            a, b = b, a
        if "xfmr" in features and rng.random() < 0.3:
            net.add("xfmr", fp=a, fn=0, tp=b, tn=0, r=rnd(rng, 0.001, 0.02), x=rnd(rng, 0.02, 0.2), tr=rnd(rng, 0.93, 1.07),
                    ang=rng.choice([0.0, 0.0, rnd(rng, -3, 3)]))
        else:
            net.add("line", f=a, to=b, r=rnd(rng, 0.005, 0.05), x=rnd(rng, 0.02, 0.2), b=rng.choice([0.0, rnd(rng, 0.01, 0.1)]))
    gens = set()
    for b in range(1, n + 1):
        if "gen" in features and b != sb and rng.random() < 0.25:
            net.add("gen", f=b, p=rnd(rng, 0, s), v=rnd(rng, 0.98, 1.03), qinit=rnd(rng, -0.1, 0.1))
            gens.add(b)
        for _ in range(rng.choice([0, 1, 1, 2])):
            net.add("load", f=b, to=0, p=rng.choice([0.0, rnd(rng, -0.2 * s, s)]), q=rng.choice([0.0, rnd(rng, -s / 2, s / 2)]),
                    ip=rnd(rng, -s / 3, s / 3) if "ic" in features and rng.random() < 0.3 else 0.0,
                    iq=rnd(rng, -s / 3, s / 3) if "ic" in features and rng.random() < 0.3 else 0.0,
                    z=complex(rnd(rng, 5, 50), rnd(rng, -20, 20)) if "z" in features and rng.random() < 0.3 else 0)
        if "shunt" in features and rng.random() < 0.25:
            net.add("shunt", f=b, g=rnd(rng, 0, 0.05), b=rnd(rng, -0.2, 0.2))
    return net


def dx_node(net, name, phases, v, shift=0.0, virt=False, jitter=0.0, rng=None):
    out = {}
    for p in phases:
        j = rng.uniform(-jitter, jitter) if jitter and rng else 0.0
        out[p] = net.bus(v * (1 + j), PH[p] + shift, name, p, virt)
    return out


def random_dx(rng, nodes=None, light=True, features=None):
    """A connected three-phase feeder in volts: lines with coupled phases, transformers (wye and
    delta), centre taps, regulators, switches, fuses, capacitors and loads."""
    features = features or ("xfmr", "ct", "reg", "switch", "fuse", "cap", "delta", "ic", "z", "open")
    net = Net("dx")
    v0 = rng.choice([2400.0, 7200.0])
    src = dx_node(net, "src", "ABC", v0)
    for p in "ABC":
        net.add("slack", f=src[p], v=v0, ang=PH[p])
    node = {"src": (src, v0, 0.0)}
    k = nodes or rng.randint(1, 4)
    names = ["src"]
    cts = 0
    for i in range(k):
        parent = rng.choice(names)
        pb, v, sh = node[parent]
        ph = "".join(pb)
        name = f"m{i+1}"
        ways = ["uline", "uline", "uline"]
        ways += [w for w in ("switch", "fuse") if w in features]
        if ph == "ABC":
            ways += [w for w in ("reg", "xfmr", "xfmr") if w in features]
        if "ct" in features and cts < 2:
            ways += ["ct", "ct"]
        w = rng.choice(ways)
        if w == "uline":
            sub = ph if rng.random() < 0.6 else "".join(sorted(rng.sample(ph, rng.randint(1, len(ph)))))
            if "lineorder" in features and len(sub) > 1 and rng.random() < 0.3:
                sub = sub[::-1]
            nb = dx_node(net, name, sub, v, sh)
            m = len(sub)
            z = [[complex(rnd(rng, 3e-4, 6e-4), rnd(rng, 5e-4, 9e-4)) if a == b else 0 for b in range(m)] for a in range(m)]
            for a in range(m):
                for b in range(a + 1, m):
                    z[a][b] = complex(rnd(rng, 3e-5, 1e-4), rnd(rng, 1e-4, 3e-4))
                    z[b][a] = z[a][b] if rng.random() < 0.7 else complex(rnd(rng, 3e-5, 1e-4), rnd(rng, 1e-4, 3e-4))
            bl = None
            if rng.random() < 0.6:
                bl = [[rnd(rng, 1e-9, 4e-9) if a == b else -rnd(rng, 1e-10, 9e-10) for b in range(m)] for a in range(m)]
            net.add("uline", **{"from": parent}, tonode=name, phases=sub, fs=[pb[p] for p in sub], ts=[nb[p] for p in sub],
                    z=z, bl=bl, len=rnd(rng, 100, 2000))
            if rng.random() < 0.1:      # the same line given per kilometre or so, or very short
                k = rng.choice([1e3, 1e-3, 37.0])
                u = net.els[-1]
                u["z"] = [[q / k for q in row] for row in z]
                u["bl"] = bl and [[q / k for q in row] for row in bl]
                u["len"] *= k
            node[name] = (nb, v, sh)
        elif w == "switch":
            nb = dx_node(net, name, ph, v, sh)
            for p in ph:
                net.add("switch", f=pb[p], to=nb[p], closed=True, phase=p)
            node[name] = (nb, v, sh)
        elif w == "fuse":
            nb = dx_node(net, name, ph, v, sh)
            for p in ph:
                mid = net.bus(v, PH[p] + sh, parent + "-Fuse", p, True)
                net.add("fuse", f=pb[p], to=nb[p], mid=mid, limit=1e7, phase=p)
            node[name] = (nb, v, sh)
        elif w == "reg":
            nb = dx_node(net, name, ph, v, sh)
            rt = rng.choice("AB")
            for p in ph:
                mid = net.bus(v, PH[p] + sh, parent + "-Reg", p, True)
                net.add("reg", f=pb[p], to=nb[p], mid=mid, tap=rng.randint(-20, 20), step=0.00625, rtype=rt, **{"raise": 16, "lower": 16})
            node[name] = (nb, v, sh)
        elif w == "xfmr":
            conn = rng.choice(["YY", "DD", "YD", "DY"] if "delta" in features else ["YY"])
            v2 = rng.choice([240.0, 480.0, 2400.0])
            rot = {"A": "B", "B": "C", "C": "A"}
            if conn in ("YY", "DD"):
                tr, sh2 = v / v2, sh
            elif conn == "DY":
                tr, sh2 = v * math.sqrt(3) / v2, sh + math.pi / 6
            else:
                tr, sh2 = v / (v2 * math.sqrt(3)), sh - math.pi / 6
            ang = rng.choice([0.0, 0.0, 30.0]) if conn == "YY" else 0.0
            nb = dx_node(net, name, ph, v2, sh2 - math.radians(ang))
            zb = v2 * v2 / 1e6
            r, x = rnd(rng, 0.005, 0.02) * zb, rnd(rng, 0.02, 0.08) * zb
            for p in ph:
                net.add("xfmr", fp=pb[p], fn=0 if conn[0] == "Y" else pb[rot[p]], tp=nb[p], tn=0 if conn[1] == "Y" else nb[rot[p]],
                        r=r, x=x, tr=tr, ang=ang)
            if conn[1] == "D":
                for p in ph:     # a delta secondary needs a path to ground
                    net.add("load", f=nb[p], to=0, p=0.0, q=0.0, ip=0.0, iq=0.0, z=complex(rnd(rng, 50, 90) * zb, 0.0))
            node[name] = (nb, v2, sh2 - math.radians(ang))
        elif w == "ct":
            cts += 1
            p = rng.choice(ph)
            a = PH[p] + sh
            # the repository's centre tap: L1 in phase with the primary, L2 opposed
            mid = net.bus(v, a, name + "_primary", p, True)
            s1 = net.bus(120.0, a, name + "_sending_1", p, True)
            s2 = net.bus(120.0, a + math.pi, name + "_sending_2", p, True)
            to1 = net.bus(120.0, a, name, "1")
            to2 = net.bus(120.0, a + math.pi, name, "2")
            net.add("ct", f=pb[p], mid=mid, s1=s1, s2=s2, to1=to1, to2=to2, tr=v / 120.0, rating=50000.0, vn=[v, 120.0, 120.0],
                    cr=[rnd(rng, 0.003, 0.01), rnd(rng, 0.006, 0.02), rnd(rng, 0.006, 0.02)],
                    cx=[rnd(rng, 0.01, 0.03), rnd(rng, 0.006, 0.02), rnd(rng, 0.006, 0.02)], phase=p)
            sc = 1000.0 if light else 8000.0
            for t, o in ((to1, 0), (to2, 0), (to1, to2)):
                if rng.random() < 0.8:
                    rload(net, rng, t, o, 120.0 if o == 0 else 240.0, sc, features, name)
            continue
        names.append(name)
    for nm in names:
        nb, v, _ = node[nm]
        s = v * (2.0 if light else 15.0)
        for p in nb:
            if rng.random() < 0.6:
                rload(net, rng, nb[p], 0, v, s, features, nm, p)
        if "delta" in features and len(nb) > 1 and rng.random() < 0.5:
            a, b = rng.sample(sorted(nb), 2)
            rload(net, rng, nb[a], nb[b], v * math.sqrt(3), s, features, nm, a + b)
        if "cap" in features and rng.random() < 0.35:
            for p in nb:
                net.add("cap", f=nb[p], to=0, var=rnd(rng, 0.5, 2) * v, vnom=v, closed=rng.random() < 0.7, mode="MANUAL")
    return net


def twins(rng, net, p=0.5):
    """Add elements in parallel with existing ones whose data are almost, not quite, the same
    (two parts of one load, parallel circuits): they must each count with their own data."""
    if rng.random() >= p:
        return net
    near = lambda x: x * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -2.5)) if isinstance(x, float) else complex(near(x.real), near(x.imag)) if isinstance(x, complex) else x
    els = [e for e in net.els if e["t"] in ("load", "load", "line", "shunt", "cap", "xfmr", "uline", "gen")]
    for e in rng.sample(els, min(len(els), rng.randint(1, 3))):
        c = dict(e)
        keys = {"load": ("p", "q", "ip", "iq", "z"), "line": ("r", "x", "b"), "shunt": ("g", "b"), "cap": ("var",), "xfmr": ("r", "x")}.get(e["t"])
        if e["t"] == "gen":      # the power of a generator is split between two loads beside it
            s = e["p"] / 3
            for f in (1.0, 1 + 10 ** rng.uniform(-5, -2.5)):
                net.add("load", f=e["f"], to=0, p=-s * f, q=s / 2, ip=0.0, iq=0.0, z=0)
            continue
        if e["t"] == "load" and not any(e[k] for k in keys):
            continue
        if e["t"] == "uline":
            if rng.random() < 0.5:
                c["len"] = near(e["len"])
            else:
                c["z"] = [[near(z) for z in row] for row in e["z"]]
        else:
            for k in keys:
                if rng.random() < 0.8:
                    c[k] = near(c[k])
        if c.get("lnum"):
            c["lnum"] = str(c["lnum"]) + "t" + str(len(net.els))
        net.els.append(c)
    return net


def turn(net, theta):
    """The whole network with every voltage angle turned: the same network, another reference."""
    for b in net.buses:
        b["va"] += theta
    for e in net.els:
        if e["t"] == "slack":
            e["ang"] += theta
        elif e["t"] == "vs":
            v = complex(e["vr"], e["vi"]) * cmath.exp(1j * theta)
            e["vr"], e["vi"] = v.real, v.imag
        elif e["t"] == "load" and (e["ip"] or e["iq"]):
            v = complex(e["ip"], -e["iq"]) * cmath.exp(1j * theta)
            e["ip"], e["iq"] = v.real, -v.imag
    return net


def rload(net, rng, f, to, v, s, features, name="", phase=None):
    pq = rng.random() < 0.8
    p = rnd(rng, 0.1 * s, s) if pq else 0.0
    q = rnd(rng, -0.2 * s, 0.5 * s) if pq and rng.random() < 0.8 else 0.0
    ic = "ic" in features and rng.random() < 0.25
    z = complex(rnd(rng, 1, 4) * v * v / s, rnd(rng, -1, 2) * v * v / s) if "z" in features and rng.random() < 0.3 else 0
    ip = rnd(rng, -0.3, 0.3) * s / v if ic else 0.0
    iq = rnd(rng, -0.3, 0.3) * s / v if ic else 0.0
    net.add("load", f=f, to=to, p=p, q=q, ip=ip, iq=iq, z=z, lnum=name + str(len(net.els)), phase=phase)


def stamp_case(cid, net, built, x_at, tx, part, lf):
    """Evaluate residuals / Newton system of the built network at unknowns x_at(size)."""
    from logic.stamping.matrixstamper import build_matrix_stamper
    from logic.stamping.matrixbuilder import MatrixBuilder
    from logic.powerflowsettings import PowerFlowSettings
    nw = built.network
    nw.assign_matrix()
    ix = built.unknowns()
    size = nw.size_Y
    v = np.zeros(size)
    xs = x_at(len(ix))
    for i, k in enumerate(ix):
        v[k] = xs[i]
    st = build_matrix_stamper(nw)
    c = dict(id=cid, kind="stamp", part=part, n=net.n, els=spec_els(net.els), x=nums(xs), tx=num(tx), lf=num(lf), size=int(size), res=[], rows=[], rhs=[])
    if part == "res":
        r = st.calc_residuals(tx, v, 0)
        c["res"] = nums([r.residuals[k] for k in ix])
    else:
        Y = MatrixBuilder(PowerFlowSettings())
        J = np.zeros(size)
        st.stamp_linear(Y, J, tx)
        st.stamp_nonlinear(Y, J, v, 0)
        M = Y.to_matrix().toarray() if Y.get_usage() else np.zeros((0, 0))
        full = np.zeros((size, size))
        full[:M.shape[0], :M.shape[1]] = M
        c["rows"] = [[[j + 1, num(full[k, kk])] for j, kk in enumerate(ix) if full[k, kk] != 0.0] for k in ix]
        c["rhs"] = nums([J[k] for k in ix])
    return c, ix


def plausible(net, rng, spread=0.1):
    """Random operating point: voltages near nominal with noise, other unknowns of a plausible size."""
    xs = []
    for b in net.buses:
        m = b["vm"] * (1 + rng.uniform(-spread, spread))
        a = b["va"] + rng.uniform(-spread, spread)
        xs += [m * math.cos(a), m * math.sin(a)]

    def f(k):
        out = list(xs)
        while len(out) < k:
            out.append(rng.uniform(-1, 1) * (1.0 if net.kind == "tx" else 50.0))
        return out
    return f


def measure_lf():
    """How much stiffer the code makes a series branch at homotopy factor 1 (it only has to be positive and the same everywhere)."""
    net = Net("tx")
    a, b = net.bus(1.0, 0.0, "a"), net.bus(1.0, 0.1, "b")
    net.add("line", f=a, to=b, r=1.0, x=0.0, b=0.0)
    bt = Built(net)
    from logic.stamping.matrixstamper import build_matrix_stamper
    bt.network.assign_matrix()
    st = build_matrix_stamper(bt.network)
    v = np.zeros(bt.network.size_Y)
    v[bt.buses[0].node_Vr] = 1.0
    return float(st.calc_residuals(1.0, v, 0).residuals[bt.buses[0].node_Vr]) - 1.0


def execute(built, **kw):
    """Run the public power flow; returns (results or None, exception text)."""
    from logic.powerflow import PowerFlow
    from logic.powerflowsettings import PowerFlowSettings
    with quiet():
        try:
            return PowerFlow(built.network, PowerFlowSettings(**kw)).execute(), ""
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"[:300]


def end_els(built):
    """The elements with device positions as they are after a run."""
    els = []
    for e, o in zip(built.net.els, built.objs):
        e = dict(e)
        if e["t"] == "cap":
            e["closed"] = o.switch.name == "CLOSED"
        els.append(e)
    return els


def result_case(cid, built, res, exc, kw, ref=None, must=False, seq=None):
    """What a power flow reported, for spec/NetCase.tla (kind "result")."""
    net = built.net
    c = dict(id=cid, kind="result", n=net.n, els=spec_els(end_els(built)), tol=num(kw.get("tolerance", 1e-5)),
             must=bool(must), ok=False, exc=exc, x=[], virt=[b["virt"] for b in net.buses], bus=[], gens=[], loads=[],
             maxres="0", iters=0, maxiters=kw.get("max_iters", 50), txp="0", ref=[], reftol="0", refn=0)
    if ref is not None:
        c["ref"], c["reftol"] = nums(ref[0]), num(ref[1])
    if res is None:
        return c
    ix = built.unknowns()
    c["ok"] = bool(res.is_success)
    c["iters"] = int(res.iterations)
    c["txp"] = num(res.tx_percent)
    c["x"] = nums([res.v_final[k] for k in ix])
    c["maxres"] = num(res.max_residual)
    num_of = {id(b): i + 1 for i, b in enumerate(built.buses)}
    c["bus"] = [dict(b=num_of.get(id(r.bus), 0), vr=num(r.V_r), vi=num(r.V_i), mag=num(r.V_mag), deg=num(r.V_deg)) for r in res.bus_results]
    el_of = {id(o): i + 1 for i, o in enumerate(built.objs)}
    c["gens"] = [dict(el=el_of.get(id(r.generator), 0), p=num(r.P), q=num(r.Q), kind=str(r.type_str)) for r in res.generator_results]
    c["loads"] = [dict(el=el_of.get(id(r.load), 0), p=num(r.P), q=num(r.Q)) for r in res.load_results]
    return c


BUSREFS = ("f", "to", "fp", "fn", "tp", "tn", "mid", "s1", "s2", "to1", "to2")


def merge(nets_, prefixes):
    """One network holding several, side by side."""
    out = Net(nets_[0].kind)
    for net, pre in zip(nets_, prefixes):
        off = out.n
        for b in net.buses:
            out.buses.append(dict(b, name=pre + b["name"]))
        sh = lambda i: i + off if i else 0
        for e in net.els:
            e = dict(e)
            for k in BUSREFS:
                if k in e:
                    e[k] = sh(e[k])
            for k in ("fs", "ts"):
                if k in e:
                    e[k] = [sh(i) for i in e[k]]
            for k in ("from", "tonode"):
                if k in e:
                    e[k] = pre + e[k]
            if e.get("lnum"):
                e["lnum"] = pre + str(e["lnum"])
            out.els.append(e)
    return out


def part(built, keptbuses, keptels):
    """The network of the given buses and elements (numbers from 1), as a Built over the same objects."""
    net = Net(built.net.kind)
    new = {b: i + 1 for i, b in enumerate(keptbuses)}
    new[0] = 0
    net.buses = [built.net.buses[b - 1] for b in keptbuses]
    for k in keptels:
        e = dict(built.net.els[k - 1])
        for r in BUSREFS:
            if r in e:
                e[r] = new[e[r]]
        for r in ("fs", "ts"):
            if r in e:
                e[r] = [new[i] for i in e[r]]
        net.els.append(e)
    out = Built.__new__(Built)
    out.net, out.network = net, built.network
    out.buses = [built.buses[b - 1] for b in keptbuses]
    out.objs = [built.objs[k - 1] for k in keptels]
    return out
