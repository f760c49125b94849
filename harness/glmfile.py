"""Random GridLAB-D (GLM) cases: records, their text in many shapes, and what the imported network does."""
import cmath, math, os
import numpy as np
from nets import quiet, rnd
from vlib import num, nums

ABC = ["A", "B", "C"]
FT = {"ft": 1.0, "in": 1 / 12, "yd": 3.0, "mile": 5280.0, "mm": 1 / 304.8, "cm": 1 / 30.48, "m": 1 / 0.3048, "km": 1 / 0.0003048}
NEXT = {"A": "B", "B": "C", "C": "A"}
SIG = 6


def sig(x, n=SIG):
    return float(f"{x:.{n}g}")


def txt(x):
    """The number as it is written in the file (and given to the specification)."""
    s = repr(float(x))
    if "e" in s:
        s = np.format_float_positional(float(x), trim="-")
    return s


class Gen:
    def __init__(self, rng, cap):
        self.rng = rng
        self.f = dict(cap=cap, nodes=[], lines=[], xf=[], regs=[], fuses=[], switches=[], loads=[], caps=[])
        self.objs = []            # (class, name or None, [(property, value)])
        self.count = 0
        self.v = {}               # terminal -> voltage of the probe
        self.stat = {}
        self.used = set()

    # ---- names, quantities ----------------------------------------------------
    def name(self, stem):
        self.count += 1
        r = self.rng.random()
        n = f"{stem}{self.count}" if r < 0.5 else f"{stem}-{self.count}" if r < 0.7 else f"{self.count}_{stem}" if r < 0.85 else f"{stem}_x_{self.count}"
        return n

    def q(self, value, dim):
        """A quantity near value (in the default unit of dim) as written; {v, u}."""
        rng = self.rng
        units = {"len": ["ft", "ft", "mile", "m", "km", "yd"], "ft": ["ft", "in", "m", "cm", "mm"], "inch": ["in", "in", "cm", "mm", "ft"],
                 "ohm/mile": ["Ohm/mile", "Ohm/km", "Ohm/m", "Ohm/ft"], "nf/mile": ["nF/mile", "nF/km"], "V": ["V", "V", "kV"],
                 "A": ["A", "kA"], "VAr": ["VAr", "kVAr", "MVAr"], "kVA": ["kVA", "VA", "MVA"]}[dim]
        if rng.random() < 0.45:
            return dict(v=txt(sig(value)), u="")
        u = rng.choice(units)
        default = {"len": "ft", "ft": "ft", "inch": "in"}.get(dim)
        if default:
            value = value * FT[default] / FT[u]
        elif dim == "ohm/mile" or dim == "nf/mile":
            value = value / (5280.0 / FT[u.split("/")[1]])
        elif dim == "kVA":
            value = value * 1e3 / {"": 1, "k": 1e3, "M": 1e6}[u[:-2]]
        else:
            value = value / {"": 1, "k": 1e3, "M": 1e6}[u[:-len(dim)]]
        return dict(v=txt(sig(value)), u=u)

    def c(self, z, units=()):
        """A complex quantity near z as written; {n, a, b, u}."""
        rng = self.rng
        u = rng.choice(units) if units and rng.random() < 0.4 else ""
        z = z / {"": 1, "k": 1e3, "M": 1e6}[u[:1] if len(u) > 1 and u[0] in "kM" else ""]
        if u.startswith("Ohm/"):
            z = z / (5280.0 / FT[u[4:]])
        n = rng.choice(["j", "j", "j", "i", "d", "r"])
        if z.imag == 0 and z.real >= 0 and rng.random() < 0.5:
            return dict(n="re", a=txt(sig(z.real)), b="0", u=u)
        if n in "ji":
            return dict(n=n, a=txt(sig(z.real)), b=txt(sig(z.imag)), u=u)
        m, a = cmath.polar(z)
        return dict(n=n, a=txt(sig(m)), b=txt(sig(math.degrees(a) if n == "d" else a)), u=u)

    def wq(self, q):
        if q["u"] == "":
            return q["v"]
        return q["v"] + self.rng.choice([" ", " ", ""]) + q["u"]

    def wc(self, c):
        s = c["a"]
        if c["n"] != "re":
            s = ("+" if self.rng.random() < 0.2 and not s.startswith("-") else "") + s + ("" if c["b"].startswith("-") else "+") + c["b"] + c["n"]
        if c["u"]:
            s += (self.rng.choice([" ", " ", ""]) if c["n"] in ("re", "j") else " ") + c["u"]
        return s

    def cv(self, c):
        a, b = float(c["a"]), float(c["b"])
        z = complex(a, b) if c["n"] in ("re", "j", "i") else cmath.rect(a, math.radians(b) if c["n"] == "d" else b)
        return z

    def ph(self, phases, extra=""):
        """The phases property: any order, quoted or not."""
        s = list(phases)
        if self.rng.random() < 0.25:
            self.rng.shuffle(s)
        if self.rng.random() < 0.25:      # N, D or S anywhere among them
            s += list(extra)
            self.rng.shuffle(s)
            extra = ""
        s = "".join(s) + extra
        return f'"{s}"' if self.rng.random() < 0.4 else s

    # ---- nodes ------------------------------------------------------------------
    def obj(self, cls, name, props):
        self.objs.append((cls, name, props))

    def volt(self, name, p, mag):
        ang = {"A": 0, "B": -120, "C": 120, "1": 0, "2": 180}[p] + self.rng.uniform(-25, 25)
        z = cmath.rect(mag * self.rng.uniform(0.88, 1.12), math.radians(ang))
        self.v[name, p] = complex(sig(z.real, 9), sig(z.imag, 9))

    def node(self, phases, vnom, swing=False, parent="", n=True):
        rng = self.rng
        tri = phases == ["1", "2"]
        loadnode = not swing and not parent and rng.random() < 0.2
        cls = "node" if swing else rng.choice(["triplex_node", "triplex_meter"]) if tri else "load" if loadnode else rng.choice(["node", "node", "meter"])
        name = self.name(rng.choice(["n", "bus", "N"]))
        q = self.q(vnom, "V")
        rec = dict(name=name, phases=phases, parent=parent, vnom=q, swing=swing, volts=[])
        pr = [("phases", self.ph([self.tph] if tri else phases, "S" if tri else "N" if n else "D" if cls == "load" and rng.random() < 0 else "")), ("nominal_voltage", self.wq(q))]
        if cls == "triplex_node" and parent:
            cls = "triplex_meter"
        if parent:
            pr.append(("parent", parent))
        if swing:
            pr.append(("bustype", "SWING"))
        if (swing and rng.random() < 0.7) or (not tri and not parent and cls != "load" and rng.random() < 0.2):
            rot, jit = rng.choice([0, 0, 0, 120, -120, 180, 60, 77]), rng.choice([0, 3])      # any phase may be the one at (minus) zero degrees
            for p in phases:
                z = cmath.rect(vnom * rng.uniform(0.95, 1.05), math.radians({"A": 0, "B": -120, "C": 120}[p] + rot + rng.uniform(-jit, jit)))
                if abs(z.imag) < 1e-9 * vnom:
                    z = complex(z.real, 0)
                c = self.c(z, ("V", "kV"))
                pr.append((f"voltage_{p}", self.wc(c)))
                rec["volts"].append(dict(p=p, v=c))
        if not parent:
            for p in phases:
                self.volt(name, p, vnom)
        self.f["nodes"].append(rec)
        o = (cls, name, pr)
        self.objs.append(o)
        rec_ = dict(name=name, phases=phases, v=vnom, tri=tri, root=name, obj=o, cls=cls, n=n, isload=cls == "load", swing=swing)
        if parent:
            rec_["root"] = None
        return rec_

    # ---- lines --------------------------------------------------------------------
    def spacing(self, oh, names, earth):
        rng = self.rng
        pos = {}
        for k, p in enumerate(names):
            pos[p] = ((k * 1.7 + rng.uniform(0, 0.6)) * (1 if oh else 0.35), (28 + rng.uniform(-3, 3)) if oh else -4.0)
        dist, pr = [], []
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                d = self.q(math.dist(pos[a], pos[b]), "ft")
                d = dict(v=d["v"], u=d["u"])
                dist.append(dict(a=a, b=b, d=d))
                pr.append((f"distance_{a}{b}", self.wq(d)))
            if earth:
                d = self.q(pos[a][1], "ft")
                dist.append(dict(a=a, b="E", d=d))
                pr.append((f"distance_{a}E", self.wq(d)))
        return dist, pr

    def config(self, kind, phases, n):
        """A line configuration covering at least phases; reused between lines."""
        rng = self.rng
        conf = [c for c in getattr(self, "confs", []) if c["kind"] == kind and set(phases) <= set(c["phases"]) and (not n or c["n"])]
        if conf and rng.random() < 0.4:
            return rng.choice(conf)
        tpx = kind == "tpx"
        cover = list(phases) if tpx or rng.random() < 0.6 else ABC
        names = cover + (["N"] if n or tpx or rng.random() < 0.5 else [])
        name, pr = self.name("lc"), []
        c = dict(kind=kind, phases=cover, n="N" in names, name=name, z=[], c=[], wires=[], dist=[], dia=dict(v="", u=""), ins=dict(v="", u=""))
        direct = rng.random() < 0.25
        if direct:
            idx = {"A": 1, "B": 2, "C": 3, "1": 1, "2": 2}
            for a in cover:
                for b in cover:
                    z = complex(rnd(rng, 0.3, 1.2), rnd(rng, 0.6, 1.6)) if a == b else complex(rnd(rng, 0.05, 0.2), rnd(rng, 0.2, 0.5))
                    zc = self.c(z, ("Ohm/mile", "Ohm/km"))
                    c["z"].append(dict(i=idx[a], j=idx[b], z=zc))
                    pr.append((f"z{idx[a]}{idx[b]}", self.wc(zc)))
            if not tpx and rng.random() < 0.6:
                for a in cover:
                    for b in cover:
                        if a == b or rng.random() < 0.9:
                            q = self.q(rnd(rng, 10, 300) if a == b else -rnd(rng, 1, 9), "nf/mile")
                            c["c"].append(dict(i=idx[a], j=idx[b], c=q))
                            pr.append((f"c{idx[a]}{idx[b]}", self.wq(q)))
        else:
            rated = rng.random() < 0.6
            nc = dict(v="", u="")
            same = None
            for p in names:
                if same is not None and rng.random() < 0.4 and p != "N":
                    w, cond = dict(same[0], p=p), same[1]
                else:
                    cond = self.name("cond")
                    amp = self.q(rnd(rng, 50, 900), "A") if rated else nc
                    w = dict(p=p, r=self.q(rnd(rng, 0.1, 1.5), "ohm/mile"), gmr=self.q(rnd(rng, 0.01, 0.04), "ft"), dia=nc, amp=amp, od=nc, nd=nc, cd=nc, ngmr=nc, nr=nc, k="0", perm="1.0")
                    cp = []
                    if rated:
                        cp.append(("rating.summer.emergency", self.wq(amp)))
                        if rng.random() < 0.5 and kind != "tpx":
                            cp.append(("rating.summer.continuous", txt(sig(rnd(rng, 50, 900)))))
                            if kind == "oh":
                                cp.append(("rating.winter.emergency", "400"))
                    if kind == "ug":
                        cd = rnd(rng, 0.3, 0.7)
                        od = cd + rnd(rng, 0.6, 1.0)
                        w.update(od=self.q(od, "inch"), cd=self.q(cd, "inch"), nd=self.q(rnd(rng, 0.05, 0.09), "inch"), ngmr=self.q(rnd(rng, 0.002, 0.004), "ft"),
                                 nr=self.q(rnd(rng, 5, 15), "ohm/mile"), k=str(rng.randint(6, 20)))
                        cp += [("conductor_resistance", self.wq(w["r"])), ("conductor_gmr", self.wq(w["gmr"])), ("outer_diameter", self.wq(w["od"])), ("conductor_diameter", self.wq(w["cd"])),
                               ("neutral_diameter", self.wq(w["nd"])), ("neutral_gmr", self.wq(w["ngmr"])), ("neutral_resistance", self.wq(w["nr"])), ("neutral_strands", w["k"] + rng.choice(["", ".0"]))]
                        if rng.random() < 0.6:
                            w["perm"] = txt(rnd(rng, 1.5, 4, 2))
                            cp.append(("insulation_relative_permitivitty", w["perm"]))
                    else:
                        cp += [("resistance", self.wq(w["r"])), ("geometric_mean_radius", self.wq(w["gmr"]))]
                        if kind == "oh":
                            w["dia"] = self.q(rnd(rng, 0.3, 0.9), "inch")
                            cp.append(("diameter", self.wq(w["dia"])))
                    rng.shuffle(cp)
                    self.obj({"oh": "overhead_line_conductor", "ug": "underground_line_conductor", "tpx": "triplex_line_conductor"}[kind], cond, cp)
                    same = (w, cond)
                c["wires"].append(w)
                pr.append((f"conductor_{p}", cond))
            if tpx:
                c["dia"], c["ins"] = self.q(rnd(rng, 0.3, 0.6), "inch"), self.q(rnd(rng, 0.05, 0.1), "inch")
                pr += [("diameter", self.wq(c["dia"])), ("insulation_thickness", self.wq(c["ins"]))]
            else:
                sp = self.name("sp")
                c["dist"], spr = self.spacing(kind == "oh", names, kind == "oh" and rng.random() < 0.7)
                rng.shuffle(spr)
                self.obj("line_spacing", sp, spr)
                pr.append(("spacing", sp))
        rng.shuffle(pr)
        self.obj("triplex_line_configuration" if tpx else "line_configuration", name, pr)
        self.confs = getattr(self, "confs", []) + [c]
        return c

    def line(self, a, b, phases):
        rng = self.rng
        kind = "tpx" if phases == ["1", "2"] else rng.choice(["oh", "oh", "ug"])
        n = False if kind == "tpx" else rng.random() < 0.65
        c = self.config(kind, phases, n)
        q = self.q(rnd(rng, 80, 6000), "len")
        self.f["lines"].append(dict(kind=kind, f=a["name"], t=b["name"], phases=phases, n=n, len=q, **{k: c[k] for k in ("z", "c", "wires", "dist", "dia", "ins")}))
        cls = {"oh": "overhead_line", "ug": "underground_line", "tpx": "triplex_line"}[kind]
        pr = [("phases", self.ph([self.tph] if kind == "tpx" else phases, "S" if kind == "tpx" else "N" if n else rng.choice(["", "", "D"]))), ("from", a["name"]), ("to", b["name"]), ("length", self.wq(q)), ("configuration", c["name"])]
        self.obj(cls, self.linkname(cls), pr)
        self.tick(kind + (" matrix" if c["z"] else ""))

    def tick(self, k):
        self.stat[k] = self.stat.get(k, 0) + 1

    def linkname(self, cls):
        return None if self.rng.random() < 0.25 else self.name(cls[0] + "l")

    # ---- transformers, regulators, fuses, switches ---------------------------------------
    def rating(self, phases, kva, single):
        rng = self.rng
        if rng.random() < 0.5:
            q = self.q(kva, "kVA")
            return [q], [("power_rating", self.wq(q))]
        qs, pr = [], []
        for p in phases if not single else phases[:1]:
            q = self.q(kva / (1 if single else len(phases)) * rng.choice([1, 1, rng.uniform(0.8, 1.2)]), "kVA")
            qs.append(q)
            pr.append((f"power{p}_rating", self.wq(q)))
        return qs, pr

    def xf(self, a, b, phases, how, vs, ct=False):
        rng = self.rng
        z = complex(rnd(rng, 0.004, 0.03), rnd(rng, 0.01, 0.08))
        zc = dict(self.c(z), u="")
        while zc["n"] == "re":
            zc = dict(self.c(z), u="")
        vp, vsq = self.q(a["v"] * (math.sqrt(3) if not ct and how != "single" else 1), "V"), self.q(vs * (math.sqrt(3) if not ct and how != "single" else 1), "V")
        s, spr = self.rating(phases, rnd(rng, 10, 3000), ct)
        conn = {"yy": ["WYE_WYE", "1"], "dd": ["DELTA_DELTA", "2"], "dy": ["DELTA_GWYE", "3"], "single": ["SINGLE_PHASE", "4"], "ct": ["SINGLE_PHASE_CENTER_TAPPED", "5"]}["ct" if ct else how]
        pr = [("connect_type", rng.choice(conn)), ("primary_voltage", self.wq(vp)), ("secondary_voltage", self.wq(vsq))] + spr
        if rng.random() < 0.4:
            pr.append(("install_type", "PADMOUNT"))
        if rng.random() < 0.5 and zc["n"] in "ji":
            pr += [("resistance", zc["a"]), ("reactance", zc["b"])]
        else:
            pr.append(("impedance", self.wc(zc)))
        rng.shuffle(pr)
        conf = self.name("tc")
        self.obj("transformer_configuration", conf, pr)
        self.f["xf"].append(dict(ct=ct, f=a["name"], t=b["name"], phases=phases, dp=how in ("dd", "dy"), ds=how == "dd", vp=vp, vs=vsq, s=s, z=zc))
        self.obj("transformer", self.linkname("transformer"), [("phases", self.ph(phases, "S" if ct else rng.choice(["N", "N", ""]))), ("from", a["name"]), ("to", b["name"]), ("configuration", conf)])
        self.tick("xf " + ("ct" if ct else how))

    def near(self, a, b, phases, ratio=None):
        """Voltages across a large admittance are almost equal."""
        for p in phases:
            t = (ratio or {}).get(p, 1.0)
            z = self.v[a["root"], p] / t * complex(1 + self.rng.choice([-1, 1]) * self.rng.uniform(2e-6, 2e-5), self.rng.uniform(-1e-5, 1e-5))
            self.v[b["root"], p] = complex(sig(z.real, 13), sig(z.imag, 13))

    def reg(self, a, b):
        rng = self.rng
        raise_ = lower = rng.choice([16, 16, 8, 10])
        typ = rng.choice(["A", "B"])
        tap = {p: rng.choice([0, rng.randint(-lower, raise_), raise_, -lower]) for p in ABC}
        regn = txt(rng.choice([0.1, 0.05, 0.08]))
        conf = self.name("rc")
        pr = [("connect_type", rng.choice(["1", "WYE_WYE"])), ("band_center", "122.0"), ("band_width", "2.0"), ("time_delay", "30.0"), ("raise_taps", str(raise_)), ("lower_taps", str(lower)),
              ("regulation", regn), ("Type", typ), ("Control", rng.choice(["MANUAL", "OUTPUT_VOLTAGE", "LINE_DROP_COMP"]))] + [(f"tap_pos_{p}", str(tap[p])) for p in ABC]
        if rng.random() < 0.5:
            pr += [("current_transducer_ratio", "700"), ("power_transducer_ratio", "20"), ("compensator_r_setting_A", "3.0"), ("compensator_x_setting_B", "9.0"), ("PT_phase", "ABC")]
        rng.shuffle(pr)
        self.obj("regulator_configuration", conf, pr)
        self.f["regs"].append(dict(f=a["name"], t=b["name"], tap=tap, regulation=regn, type=typ, **{"raise": raise_, "lower": lower}))
        self.obj("regulator", self.name("reg"), [("phases", self.ph(ABC, rng.choice(["N", ""]))), ("from", a["name"]), ("to", b["name"]), ("configuration", conf)])
        step = 2 * float(regn) / (raise_ + lower)
        self.near(a, b, ABC, {p: 1 / (1 + step * tap[p]) if typ == "A" else 1 - step * tap[p] for p in ABC})
        self.tick("regulator")

    def status(self, phases, bad, good, per, allp):
        """{phase: good?} and the properties that say so."""
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return {p: True for p in phases}, [] if rng.random() < 0.5 else [(allp, good)]
        if r < 0.5:
            ok = rng.random() < 0.5
            return {p: ok for p in phases}, [(allp, good if ok else bad)]
        st = {p: rng.random() < 0.7 for p in phases}
        pr = [(per % p, good if st[p] else bad) for p in phases]
        if rng.random() < 0.3:        # phases without their own status have the device's
            ok = rng.random() < 0.5
            k = rng.randrange(len(pr))
            st[phases[k]] = ok
            pr.pop(k)
            pr.append((allp, good if ok else bad))
        return st, pr

    def fuse(self, a, b, phases):
        good, spr = self.status(phases, "BLOWN", "GOOD", "phase_%s_status", "status")
        lim = self.q(rnd(self.rng, 20, 900), "A")
        lim = lim if lim["u"] != "kA" else dict(v=txt(sig(rnd(self.rng, 20, 900))), u="A")
        pr = [("phases", self.ph(phases, self.rng.choice(["N", ""]))), ("from", a["name"]), ("to", b["name"]), ("current_limit", self.wq(lim))] + spr
        self.obj("fuse", self.linkname("fuse"), pr)
        self.f["fuses"].append(dict(f=a["name"], t=b["name"], phases=phases, good=good, limit=lim))
        self.near(a, b, phases)
        self.tick("fuse")

    def switch(self, a, b, phases):
        closed, spr = self.status(phases, "OPEN", "CLOSED", "phase_%s_state", "status")
        cls = self.rng.choice(["switch", "switch", "recloser"])
        self.obj(cls, self.linkname("switch"), [("phases", self.ph(phases, self.rng.choice(["N", ""]))), ("from", a["name"]), ("to", b["name"])] + spr)
        self.f["switches"].append(dict(f=a["name"], t=b["name"], phases=phases, closed=closed))
        self.tick(cls)

    # ---- loads, capacitors ---------------------------------------------------------------------
    def load(self, nd, mine):
        """Loads at node nd: on a load object of their own, or properties of the node's object."""
        rng = self.rng
        delta = False
        cls = nd["cls"] if mine else rng.choice(["triplex_load", "triplex_node"]) if nd["tri"] else "load"
        if nd["tri"]:
            conns = ["1", "2", "12"]
        else:
            own = nd["cls"] == "load" and mine
            delta = not own and len(nd["phases"]) == 3 and rng.random() < 0.35
            conns = nd["phases"] + ([] if delta else [p + NEXT[p] for p in nd["phases"] if NEXT[p] in nd["phases"]])
        pr = []
        base = nd["v"]
        for k in rng.sample(conns, rng.randint(1, len(conns))):
            for kind in rng.sample("p" if k in ("AB", "BC", "CA") else "piz", rng.choice([1, 1, 2]) if k not in ("AB", "BC", "CA") else 1):
                s = complex(rnd(rng, 1, 60), rnd(rng, -10, 30)) * 1000
                if rng.random() < 0.1:
                    s = complex(s.real, 0) if rng.random() < 0.5 else complex(0, s.imag)
                x = s if kind == "p" else (s / base).conjugate() * cmath.exp(1j * rng.uniform(-2, 2)) if kind == "i" else base * base / s.conjugate()
                c = self.c(x, {"p": ("VA", "kVA", "MVA"), "i": ("A",), "z": ("Ohm",)}[kind])
                word = {"p": "power", "i": "current", "z": "impedance"}[kind]
                if not nd["tri"] or (cls == "triplex_load" and kind == "p" and rng.random() < 0.4):
                    word = "constant_" + word
                pr.append((f"{word}_{k}", self.wc(c)))
                self.f["loads"].append(dict(node=nd["name"], c=list(k), delta=delta, kind=kind, v=c))
                self.tick("load " + kind + (" delta" if delta or len(k) == 2 else ""))
        zero = ("constant_" if cls in ("load", "triplex_load") else "") + "power_" + conns[0]
        if rng.random() < 0.2 and not any(p == zero for p, _ in pr):
            pr.append((zero, "0"))
        if mine:
            nd["obj"][2].extend(pr)
        else:
            hdr = [("phases", self.ph([self.tph] if nd["tri"] else nd["phases"], "S" if nd["tri"] else "D" if delta else rng.choice(["N", ""]))), ("parent", nd["name"])]
            if rng.random() < 0.7:
                hdr.append(("nominal_voltage", txt(nd["v"])))
            if cls == "load" and rng.random() < 0.3:
                hdr.append(("load_class", "R"))
            self.obj(cls, self.name("ld"), hdr + pr)

    def cap(self, nd):
        rng = self.rng
        volt = rng.random() < 0.3
        conn = nd["phases"] if rng.random() < 0.6 else rng.sample(nd["phases"], rng.randint(1, len(nd["phases"])))
        q = self.q(nd["v"] * rng.choice([1, 1, 1.05]), "V")
        pr = [("phases", self.ph(nd["phases"], "N")), ("parent", nd["name"]), ("cap_nominal_voltage", self.wq(q))]
        if conn != nd["phases"] or rng.random() < 0.5:
            pr.append(("phases_connected", self.ph(conn, rng.choice(["N", ""]))))
        parts = []
        hi, lo = self.q(nd["v"] * 1.05, "V"), self.q(nd["v"] * 0.95, "V")
        if volt:
            pr += [("control", "VOLT"), ("voltage_set_high", self.wq(hi)), ("voltage_set_low", self.wq(lo)), ("time_delay", "2.0")]
        elif rng.random() < 0.6:
            pr.append(("control", "MANUAL"))
        for p in nd["phases"]:
            if rng.random() < 0.85:
                x = self.q(rnd(rng, 5e3, 3e5), "VAr")
                on = rng.random() < 0.7
                pr.append((f"capacitor_{p}", self.wq(x)))
                if not volt or rng.random() < 0.4:
                    pr.append((f"switch{p}", "CLOSED" if on else "OPEN"))
                if p in conn:
                    parts.append(dict(p=p, q=x, on=on and not volt))
        if rng.random() < 0.5:
            pr.append(("nominal_voltage", txt(nd["v"])))
        self.obj("capacitor", self.name("cap"), pr)
        self.f["caps"].append(dict(node=nd["name"], parts=parts, vnom=q, volt=volt, hi=hi, lo=lo))
        self.tick("capacitor" + (" volt" if volt else ""))


def random_case(rng, cap=True, size=None):
    g = Gen(rng, cap)
    g.tph = rng.choice(ABC)
    v0 = rng.choice([2401.7771, 7199.558, 7200.0, 14376.0, 277.13])
    src = g.node(ABC, v0, swing=True, n=rng.random() < 0.7)
    open_ = [src]
    nodes = [src]
    for _ in range(size or rng.randint(1, 6)):
        a = rng.choice(open_)
        kinds = ["line"] * 4 + ["fuse", "switch"]
        if a["tri"]:
            kinds = ["line"]
        else:
            if len(a["phases"]) == 3:
                kinds += ["xf", "xf", "xf", "reg"]
            if len(a["phases"]) == 1 or rng.random() < 0.3:
                kinds += ["single"]
            if g.tph in a["phases"] and a["v"] > 1000:
                kinds += ["ct", "ct"]
        k = rng.choice(kinds)
        ph = a["phases"]
        if k in ("line", "fuse", "switch") and not a["tri"] and rng.random() < 0.35:
            ph = sorted(rng.sample(ph, rng.randint(1, len(ph))))
        if k == "single":
            ph = [rng.choice(a["phases"])]
        if k == "xf" or k == "single":
            how = "single" if k == "single" else rng.choice(["yy", "dd", "dy"])
            vs = rng.choice([277.13, 2401.7771, 7199.558, 120.0])
            b = g.node(ph, vs)
            g.xf(a, b, ph, how, vs)
        elif k == "ct":
            b = g.node(["1", "2"], 120.0)
            g.xf(a, b, [g.tph], "", 120.0, ct=True)
        else:
            b = g.node(ph, a["v"])
            if k == "line":
                g.line(a, b, ph)
                if rng.random() < 0.12:
                    g.line(a, b, ph)
            elif k == "reg":
                g.reg(a, b)
            elif k == "fuse":
                g.fuse(a, b, ph)
            else:
                g.switch(a, b, ph)
        nodes.append(b)
        open_.append(b)
        if rng.random() < 0.3:
            open_.remove(a)
            open_ = open_ or [b]
        if rng.random() < 0.2 and not b["isload"]:            # a child takes the parent's place in what follows
            c = g.node(b["phases"], b["v"], parent=b["name"], n=b["n"])
            c["root"] = b["root"]
            open_.append(c)
            d = c
            while rng.random() < 0.45 and not d["isload"]:
                d = g.node(b["phases"], b["v"], parent=d["name"], n=b["n"])
                d["root"] = b["root"]
                open_.append(d)
                nodes.append(d)
            nodes.append(c)
    for nd in nodes:
        if nd["isload"] or nd["cls"] in ("triplex_node", "triplex_meter"):
            if rng.random() < 0.8 and not (nd["cls"] != "load" and nd["obj"][2] and any(k == "parent" for k, _ in nd["obj"][2])):
                g.load(nd, True)
        elif rng.random() < 0.4:
            g.load(nd, False)
        if not nd["tri"] and not nd["isload"] and rng.random() < 0.25:
            g.cap(nd)
    return g


SKIPPED = ["recorder", "tape.recorder", "voltdump", "player", "collector", "metrics"]


def text(g, directory, tag):
    """The file's text (and maybe an included file beside it)."""
    rng = g.rng
    objs = list(g.objs)
    r = rng.random()
    if r < 0.6:
        rng.shuffle(objs)
    elif r < 0.8:
        objs.reverse()
    nl = "\n"
    compact = rng.random() < 0.2

    def one(cls, name, props):
        props = list(props)
        if rng.random() < 0.4:
            rng.shuffle(props)
        head = cls
        if name is not None:
            props.insert(0 if rng.random() < 0.8 else rng.randint(0, len(props)), ("name", f'"{name}"' if rng.random() < 0.15 else name))
            if rng.random() < 0.15:
                head = f"{cls}:{rng.randint(1, 999)}"
        brace = rng.choice([" {", " {", "{"])
        lines = []
        for k, v in props:
            q = v
            if rng.random() < 0.1 and not v.startswith('"') and " " not in v:
                q = f'"{v}"'
            lines.append(f"{rng.choice(['  ', chr(9), ''])}{k}{rng.choice([' ', '  ', chr(9)])}{q};" + (f"  // {rng.choice(['a note', 'was 12;', 'name x; }'])}" if not compact and rng.random() < 0.08 else ""))
            if not compact and rng.random() < 0.03:
                lines.append("// object node { name nothing; }")
            if rng.random() < 0.04:
                inner = rng.choice(SKIPPED)
                if compact:
                    lines.append(f"object {inner} {{ file \"x.csv\"; interval 60; }};")
                else:
                    lines += [f"  object {inner} {{", "    file \"x.csv\";", "    interval 60;", "    name inner;", "  };"]
        end = rng.choice(["}", "};", "}"])
        if compact and rng.random() < 0.7:
            return f"object {head}{brace} " + " ".join(l.strip() for l in lines) + " " + end
        if rng.random() < 0.1:
            brace = "\n{"
        return nl.join([f"object {head}{brace}"] + lines + [end])

    parts = []
    for o in objs:
        parts.append(one(*o))
        if rng.random() < 0.05:
            parts.append(f"object {rng.choice(SKIPPED)} {{\n  name rec{len(parts)};\n  property voltage_A;\n  file \"a.csv\";\n}};")
        if rng.random() < 0.05:
            parts.append("// a comment; object node { name c; }")
    inc = ""
    if rng.random() < 0.15 and len(parts) > 2:
        k = rng.randint(1, len(parts) - 1)
        p = os.path.join(directory, f"inc{tag}.txt")
        with open(p, "w") as h:
            h.write("\n".join(parts[k:]) + "\n")
        parts = parts[:k]
        inc = f'#include "{p}"' + rng.choice(["", ";"]) + "\n"
    header = rng.choice(["", "// made up\nclock {\n  timezone EST+5EDT;\n  starttime '2000-01-01 0:00:00';\n}\n", "#set relax_naming_rules=1\n"])
    mod = rng.choice(["module powerflow;\n", "module powerflow {\n  solver_method NR;\n  line_capacitance true;\n}\n", "module tape;\nmodule powerflow{\n  solver_method FBS;\n};\n"])
    sep = rng.choice(["\n", "\n\n"])
    return header + mod + inc + sep.join(parts) + rng.choice(["\n", ""])


def write(g, directory, tag):
    p = os.path.join(directory, f"case{tag}.glm")
    t = text(g, directory, tag)
    with open(p, "w") as h:
        h.write(t)
    return p


def observe(cid, g, path):
    """Import the file and measure the current every phase sees at the probe's voltages."""
    from rawfile import probe
    c = dict(id=cid, file=g.f, exc="", bus=[], conds=[], free=0, fuses=[], voltcaps=[], amps=[], ratings=[])
    from logic.network.networkloader import NetworkLoader
    from logic.powerflowsettings import PowerFlowSettings
    from logic.stamping.matrixstamper import build_matrix_stamper
    from models.components.center_tap_transformer import CenterTapTransformer
    from models.components.capacitor import CapacitorMode, CapSwitchState
    from models.components.fuse import FuseStatus
    try:
        with quiet():
            nw = NetworkLoader(PowerFlowSettings(enable_line_capacitance=g.f["cap"])).from_file(path)
            t = lambda b: f"{b.NodeName}_{b.NodePhase}"
            c["fuses"] = [dict(f=t(x.from_node), t=t(x.to_node), limit=num(x.current_limit), good=x.status == FuseStatus.GOOD) for x in nw.fuses]
            blown = {x.interior_node.Bus for x in nw.fuses if x.status != FuseStatus.GOOD} if nw.fuses else set()
            nw.buses = [b for b in nw.buses if b.Bus not in blown]
            nw.fuses = [x for x in nw.fuses if x.status == FuseStatus.GOOD]
            for x in nw.capacitors:
                if x.mode == CapacitorMode.VOLT:
                    c["voltcaps"].append(dict(t=t(x.from_bus), hi=num(x.high_voltage), lo=num(x.low_voltage), y=num(x.B)))
                    x.switch = CapSwitchState.OPEN
                elif x.mode != CapacitorMode.MANUAL:
                    raise Exception(f"capacitor mode {x.mode}")
            nw.assign_matrix()
            for l in nw.lines:
                a = list(l.ampacities or [])
                if len(a) >= len(l.lines) and all(x is not None for x in a[:len(l.lines)]):
                    for x, amp in zip(l.lines, a):
                        p, q = x.get_nodes(nw)
                        c["amps"].append(dict(f=t(p), t=t(q), a=num(amp)))
            for x in nw.transformers:
                if isinstance(x, CenterTapTransformer):
                    c["ratings"].append(dict(f=t(x.coils[0].from_node), s=num(x.power_rating)))
                else:
                    c["ratings"].append(dict(f=t(x.from_bus_pos), s=num(x.power_rating)))
            st = build_matrix_stamper(nw)
            buses = [b for b in nw.buses if not b.IsVirtual]
            vb = {b.Bus: g.v[b.NodeName, b.NodePhase] for b in buses if (b.NodeName, b.NodePhase) in g.v}
            r, conds, free, err = probe(nw, st, [b for b in buses if b.Bus in vb], vb)
    except Exception as e:
        c["exc"] = f"{type(e).__name__}: {e}"[:300]
        return c
    if err:
        c["exc"] = err
        return c
    c["conds"], c["free"] = nums(conds), free
    for b in buses:
        v = vb.get(b.Bus, 0j)
        c["bus"].append(dict(t=t(b), node=str(b.NodeName), v=nums([v.real, v.imag]), drawn=nums([r[b.node_Vr], r[b.node_Vi]]), vnom=num(b.V_Nominal if b.V_Nominal is not None else float("inf"))))
    return c
