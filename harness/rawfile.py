"""Random PSS/E RAW cases: records, their text in several revisions, and what the imported network does."""
import cmath, math, os
import numpy as np
from nets import quiet, rnd
from vlib import num, nums


def random_case(rng, n=None):
    rev = rng.choice([30, 32, 33, 34])
    sbase = rng.choice([100.0, 100.0, 100.0, 50.0, 1000.0, 10.0, 73.5])
    k = sbase / 100.0                                   # keeps per-unit quantities moderate
    n = n or rng.randint(2, 8)
    nums_ = rng.sample(range(1, 400), n)
    if rng.random() < 0.3:
        nums_ = [x + rng.choice([0, 10000, 99000]) for x in nums_]
        nums_ = list(dict.fromkeys(nums_))
        n = len(nums_)
    buses = []
    ides = [3] + [rng.choice([1, 1, 1, 2, 2, 4]) for _ in range(n - 1)]
    if n > 3 and rng.random() < 0.1:
        ides[1] = 3
    rng.shuffle(ides)
    for i, ide in zip(nums_, ides):
        b = dict(i=i, kv=rng.choice([138.0, 13.8, 345.0, 69.0, 0.48]), ide=ide, vm=rnd(rng, 0.9, 1.1), va=rnd(rng, -40, 40),
                 gl=0.0, bl=0.0, name=rng.choice(["", "BUS %d" % i, "B/%d" % i, "SAME", "N%d, X" % i]))
        if rev == 30 and rng.random() < 0.4:
            b["gl"], b["bl"] = rng.choice([0.0, rnd(rng, -2 * k, 10 * k), rnd(rng, 0, 10 * k)]), rng.choice([0.0, rnd(rng, -20 * k, 20 * k)])
        buses.append(b)
    def z(lo, hi, p=0.2):
        return 0.0 if rng.random() < p else rnd(rng, lo, hi)

    f = dict(rev=rev, sbase=sbase, buses=buses, loads=[], fsh=[], gens=[], brs=[], x2=[], x3=[], ss=[])
    byi = {b["i"]: b for b in buses}
    st = lambda p=0.15: 0 if rng.random() < p else 1
    ids = ["1", "2", "A", "10"]
    for b in buses:
        for id_ in rng.sample(ids, rng.choice([0, 1, 1, 1, 2])):
            l = dict(i=b["i"], id=id_, st=st(), pl=0.0, ql=0.0, ip=0.0, iq=0.0, yp=0.0, yq=0.0)
            if rng.random() < 0.9:
                l["pl"], l["ql"] = z(-5 * k, 60 * k), z(-20 * k, 20 * k)
            if rng.random() < 0.25:
                l["ip"], l["iq"] = z(-2 * k, 20 * k), z(-9 * k, 9 * k)
            if rng.random() < 0.25:
                l["yp"], l["yq"] = z(-2 * k, 20 * k, 0.35), z(-9 * k, 9 * k, 0.35)
            f["loads"].append(l)
        for id_ in rng.sample(ids, rng.choice([0, 0, 1, 2])) if rev != 30 else []:
            f["fsh"].append(dict(i=b["i"], id=id_, st=st(), g=rng.choice([0.0, rnd(rng, -3 * k, 5 * k)]), b=z(-30 * k, 30 * k, 0.25)))
        if b["ide"] in (2, 3, 4) or rng.random() < 0.15:
            vs = rnd(rng, 0.95, 1.08)
            m = rng.choice([1, 1, 2, 3])
            for j, id_ in enumerate(sorted(rng.sample(ids, m))):
                g = dict(i=b["i"], id=id_, st=1 if (b["ide"] == 3 and j == 0) else st(0.25), pg=rnd(rng, 0.1, 80 * k), qg=rnd(rng, -20 * k, 20 * k),
                         qt=rnd(rng, 10 * k, 40 * k), qb=rnd(rng, -40 * k, -1 * k), vs=vs, wmod=0, wpf=1.0)
                r = rng.random()
                if r < 0.2:
                    g["qt"] = g["qb"] = rnd(rng, -20 * k, 20 * k)
                elif r < 0.35 and rev in (33, 34):
                    g["wmod"], g["wpf"] = rng.choice([1, 2, 3, 3]), rng.choice([0.9, 0.95, -0.9])
                if rng.random() < 0.1:
                    g["pg"] = -g["pg"]
                elif rng.random() < 0.1 and g["wmod"] != 3:
                    g["pg"] = 0.0
                f["gens"].append(g)
        if rng.random() < 0.3:
            modsw = rng.choice([0, 1, 1, 3, 2]) if b["ide"] != 3 else rng.choice([0, 1, 3])
            hi = rnd(rng, 1.0, 1.08)
            f["ss"].append(dict(i=b["i"], modsw=modsw, st=st() if rev != 30 else 1, hi=hi, lo=rng.choice([hi, rnd(rng, 0.93, hi)]), binit=z(-40 * k, 40 * k),
                                steps=[(rng.randint(1, 4), rnd(rng, -10 * k, 20 * k)) for _ in range(rng.randint(0, 3))]))
    pairs = []
    order = list(nums_)
    for a, b in zip(order, order[1:]):
        pairs.append((a, b) if rng.random() < 0.5 else (b, a))
    for _ in range(rng.randint(0, n)):
        pairs.append(tuple(rng.sample(order, 2)))
    used = {}
    for i, j in pairs:
        c = used.get((i, j), 0)
        used[i, j] = c + 1
        ckt = ids[c % 4]
        if rng.random() < 0.55:
            e = dict(i=i, j=j, ckt=ckt, st=st(), r=z(0.001, 0.05, 0.15), x=rnd(rng, 0.01, 0.2) * rng.choice([1, 1, 1, 1, -1]), b=rng.choice([0.0, rnd(rng, 0, 0.3)]), gi=0.0, bi=0.0, gj=0.0, bj=0.0)
            for q in ("gi", "bi", "gj", "bj"):
                if rng.random() < 0.15:
                    e[q] = rnd(rng, -0.2, 0.2)
            f["brs"].append(e)
        else:
            cw, cz = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
            sb = rng.choice([sbase, rnd(rng, 20, 500)])
            e = dict(i=i, j=j, ckt=ckt, st=st(), cw=cw, cz=cz, r=z(0.001, 0.02, 0.15), x=rnd(rng, 0.02, 0.2), sb=sb, ang=rng.choice([0.0, 0.0, 30.0, -30.0, rnd(rng, -60, 60)]))
            if cz == 3:
                e["r"] = rnd(rng, 0.0005, 0.01) * 1e6 * sb
            for s, bus in (("1", byi[i]), ("2", byi[j])):
                pu = rng.choice([1.0, rnd(rng, 0.9, 1.1)])
                # a nominal voltage other than the bus's matters only to a winding voltage given per unit of it
                e["n" + s] = rng.choice([0.0, bus["kv"], rnd(rng, 0.93, 1.07) * bus["kv"] if cz == 1 else bus["kv"]])
                e["w" + s] = pu if cw != 2 else rnd(rng, 0.9, 1.1, 5) * bus["kv"]
            f["x2"].append(e)
    if n >= 3:
        for c in range(rng.choice([0, 0, 1, 1, 2])):
            t = rng.sample(order, 3)
            cw, cz = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
            e = dict(bus=t, ckt=str(c + 1), st=rng.choice([1, 1, 1, 0, 2, 3, 4]), cw=cw, cz=cz, r=[], x=[], sb=[], w=[], n=[],
                     ang=[rng.choice([0.0, 0.0, 30.0, -30.0]) for _ in range(3)], vmstar=rnd(rng, 0.9, 1.1), anstar=rnd(rng, -30, 30))
            for p in range(3):
                sb = rng.choice([sbase, rnd(rng, 20, 500)])
                e["sb"].append(sb)
                r = rnd(rng, 0.001, 0.01)
                e["r"].append(r * 1e6 * sb if cz == 3 else r)
                e["x"].append(rnd(rng, 0.03, 0.25))
                kv = byi[t[p]]["kv"]
                pu = rng.choice([1.0, rnd(rng, 0.92, 1.08)])
                e["w"].append(pu * kv if cw == 2 else pu)
                e["n"].append(rng.choice([0.0, kv, rnd(rng, 0.93, 1.07) * kv if cz == 1 else kv]))
            f["x3"].append(e)
    return f


def text(rng, f):
    """The file's text. Section order and record layouts follow the RAW documentation of the revision."""
    rev = f["rev"]
    comma = rng.random() < 0.8
    out = []

    def q(s):
        return "'" + s + "'"

    def row(*a):
        sep = rng.choice([",", ", ", ",   "]) if comma else rng.choice([" ", "   "])
        out.append(sep.join(x if isinstance(x, str) else (repr(x) if isinstance(x, float) else str(x)) for x in a))

    def end(what=""):
        out.append(rng.choice(["0", "0 / END OF %s DATA" % what, "0 / END OF %s DATA, BEGIN NEXT DATA" % what]))

    if rev == 34 and rng.random() < 0.5:
        row("@!IC", "SBASE", "REV")
    if rev == 30:
        if comma and rng.random() < 0.5:
            out.append(f"0, {f['sbase']!r} / written today")
        else:
            row(0, f["sbase"])
    else:
        row(0, f["sbase"], rev, 0, 1, 60.0)
    out.append("CASE" if rng.random() < 0.5 else "A CASE, WITH COMMAS")
    out.append("second line / of text")
    if rev == 34:
        row("GENERAL", "THRSHZ=0.0001")
        end("SYSTEM-WIDE")
    shuffled = lambda s: rng.sample(s, len(s)) if rng.random() < 0.5 else list(s)
    for b in shuffled(f["buses"]):
        name = q(b["name"]) if b["name"] else q(" ")
        if rev == 30:
            row(b["i"], name, b["kv"], b["ide"], b["gl"], b["bl"], 1, 1, b["vm"], b["va"], 1)
        elif rev == 32:
            row(b["i"], name, b["kv"], b["ide"], 1, 1, 1, b["vm"], b["va"])
        else:
            row(b["i"], name, b["kv"], b["ide"], 1, 1, 1, b["vm"], b["va"], 1.1, 0.9, 1.1, 0.9)
    end("BUS")
    for l in shuffled(f["loads"]):
        t = [l["i"], q(rng.choice(["", " "]) + l["id"] if False else l["id"] + rng.choice(["", " "])), l["st"], 1, 1, l["pl"], l["ql"], l["ip"], l["iq"], l["yp"], l["yq"], 1]
        row(*(t if rev == 30 else t + [1, 0] if rev in (33, 34) else t + [1]))
    end("LOAD")
    if rev != 30:
        for s in shuffled(f["fsh"]):
            row(s["i"], q(s["id"]), s["st"], s["g"], s["b"])
        end("FIXED SHUNT")
    for g in shuffled(f["gens"]):
        t = [g["i"], q(g["id"]), g["pg"], g["qg"], g["qt"], g["qb"], g["vs"], 0, 100.0, 0.0, 1.0, 0.0, 0.0, 1.0, g["st"], 100.0, 9999.0, -9999.0]
        if rev in (33, 34):
            t += [1, 1.0, 0, 1.0, 0, 1.0, 0, 1.0, g["wmod"], g["wpf"]]
        elif rng.random() < 0.7:
            t += [1, 1.0]
        row(*t)
    end("GENERATOR")
    for e in shuffled(f["brs"]):
        if rev == 34:
            row(e["i"], e["j"], q(e["ckt"]), e["r"], e["x"], e["b"], q("L"), *[100.0 + z for z in range(12)], e["gi"], e["bi"], e["gj"], e["bj"], e["st"], 1, 0.0, 1, 1.0)
        else:
            row(e["i"], e["j"], q(e["ckt"]), e["r"], e["x"], e["b"], 100.0, 110.0, 120.0, e["gi"], e["bi"], e["gj"], e["bj"], e["st"], 1, 0.0, 1, 1.0)
    end("BRANCH")
    if rev == 34:
        end("SYSTEM SWITCHING DEVICE")
    xs = [("2", e) for e in f["x2"]] + [("3", e) for e in f["x3"]]
    for kind, e in shuffled(xs):
        def first(i, j, k):
            t = [i, j, k, q(e["ckt"]), e["cw"], e["cz"], 1, 0.0, 0.0, 2, q("T"), e["st"], 1, 1.0]
            if rev in (33, 34):
                t += [0, 1.0, 0, 1.0, 0, 1.0, q(" ")]
            row(*t)

        def wind(w, nv, ang):
            t = [w, nv, ang, 100.0, 110.0, 120.0, 0, 0, 1.1, 0.9, 1.1, 0.9, 33, 0, 0.0, 0.0]
            if rev in (33, 34):
                t += [0.0]
            row(*t)
        if kind == "2":
            first(e["i"], e["j"], 0)
            row(e["r"], e["x"], e["sb"])
            wind(e["w1"], e["n1"], e["ang"])
            row(e["w2"], e["n2"])
        else:
            first(*e["bus"])
            row(*[v for p in range(3) for v in (e["r"][p], e["x"][p], e["sb"][p])], e["vmstar"], e["anstar"])
            for p in range(3):
                wind(e["w"][p], e["n"][p], e["ang"][p])
    end("TRANSFORMER")

    def shunts():
        for s in shuffled(f["ss"]):
            st = [v for nb in s["steps"] for v in nb]
            if rev == 30:
                row(s["i"], s["modsw"], s["hi"], s["lo"], 0, 100.0, q(" "), s["binit"], *st)
            else:
                row(s["i"], s["modsw"], 0, s["st"], s["hi"], s["lo"], 0, 100.0, q(" "), s["binit"], *st)
        end("SWITCHED SHUNT")
    end("AREA")
    end("TWO-TERMINAL DC")
    end("VSC DC")
    if rev == 30:
        shunts()
    for s in ("IMPEDANCE CORRECTION", "MULTI-TERMINAL DC", "MULTI-SECTION LINE", "ZONE", "INTER-AREA", "OWNER", "FACTS"):
        end(s)
    if rev != 30:
        shunts()
        if rev >= 33:
            end("GNE")
        if rev == 34:
            end("INDUCTION MACHINE")
            end("SUBSTATION")
    out.append("Q")
    return "\n".join(out) + "\n"


def spec_file(f):
    def c(v):
        return num(v) if isinstance(v, float) else [c(x) for x in v] if isinstance(v, list) else v
    out = dict(sbase=num(f["sbase"]))
    for k in ("buses", "loads", "fsh", "gens", "brs", "x2", "x3", "ss"):
        key = (lambda r: (r["i"], r["id"])) if k in ("gens",) else None
        out[k] = [{a: c(v) for a, v in r.items() if a not in ("id", "ckt", "name", "steps", "vmstar", "anstar")} for r in (sorted(f[k], key=key) if key else f[k])]
    return out


def observe(cid, rng, f, path):
    """Import the file and measure the current every bus sees at random voltages."""
    c = dict(id=cid, file=spec_file(f), exc="", bus=[], conds=[], free=0, names=[], rev=f["rev"])
    from logic.network.networkloader import NetworkLoader
    from logic.powerflowsettings import PowerFlowSettings
    from logic.stamping.matrixstamper import build_matrix_stamper
    from logic.stamping.matrixbuilder import MatrixBuilder
    try:
        with quiet():
            nw = NetworkLoader(PowerFlowSettings()).from_file(path)
            nw.assign_matrix()
            st = build_matrix_stamper(nw)
            start = np.array(nw.generate_v_init(PowerFlowSettings()))
    except Exception as e:
        c["exc"] = f"{type(e).__name__}: {e}"[:300]
        return c
    known = {b["i"] for b in f["buses"]}
    buses = [b for b in nw.buses if int(b.Bus) in known]
    c["names"] = [str(b.NodeName) for b in nw.buses]
    vb = {}
    for b in buses:
        z = rnd(rng, 0.85, 1.15, 6) * cmath.exp(1j * rnd(rng, -0.8, 0.8, 6))
        vb[b.Bus] = complex(round(z.real, 9), round(z.imag, 9))
    r, conds, c["free"], err = probe(nw, st, buses, vb)
    if err:
        c["exc"] = err
        return c
    c["conds"] = nums(conds)
    c["bus"] = [dict(i=int(b.Bus), v=nums([vb[b.Bus].real, vb[b.Bus].imag]), i_drawn=nums([r[b.node_Vr], r[b.node_Vi]]), start=nums([start[b.node_Vr], start[b.node_Vi]])) for b in buses]
    return c


def probe(nw, st, buses, vb):
    """Residuals at the voltages vb of buses, everything else solved for: residuals, conditions no unknown
    can meet, number of unknowns nothing determines, error."""
    n = nw.size_Y
    rows = [r for b in buses for r in (int(b.node_Vr), int(b.node_Vi))]
    inside = set(rows)
    rest = [r for r in range(n) if r not in inside]
    v = np.zeros(n)
    for b in buses:
        v[b.node_Vr], v[b.node_Vi] = vb[b.Bus].real, vb[b.Bus].imag
    with quiet():
        r0 = np.array(st.calc_residuals(0, v, 0).residuals)[:n]
        # the components' own unknowns enter their own equations linearly
        cols = []
        for k in rest:
            w = v.copy()
            w[k] = 1.0
            cols.append(np.array(st.calc_residuals(0, w, 0).residuals)[:n] - r0)
    A = np.array(cols).T if cols else np.zeros((n, 0))
    own = A[rest, :]
    touch = np.abs(own) > 1e-12
    fixed = [i for i in range(len(rest)) if not touch[i, :].any()]
    free = [j for j in range(len(rest)) if not touch[:, j].any()]
    elim_r = [i for i in range(len(rest)) if i not in fixed]
    elim_c = [j for j in range(len(rest)) if j not in free]
    if len(elim_r) != len(elim_c):
        return r0, [], 0, f"{len(elim_r)} equations for {len(elim_c)} inner unknowns"
    if elim_r:
        M = own[np.ix_(elim_r, elim_c)]
        b = -r0[[rest[i] for i in elim_r]]
        # row scaling, then one step of refinement
        s = np.abs(M).max(axis=1)
        M, b = M / s[:, None], b / s
        y = np.linalg.solve(M, b)
        y += np.linalg.solve(M, b - M @ y)
        for j, val in zip(elim_c, y):
            v[rest[j]] = val
        for _ in range(3):        # the columns are differences of large numbers: correct by what is left
            with quiet():
                r = np.array(st.calc_residuals(0, v, 0).residuals)[:n]
            dy = np.linalg.solve(M, -np.array([r[rest[i]] for i in elim_r]) / s)
            for j, val in zip(elim_c, dy):
                v[rest[j]] += val
    with quiet():
        r = np.array(st.calc_residuals(0, v, 0).residuals)[:n]
    return r, [r[rest[i]] for i in fixed], len(free), ""
