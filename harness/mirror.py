"""A numpy transcription of spec/Net.tla used only to find solutions; what it finds is
re-checked by TLC against the specification before anything is concluded from it."""
import cmath, math
import numpy as np


def prims(e):
    t = e["t"]
    Y = lambda f, to, y: ("y", f, to, y)
    if t == "line":
        return [Y(e["f"], e["to"], 1 / complex(e["r"], e["x"])), Y(e["f"], 0, 0.5j * e["b"]), Y(e["to"], 0, 0.5j * e["b"])]
    if t == "shunt":
        return [Y(e["f"], 0, complex(e["g"], e["b"]))]
    if t == "cap":
        return [Y(e["f"], e["to"], 1j * e["var"] / e["vnom"] ** 2)] if e["closed"] else []
    if t == "load":
        o = []
        if e["p"] or e["q"]:
            o.append(("pq", e["f"], e["to"], complex(e["p"], e["q"])))
        if e["ip"] or e["iq"]:
            o.append(("ic", e["f"], e["to"], complex(e["ip"], e["iq"])))
        if e["z"]:
            o.append(Y(e["f"], e["to"], 1 / complex(e["z"])))
        return o
    if t == "gen":
        return [("gen", e["f"], -e["p"], e["v"])]
    if t == "slack":
        return [("slack", e["f"], cmath.rect(e["v"], e["ang"]))]
    if t == "vs":
        return [("vs", e["f"], e["to"], complex(e["vr"], e["vi"]))]
    if t == "switch":
        return [("vs", e["f"], e["to"], 0)] if e["closed"] else []
    if t == "fuse":
        return [Y(e["f"], e["mid"], 1e4 + 1e4j), ("vs", e["mid"], e["to"], 0)]
    if t == "xfmr":
        return [("xf", e["fp"], e["fn"], e["tp"], e["tn"], 1 / complex(e["r"], e["x"]), e["tr"] * cmath.exp(1j * math.radians(e["ang"])))]
    if t == "reg":
        a = e["step"] * max(-e["lower"], min(e["raise"], e["tap"]))
        return [("xf", e["f"], 0, e["mid"], 0, 1e4, 1 / (1 + a) if e["rtype"] == "A" else 1 - a), ("vs", e["mid"], e["to"], 0)]
    if t == "ct":
        y = []
        for i in range(3):
            z = complex(e["cr"][i], e["cx"][i]) * e["vn"][i] ** 2 / e["rating"]
            y.append(1 / z if z else 0)
        return [Y(e["f"], e["mid"], y[0]), Y(e["s1"], e["to1"], y[1]), Y(e["s2"], e["to2"], y[2]), ("ct", e["mid"], e["s1"], e["s2"], e["tr"])]
    if t == "uline":
        y = np.linalg.inv(np.array(e["z"], dtype=complex) * e["len"])
        k = len(e["fs"])
        bl = np.array(e["bl"], dtype=float) * e["len"] if e.get("bl") is not None else np.zeros((k, k))
        return [("ymat", e["fs"], e["ts"], y, bl)]
    raise KeyError(t)


NX = {"slack": 2, "vs": 2, "xf": 4, "ct": 4, "gen": 1}


class Mirror:
    def __init__(self, net):
        self.n = net.n
        self.ps = [p for e in net.els for p in prims(e)]
        self.off, k = [], 2 * net.n
        for p in self.ps:
            self.off.append(k)
            k += NX.get(p[0], 0)
        self.m = k

    def F(self, x):
        n = self.n
        V = np.zeros(n + 1, dtype=complex)
        V[1:] = x[0:2 * n:2] + 1j * x[1:2 * n:2]
        I = np.zeros(n + 1, dtype=complex)
        f = np.zeros(self.m)
        for p, o in zip(self.ps, self.off):
            X = x[o:o + NX.get(p[0], 0)]
            k = p[0]
            if k == "y":
                i = p[3] * (V[p[1]] - V[p[2]])
                I[p[1]] += i
                I[p[2]] -= i
            elif k == "pq":
                i = np.conj(p[3] / (V[p[1]] - V[p[2]]))
                I[p[1]] += i
                I[p[2]] -= i
            elif k == "ic":
                I[p[1]] += p[3]
                I[p[2]] -= p[3]
            elif k == "gen":
                I[p[1]] += np.conj(complex(p[2], X[0]) / V[p[1]])
                f[o] = abs(V[p[1]]) ** 2 - p[3] ** 2
            elif k == "slack":
                I[p[1]] += complex(*X)
                d = V[p[1]] - p[2]
                f[o:o + 2] = d.real, d.imag
            elif k == "vs":
                I[p[1]] += complex(*X)
                I[p[2]] -= complex(*X)
                d = V[p[1]] - V[p[2]] - p[3]
                f[o:o + 2] = d.real, d.imag
            elif k == "xf":
                ip, vs = complex(X[0], X[1]), complex(X[2], X[3])
                _, fp, fn, tp, tn, y, tr = p
                il = y * (V[tp] - vs)
                i2 = np.conj(tr) * ip
                I[fp] += ip
                I[fn] -= ip
                I[tp] += il
                I[tn] += i2
                a = V[fp] - V[fn] - tr * (vs - V[tn])
                b = -il - i2
                f[o:o + 4] = a.real, a.imag, b.real, b.imag
            elif k == "ct":
                _, b, s1, s2, tr = p
                i1, i2 = complex(X[0], X[1]), complex(X[2], X[3])
                I[b] += (i2 - i1) / tr
                I[s1] += i1
                I[s2] += i2
                a, c = V[s1] - V[b] / tr, V[s2] + V[b] / tr
                f[o:o + 4] = a.real, a.imag, c.real, c.imag
            elif k == "ymat":
                _, fs, ts, y, bl = p
                vf, vt = V[fs], V[ts]
                s = y @ (vf - vt)
                cf, ct = 0.5j * bl @ vf, 0.5j * bl @ vt
                for q in range(len(fs)):
                    I[fs[q]] += s[q] + cf[q]
                    I[ts[q]] += ct[q] - s[q]
        f[0:2 * n:2], f[1:2 * n:2] = I[1:].real, I[1:].imag
        return f

    def J(self, x):
        m = self.m
        J = np.zeros((m, m))
        for j in range(m):
            h = 1e-6 * max(1.0, abs(x[j]))
            u, d = x.copy(), x.copy()
            u[j] += h
            d[j] -= h
            J[:, j] = (self.F(u) - self.F(d)) / (2 * h)
        return J


def start(net, flat=False):
    xs = []
    for b in net.buses:
        xs += [1.0, 0.0] if flat else [b["vm"] * math.cos(b["va"]), b["vm"] * math.sin(b["va"])]
    for e in net.els:
        xs += []
    return xs


def solve(net, x0=None, iters=12, damp=False):
    """Newton's method; None unless it settles, otherwise (x, steps, conditioning)."""
    mi = Mirror(net)
    x = np.zeros(mi.m)
    s = start(net)
    x[:len(s)] = s
    if x0 is not None:
        x[:len(x0)] = x0
    last = None
    with np.errstate(all="ignore"):
        for k in range(iters):
            f = mi.F(x)
            if not np.all(np.isfinite(f)):
                return None
            J = mi.J(x)
            try:
                dx = np.linalg.solve(J, -f)
            except np.linalg.LinAlgError:
                return None
            if not np.all(np.isfinite(dx)):
                return None
            x = x + dx
            step = np.max(np.abs(dx[:2 * net.n])) / max(np.max(np.abs(x[:2 * net.n])), 1e-9)
            if step < 1e-11 and last is not None and last < 1e-5:
                sc = np.abs(J).max(axis=1) + 1e-300
                cond = np.linalg.cond(J / sc[:, None])
                return x, k, cond, mi
            last = step
    return None


def reference(net):
    """A well-conditioned solution near the start, the tolerance reachable in double precision and the voltage error it allows; or None."""
    import numpy as np
    sol = solve(net)
    if sol is None or sol[1] > 8 or sol[2] > 1e9:
        return None
    x, _, _, mi = sol
    J = mi.J(x)
    floor = float(np.max(np.abs(J) @ np.abs(x))) * 1e-15
    tol = max(1e-8, 100 * floor)
    amp = float(np.max(np.abs(np.linalg.inv(J)).sum(axis=1)[:2 * net.n]))
    vtol = max(2 * tol * amp, 1e-9 * float(np.max(np.abs(x[:2 * net.n]))))
    if vtol > 1e-4 * min(b["vm"] for b in net.buses):
        return None
    return x, tol, vtol
