"""One process using derived segments:  segworker.py JOB.json OUT.json
JOB: {"segs": [segment...], "before": action, "after": action, "race": bool}
Builds every segment, asks for its derivation and evaluates what it got at the segment's points."""
import glob, json, os, shutil, sys, tempfile, traceback


def act(a):
    """Things that happen to the cache directory while the process runs."""
    root = tempfile.gettempdir()
    if a == "vanish":
        for d in os.listdir(root):
            p = os.path.join(root, d)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    elif a == "block":          # every directory becomes a file: it can be neither listed nor written
        for d in os.listdir(root):
            p = os.path.join(root, d)
            if os.path.isdir(p):
                shutil.rmtree(p)
                open(p, "w").write("x")


def race():
    """Another process creates every directory just before this one does."""
    for name in ("mkdir", "makedirs"):
        orig = getattr(os, name)

        def wrapped(path, *a, _o=orig, **k):
            if str(path).startswith(tempfile.gettempdir()) and not os.path.exists(path):
                _o(path)
            return _o(path, *a, **k)
        setattr(os, name, wrapped)


def symbols_of(s):
    from sympy import Symbol
    return {n: Symbol(n) for n in s["consts"] + s["primals"] + s["duals"]}


def evaluate(seg, s):
    order = [str(p) for p in seg.parameters]
    names = s["consts"] + s["primals"] + s["duals"]      # order of the points' coordinates
    at = {n: i for i, n in enumerate(names)}
    out = []
    der = seg.get_derivatives()
    for var in seg.variables:
        e = der[var]
        g = dict(v=at[str(var)] + 1, at=[], linear=[], jlinear=False)
        for pt in s["points"]:
            args = [pt[at[n]] for n in order]
            t = dict(grad=repr(float(e.expr_eval(*args))), j="0", terms=[])
            for ev in e.get_evals():
                val = repr(float(ev.func(*args)))
                if ev.is_constant_expr:
                    t["j"] = val
                    g["jlinear"] = bool(ev.is_linear)
                else:
                    w = at[str(ev.yth_variable)] + 1
                    t["terms"].append(dict(w=w, y=val))
                    if ev.is_linear and w not in g["linear"]:
                        g["linear"].append(w)
            g["at"].append(t)
        out.append(g)
    return out


def main():
    job = json.load(open(sys.argv[1]))
    res = []
    if job.get("race"):
        race()
    try:
        from sympy import Integer, Rational
        from logic.stamping.lagrangesegment import LagrangeSegment
        err = ""
    except Exception:
        err = "import: " + traceback.format_exc()[-300:]
    act(job.get("after"))
    for s in job["segs"]:
        if err:
            res.append(dict(exc=err, got=[], new=[]))
            continue
        root = tempfile.gettempdir()
        had = set(glob.glob(root + "/**", recursive=True))
        try:
            sy = symbols_of(s)
            names = s["consts"] + s["primals"] + s["duals"]
            lag = Integer(0)
            for m in s["poly"]:
                term = Rational(m["c"])
                for n, k in zip(names, m["k"]):
                    term *= sy[n] ** k
                lag += term
            seg = LagrangeSegment(lag, [sy[n] for n in s["consts"]], [sy[n] for n in s["primals"]], [sy[n] for n in s["duals"]])
            got = evaluate(seg, s)
            res.append(dict(exc="", got=got))
        except Exception:
            res.append(dict(exc=traceback.format_exc()[-300:], got=[]))
        res[-1]["new"] = sorted(set(glob.glob(root + "/**", recursive=True)) - had)
        if job.get("progress"):
            print(len(res), flush=True)
    json.dump(res, open(sys.argv[2], "w"))


main()
