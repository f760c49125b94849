"""C21: derived equations are right whatever is in the cache (spec/Cache.tla, spec/CacheCase.tla).
Worker processes (harness/segworker.py) derive random segments against a cache directory in any condition."""
import json, os, random, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import num

NAMES = ["a", "b", "x", "y", "z", "lambda_0", "V_from,r", "V_from,i", "Ir", "L1", "L2", "L3", "G", "B", "tx-factor", "q"]


def segment(rng):
    nc, npr, nd = rng.choice([0, 1, 2, 2]), rng.randint(1, 3), 0
    nd = rng.randint(1, npr)
    names = rng.sample(NAMES, nc + npr + nd)
    m = len(names)
    poly = []
    for _ in range(rng.randint(1, 5)):
        k = [0] * m
        for i in rng.sample(range(m), min(m, rng.randint(1, 3))):
            k[i] = rng.choice([1, 1, 1, 1, 2, 3, -1, -2] if i < nc + npr else [1, 1, 1, 2])
        poly.append(dict(c=str(rng.choice([1, -1, 2, 3, -5, "1/2", "-3/4"])), k=k))
    return dict(consts=names[:nc], primals=names[nc:nc + npr], duals=names[nc + npr:], poly=poly)


def variants(rng, s):
    """Segments that differ from s in one respect only."""
    out = [s]
    names = s["consts"] + s["primals"] + s["duals"]

    def reorder(new):
        c, p, d = new
        order = c + p + d
        return dict(consts=c, primals=p, duals=d, poly=[dict(c=m["c"], k=[m["k"][names.index(n)] for n in order]) for m in s["poly"]])
    if len(s["primals"]) > 1:
        out.append(reorder((s["consts"], s["primals"][::-1], s["duals"])))
    if len(s["duals"]) > 1:
        out.append(reorder((s["consts"], s["primals"], s["duals"][::-1])))
    if len(s["consts"]) > 1:
        out.append(reorder((s["consts"][::-1], s["primals"], s["duals"])))
    if s["consts"] and len(s["primals"]) >= len(s["duals"]):      # a constant becomes an unknown
        out.append(reorder((s["consts"][1:], [s["consts"][0]] + s["primals"], s["duals"])))
    t = json.loads(json.dumps(s))
    j = rng.randrange(len(t["poly"]))
    t["poly"][j]["c"] = str(rng.choice([7, -7, "7/3"]))
    out.append(t)
    t = json.loads(json.dumps(s))
    i = rng.randrange(len(t["poly"][0]["k"]))
    t["poly"][0]["k"][i] += 1
    if len({json.dumps(m) for m in t["poly"]}) == len(t["poly"]):
        out.append(t)
    return out


def points(rng, s):
    n, nc = len(s["consts"] + s["primals"] + s["duals"]), len(s["consts"])
    first = [rng.choice([-1, 1]) * round(rng.uniform(0.3, 2.5), 3) for _ in range(n)]
    second = first[:nc] + [rng.choice([-1, 1]) * round(rng.uniform(0.3, 2.5), 3) for _ in range(n - nc)]
    s["points"] = [first, second]
    return s


def worker(ctx, tmp, segs, wait=True, **job):
    j, o = ctx.path("job.json"), ctx.path("out.json")
    json.dump(dict(segs=segs, **job), open(j, "w"))
    os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ, TMPDIR=tmp, TMP=tmp, TEMP=tmp)
    p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(vlib.VERIF, "harness", "segworker.py"), j, o], env=env,
                         stdout=subprocess.PIPE if job.get("progress") else subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if not wait:
        return p, o
    _, err = p.communicate(timeout=300)
    if p.returncode:
        raise vlib.Infra("segworker: " + err[-800:])
    return json.load(open(o))


def damage(rng, path, others):
    """Leave an entry in a state that a stopped writer, a full disk or an accident may leave."""
    data = open(path, "rb").read()
    how = rng.choice(["empty", "cut", "cut", "cut", "last", "junk", "text", "gone", "folder", "keep"])
    if how == "empty":
        new = b""
    elif how == "cut":
        new = data[:rng.randrange(1, len(data))]
    elif how == "last":
        new = data[:-1]
    elif how == "junk":
        new = rng.randbytes(rng.randint(1, 200))
    elif how == "text":
        new = b"not a derivation\n"
    elif how in ("gone", "folder"):
        os.remove(path)
        if how == "folder":
            os.makedirs(path)
        return how
    else:
        return how
    open(path, "wb").write(new)
    return how


def run(ctx):
    ctx.model_check("MC_Cache", min_states=1000)
    rng, cases, stat = ctx.rng, [], {}
    lock = __import__("threading").Lock()

    def add(tag, segs, res):
        with lock:
            stat[tag] = stat.get(tag, 0) + len(segs)
            for i, (s, r) in enumerate(zip(segs, res)):
                cases.append(dict(id=f"{tag}.{len(cases)}", nc=len(s["consts"]), points=[[num(x) for x in p] for p in s["points"]],
                                  poly=[dict(c=num(eval(m["c"])) if "/" not in m["c"] else num(eval(m["c"])), k=m["k"]) for m in s["poly"]],
                                  exc=r["exc"], got=r["got"]))

    def batch(r, n):
        out = []
        while len(out) < n:
            v = variants(r, segment(r))
            r.shuffle(v)
            out += [points(r, s) for s in v]
        return out[:n]

    def scenario(k):
        r = random.Random(f"{ctx.prop}/{ctx.seed}/{k}")
        tmp = os.path.join(ctx.scratch, f"tmp{k}")
        os.makedirs(tmp)
        kind = ["damage", "damage", "vanish", "block", "early", "race", "together", "stopped"][k % 8]
        segs = batch(r, ctx.pick(24, 60))
        if kind == "damage":
            first = worker(ctx, tmp, segs)
            add("fresh", segs, first)
            for rnd in range(2):
                hows = {}
                for root, _, fs in os.walk(tmp):
                    for f in fs:
                        h = damage(r, os.path.join(root, f), None)
                        hows[h] = hows.get(h, 0) + 1
                with lock:
                    for h, q in hows.items():
                        stat["entries " + h] = stat.get("entries " + h, 0) + q
                r.shuffle(segs)
                add("damaged", segs, worker(ctx, tmp, segs))
                for root, ds, _ in os.walk(tmp):
                    for d in ds:
                        if d.endswith(".p"):
                            shutil.rmtree(os.path.join(root, d), True)
            add("kept", segs, worker(ctx, tmp, segs))
        elif kind in ("vanish", "block"):
            worker(ctx, tmp, segs[:4])
            add(kind, segs, worker(ctx, tmp, segs, after=kind))
        elif kind == "early":     # the place is a file before the process starts
            worker(ctx, tmp, segs[:1], after="")
            for d in os.listdir(tmp):
                p = os.path.join(tmp, d)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                    open(p, "w").write("x")
            add(kind, segs, worker(ctx, tmp, segs))
        elif kind == "race":
            add(kind, segs[:6], worker(ctx, tmp, segs[:6], race=True))
        elif kind == "together":
            ps = [worker(ctx, tmp, segs, wait=False) for _ in range(3)]
            for p, o in ps:
                p.communicate(timeout=300)
                add(kind, segs, json.load(open(o)))
        else:                     # writers stopped at arbitrary moments
            for _ in range(ctx.pick(3, 8)):
                p, o = worker(ctx, tmp, segs, wait=False, progress=True)
                for _ in range(r.randint(1, len(segs) - 2)):
                    if not p.stdout.readline():
                        break
                time.sleep(r.uniform(0, 0.05))
                p.send_signal(signal.SIGKILL)
                p.communicate()
                r.shuffle(segs)
            add(kind, segs, worker(ctx, tmp, segs))
        shutil.rmtree(tmp, True)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(scenario, range(ctx.pick(8, 48))))
    ctx.coverage["uses of the cache"] = stat
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:400])
    ctx.judge_cases("CacheCase", cases)
