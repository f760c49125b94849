"""C03: every component contributes exactly the currents and equations its data define."""
import traceback
import nets


# What the sample must contain: (kind of network, what one of its elements is), each at the
# network as given, fully relaxed, and somewhere between.
MUST = [("tx", lambda e: e["t"] == "xfmr" and e["ang"] != 0), ("tx", lambda e: e["t"] == "gen"),
        ("tx", lambda e: e["t"] == "line" and e["b"] != 0), ("tx", lambda e: e["t"] == "shunt"),
        ("dx", lambda e: e["t"] == "uline" and e.get("bl") and len(e["fs"]) > 1), ("dx", lambda e: e["t"] == "ct"),
        ("dx", lambda e: e["t"] == "reg"), ("dx", lambda e: e["t"] == "xfmr" and (e["fn"] or e["tn"] or e["ang"])),
        ("dx", lambda e: e["t"] == "fuse"), ("dx", lambda e: e["t"] == "switch"), ("dx", lambda e: e["t"] == "cap" and e["closed"]),
        ("dx", lambda e: e["t"] == "load" and (e["ip"] or e["z"]) and e["to"] != 0)]


def having(rng, kind, pred):
    for _ in range(200):
        net = nets.random_tx(rng, rng.randint(2, 3)) if kind == "tx" else nets.random_dx(rng, rng.choice([1, 1, 2]))
        if any(pred(e) for e in net.els):
            return net
    raise AssertionError("the generator no longer produces a component")


SCALE = {"load": ("p", "q", "ip", "iq", "z"), "line": ("r", "x", "b"), "shunt": ("g", "b"), "cap": ("var",), "xfmr": ("r", "x"), "gen": ("p",)}


def solo(rng):
    """One component by itself, of any order of magnitude: nothing hides what it contributes."""
    kind, pred = rng.choice(MUST + [("dx", lambda e: e["t"] == "load" and e["p"]), ("tx", lambda e: e["t"] == "load" and e["p"])] * 3)
    net = having(rng, kind, pred)
    net.els = [dict(rng.choice([e for e in net.els if pred(e)]))]
    e = net.els[0]
    f = 10 ** rng.uniform(-12, 2)
    for k in SCALE.get(e["t"], ()):
        if rng.random() < 0.8:
            e[k] = e[k] * f
    turn = rng.uniform(-3, 3)
    for b in net.buses:
        b["va"] += turn
    return net


def cases(ctx, part):
    lf = None
    out, cov = [], {}
    rng = ctx.rng
    with nets.quiet():
        lf = nets.measure_lf()
    if not lf > 0:
        ctx.fail("homotopy", "series branches are stiffer at homotopy factor 1", f"factor {lf}")
        lf = 1.0
    must = [(m, b) for m in MUST for b in ("relaxed", "between")]
    nsolo = ctx.pick(40, 600)
    n = ctx.pick(24, 500) + len(must) + nsolo
    for i in range(n):
        if i < len(must):
            (kind, pred), band = must[i]
            net = having(rng, kind, pred)
        elif i < len(must) + nsolo:
            band = rng.choice(["given", "given", "relaxed", "between"])
            net = solo(rng)
        else:
            band = rng.choice(["given", "given", "given", "relaxed", "between"])
            net = nets.random_tx(rng, rng.randint(2, 5)) if i % 2 else nets.random_dx(rng, rng.randint(1, 3))
        for e in net.els:       # no solution is needed here: any shift will do
            if e["t"] == "xfmr" and e["ang"] and rng.random() < 0.5:
                e["ang"] = nets.rnd(rng, -90, 90)
        if net.kind == "tx" and len(net.els) > 1 and rng.random() < 0.4:
            a, b = rng.sample(range(1, net.n + 1), 2)
            net.add("vs", f=a, to=rng.choice([0, b]), vr=nets.rnd(rng, -1, 1), vi=nets.rnd(rng, -1, 1))
        if len(net.els) > 1:
            nets.twins(rng, net)
        for e in net.els:
            if e["t"] == "switch" and rng.random() < 0.3:
                e["closed"] = False
            cov[e["t"]] = cov.get(e["t"], 0) + 1
        tx = {"given": 0.0, "relaxed": 1.0, "between": nets.rnd(rng, 0.05, 0.95, 2)}[band]
        cid = f"{part}{i}"
        try:
            with nets.quiet():
                c, ix = nets.stamp_case(cid, net, nets.Built(net), nets.plausible(net, rng, rng.choice([0.1, 0.1, 0.6])), tx, part, lf)
            out.append(c)
        except Exception as e:
            ctx.fail(cid, "evaluating a valid network raised", traceback.format_exc()[-600:])
    ctx.coverage["elements"] = cov
    return out


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Net", min_states=300)
    ctx.prewarm_wait()
    ctx.judge_cases("NetCase", cases(ctx, "res"))
