"""C16: selecting the island of a node leaves exactly that island, and it solves like a network of its own (spec/Island.tla, spec/NetCase.tla)."""
import types
import nets, mirror
from vlib import num


def lists(nw):
    out = []
    for n in ("loads", "slack", "generators", "transformers", "switches", "lines", "misc", "capacitors", "fuses", "regulators"):
        out += getattr(nw, n)
    return out


def feeder(rng, pre):
    net = nets.random_dx(rng, rng.randint(1, 4), features=("xfmr", "ct", "reg", "switch", "switch", "fuse", "cap", "delta", "ic", "z"))
    return net


def run(ctx):
    ctx.prewarm_start(("pq", "rest"))
    ctx.model_check("MC_Graph", "MC_Island.cfg", min_states=1000)
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    from models.components.fuse import FuseStatus
    rng, cases, stat, later = ctx.rng, [], {}, []
    for i in range(ctx.pick(120, 1200)):
        k = rng.choice([1, 2, 2, 3])
        net = nets.merge([feeder(rng, p) for p in "xyz"[:k]], ["", "y.", "z."][:k])
        cut = rng.choice(["none", "open", "drop", "blow", "open"])
        if k > 1 and rng.random() < 0.7:            # open ties between the feeders
            a = [j + 1 for j, b in enumerate(net.buses) if b["phase"] == "A" and not b["virt"]]
            for _ in range(rng.randint(1, 2)):
                f, t = rng.sample(a, 2)
                if rng.random() < 0.8:
                    net.add("switch", f=f, to=t, closed=rng.random() < 0.3 and abs(net.buses[f - 1]["vm"] - net.buses[t - 1]["vm"]) < 1, phase="A")
                else:
                    net.add("load", f=f, to=t, p=10.0, q=0.0, ip=0.0, iq=0.0, z=0, lnum="tie", phase="A")
        sw = [e for e in net.els if e["t"] == "switch"]
        if cut == "open":
            for e in sw:
                if rng.random() < 0.4:
                    e["closed"] = False
        elif cut == "drop":
            br = [e for e in net.els if e["t"] in ("uline", "xfmr")]
            if br:
                net.els.remove(rng.choice(br))
        elif cut == "blow":
            for e in net.els:
                if e["t"] == "fuse" and rng.random() < 0.5:
                    e["blown"] = True
        if rng.random() < 0.4:
            rng.shuffle(net.els)
        built = nets.Built(net)
        for e, o in zip(net.els, built.objs):
            if e.get("blown"):
                o.status = FuseStatus.BLOWN
        names = sorted({b["name"] for b in net.buses if not b["virt"]})
        node = rng.choice([n for n in names if n.endswith("src")]) if rng.random() < 0.7 else rng.choice(names)
        select = rng.random() < 0.93
        els = [{q: v for q, v in e.items() if q in ("t", "f", "to", "fs", "ts", "closed", "fp", "fn", "tp", "tn", "mid", "s1", "s2", "to1", "to2")} for e in net.els]
        for r, e in zip(els, net.els):
            if e["t"] == "fuse":
                r["blown"] = bool(e.get("blown"))
        c = dict(id=f"i{i}", name=[b["name"] for b in net.buses], virt=[b["virt"] for b in net.buses], els=els, node=node, select=select,
                 keptbuses=[], keptels=[], foreign=0, exc="")
        settings = TimeSeriesSettings(artificialswingbus=node, select_island=rng.choice([True, "True"]) if select else False)
        try:
            with nets.quiet():
                TimeSeriesProcessor(settings, PowerFlow(built.network))
            num_of = {id(b): j + 1 for j, b in enumerate(built.buses)}
            el_of = {id(o): j + 1 for j, o in enumerate(built.objs)}
            kb = [num_of.get(id(b), 0) for b in built.network.buses]
            ke = [el_of.get(id(o), 0) for o in lists(built.network)]
            c["foreign"] = kb.count(0) + ke.count(0)
            c["keptbuses"], c["keptels"] = [b for b in kb if b], [e for e in ke if e]
            if select and len(c["keptbuses"]) < net.n:
                later.append((f"p{i}", net, built, sorted(set(c["keptbuses"])), sorted(set(c["keptels"]))))
        except Exception as e:
            c["exc"] = f"{type(e).__name__}: {e}"[:200].replace("|", "/")
        key = f"kept {'all' if len(c['keptbuses']) == net.n else 'some' if c['keptbuses'] else 'none'}"
        stat[key] = stat.get(key, 0) + 1
        cases.append(c)
    ctx.coverage["selections"] = stat
    ctx.say(stat)
    ctx.samples.append(str(cases[0])[:500])
    ctx.judge_cases("IslandCase", cases)
    # what is left is solved like a network of its own
    ctx.prewarm_wait()
    solved = []
    for cid, net, built, kb, ke in later:
        if len(solved) >= ctx.pick(25, 250):
            break
        try:
            left = nets.part(built, kb, [k for k in ke if live(net.els[k - 1])])
        except KeyError:
            continue                      # already reported above
        if sum(e["t"] == "slack" for e in left.net.els) < 3 or any(e.get("blown") for e in net.els):
            continue
        known = mirror.reference(left.net)
        if known is None:
            continue
        x, tol, vtol = known
        kw = dict(tx_stepping=False, tolerance=tol)
        res, exc = nets.execute(built, **kw)
        solved.append(nets.result_case(cid, left, res, exc, kw, ref=(x, vtol), must=True))
    ctx.coverage["islands solved"] = len(solved)
    ctx.judge_cases("NetCase", solved)


def live(e):
    return not (e["t"] == "switch" and not e["closed"]) and not e.get("blown")
