"""C01: a power flow reported successful satisfies the network's physics.
Whole runs through the public entry point over random networks and settings, judged by NetCase."""
import nets


def stress(rng, net):
    """Make the network heavier, so that some runs fail or stop early."""
    k = rng.choice([1.0, 1.0, 3.0, 10.0, 40.0])
    for e in net.els:
        if e["t"] == "load":
            for f in ("p", "q", "ip", "iq"):
                e[f] = e[f] * k if e[f] else e[f]


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Net", min_states=300)
    ctx.prewarm_wait()
    rng, cases, stat = ctx.rng, [], {}
    n = ctx.pick(110, 1200)
    for i in range(n):
        net = nets.random_tx(rng) if i % 2 else nets.random_dx(rng)
        nets.twins(rng, net)
        stress(rng, net)
        kw = dict(tolerance=rng.choice([1e-5, 1e-5, 1e-3, 1e-7]), max_iters=rng.choice([50, 50, 50, 3, 5, 2]), flat_start=rng.random() < 0.3,
                  tx_stepping=rng.random() < 0.35, voltage_limiting=rng.random() < 0.4, debug=False,
                  device_control=rng.random() < 0.8)
        if rng.random() < 0.5:
            for e in net.els:
                if e["t"] == "cap":
                    e["mode"] = "VOLT"
                    e["high"], e["low"] = e["vnom"] * rng.choice([0.97, 1.0, 1.05]), e["vnom"] * rng.choice([0.9, 0.96])
        b = nets.Built(net)
        res, exc = nets.execute(b, **kw)
        c = nets.result_case(f"r{i}", b, res, exc, kw)
        k = "raised" if res is None else "solved" if c["ok"] else "not solved"
        stat[k] = stat.get(k, 0) + 1
        cases.append(c)
        if i < 4:
            ctx.samples.append(f"{net.kind} network of {net.n} buses, {len(net.els)} elements, settings {kw}: {k}")
    ctx.coverage["outcomes"] = stat
    ctx.say("outcomes", stat)
    ctx.judge_cases("NetCase", cases)
