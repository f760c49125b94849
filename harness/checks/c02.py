"""C02: a network whose solution is known and near the starting point is solved, to that solution."""
import math
import nets, mirror


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Net", min_states=300)
    ctx.prewarm_wait()
    rng, cases = ctx.rng, []
    n = ctx.pick(90, 900)
    i = 0
    skipped = 0
    while len(cases) < n:
        i += 1
        if i > 5 * n:
            break
        net = nets.random_tx(rng, light=rng.random() < 0.7) if i % 2 else nets.random_dx(rng, light=rng.random() < 0.6)
        how = rng.choice(["nominal", "nominal", "exact", "near", "flat"]) if net.kind == "tx" else rng.choice(["nominal", "exact", "near"])
        if net.kind == "tx" and how != "flat" and rng.random() < 0.5:
            nets.turn(net, rng.choice([math.pi, rng.uniform(-math.pi, math.pi), rng.uniform(-math.pi, math.pi)]))
        nets.twins(rng, net, 0.3)
        sol = mirror.solve(net, x0=[v for _ in net.buses for v in (1.0, 0.0)] if how == "flat" else None)
        if sol is None or sol[1] > 8 or sol[2] > 1e9:
            skipped += 1
            continue
        x, _, _, mi = sol
        if how in ("exact", "near"):
            import cmath
            for k, b in enumerate(net.buses):
                v = complex(x[2 * k], x[2 * k + 1])
                if how == "near":
                    v *= complex(1 + rng.uniform(-1e-3, 1e-3), rng.uniform(-1e-3, 1e-3))
                b.setdefault("vnom", b["vm"])
                b["vm"], b["va"] = abs(v), cmath.phase(v)
            if mirror.solve(net) is None:
                skipped += 1
                continue
        # the tolerance the code can reach in double precision, and the voltage error it allows
        import numpy as np
        J = mi.J(x)
        floor = float(np.max(np.abs(J) @ np.abs(x))) * 1e-15
        tol = max(1e-8, 100 * floor)
        amp = float(np.max(np.abs(np.linalg.inv(J)).sum(axis=1)[:2 * net.n]))
        vtol = max(2 * tol * amp, 1e-9 * float(np.max(np.abs(x[:2 * net.n]))))
        if vtol > 1e-4 * min(b["vm"] for b in net.buses):
            skipped += 1
            continue
        kw = dict(tolerance=tol, max_iters=50, flat_start=how == "flat", tx_stepping=rng.random() < 0.3,
                  voltage_limiting=rng.random() < 0.5, debug=rng.random() < 0.2, device_control=True)
        b = nets.Built(net)
        res, exc = nets.execute(b, **kw)
        cases.append(nets.result_case(f"m{i}", b, res, exc, kw, ref=(x, vtol), must=True))
        ctx.coverage[how] = ctx.coverage.get(how, 0) + 1
    ctx.coverage["skipped"] = skipped
    ctx.judge_cases("NetCase", cases)
