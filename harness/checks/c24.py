"""C24: infeasibility analysis finds the least extra currents (spec/InfCase.tla)."""
import traceback
import numpy as np
import nets, mirror
from vlib import num, nums


def case(cid, rng, net, must_ref, kw):
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    b = nets.Built(net)
    b.network.optimization = load_infeasibility_analysis(b.network)
    res, exc = nets.execute(b, **kw)
    c = nets.result_case(cid, b, None, exc, kw, ref=must_ref, must=must_ref is not None)
    c.update(inf=[], mu=[], rep=[], listed=[], totp="0", totq="0", inftol="0", els=nets.spec_els(nets.end_els(b)))
    if res is None:
        return c, "raised"
    ix = b.unknowns()
    x = np.array([float(res.v_final[k]) for k in ix])
    n2 = 2 * net.n
    inf = np.zeros(n2)
    at = {id(o): i for i, o in enumerate(b.buses)}
    for cur in b.network.optimization.infeasibility_currents:
        j = at[id(cur.bus)]
        inf[2 * j], inf[2 * j + 1] = res.v_final[cur.node_Ir_inf], res.v_final[cur.node_Ii_inf]
    end = nets.Net(net.kind)
    end.buses, end.els = net.buses, nets.end_els(b)
    J = mirror.Mirror(end).J(x)
    A, r = J[n2:].T, 2 * J[:n2].T @ inf
    # best multipliers of the own equations, each condition against what it may be off by: a witness, checked by TLC
    w = 1 / (1 + np.abs(J[:n2]).sum(axis=0))
    mu = np.linalg.lstsq(A * w[:, None], r * w, rcond=None)[0] if A.shape[1] else np.zeros(0)
    from logic.powerflowresults import GENTYPE
    rep = [g for g in res.generator_results if g.type_str == GENTYPE.Inf]
    bus = lambda g: at.get(id(g.generator.bus), -1) + 1
    c.update(ok=bool(res.is_success), x=nums(x), inf=nums(inf), mu=nums(mu), iters=int(res.iterations),
             rep=[dict(b=bus(g), p=num(g.P), q=num(g.Q)) for g in rep], listed=[bus(g) for g in res.report_infeasible()],
             totp=num(res.infeasibility_totals[0]), totq=num(res.infeasibility_totals[1]))
    if must_ref is not None:
        c["inftol"] = num(max(1e-7, 1e3 * kw["tolerance"]))
    return c, ("not solved" if not res.is_success else "solved, extra power" if c["listed"] else "solved, none")


def point(cid, rng, net, tx, lf):
    """The equations of the analysis at an arbitrary point."""
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    from logic.stamping.matrixstamper import build_matrix_stamper
    b = nets.Built(net)
    nw = b.network
    nw.optimization = load_infeasibility_analysis(nw)
    nw.assign_matrix()
    ix = b.unknowns()
    x = nets.plausible(net, rng)(len(ix))
    lam_ix = [k for o in b.buses for k in (o.node_lambda_Vr, o.node_lambda_Vi)]
    cur = {id(q.bus): q for q in nw.optimization.infeasibility_currents}
    inf_ix = [k for o in b.buses for k in (cur[id(o)].node_Ir_inf, cur[id(o)].node_Ii_inf)]
    known = set(ix) | set(lam_ix) | set(inf_ix)
    rest = [k for k in range(nw.size_Y) if k not in known]
    sc = 1.0 if net.kind == "tx" else 50.0
    v = np.zeros(nw.size_Y)
    v[ix] = x
    for k in lam_ix + inf_ix + rest:
        v[k] = rng.uniform(-1, 1) * sc
    st = build_matrix_stamper(nw)
    r, r0 = (np.array(st.calc_residuals(t, v, 0).residuals) for t in (tx, 0))
    end = nets.Net(net.kind)
    end.buses, end.els = net.buses, nets.end_els(b)
    # which of the code's multipliers belongs to which own equation: by value, checked by TLC
    own, left, order = mirror.Mirror(end).F(np.array(x))[2 * net.n:], list(rest), []
    for f in own:
        if not left:
            break
        k = min(left, key=lambda k: min(abs(r0[k] - f), abs(r0[k] + f)))
        left.remove(k)
        order.append(k)
    return dict(id=cid, kind="point", n=net.n, els=nets.spec_els(end.els), tx=num(tx), lf=num(lf), x=nums(x), inf=nums(v[inf_ix]), lam=nums(v[lam_ix]),
                mu=nums(v[order]), bal=nums(r[lam_ix]), dinf=nums(r[inf_ix]), own=nums(r[order]) + ["0"] * len(left), prim=nums(r[ix]))


def heavier(net, k):
    for e in net.els:
        if e["t"] == "load":
            e["p"], e["q"] = e["p"] * k, e["q"] * k


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("MC_Net", min_states=300)
    ctx.prewarm_wait()
    rng, cases, stat = ctx.rng, [], {}
    n = ctx.pick(64, 700)
    feeders = 0
    i = 0
    while len(cases) < n and i < 5 * n:
        i += 1
        net = nets.random_tx(rng, features=("xfmr", "gen", "shunt", "ic", "z")) if i % 5 < 3 else nets.random_dx(rng, rng.randint(1, 3))
        nets.twins(rng, net, 0.2)
        kw = dict(tolerance=rng.choice([1e-6, 1e-8]), max_iters=50, tx_stepping=False)
        ref = None
        heavy = rng.random() < 0.6
        if heavy and net.kind == "dx":
            net = nets.random_dx(rng, rng.randint(1, 2), features=("xfmr", "reg", "switch", "fuse", "cap", "delta"))
        if not heavy:
            sol = mirror.solve(net)
            if sol is None or sol[1] > 6 or sol[2] > 1e9:
                continue
            x, _, _, mi = sol
            J = mi.J(x)
            floor = float(np.max(np.abs(J) @ np.abs(x))) * 1e-15
            kw["tolerance"] = max(1e-8, 100 * floor)
            amp = float(np.max(np.abs(np.linalg.inv(J)).sum(axis=1)[:2 * net.n]))
            vtol = max(1e3 * kw["tolerance"] * amp, 1e-8 * float(np.max(np.abs(x[:2 * net.n]))))
            if vtol > 1e-3 * min(b["vm"] for b in net.buses):
                continue
            ref = (x, vtol)
        else:      # heavier than it can bear
            if net.kind == "dx":
                feeders += 1
                if feeders > n // 5:
                    continue
                for e in net.els:
                    if e["t"] == "uline" and e["bl"] is not None:
                        k = rng.choice([1, 1e2, 1e3])
                        e["bl"] = [[q * k for q in row] for row in e["bl"]]
                k = 1     # just beyond what it can bear
                while k < 1e5 and mirror.solve(net) is not None:
                    heavier(net, 2 if k < 16 else 1.3)
                    k *= 2 if k < 16 else 1.3
                kw.update(tolerance=rng.choice([1e-3, 1e-5]), max_iters=250)
            else:
                heavier(net, rng.choice([15, 30, 60, 200, 1000]))
                kw["tolerance"] = rng.choice([1e-4, 1e-6, 1e-8])
        c, what = case(f"i{i}", rng, net, ref, kw)
        k = ("known" if ref is not None else "heavy") + " " + net.kind + ": " + what
        stat[k] = stat.get(k, 0) + 1
        cases.append(c)
    with nets.quiet():
        lf = nets.measure_lf()
    for i in range(ctx.pick(50, 400)):
        net = nets.random_tx(rng) if i % 2 else nets.random_dx(rng, rng.randint(1, 2))
        nets.twins(rng, net, 0.3)
        for e in net.els:
            if e["t"] == "uline" and e["bl"] is not None:
                k = 10 ** rng.uniform(0, 5)
                e["bl"] = [[q * k for q in row] for row in e["bl"]]
            if e["t"] == "switch" and rng.random() < 0.3:
                e["closed"] = False
        try:
            with nets.quiet():
                cases.append(point(f"p{i}", rng, net, rng.choice([0.0, 0.0, 1.0, nets.rnd(rng, 0.05, 0.95, 2)]), lf))
        except Exception as e:
            ctx.fail(f"p{i}", "evaluating a valid network raised", traceback.format_exc()[-600:])
    ctx.coverage["outcomes"] = stat
    ctx.say(stat)
    ctx.samples.append(str({k: cases[0][k] for k in ("rep", "listed", "totp", "totq")})[:400])
    ctx.judge_cases("InfCase", cases)
