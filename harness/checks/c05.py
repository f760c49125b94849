"""C05: what is assembled depends only on what is held now, not on what was assembled before.
Operation histories of the matrix builder (spec/Builder.tla) and of a network's stamper
(each use judged by spec/NetCase.tla at its own operating point)."""
import itertools, traceback
import numpy as np
import nets
from vlib import num, nums


def observe(Y, dim, rng, ev, kinds):
    n = int(Y.get_usage())
    ev.append(dict(e="usage", n=n))
    if n == 0:
        return
    for k in kinds:
        if k in ("matrix", "symbolic"):
            M = np.array((Y.to_matrix().toarray() if k == "matrix" else Y.to_symbolic_matrix()).tolist(), dtype=float)
            full = np.zeros((dim, dim))
            full[:M.shape[0], :M.shape[1]] = M
            ev.append(dict(e="matrix", m=[nums(r) for r in full]))
        else:
            i = rng.randrange(dim)
            got = list(Y.get_row(i) if k == "row" else Y.get_col(i))
            ev.append({"e": k, k[0]: i + 1, "got": [[int(a) + 1, num(b)] for a, b in got]})


def history(rng, cid, ops, dim, debug):
    from logic.stamping.matrixbuilder import MatrixBuilder
    from logic.powerflowsettings import PowerFlowSettings
    Y = MatrixBuilder(PowerFlowSettings(debug=debug))
    ev = []
    try:
        for op in ops:
            if op[0] == "s":
                r, c, v = op[1:]
                ev.append(dict(e="stamp", r=r + 1, c=c + 1, v=num(v)))
                Y.stamp(r, c, v)
            elif op[0] == "c":
                k = min(op[1], int(Y.get_usage()))
                ev.append(dict(e="clear", k=k))
                Y.clear(k) if k or rng.random() < 0.5 else Y.clear()
            else:
                observe(Y, dim, rng, ev, op[1])
        observe(Y, dim, rng, ev, ["matrix", "row", "col", "symbolic"])
    except Exception:
        ev.append(dict(e="raised", what=traceback.format_exc()[-300:]))
    return dict(id=cid, dim=dim, events=ev)


def builders(ctx):
    rng, traces = ctx.rng, []
    # every sequence of up to N operations over a small alphabet
    alpha = [("s", 0, 0, 1.0), ("s", 1, 0, 2.0), ("s", 0, 1, 0.0), ("c", 0), ("c", 1), ("o", ["matrix"])]
    seqs = [s for n in range(1, ctx.pick(5, 7)) for s in itertools.product(alpha, repeat=n)]
    if ctx.quick:
        seqs = rng.sample(seqs, 600)
    for i, s in enumerate(seqs):
        traces.append(history(rng, f"e{i}", s, 2, i % 3 == 0))
    for i in range(ctx.pick(120, 1500)):
        dim = rng.randint(1, 6)
        ops = []
        for _ in range(rng.randint(5, 60)):
            x = rng.random()
            if x < 0.7:
                ops.append(("s", rng.randrange(dim), rng.randrange(dim), rng.choice([0.0, 0.5, -1.0, 3.0, 2.0, -0.25, 0])))
            elif x < 0.85:
                ops.append(("c", rng.choice([0, 0, rng.randint(0, 20)])))
            else:
                ops.append(("o", rng.sample(["matrix", "row", "col", "symbolic"], 2)))
        traces.append(history(rng, f"r{i}", ops, dim, rng.random() < 0.3))
    ctx.samples.append(f"builder history: {[e['e'] for e in traces[-1]['events']]}")
    ctx.judge_traces("Trace_Builder", traces)


def stamper_history(ctx, rng, cid, net, lf, cases, steps):
    """One stamper used again and again at changing points and factors; every use is a case."""
    from logic.stamping.matrixstamper import build_matrix_stamper
    from logic.stamping.matrixbuilder import MatrixBuilder
    from logic.powerflowsettings import PowerFlowSettings
    b = nets.Built(net)
    nw = b.network
    nw.assign_matrix()
    ix, size = b.unknowns(), nw.size_Y
    st = build_matrix_stamper(nw)
    Y = MatrixBuilder(PowerFlowSettings())
    draw = nets.plausible(net, rng)
    linear_tx, mark, Jl = None, 0, None
    xs, tx, did, v = None, None, [], None
    for s in range(steps):
        if xs is None or rng.random() < 0.7:
            base = nets.plausible(net, rng)(len(ix))
            if xs is None or rng.random() < 0.5:
                xs = base
            else:      # only some unknowns move
                xs = [a if rng.random() < 0.5 else c for a, c in zip(xs, base)]
        if tx is None or rng.random() < 0.4:
            tx = rng.choice([0.0, 0.0, 1.0, 0.25])
        if v is None or rng.random() < 0.5:      # a new vector, or the same one overwritten (as voltage limiting does)
            v = np.zeros(size)
        for i, k in enumerate(ix):
            v[k] = xs[i]
        it = rng.choice([0, 0, s, 1])
        c = dict(id=f"{cid}.{s}", kind="stamp", n=net.n, els=nets.spec_els(net.els), x=nums(xs), lf=num(lf), size=int(size), res=[], rows=[], rhs=[])
        if rng.random() < 0.5:
            did.append("residual")
            r = st.calc_residuals(tx, v, it)
            c.update(part="res", tx=num(tx), res=nums([r.residuals[k] for k in ix]))
        else:
            did.append("newton")
            if linear_tx is None or rng.random() < 0.4:
                Y.clear()
                Jl = np.zeros(size)
                st.stamp_linear(Y, Jl, tx)
                mark, linear_tx = Y.get_usage(), tx
            else:
                Y.clear(mark)
            J = Jl.copy()
            st.stamp_nonlinear(Y, J, v, it)
            M = Y.to_matrix().toarray()
            full = np.zeros((size, size))
            full[:M.shape[0], :M.shape[1]] = M
            c.update(part="lin", tx=num(linear_tx), rows=[[[j + 1, num(full[k, q])] for j, q in enumerate(ix) if full[k, q] != 0.0] for k in ix],
                     rhs=nums([J[k] for k in ix]))
        cases.append(c)
    return did


def run(ctx):
    ctx.prewarm_start()
    ctx.model_check("BuilderImpl", min_states=1000)
    builders(ctx)
    ctx.prewarm_wait()
    rng, cases = ctx.rng, []
    lf = nets.measure_lf()
    for i in range(ctx.pick(10, 120)):
        net = nets.random_tx(rng, rng.randint(2, 4)) if i % 2 else nets.random_dx(rng, rng.randint(1, 2))
        try:
            with nets.quiet():
                did = stamper_history(ctx, rng, f"h{i}", net, lf, cases, rng.randint(3, 6))
        except Exception:
            ctx.fail(f"h{i}", "assembling a valid network raised", traceback.format_exc()[-600:])
    ctx.samples.append(f"stamper history: {did}")
    ctx.judge_cases("NetCase", cases)
