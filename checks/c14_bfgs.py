"""C14: BFGS and DFP matrices against the dense textbook updates.

Part one feeds every sequence of small integer (step, gradient change) pairs to the
Hessian update of each variant and compares the operator with a numpy reference:
textbook formula, secant equation, symmetry, positive definiteness, unchanged without
positive curvature, direct and inverse form mutually inverse. Part two follows complete
runs: each accepted point must lie on the reference direction at the backtracked length.
Part three checks finite termination on all quadratics of a grid with exact line
minimisation."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 30 if core.THOROUGH else 18


def run(job):
    return dict(algebra=algebra, runs=runs, quadratic=quadratic)[job["part"]](job, core.Tally())


def algebra(job, t):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import qn, trace

    d, L, layout, cls = job["d"], job["length"], job["layout"], job["cls"]

    def pack(x):
        if layout == "dict":
            return dict(u=x[0], w=[x[1:].reshape(1, d - 1)])
        return x

    tiny = job.get("scale", 1.0) < 1
    y_start = jnp.zeros(d) if tiny else jnp.arange(1.0, d + 1)
    g_start = jnp.zeros(d) if tiny else jnp.arange(d, 0.0, -1.0)

    def mat(op):
        m = op.as_matrix()
        return m

    def one(ss, tt):
        outs = []
        for inverse in (False, True):
            solver = getattr(optx, cls)(1e-3, 1e-3, use_inverse=inverse)
            # (no rounding of the differences: the start is zero if the steps are tiny)
            y, g = y_start, g_start
            f_info, st = solver.init_hessian(pack(y), jnp.array(0.0), pack(jnp.zeros(d)))
            # the first evaluation, at the initial guess
            F = optx.FunctionInfo
            f_info, st = solver.update_hessian(pack(y), pack(y), f_info, F.EvalGrad(jnp.array(2.0), pack(g)), st)
            get = lambda fi: mat(fi.hessian_inv if inverse else fi.hessian)
            mats, grads = [get(f_info)], [f_info.grad]
            for i in range(L):
                y1, g1 = y + ss[i], g + tt[i]
                f_info, st = solver.update_hessian(pack(y), pack(y1), f_info, F.EvalGrad(jnp.array(1.0), pack(g1)), st)
                mats.append(get(f_info))
                y, g = y1, g1
            fin = jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(f_info.grad)])
            outs.append((jnp.stack(mats), fin, f_info.f))
        return outs

    # all pairs of small vectors; later positions use a thinned alphabet
    vals = job["alphabet"]
    alpha = [np.array(list(itertools.product(v, repeat=2 * d)), float) for v in vals]
    seqs = np.indices([len(a) for a in alpha]).reshape(L, -1)
    ss = np.stack([alpha[i][seqs[i], :d] for i in range(L)], 1)
    tt = np.stack([alpha[i][seqs[i], d:] for i in range(L)], 1)
    ss, tt = ss * job.get("scale", 1.0), tt * job.get("scale", 1.0)
    n = len(ss)
    out = trace.batched(one, ss, tt, chunk=min(n, 20000))
    (Bs, gB, fB), (Hs, gH, fH) = out
    t.check_all((Bs[:, 0] == np.eye(d)).all((1, 2)) & (Hs[:, 0] == np.eye(d)).all((1, 2)), "the first matrix is not the identity")
    g_end = np.asarray(g_start) + tt.sum(1)
    t.check_all((gB == g_end).all(1) & (gH == g_end).all(1) & (fB == 1) & (fH == 1), "value or gradient are not carried over")
    ref = np.broadcast_to(np.eye(d), (n, d, d)).copy()
    alive = np.ones(n, bool)
    for i in range(L):
        s, y = ss[:, i], tt[:, i]
        sy = qn.dot(s, y)
        upd = sy > 0
        safe_s = np.where(upd[:, None], s, np.eye(d)[0])
        safe_y = np.where(upd[:, None], y, np.eye(d)[0])
        new = (qn.bfgs if cls == "BFGS" else qn.dfp)(ref, safe_s, safe_y)
        ref = np.where(upd[:, None, None], new, ref)
        B, H = Bs[:, i + 1], Hs[:, i + 1]
        cond = np.linalg.cond(ref)
        alive &= cond < 1e9
        scale = np.abs(ref).max((1, 2))
        iref = np.linalg.inv(np.where(alive[:, None, None], ref, np.eye(d)))
        iscale = np.abs(iref).max((1, 2))

        def detail(ix, i=i):
            j = ix[0]
            return dict(steps=ss[j], changes=tt[j], position=i, direct=B[j], inverse=H[j], expected=ref[j])

        near = lambda a, b, sc: (np.abs(a - b) <= 1e-13 * (cond * sc)[:, None, None] + 1e-13).all((1, 2))
        t.check_all(near(B, ref, scale) | ~alive, "the direct matrix is not the textbook update", detail=detail)
        t.check_all(near(H, iref, iscale) | ~alive, "the inverse matrix is not the textbook update", detail=detail)
        same = (B == Bs[:, i]).all((1, 2)) & (H == Hs[:, i]).all((1, 2))
        t.check_all(same | upd, "the matrix changed without positive curvature", detail=detail)
        sec = (np.abs(qn.mv(B, s) - y) <= 1e-12 * (cond * scale * np.abs(s).max(1))[:, None] + 1e-12).all(1)
        t.check_all(sec | ~upd | ~alive, "the secant equation does not hold", detail=detail)
        isec = (np.abs(qn.mv(H, y) - s) <= 1e-12 * (cond * iscale * np.abs(y).max(1))[:, None] + 1e-12).all(1)
        t.check_all(isec | ~upd | ~alive, "the inverse secant equation does not hold", detail=detail)
        for M, sc in ((B, scale), (H, iscale)):
            sym = (np.abs(M - np.swapaxes(M, 1, 2)) <= 1e-13 * (cond * sc)[:, None, None]).all((1, 2))
            t.check_all(sym | ~alive, "the matrix is not symmetric", detail=detail)
            ok = np.isfinite(M).all((1, 2))
            ev = np.linalg.eigvalsh(np.where(ok[:, None, None], 0.5 * (M + np.swapaxes(M, 1, 2)), -np.eye(d)))
            t.check_all((ev[:, 0] > 0) | ~alive, "the matrix is not positive definite", detail=detail)
        prod = np.einsum("nij,njk->nik", B, H)
        t.check_all((np.abs(prod - np.eye(d)) <= 1e-12 * (cond**2)[:, None, None]).all((1, 2)) | ~alive | (cond > 1e5), "direct and inverse form are not inverse to each other", detail=detail)
        t.outcome("updated", (upd & alive).sum())
        t.outcome("curvature zero", ((sy == 0) & alive).sum())
        t.outcome("curvature negative", ((sy < 0) & alive).sum())
        t.undecided += int((~alive).sum())
        t.transitions += 2 * n
        t.count_states((Bs[:, i + 1], 1), (Hs[:, i + 1], 1))
    single = jax.jit(one)
    for i in core.pick(n, 5, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(ss[i], tt[i]))
            if alive[i] and not trace.tree_close(o[0][0], Bs[i], 1e-6, 1e-6):
                t.bad("a replay on its own differs from the enumerated run", steps=ss[i], changes=tt[i])
        t.traces += 1
    t.sample(steps=ss[n // 2], changes=tt[n // 2], matrix=Bs[n // 2, -1])
    return t


def runs(job, t):
    """Complete solves with backtracking."""
    import jax
    import numpy as np
    import optimistix as optx

    from mc import families as fam, qn, trace

    cls, inverse = job["cls"], job["inverse"]
    n = STEPS
    solver = getattr(optx, cls)(0.0, 0.0, use_inverse=inverse)
    fn = lambda y, p: (fam.smooth_min(y, p), None)
    starts = np.concatenate([fam.STARTS, [[0.3, -1.7], [-0.6, 0.45]]])
    p, x0 = fam.product_batch(fam.stack(fam.smooth_params(core.THOROUGH)), starts)
    out = trace.batched(trace.runner("minimise", fn, solver, n), x0, p)
    ys, k = out["trace"]["ys"], out["steps"]
    grad_j = jax.jit(jax.vmap(jax.grad(fam.smooth_min)))
    grad = lambda y: np.asarray(grad_j(y, p))
    m, d = x0.shape
    up = qn.bfgs if cls == "BFGS" else qn.dfp

    def start(g):
        B = np.broadcast_to(np.eye(d), (m, d, d)).copy()
        return B, -g, np.isfinite(g).all(1)

    def advance(B, s, y, g, take):
        sy = qn.dot(s, y)
        upd = (sy > 0) & take
        new = up(B, np.where(upd[:, None], s, np.eye(d)[0]), np.where(upd[:, None], y, np.eye(d)[0]))
        B = np.where(upd[:, None, None], new, B)
        c = np.linalg.cond(np.where(np.isfinite(B).all((1, 2))[:, None, None], B, np.eye(d)))
        rel = np.abs(sy) > 1e-9 * np.sqrt(qn.dot(s, s) * qn.dot(y, y))
        sure = (np.abs(sy) > 1e-12) & rel & (c < 1e7) | (s == 0).all(1)
        Bs = np.where((sure & np.isfinite(B).all((1, 2)))[:, None, None], B, np.eye(d))
        return B, -np.linalg.solve(Bs, g[..., None])[..., 0], sure

    def detail(ix):
        i = ix[0]
        return dict(p={q: v[i] for q, v in p.items()}, start=x0[i], points=ys[i][:8])

    taken = qn.follow(t, ys, k, grad, start, advance, detail)
    t.count_states((np.concatenate([ys.reshape(m, -1)] + [v[:, None] for v in p.values()], 1), 1))
    single = jax.jit(trace.runner("minimise", fn, solver, n))
    for i in core.pick(m, 5, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q: v[i] for q, v in p.items()}))
            if not trace.tree_close(o["trace"]["ys"][:4], ys[i][:4], 1e-6, 1e-6):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.outcome("solves", m)
    return t


def quadratic(job, t):
    import jax
    import jax.numpy as jnp
    import numpy as np

    from mc import families as fam, qn, solvers, trace
    import optimistix as optx

    d, cls, inverse = job["d"], job["cls"], job["inverse"]
    make = dict(BFGS=solvers.CustomBFGS, DFP=solvers.CustomDFP)[cls]
    solver = make(0.0, 0.0, optx.max_norm, inverse, optx.NewtonDescent(), qn.ExactSearch())
    n = 2 * d + 1
    fn = lambda y, p: (0.5 * y @ p["A"] @ y - p["b"] @ y, None)
    A = qn.spd_grid(d)
    b = np.array(list(itertools.product((-1.0, 0.0, 2.0), repeat=d)))
    x0 = np.array([np.zeros(d), np.arange(1.0, d + 1), np.full(d, -0.5)])
    A, b, x0 = fam.product_batch(A, b, x0)
    p = dict(A=A, b=b)
    out = trace.batched(trace.runner("minimise", fn, solver, n, free=True), x0, p)
    ys = out["trace"]["ys"]
    m = len(x0)
    sol = np.linalg.solve(A, b[..., None])[..., 0]

    def detail(ix):
        i = ix[0]
        return dict(A=A[i], b=b[i], start=x0[i], points=ys[i], minimum=sol[i])

    size = 1 + np.abs(sol).max(1) + np.abs(x0).max(1)
    last = ys[:, n]
    t.check_all(
        (np.abs(last - sol).max(1) <= 1e-6 * size) | ~np.isfinite(last).all(1),
        "exact line minimisation does not reach the minimum in as many steps as unknowns", detail=detail,
    )
    # linear conjugate gradients visit the same points
    alive = np.ones(m, bool)
    for j, (x, r_before) in enumerate(qn.linear_cg(A, b, x0, d)):
        alive &= np.abs(r_before).max(1) > 1e-6
        got = ys[:, 2 * j + 3]
        t.check_all((np.abs(got - x).max(1) <= 1e-6 * size) | ~alive, "the points differ from linear conjugate gradients", detail=detail)
        t.outcome("exact line minimisations", alive.sum())
        t.transitions += int(alive.sum())
    t.check_all(np.isfinite(last).all(1), "a convex quadratic leads to non-finite points", detail=detail)
    t.count_states((np.concatenate([ys.reshape(m, -1), A.reshape(m, -1), b], 1), 1))
    single = jax.jit(trace.runner("minimise", fn, solver, n, free=True))
    for i in core.pick(m, 4, str(job)):
        o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q: v[i] for q, v in p.items()}))
        if not trace.tree_close(o["value"], last[i], 1e-6, 1e-6):
            t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    return t


if __name__ == "__main__":
    jobs = []
    for cls in ("BFGS", "DFP"):
        a4, a3, a2 = [-1, 0, 1, 2], [-1, 0, 2], [-1, 1]
        jobs += [
            dict(part="algebra", cls=cls, d=2, length=2, layout="vector", alphabet=[a4, a4]),
            dict(part="algebra", cls=cls, d=2, length=3, layout="dict", alphabet=[a3, a3, a2]),
            dict(part="algebra", cls=cls, d=2, length=4, layout="vector", alphabet=[a2, [0, 1], [1, 2], a2]),
            dict(part="algebra", cls=cls, d=3, length=2, layout="dict", alphabet=[a3, [1, 2]]),
            dict(part="algebra", cls=cls, d=2, length=2, layout="vector", alphabet=[a4, a3], scale=2.0**-20),
            dict(part="algebra", cls=cls, d=2, length=2, layout="dict", alphabet=[a3, a3], scale=2.0**-10),
            dict(part="algebra", cls=cls, d=1, length=5, layout="vector", alphabet=[a4] * 5 if core.THOROUGH else [a4, a4, a3, a2, a2]),
        ]
        for inverse in (True, False):
            jobs.append(dict(part="runs", cls=cls, inverse=inverse))
            jobs += [dict(part="quadratic", cls=cls, inverse=inverse, d=d) for d in (1, 2, 3)]
    core.main(
        "C14", jobs, run,
        rule="all sequences of (step, gradient change) pairs over the listed alphabets; all smooth objectives x starts; "
        "all positive definite matrices of the grid x right-hand sides x starts",
        bounds=dict(steps=STEPS, dims=[1, 2, 3], sequence_length=5),
        assumptions=["matrices with condition above 1e9 are not judged"],
    )
