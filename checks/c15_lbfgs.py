"""C15: limited-memory BFGS against dense BFGS on its most recent history.

Every sequence over an alphabet of (step, gradient change) pairs, some without positive
curvature, long enough for the history to wrap around twice, is fed to the Hessian update
with history lengths one to five. After every pair the operator, applied to all unit
vectors, must equal the dense matrix of a numpy reference that simply keeps a list. Complete
runs are followed as in C14, in both forms and with several history lengths."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 30 if core.THOROUGH else 20
# (step, gradient change); the last ones have zero or negative curvature
PAIRS = {
    1: [((1,), (1,)), ((2,), (1,)), ((-1,), (-3,)), ((1,), (-1,)), ((0,), (1,))],
    2: [
        ((1, 0), (2, 0)), ((0, 1), (1, 1)), ((1, 1), (1, 3)), ((-1, 2), (0, 1)), ((2, 1), (1, -1)),
        ((1, 0), (-1, 0)), ((1, 1), (1, -1)), ((0, 0), (0, 0)),
    ],
    3: [
        ((1, 0, 0), (2, 0, 1)), ((0, 1, 0), (1, 1, 0)), ((1, 1, 1), (1, 0, 3)), ((-1, 0, 2), (0, 1, 1)),
        ((1, -2, 0), (1, -1, 1)), ((1, 0, 1), (-1, 2, 0)), ((0, 1, 0), (3, 0, 3)),
    ],
}


def run(job):
    return dict(algebra=algebra, runs=runs)[job["part"]](job, core.Tally())


def algebra(job, t):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import qn, trace

    d, L, M, layout = job["d"], job["length"], job["history"], job["layout"]
    scale = job.get("scale", 1.0)
    y_start, g_start = jnp.zeros(d), jnp.zeros(d)
    if scale == 1:
        y_start, g_start = jnp.arange(1.0, d + 1), jnp.arange(d, 0.0, -1.0)

    def pack(x):
        if layout == "dict":
            return dict(u=x[0], w=[x[1:].reshape(1, d - 1)])
        return x

    def unpack(y):
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(y)])

    def one(ss, tt):
        outs = []
        for inverse in (False, True):
            solver = optx.LBFGS(1e-3, 1e-3, use_inverse=inverse, history_length=M)
            y, g = y_start, g_start
            F = optx.FunctionInfo
            f_info, st = solver.init_hessian(pack(y), jnp.array(0.0), pack(jnp.zeros(d)))
            f_info, st = solver.update_hessian(pack(y), pack(y), f_info, F.EvalGrad(jnp.array(2.0), pack(g)), st)

            def get(fi):
                op = fi.hessian_inv if inverse else fi.hessian
                return jnp.stack([unpack(op.mv(pack(e))) for e in jnp.eye(d)], 1)

            mats = [get(f_info)]

            for i in range(L):
                y1, g1 = y + ss[i], g + tt[i]
                f_info, st = solver.update_hessian(pack(y), pack(y1), f_info, F.EvalGrad(jnp.array(1.0), pack(g1)), st)
                mats.append(get(f_info))
                y, g = y1, g1
            outs.append((jnp.stack(mats), unpack(f_info.grad)))
        return outs

    alpha = np.array(PAIRS[d], float)
    if job.get("letters"):
        alpha = alpha[job["letters"]]
    seqs = np.array(list(itertools.product(range(len(alpha)), repeat=L)))
    ss, tt = alpha[seqs, 0] * scale, alpha[seqs, 1] * scale
    n = len(ss)
    (Bs, gB), (Hs, gH) = trace.batched(one, ss, tt, chunk=min(n, 20000))
    g_end = np.asarray(g_start) + tt.sum(1)
    t.check_all((gB == g_end).all(1) & (gH == g_end).all(1), "the gradient is not carried over")
    pairs, valid = [], []
    for i in range(-1, L):
        if i >= 0:
            pairs.append((ss[:, i], tt[:, i]))
            valid.append(qn.dot(ss[:, i], tt[:, i]) > 0)
        ref = qn.lbfgs(pairs, valid, M, d) if pairs else np.broadcast_to(np.eye(d), (n, d, d))
        B, H = Bs[:, i + 1], Hs[:, i + 1]
        cond = np.linalg.cond(ref)
        alive = cond < 1e7
        iref = np.linalg.inv(np.where(alive[:, None, None], ref, np.eye(d)))
        sc, isc = np.abs(ref).max((1, 2)), np.abs(iref).max((1, 2))

        def detail(ix, i=i):
            j = ix[0]
            return dict(steps=ss[j], changes=tt[j], pairs=i + 1, direct=B[j], inverse=H[j], expected=ref[j])

        near = lambda a, b, s: (np.abs(a - b) <= 1e-11 * (cond * s)[:, None, None] + 1e-12).all((1, 2))
        t.check_all(near(B, ref, sc) | ~alive, "the direct form is not dense BFGS on the recent history", detail=detail)
        t.check_all(near(H, iref, isc) | ~alive, "the inverse form is not dense BFGS on the recent history", detail=detail)
        if i >= 0:
            same = (B == Bs[:, i]).all((1, 2)) & (H == Hs[:, i]).all((1, 2))
            t.check_all(same | valid[-1], "a pair without positive curvature changed the operator", detail=detail)
            count = np.sum(valid, 0)
            t.outcome("history not full", (count < M).sum())
            t.outcome("history full", (count == M).sum())
            t.outcome("history wrapped", ((count > M) & (count <= 2 * M)).sum())
            t.outcome("history wrapped twice", (count > 2 * M).sum())
        t.undecided += int((~alive).sum())
        t.transitions += 2 * n
        t.count_states((B, 1), (H, 1))
    single = jax.jit(one)
    for i in core.pick(n, 5, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(ss[i], tt[i]))
            if not trace.tree_close(o[1][0], Hs[i], 1e-6, 1e-6):
                t.bad("a replay on its own differs from the enumerated run", steps=ss[i], changes=tt[i])
        t.traces += 1
    t.sample(steps=ss[n // 2], changes=tt[n // 2], matrix=Bs[n // 2, -1])
    return t


def runs(job, t):
    import jax
    import numpy as np
    import optimistix as optx

    from mc import families as fam, qn, trace

    M, inverse = job["history"], job["inverse"]
    n = STEPS
    solver = optx.LBFGS(0.0, 0.0, use_inverse=inverse, history_length=M)
    fn = lambda y, p: (fam.smooth_min(y, p), None)
    starts = np.concatenate([fam.STARTS, [[0.3, -1.7], [-0.6, 0.45]]])
    p, x0 = fam.product_batch(fam.stack(fam.smooth_params(core.THOROUGH)), starts)
    out = trace.batched(trace.runner("minimise", fn, solver, n), x0, p)
    ys, k = out["trace"]["ys"], out["steps"]
    grad_j = jax.jit(jax.vmap(jax.grad(fam.smooth_min)))
    grad = lambda y: np.asarray(grad_j(y, p))
    m, d = x0.shape

    def start(g):
        return ([], []), -g, np.isfinite(g).all(1)

    def advance(memory, s, y, g, take):
        pairs, valid = memory
        sy = qn.dot(s, y)
        fin = take & np.isfinite(y).all(1)
        s, y = np.where(fin[:, None], s, 0.0), np.where(fin[:, None], y, 0.0)
        pairs, valid = pairs + [(s, y)], valid + [fin & (sy > 0)]
        B = qn.lbfgs(pairs, valid, M, d)
        good = np.isfinite(B).all((1, 2))
        c = np.linalg.cond(np.where(good[:, None, None], B, np.eye(d)))
        rel = np.abs(sy) > 1e-9 * np.sqrt(qn.dot(s, s) * qn.dot(y, y))
        sure = good & (np.abs(sy) > 1e-12) & rel & (c < 1e6)
        Bs = np.where(sure[:, None, None], B, np.eye(d))
        return (pairs, valid), -np.linalg.solve(Bs, g[..., None])[..., 0], sure

    def detail(ix):
        i = ix[0]
        return dict(p={q: v[i] for q, v in p.items()}, start=x0[i], points=ys[i][:8])

    qn.follow(t, ys, k, grad, start, advance, detail, tol=1e-6)
    t.count_states((np.concatenate([ys.reshape(m, -1)] + [v[:, None] for v in p.values()], 1), 1))
    single = jax.jit(trace.runner("minimise", fn, solver, n))
    for i in core.pick(m, 5, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q: v[i] for q, v in p.items()}))
            if not trace.tree_close(o["trace"]["ys"][:4], ys[i][:4], 1e-6, 1e-6):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.outcome("solves", m)
    return t


if __name__ == "__main__":
    big = core.THOROUGH
    jobs = []
    for M in (1, 2, 3, 4, 5):
        jobs.append(dict(part="algebra", d=2, history=M, length=5 if big else 4, layout="vector"))
        jobs.append(dict(part="algebra", d=2, history=M, length=9 if big else 7, layout="dict", letters=[0, 2, 3, 5]))
        jobs.append(dict(part="algebra", d=3, history=M, length=6 if big else 5, layout="dict", letters=None if big else [0, 1, 2, 3, 5]))
        jobs.append(dict(part="algebra", d=1, history=M, length=6, layout="vector", letters=[0, 1, 2, 3]))
    for M in (1, 2, 3):
        jobs.append(dict(part="algebra", d=2, history=M, length=3, layout="vector", scale=2.0**-18))
        jobs.append(dict(part="algebra", d=2, history=M, length=11, layout="vector", letters=[0, 3]))
    for M, inverse in itertools.product((1, 2, 3, 10), (True, False)):
        jobs.append(dict(part="runs", history=M, inverse=inverse))
    core.main(
        "C15", jobs, run,
        rule="all sequences of pairs over the listed alphabets, all prefixes, history lengths 1-5; all smooth objectives x starts",
        bounds=dict(steps=STEPS, sequence_length=11, history=[1, 2, 3, 4, 5, 10]),
        assumptions=["matrices with condition above 1e7 are not judged"],
    )
