"""C16: nonlinear conjugate-gradient directions against the textbook formulas.

All gradient triples and all gradient sequences over small integer alphabets go through the
four beta functions and through the descent, with every kind of function information; a
numpy reference holding just the previous gradient and direction says what each direction
must be. Complete backtracking runs are followed move by move, and runs with exact line
minimisation are compared with linear conjugate gradients on a grid of quadratics."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 40 if core.THOROUGH else 24
METHODS = dict(PR="polak_ribiere", FR="fletcher_reeves", HS="hestenes_stiefel", DY="dai_yuan")


def run(job):
    return dict(betas=betas, sequences=sequences, runs=runs, quadratic=quadratic)[job["part"]](job, core.Tally())


def vectors(alphabet, d):
    import numpy as np

    return np.array(list(itertools.product(alphabet, repeat=d)), float)


def packing(layout, d):
    import jax
    import jax.numpy as jnp

    def pack(x):
        if layout == "dict":
            return dict(u=x[0], w=[x[1:].reshape(1, d - 1)])
        return x

    def unpack(y):
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(y)])

    return pack, unpack


def betas(job, t):
    """The public beta functions on every triple."""
    import jax
    import numpy as np
    import optimistix as optx

    from mc import qn, trace

    d, alphabet, layout, scale = job["d"], job["alphabet"], job["layout"], job["scale"]
    pack, _ = packing(layout, d)
    v = vectors(alphabet, d)
    idx = np.array(list(itertools.product(range(len(v)), repeat=3)))
    g, gp, pp = v[idx[:, 0]] * scale, v[idx[:, 1]] * scale, v[idx[:, 2]] * scale
    for method, fname in METHODS.items():
        f = getattr(optx, fname)
        one = lambda a, b, c: f(pack(a), pack(b), pack(c))
        got = trace.batched(one, g, gp, pp)
        want, den = qn.beta(method, g, gp, pp)
        t.check_all(
            np.isfinite(got) & (np.abs(got - want) <= 1e-13 * (1 + np.abs(want))),
            f"{fname} is not its formula",
            detail=lambda ix: dict(gradient=g[ix[0]], previous=gp[ix[0]], direction=pp[ix[0]], got=got[ix[0]], expected=want[ix[0]]),
        )
        t.outcome("beta from a vanishing denominator", (den == 0).sum())
        t.outcome("beta from a negative denominator", (den < 0).sum())
        t.outcome("beta clipped", ((want == 0) & (den > 0)).sum() if method == "PR" else 0)
        t.outcome("beta", (den != 0).sum())
        t.transitions += len(g)
        single = jax.jit(one)
        for i in core.pick(len(g), 4, str(job) + method):
            for _ in range(2):
                if not abs(float(single(g[i], gp[i], pp[i])) - got[i]) <= 1e-12 * (1 + abs(got[i])):
                    t.bad("a replay on its own differs from the enumerated run", gradient=g[i])
            t.traces += 1
    t.count_states((np.concatenate([g, gp, pp], 1), 1))
    return t


def infos(kind, grad, d, pack):
    import jax.numpy as jnp
    import lineax as lx
    import optimistix as optx

    F = optx.FunctionInfo
    f = jnp.array(1.5)
    if kind == "EvalGrad":
        return F.EvalGrad(f, pack(grad))
    if kind in ("EvalGradHessian", "EvalGradHessianInv"):
        m = jnp.eye(d) + 2.0 * jnp.ones((d, d))
        if isinstance(pack(grad), dict):
            op = lx.FunctionLinearOperator(lambda y: pack(m @ jnp.concatenate([jnp.ravel(y["u"]), jnp.ravel(y["w"][0])])), pack(grad))
        else:
            op = lx.MatrixLinearOperator(m, lx.positive_semidefinite_tag)
        return getattr(F, kind)(f, pack(grad), op)
    # residual (2, -1) and a Jacobian with both rows equal: its gradient is `grad`
    r = jnp.array([2.0, -1.0])
    jac = jnp.stack([grad, grad])
    if isinstance(pack(grad), dict):
        op = lx.FunctionLinearOperator(lambda y: jac @ jnp.concatenate([jnp.ravel(y["u"]), jnp.ravel(y["w"][0])]), pack(grad))
    else:
        op = lx.MatrixLinearOperator(jac)
    return F.ResidualJac(r, op)


def sequences(job, t):
    """Directions for every sequence of accepted gradients."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import qn, trace

    d, L, layout, kind, scale = job["d"], job["length"], job["layout"], job["kind"], job["scale"]
    pack, unpack = packing(layout, d)
    v = vectors(job["alphabet"], d)
    if job.get("letters"):
        v = v[job["letters"]]
    seqs = v[np.array(list(itertools.product(range(len(v)), repeat=L)))] * scale
    n = len(seqs)
    sizes = jnp.array([0.0, 0.5, 1.0, 3.0])
    for method, fname in METHODS.items():
        descent = optx.NonlinearCGDescent(method=getattr(optx, fname))

        def one(gs):
            y = pack(jnp.ones(d))
            struct = eqx.filter_eval_shape(lambda: infos(kind, jnp.zeros(d), d, pack))
            state = descent.init(y, struct)
            dirs, steps, ok = [], [], True
            for i in range(L):
                state = descent.query(y, infos(kind, gs[i], d, pack), state)
                p, res = descent.step(jnp.array(1.0), state)
                ok = ok & (res == optx.RESULTS.successful)
                dirs.append(unpack(p))
                steps.append(jnp.stack([unpack(descent.step(a, state)[0]) for a in sizes]))
                y = jax.tree_util.tree_map(lambda a, b: a + b, y, p)
            return jnp.stack(dirs), jnp.stack(steps), ok

        dirs, steps, ok = trace.batched(one, seqs)
        t.check_all(ok, "computing a direction is reported as a failure")
        want = dirs[:, :, None] * np.asarray(sizes)[:, None]
        t.check_all((np.abs(steps - want) <= 1e-14 * np.abs(dirs).max((1, 2))[:, None, None, None]).all((1, 2, 3)), "a step is not the step size times the direction")
        for i in range(L):
            g, got = seqs[:, i], dirs[:, i]

            def detail(ix, i=i):
                return dict(method=method, kind=kind, gradients=seqs[ix[0]], position=i, directions=dirs[ix[0]])

            if i == 0:
                t.check_all((got == -g).all(1), "the first direction is not steepest descent", detail=detail)
                t.transitions += n
                continue
            gp, pp = seqs[:, i - 1], dirs[:, i - 1]
            b, den = qn.beta(method, g, gp, pp)
            # a denominator within rounding of zero could be treated either way
            exact = (pp / scale * 1024 == np.round(pp / scale * 1024)).all(1)
            dsize = np.abs(pp).max(1) * np.abs(g - gp).max(1)
            fuzzy = (~exact & (np.abs(den) <= 1e-12 * dsize)) if method in ("HS", "DY") else np.zeros(n, bool)
            fuzzy |= np.abs(pp).max(1) > 1e8 * scale
            cand = -g + b[:, None] * pp
            slope = qn.dot(g, cand)
            gg = qn.dot(g, g)
            size = gg + np.abs(b) * np.abs(qn.dot(np.abs(g), np.abs(pp)))
            tol = 1e-11 * (1 + np.abs(b)[:, None]) * (np.abs(g).max(1) + np.abs(pp).max(1))[:, None]
            is_cand = (np.abs(got - cand) <= tol).all(1)
            is_grad = (np.abs(got + g) <= tol).all(1)
            certain = exact & (b * 1024 == np.round(b * 1024))  # no rounding anywhere
            unclear = (np.abs(slope) <= 1e-12 * size) & ~certain
            good = np.where(unclear, is_cand | is_grad, np.where(slope < 0, is_cand, is_grad)) | fuzzy
            t.check_all(good, "a direction is not the formula's, or the fallback is wrong", detail=detail)
            t.check_all((qn.dot(g, got) < 0) | (gg == 0) | unclear | fuzzy, "a direction does not descend", detail=detail)
            t.check_all(np.isfinite(got).all(1), "a direction is not finite", detail=detail)
            t.outcome("conjugate directions", (is_cand & (b != 0)).sum())
            t.outcome("fallback to steepest descent", ((slope > 0) & ~unclear).sum())
            t.outcome("slope exactly zero", (certain & (slope == 0) & (gg > 0)).sum())
            t.outcome("vanishing denominator", (den == 0).sum())
            t.outcome("zero gradient", (gg == 0).sum())
            t.undecided += int(fuzzy.sum())
            t.transitions += n
        t.count_states((np.concatenate([dirs, seqs], 2), 2))
        single = jax.jit(one)
        for i in core.pick(n, 3, str(job) + method):
            for _ in range(2):
                if not trace.tree_close(np.asarray(single(seqs[i])[0]), dirs[i], 1e-9, 1e-9):
                    t.bad("a replay on its own differs from the enumerated run", gradients=seqs[i], method=method)
            t.traces += 1
        t.sample(method=method, kind=kind, gradients=seqs[n // 2], directions=dirs[n // 2])
    return t


def runs(job, t):
    """Complete solves with backtracking."""
    import jax
    import numpy as np
    import optimistix as optx

    from mc import families as fam, qn, trace

    method, default = job["method"], job["default"]
    n = STEPS
    if default:
        solver = optx.NonlinearCG(0.0, 0.0)
    else:
        solver = optx.NonlinearCG(0.0, 0.0, method=getattr(optx, METHODS[method]))
    fn = lambda y, p: (fam.smooth_min(y, p), None)
    starts = np.concatenate([fam.STARTS, [[0.3, -1.7], [-0.6, 0.45]]])
    p, x0 = fam.product_batch(fam.stack(fam.smooth_params(core.THOROUGH)), starts)
    out = trace.batched(trace.runner("minimise", fn, solver, n), x0, p)
    ys, k = out["trace"]["ys"], out["steps"]
    grad_j = jax.jit(jax.vmap(jax.grad(fam.smooth_min)))
    grad = lambda y: np.asarray(grad_j(y, p))
    m = len(x0)

    def start(g):
        return (g, -g), -g, np.isfinite(g).all(1)

    def advance(memory, s, y, g, take):
        gp, pp = memory
        with np.errstate(all="ignore"):
            b, den = qn.beta(method, g, gp, pp)
            cand = -g + b[:, None] * pp
            slope = qn.dot(g, cand)
            size = np.abs(g).max(1) * (np.abs(g).max(1) + np.abs(b) * np.abs(pp).max(1))
            new = np.where((slope < 0)[:, None], cand, -g)
            dsize = np.abs(pp).max(1) * np.abs(g - gp).max(1) if method in ("HS", "DY") else np.abs(den)
            sure = (np.abs(den) > 1e-8 * dsize) & (np.abs(den) > 1e-13) & (np.abs(slope) > 1e-7 * size)
        t.outcome("restarts", (take & sure & (slope > 0)).sum())
        t.outcome("conjugate moves", (take & sure & (slope < 0) & (b != 0)).sum())
        keep = take[:, None]
        return (np.where(keep, g, gp), np.where(keep, new, pp)), new, sure & np.isfinite(new).all(1)

    def detail(ix):
        i = ix[0]
        return dict(p={q: v[i] for q, v in p.items()}, start=x0[i], points=ys[i][:8])

    qn.follow(t, ys, k, grad, start, advance, detail, tol=1e-6)
    t.count_states((np.concatenate([ys.reshape(m, -1)] + [v[:, None] for v in p.values()], 1), 1))
    single = jax.jit(trace.runner("minimise", fn, solver, n))
    for i in core.pick(m, 5, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q: v[i] for q, v in p.items()}))
            if not trace.tree_close(o["trace"]["ys"][:4], ys[i][:4], 1e-6, 1e-6):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.outcome("solves", m)
    return t


def quadratic(job, t):
    import jax
    import numpy as np
    import optimistix as optx

    from mc import families as fam, qn, trace

    d, method = job["d"], job["method"]
    solver = optx.NonlinearCG(0.0, 0.0, method=getattr(optx, METHODS[method]), search=qn.ExactSearch())
    n = 2 * d + 1
    fn = lambda y, p: (0.5 * y @ p["A"] @ y - p["b"] @ y, None)
    A = qn.spd_grid(d)
    b = vectors((-1.0, 0.0, 2.0), d)
    x0 = np.array([np.zeros(d), np.arange(1.0, d + 1), np.full(d, -0.5)])
    A, b, x0 = fam.product_batch(A, b, x0)
    p = dict(A=A, b=b)
    out = trace.batched(trace.runner("minimise", fn, solver, n, free=True), x0, p)
    ys = out["trace"]["ys"]
    m = len(x0)
    sol = np.linalg.solve(A, b[..., None])[..., 0]
    size = 1 + np.abs(sol).max(1) + np.abs(x0).max(1)

    def detail(ix):
        i = ix[0]
        return dict(A=A[i], b=b[i], start=x0[i], points=ys[i], minimum=sol[i])

    alive = np.ones(m, bool)
    for j, (x, r_before) in enumerate(qn.linear_cg(A, b, x0, d)):
        alive &= np.abs(r_before).max(1) > 1e-6
        got = ys[:, 2 * j + 3]
        t.check_all((np.abs(got - x).max(1) <= 1e-6 * size) | ~alive, "the points differ from linear conjugate gradients", detail=detail)
        t.outcome("exact line minimisations", alive.sum())
        t.transitions += int(alive.sum())
    last = ys[:, n]
    t.check_all((np.abs(last - sol).max(1) <= 1e-5 * size), "exact line minimisation does not reach the minimum in as many steps as unknowns", detail=detail)
    t.count_states((np.concatenate([ys.reshape(m, -1), A.reshape(m, -1), b], 1), 1))
    single = jax.jit(trace.runner("minimise", fn, solver, n, free=True))
    for i in core.pick(m, 4, str(job)):
        o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q: v[i] for q, v in p.items()}))
        if not trace.tree_close(o["value"], last[i], 1e-6, 1e-6):
            t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    return t


if __name__ == "__main__":
    a4, a3 = [-1, 0, 1, 2], [-1, 0, 2]
    jobs = []
    for d, alphabet, layout in ((1, [-2, -1, 0, 1, 2, 3], "vector"), (2, a4, "vector"), (2, a3, "dict"), (3, [-1, 1] if not core.THOROUGH else a3, "dict")):
        for scale in (1.0, 2.0**-20, 2.0**20):
            jobs.append(dict(part="betas", d=d, alphabet=alphabet, layout=layout, scale=scale))
    for kind in ("EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac"):
        jobs += [
            dict(part="sequences", d=1, length=5, alphabet=[-2, -1, 0, 1, 3], layout="vector", kind=kind, scale=1.0),
            dict(part="sequences", d=2, length=3, alphabet=a4, layout="vector", kind=kind, scale=1.0),
            dict(part="sequences", d=2, length=4, alphabet=a3, layout="dict", kind=kind, scale=1.0),
            dict(part="sequences", d=2, length=6, alphabet=a3, layout="vector", kind=kind, scale=1.0, letters=[0, 2, 4, 5] if not core.THOROUGH else [0, 1, 2, 4, 5]),
            dict(part="sequences", d=3, length=4, alphabet=[-1, 2], layout="dict", kind=kind, scale=1.0),
            dict(part="sequences", d=2, length=3, alphabet=a3, layout="vector", kind=kind, scale=2.0**-18),
        ]
    for method in METHODS:
        jobs.append(dict(part="runs", method=method, default=False))
        jobs += [dict(part="quadratic", method=method, d=d) for d in (1, 2, 3)]
    jobs.append(dict(part="runs", method="PR", default=True))
    core.main(
        "C16", jobs, run,
        rule="all gradient triples and sequences over the listed alphabets x formula x kind of function information; all "
        "smooth objectives x starts; all positive definite matrices of the grid x right-hand sides x starts",
        bounds=dict(steps=STEPS, dims=[1, 2, 3], sequence_length=6),
        assumptions=["denominators within rounding of zero may be treated as zero or not"],
    )
