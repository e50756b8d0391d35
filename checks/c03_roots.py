"""C03: what success of a root-find or fixed-point solve guarantees.

Every system of a finite family (with and without roots), start, tolerance, norm and
solver is solved with a recording wrapper through both entry points, native or converted.
Solvers that play every script of iterates and answers go through the same conversions.
A numpy oracle recomputes residuals and movements at the recorded iterates: success must
be reported at exactly the first step where the solver's own test and the residual test
hold, and never when the residual at the last evaluated iterate is too large."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 30 if core.THOROUGH else 18
TOLS = [(0.0, 1e-2), (1e-2, 1e-6), (0.25, 0.05), (1e-3, 0.5), (1e-7, 1e-7), (0.1, 1.5)]
MARGIN = 1e-6
CONVERTED = [
    "GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg", "BFGS",
    "DFP-direct", "LBFGS", "NonlinearCG-PR", "GradientDescent", "Optax-adam",
    "NelderMead",
]


def scripted(job):
    """Solvers that play a script of iterates and stopping answers, through the
    conversions: success at exactly the first step at which the script says stop and the
    residual at the iterate evaluated in that step is below the tolerance, ties included
    (the numbers are such that every norm is exact)."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx
    from typing import Any

    from checks.c02_convergence import norm_np
    from mc import solvers, trace

    t = core.Tally()
    length = 4 if core.THOROUGH else 3
    atol = 0.625
    pool = np.array([(0, 0), (0.5, 0), (0, -0.625), (0.375, 0.5), (0.375, -0.375), (0.625, 0.625), (1, -1)], float)
    script = np.array(list(_product(*[range(len(pool))] * length, *[(False, True)] * length)))
    where, stop = script[:, :length], script[:, length:].astype(bool)
    norm, entry = solvers.NORMS[job["norm"]], job["entry"]
    base = dict(min=optx.AbstractMinimiser, lsq=optx.AbstractLeastSquaresSolver)[job["kind"]]

    class Body:
        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            return jnp.array(0)

        def step(self, fn, y, args, options, state, tags):
            _, aux = fn(y, args)
            return jnp.asarray(pool)[options["where"][jnp.minimum(state + 1, length - 1)]], state + 1, aux

        def terminate(self, fn, y, args, options, state, tags):
            return (state > 0) & options["stop"][jnp.maximum(state - 1, 0)], optx.RESULTS.successful

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            return y, aux, {}

    class Scripted(Body, base):
        rtol: Any
        atol: Any
        norm: Any

    def fn(y, args):
        if entry == "fixed_point":
            return 2 * y, y
        return (y[0], dict(u=y[1:])), y

    def one(w, s):
        sol = trace.ENTRY[entry](
            fn, Scripted(0.25, atol, norm), jnp.asarray(pool)[w[0]], None, dict(where=w, stop=s),
            has_aux=True, max_steps=length, throw=False,
        )
        return dict(k=sol.stats["num_steps"], result=trace.code(sol.result), aux=sol.aux, value=sol.value)

    out = trace.batched(one, where, stop)
    good = (norm_np(job["norm"], pool[where]) < atol) & stop
    K = np.where(good.any(1), good.argmax(1) + 1, length)
    detail = lambda i: dict(job, iterates=pool[where[i[0]]], stop=stop[i[0]], steps=out["k"][i[0]], expected=K[i[0]], result=trace.name(out["result"][i[0]]))
    want = np.where(good.any(1), trace.SUCCESS, trace.MAXSTEPS)
    t.check_all((out["k"] == K) & (out["result"] == want), "a scripted solve succeeds at the wrong step", detail=detail)
    rows = np.arange(len(K))
    t.check_all((out["aux"] == pool[where[rows, K - 1]]).all(1), "the auxiliary output is of another iterate", detail=detail)
    tie = norm_np(job["norm"], pool[where]) == atol
    t.outcome("scripted: exactly at the tolerance", (tie & stop).sum())
    t.transitions += int(K.sum())
    t.count_states((script, 1))
    single = jax.jit(one)
    for i in core.pick(len(K), 6, str(job)):
        for _ in range(2):
            o = single(where[i], stop[i])
            if int(o["k"]) != K[i]:
                t.bad("a scripted solve alone differs", **detail((i,)))
        t.traces += 1
    return t


def run(job):
    if "kind" in job:
        return scripted(job)
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from checks.c02_convergence import norm_np
    from mc import families as fam, solvers, trace

    t = core.Tally()
    name, normname, entry = job["solver"], job["norm"], job["entry"]
    norm = solvers.NORMS[normname]
    scalar = name == "Bisection"
    makes = dict(
        solvers.ALL,
        Newton=lambda r, a, n: optx.Newton(r, a, n),
        Chord=lambda r, a, n: optx.Chord(r, a, n),
        Bisection=lambda r, a, n: optx.Bisection(r, a),
        FixedPointIteration=lambda r, a, n: optx.FixedPointIteration(r, a, n),
        NelderMead=lambda r, a, n: optx.NelderMead(r, a, n),
    )
    make = makes[name]
    options = {}

    if scalar:
        # increasing / decreasing, continuous / jumping over zero
        def residual(y, p):
            x = y - p["c"]
            smooth = p["a"] * x + p["q"] * x**3
            jump = p["j"] * jnp.where(x >= 0, 1.0, -1.0)
            return smooth + jump

        rows = [
            dict(a=a, q=q, c=c, j=j)
            for a, q, c, j in _product([1, -2, 0.25], [0, 1], [0.3, -1.7, 0.0, 3.9], [0, 0.5])
            if (a > 0 or q == 0) and (j == 0 or a > 0)
        ]
        starts = np.array([0.0, 1.0, -3.0])
        options = dict(lower=-4.0, upper=4.0)
    else:

        def residual(y, p):
            x0, x1 = y[0], y[1]
            r0 = p["a"] * (x0 - p["c"]) + p["m"] * x1 + p["q"] * x0**3
            r0 = r0 + p["s"] * (x0**2 + 1)
            r1 = p["b"] * (x1 - p["d"]) + p["r"] * x0**2
            return jnp.stack([r0, r1])

        rows = [
            dict(a=a, b=b, c=c, d=d, m=m, q=q, r=r, s=s)
            for (a, b), (c, d), m, (q, r), s in _product(
                [(1, 1), (2, -1), (0.5, 4), (0, 1)], [(0, 0), (1, -2)], [0, 0.5],
                [(0, 0), (0.25, 0.5), (0, 1)], [0, 0.125, 1],
            )
        ]
        starts = fam.STARTS

    def user(y, p):
        r = residual(y, p)
        if entry == "fixed_point":
            r = y + 0.25 * r
            return r, r
        out = r if scalar else (r[0], r[1:])
        return out, r

    def defect(y, p):
        r = residual(y, p)
        return (y + 0.25 * r) - y if entry == "fixed_point" else r

    def one(p, y0, tol):
        solver = trace.record(make(tol[0], tol[1], norm), STEPS)
        sol = trace.ENTRY[entry](
            user, solver, y0, p, options, has_aux=True, max_steps=STEPS, throw=False
        )
        tr = sol.stats["trace"]
        fs = jax.vmap(lambda y: defect(y, p))(tr["ys"])
        return dict(
            ys=tr["ys"], fs=fs, k=sol.stats["num_steps"], result=trace.code(sol.result),
            value=sol.value, term=tr["term"], aux=sol.aux,
        )

    p, y0, tol = fam.product_batch(fam.stack(rows), starts, np.array(TOLS))
    out = trace.batched(one, p, y0, tol, chunk=8192)
    n = len(tol)
    ys = out["ys"].reshape(n, STEPS + 1, -1)
    fs = out["fs"].reshape(n, STEPS + 1, -1)
    K, result = out["k"], out["result"]
    ok = result == trace.SUCCESS
    rtol, atol = tol[:, 0], tol[:, 1]
    steps = np.arange(1, STEPS + 1)[None]
    taken = steps <= K[:, None]
    stopped = (steps == K[:, None]) & ok[:, None]
    with np.errstate(all="ignore"):
        size = norm_np(normname, fs[:, :-1]) / atol[:, None]  # residual at y_{k-1}
        dy = ys[:, 1:] - ys[:, :-1]
        move = norm_np(
            normname, dy / (atol[:, None, None] + rtol[:, None, None] * np.abs(ys[:, 1:]))
        )
        wy = MARGIN + 1e-14 * (1 + np.abs(ys[:, :-1]).max(-1) + np.abs(ys[:, 1:]).max(-1)) / atol[:, None]
        wf = MARGIN + 1e-14 * (1 + np.abs(fs[:, :-1]).max(-1) + np.abs(ys[:, :-1]).max(-1)) / atol[:, None]
    unsure_f, unsure_y = np.abs(size - 1) <= wf, np.abs(move - 1) <= wy

    def where(i):
        j = i[0]
        return dict(
            solver=name, norm=normname, entry=entry, params={k: v[j] for k, v in p.items()},
            start=y0[j], rtol=rtol[j], atol=atol[j], steps=K[j], result=result[j],
            step=i[1] + 1 if len(i) > 1 else None, ys=ys[j, : K[j] + 1],
            residuals=fs[j, : K[j] + 1],
        )

    if name == "FixedPointIteration":
        near, clear = move < 1, ~unsure_y
        own = np.ones_like(near)
    elif name in ("Newton", "Chord"):
        near = size < 1
        own = move < 1
        clear = ~(unsure_f | unsure_y) | (~near & ~unsure_f) | (~own & ~unsure_y)
    else:
        near, clear = size < 1, ~unsure_f
        own = out["term"][:, 1:]
    # A failure in that very step (of its linear solve, or a non-finite iterate) prevails.
    broke = (steps == K[:, None]) & (~ok & (result != trace.MAXSTEPS))[:, None]
    t.undecided += int((taken & ~clear).sum())
    claim = taken & clear
    t.check_all(
        ~(claim & stopped & ~near), "success although the equation does not hold",
        detail=where,
    )
    t.check_all(
        ~(claim & stopped & ~own), "success although the solver's own test failed",
        detail=where,
    )
    t.check_all(
        ~(claim & near & own & ~stopped & ~broke),
        "both tests met but the solve went on or failed", detail=where,
    )
    t.check_all((K == STEPS) | (result != trace.MAXSTEPS), "limit reported early", detail=where)
    t.check_all(~((K == 0) & ok), "success without any evaluation", detail=where)
    t.transitions += int(K.sum())
    t.count_states(
        (ys[:, 1:][taken], 1), (fs[:, :-1][taken], 1),
        (np.broadcast_to(tol[:, None], (n, STEPS, 2))[taken], 1),
    )
    for o in np.unique(result):
        t.outcome(trace.name(o), (result == o).sum())
    single = eqx.filter_jit(one)
    for i in core.pick(n, 3, name + normname):
        pi = {k: v[i] for k, v in p.items()}
        a = jax.tree_util.tree_map(np.asarray, single(pi, y0[i], tol[i]))
        b = jax.tree_util.tree_map(np.asarray, single(pi, y0[i], tol[i]))
        if not trace.tree_same(a, b):
            t.bad("the same solve gave different results twice", index=i)
        t.traces += 1
        t.sample(
            solver=name, entry=entry, start=y0[i], atol=atol[i], steps=a["k"],
            result=trace.name(a["result"]), last_residual=fs[i, max(0, K[i] - 1)],
        )
    return t


def _product(*axes):
    import itertools

    return list(itertools.product(*axes))


def jobs():
    out = []
    for norm in ("max", "rms", "two"):
        for entry in ("root_find", "fixed_point"):
            for name in ["Newton", "Chord"] + CONVERTED:
                out.append(dict(solver=name, norm=norm, entry=entry))
        out.append(dict(solver="FixedPointIteration", norm=norm, entry="fixed_point"))
        for entry, kind in _product(("root_find", "fixed_point"), ("min", "lsq")):
            out.append(dict(kind=kind, norm=norm, entry=entry))
    for entry in ("root_find", "fixed_point"):
        out.append(dict(solver="Bisection", norm="max", entry=entry))
    return out


if __name__ == "__main__":
    core.main(
        "C03", jobs(), run,
        rule="success iff, at the first such step, the residual at the evaluated iterate "
        "is below the absolute tolerance and the solver's own test holds",
        bounds=dict(max_steps=STEPS, tolerances=TOLS),
        assumptions=["a threshold within 1e-6 (plus rounding) of equality is not decided"],
    )
