"""C20: solves in batches, under jit, in scans and repeated, against solves on their own.

A pool of members with different behaviour (converged at the start, fast, slow, at the step
limit, diverging, failing, not finite at the start or on the way) is solved one by one. Then
every ordered batch of members up to a size is solved with vmap, and each member's value,
outcome, step count, statistics and auxiliary output must be those of the single solve.
Further contexts: partial batching, nested vmap, scan, map, conditional, interleaved and
repeated calls. Inputs, options and solvers are compared before and after."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


LIMIT = 12
SIZE = 4 if core.THOROUGH else 3


def members(entry):
    """Pool of (parameters, start)."""
    import numpy as np

    z = dict(a=1, b=1, c=0, d=0, m=0, r=0, q=0, w=1e9, e=0)
    if entry == "minimise":
        pool = [
            (dict(z), (0, 0)),  # at the solution
            (dict(z, a=2, b=2, c=1), (0, 1)),  # easy
            (dict(z, r=10, c=1, d=1), (-2, 1)),  # curved valley
            (dict(z, w=3), (4, 1)),  # not finite at the start
            (dict(z, a=-1, b=-1), (1, 1)),  # unbounded below
            (dict(z, a=0.01, b=1, c=8, w=1.25), (1, 2)),  # not finite on the way
            (dict(z, a=0, b=0), (1, 2)),  # flat
        ]
    elif entry == "least_squares":
        pool = [
            (dict(z), (0, 0)),
            (dict(z, a=2, b=2, c=1), (0, 1)),
            (dict(z, r=10, c=1, d=1, e=1), (-2, 1)),
            (dict(z, w=3), (4, 1)),
            (dict(z, a=0, b=0, r=0, q=1, e=1), (3, 1)),  # singular, slow
            (dict(z, a=0.5, b=1, c=8, w=1.25), (1, 2)),
            (dict(z, a=0, b=0), (1, 2)),
        ]
    else:
        k = dict(a=1, c=1, k=0, m=0, n=0, b=0, d=0, w=0)
        pool = [
            (dict(k), (0, 0)),
            (dict(k, a=2, c=3, k=0.5, b=1, d=1, m=0.5), (1, 1)),
            (dict(k, a=-1, k=1, b=0.4, c=-1, d=0.1), (0.58, -0.6)),  # slow or cycling
            (dict(k, b=np.nan), (1, 1)),
            (dict(k, a=0, c=0, b=1, d=1), (1, 1)),  # singular, no solution
            (dict(k, a=-9, c=-7, k=-3), (1, 2)),  # diverges as a fixed point
            (dict(k, a=0, c=1, m=0, n=0), (1, 2)),  # singular, with solutions
        ]
    keys = pool[0][0].keys()
    p = {q: np.array([float(x[0][q]) for x in pool]) for q in keys}
    return p, np.array([x[1] for x in pool], float)


def setup(entry, name):
    import jax.numpy as jnp
    import optimistix as optx

    from checks import c17_implicit as c17
    from checks.c19_conversion import make
    from mc import families as fam

    if entry == "minimise":
        base = fam.smooth_min
    elif entry == "least_squares":
        base = fam.smooth_res
    else:
        base = c17.problem(entry)
    fn = lambda y, q: (base(y, q), dict(y=y, s=jnp.sum(y) * q["a"]))
    return fn, lambda tol: make(name, (tol[0], tol[1]), optx.max_norm)


def run(job):
    import copy

    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from mc import trace

    t = core.Tally()
    cache = {}
    entry, name = job["entry"], job["solver"]
    scalar = name in ("Bisection", "GoldenSearch")
    tols = np.array([1e-4, 1e-4])
    if scalar:
        from checks import c17_implicit as c17
        from checks.c19_conversion import make

        rows = c17.scalar_rows()
        p = {q: x[[0, 5, 11, 20, 30, 7, 16]] for q, x in rows.items()}
        if name == "GoldenSearch":
            p["b"][3] = np.nan
        y0 = np.linspace(0.1, 0.9, 7)
        base = c17._scalar_problem(entry)
        fn = lambda y, q: (base(y, q), dict(y=y, s=y * q["a"]))
        mk = lambda tol: make(name, (tol[0], tol[1]), None)
        options = dict(lower=np.linspace(-5, -4, 7), upper=np.linspace(4.5, 6, 7))
    else:
        p, y0 = members(entry)
        fn, mk = setup(entry, name)
        options = {}
    n = len(y0)

    def solve(y, q, tol, opts):
        sol = trace.ENTRY[entry](fn, mk(tol), y, q, dict(opts), has_aux=True, max_steps=LIMIT, throw=False)
        stats = {k: v for k, v in sol.stats.items() if k != "max_steps"}
        return dict(value=sol.value, result=trace.code(sol.result), aux=sol.aux, stats=stats)

    pick = lambda i: (y0[i], {q: x[i] for q, x in p.items()}, tols, {k: v[i] for k, v in options.items()})
    single = eqx.filter_jit(solve)
    alone = [jtu.tree_map(np.asarray, single(*pick(i))) for i in range(n)]

    def agree(got, want):
        for a, b in zip(jtu.tree_leaves(got), jtu.tree_leaves(want)):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.dtype.kind in "iub":
                if not np.array_equal(a, b):
                    return False
            elif not np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True):
                return False
        return jtu.tree_structure(got) == jtu.tree_structure(want)

    def fragile(y, q, tol, opts, want):
        # a solve whose course hangs on the last bits of its inputs: other roundings of the
        # same inputs already change it
        for k in (-3, -2, -1, 1, 2, 3):
            eps = 1 + k * 2.3e-16
            other = jtu.tree_map(np.asarray, single(np.asarray(y) * eps, {a: b / eps for a, b in q.items()}, tol, opts))
            if not agree(other, want):
                t.undecided += 1
                return True
        return False

    def judge(got, i, what, **kw):
        if not agree(got, alone[i]) and not fragile(*pick(i), alone[i]):
            t.bad(f"{what}: a member differs from its solve alone", entry=entry, solver=name, member=i, got=got, alone=alone[i], **kw)

    # repeated, interleaved with the others in every order of pairs
    for i, j in itertools.product(range(n), repeat=2):
        again = jtu.tree_map(np.asarray, single(*pick(j)))
        if not trace.tree_same(again, alone[j]):
            t.bad("repeating a call changes its result", entry=entry, solver=name, member=j, after=i)
        jtu.tree_map(np.asarray, single(*pick(i)))
        t.transitions += 2
    # every ordered batch
    batch = eqx.filter_jit(jax.vmap(solve, in_axes=(0, 0, None, 0)))
    for size in range(1, SIZE + 1):
        if size == 1:
            continue
        for ids in itertools.product(range(n), repeat=size):
            ids = np.array(ids)
            out = jtu.tree_map(np.asarray, batch(*pick(ids)))
            for pos, i in enumerate(ids):
                judge(jtu.tree_map(lambda x: x[pos], out), i, "vmap", batch=ids.tolist())
            t.states += 1
            t.transitions += size
    t.outcome("batches", t.states)
    # one large batch in which every member occurs many times
    ids = np.array(list(itertools.product(range(n), repeat=2))).ravel()
    out = jtu.tree_map(np.asarray, batch(*pick(ids)))
    for pos, i in enumerate(ids):
        judge(jtu.tree_map(lambda x: x[pos], out), i, "large vmap")
    t.transitions += len(ids)
    # nested batches
    nested = eqx.filter_jit(jax.vmap(jax.vmap(solve, in_axes=(0, 0, None, 0)), in_axes=(0, 0, None, 0)))
    ids = np.stack([np.roll(np.arange(n), -s) for s in range(n)])
    out = jtu.tree_map(np.asarray, nested(*pick(ids)))
    for a, b in np.ndindex(*ids.shape):
        judge(jtu.tree_map(lambda x: x[a, b], out), ids[a, b], "nested vmap")
    t.transitions += ids.size
    # only some of the inputs are batched
    for i in range(n):
        y, q, tol, o = pick(i)
        reps = lambda x: np.repeat(np.asarray(x)[None], 2, 0)
        for label, axes, args in (
            ("start", (0, None, None, None), (np.stack([y, y + (0 if scalar else 0.25)]), q, tol, o)),
            ("arguments", (None, 0, None, None), (y, {k: np.stack([v, v * 1.5]) for k, v in q.items()}, tol, o)),
            ("tolerance", (None, None, 0, None), (y, q, np.stack([tol, tol * 100]), o)),
        ):
            if label not in cache:
                cache[label] = eqx.filter_jit(jax.vmap(solve, in_axes=axes))
            out = jtu.tree_map(np.asarray, cache[label](*args))
            judge(jtu.tree_map(lambda x: x[0], out), i, f"batched {label} only")
            second = [jtu.tree_map(lambda x: x[1], a) if ax == 0 else a for a, ax in zip(args, axes)]
            other = jtu.tree_map(np.asarray, single(*second))
            got = jtu.tree_map(lambda x: x[1], out)
            if not agree(got, other) and not fragile(*second, other):
                t.bad(f"batched {label} only: a member differs from its solve alone", entry=entry, solver=name, member=i, got=got, alone=other)
            t.transitions += 4
    # other contexts
    ids = np.array([0, 2, 1, 3, 6, 4, 5, 2, 0])
    y, q, tol, o = pick(ids)
    scan = eqx.filter_jit(lambda y, q, o: jax.lax.scan(lambda c, x: (c + 1, solve(x[0], x[1], tol, x[2])), 0, (y, q, o))[1])
    mapped = eqx.filter_jit(lambda y, q, o: jax.lax.map(lambda x: solve(x[0], x[1], tol, x[2]), (y, q, o)))
    zero = jtu.tree_map(lambda x: np.zeros_like(x), alone[0])
    cond = eqx.filter_jit(jax.vmap(lambda y, q, o: jax.lax.cond(q["a"] > -100, lambda: solve(y, q, tol, o), lambda: jtu.tree_map(jnp.asarray, zero))))
    double = eqx.filter_jit(jax.vmap(lambda y, q, o: (solve(y, q, tol, o), solve(y, q, tol, o))[1]))
    for label, f in dict(scan=scan, map=mapped, cond=cond, twice=double).items():
        out = jtu.tree_map(np.asarray, f(y, q, o))
        for pos, i in enumerate(ids):
            judge(jtu.tree_map(lambda x: x[pos], out), i, label)
        t.transitions += len(ids)
    # without any transformation around it; inputs are left alone
    for i in range(n):
        y, q, tol, o = pick(i)
        solver = mk((1e-4, 1e-4))
        before = copy.deepcopy((jtu.tree_map(np.asarray, (y, q, o)), jtu.tree_flatten(solver)))
        sol = trace.ENTRY[entry](fn, solver, y, q, o, has_aux=True, max_steps=LIMIT, throw=False)
        got = dict(value=sol.value, result=trace.code(sol.result), aux=sol.aux, stats={k: v for k, v in sol.stats.items() if k != "max_steps"})
        judge(jtu.tree_map(np.asarray, got), i, "direct call")
        leaves, struct = jtu.tree_flatten(solver)
        if not (trace.tree_same(before[0], (y, q, o)) and leaves == before[1][0]):
            t.bad("a solve changed its inputs, options or solver", entry=entry, solver=name, member=i)
        t.traces += 1
    for a in alone:
        t.outcome(trace.name(a["result"]))
    t.note("distinct step counts", len({int(a["stats"]["num_steps"]) for a in alone}))
    t.sample(entry=entry, solver=name, steps=[int(a["stats"]["num_steps"]) for a in alone], outcomes=[trace.name(a["result"]) for a in alone])
    return t


if __name__ == "__main__":
    MIN = [
        "BFGS", "BFGS-direct", "DFP", "DFP-direct", "LBFGS", "LBFGS-direct", "NonlinearCG-PR", "NonlinearCG-FR", "NonlinearCG-HS",
        "NonlinearCG-DY", "GradientDescent", "Optax-sgd", "Optax-adam", "NelderMead", "BestSoFarMin", "BFGS+LinearTR",
        "BFGS+ClassicalTR+Dogleg", "Steepest+Armijo", "CG+LinearTR",
    ]
    LSQ = ["GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg", "BestSoFarLsq", "GN+Armijo", "GN+ClassicalTR", "Damped+LinearTR", "Dogleg-lsq+LinearTR"]
    jobs = [dict(entry="least_squares", solver=s) for s in LSQ + ["BFGS"]]
    jobs += [dict(entry="minimise", solver=s) for s in MIN]
    jobs += [dict(entry="root_find", solver=s) for s in ("Newton", "NewtonNoCauchy", "Chord", "BestSoFarRoot", "LevenbergMarquardt", "Dogleg", "BFGS", "Bisection")]
    jobs += [dict(entry="fixed_point", solver=s) for s in ("FixedPointIteration", "Newton", "GaussNewton", "NonlinearCG-PR", "Bisection")]
    jobs += [dict(entry="minimise", solver="GoldenSearch")]
    core.main(
        "C20", jobs, run,
        rule="every ordered batch, up to the size bound, of a pool of seven members, for each (entry point, solver); all contexts of the table",
        bounds=dict(batch_size=SIZE, members=7, steps=LIMIT),
        assumptions=["floating-point values may differ by rounding between batched and single linear algebra"],
    )
