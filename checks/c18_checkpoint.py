"""C18: derivatives with the checkpointing adjoint against unrolled iterations.

Every problem and start of the families is solved with every step limit and number of
checkpoints in the tables, through all four entry points. The reference takes the reported
number of steps of the solver one after another by hand (init, step, ..., step,
postprocess) and lets JAX differentiate that straight-line program with respect to the
arguments and the initial guess. Value, outcome and step count are also compared with the
default adjoint, for solves that converge, run into the limit, or fail."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


LIMITS = (1, 3, 7) if not core.THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 11)
CHECKPOINTS = (None, 1, 2, 8) if not core.THOROUGH else (None, 1, 2, 3, 4, 12)


def make(name, tol):
    import optimistix as optx

    from mc import solvers

    table = dict(
        Newton=lambda: optx.Newton(*tol),
        Chord=lambda: optx.Chord(*tol),
        FixedPointIteration=lambda: optx.FixedPointIteration(*tol),
        NelderMead=lambda: optx.NelderMead(*tol),
        BestSoFarGD=lambda: optx.BestSoFarMinimiser(optx.GradientDescent(0.3, *tol)),
        BestSoFarNewton=lambda: optx.BestSoFarRootFinder(optx.Newton(*tol)),
        Bisection=lambda: optx.Bisection(*tol),
        GoldenSearch=lambda: optx.GoldenSearch(*tol),
    )
    if name in table:
        return table[name]()
    return solvers.ALL[name](*tol, optx.max_norm)


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from checks import c17_implicit as c17
    from mc import families as fam, trace

    t = core.Tally()
    entry, name, posed = job["entry"], job["solver"], job["posed"]
    solver = make(name, (1e-3, 1e-3))
    scalar = name in ("Bisection", "GoldenSearch")
    options = {}
    if scalar:
        base = c17._scalar_problem(entry)
        p = c17.scalar_rows()
        p = {k: np.concatenate([v, v[:1]]) for k, v in p.items()}
        p["a"][-1] = np.nan
        y0 = np.full(len(p["a"]), 0.3)
        options = dict(lower=-5.0, upper=4.5)
    else:
        base = c17.problem(entry)
        rows = c17.rows("symmetric" if entry == "minimise" else "general")
        rows = {k: v[::2] for k, v in rows.items()}
        # a member whose function is not finite
        rows = {k: np.concatenate([v, v[:1]]) for k, v in rows.items()}
        rows["b"][-1] = np.nan
        p, y0 = fam.product_batch(rows, np.array([[0.2, -0.1], [1.5, 1.0], [-2.0, 3.0]]))
    fn = lambda y, q: (base(y, q), y * q["a"])
    bad_p, bad_y0 = {k: v[-3:] for k, v in p.items()}, y0[-3:]
    if not scalar:
        nan = np.isnan(p["b"])
        bad_p, bad_y0 = {k: v[nan] for k, v in p.items()}, y0[nan]
    nan = np.isnan(p["a"] + p["b"])
    p, y0 = {k: v[~nan] for k, v in p.items()}, y0[~nan]
    m = len(p["a"])

    # the same problem as the solver sees it, written by hand
    def by_hand(y, q):
        f, aux = fn(y, q)
        if posed == "root-as-residual" or posed == entry:
            return f, aux
        if posed == "fixed-as-root" or posed == "fixed-as-residual":
            return f - y, aux
        assert posed == "residual-as-min"
        return 0.5 * jnp.sum(f**2), aux

    def unrolled(k):
        def go(y, q):
            structs = eqx.filter_eval_shape(lambda: by_hand(y, q))
            state = solver.init(by_hand, y, q, options, *structs, frozenset())
            aux = jtu.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), structs[1])
            for _ in range(k):
                y, state, aux = solver.step(by_hand, y, q, options, state, frozenset())
            _, res = solver.terminate(by_hand, y, q, options, state, frozenset())
            y, _, _ = solver.postprocess(by_hand, y, aux, q, options, state, frozenset(), res)
            return y

        return go

    def solve(limit, adjoint):
        def go(y, q):
            kw = {} if adjoint is None else dict(adjoint=adjoint)
            sol = trace.ENTRY[entry](fn, solver, y, q, options, has_aux=True, max_steps=limit, throw=False, **kw)
            return sol.value, dict(value=sol.value, result=trace.code(sol.result), steps=sol.stats["num_steps"], aux=sol.aux)

        return go

    # Under vmap both branches of every conditional are differentiated, and the linear
    # solves in the one not taken may fail; so solvers with such branches are mapped.
    over = (lambda f: lambda *xs: jax.lax.map(lambda x: f(*x), xs)) if job["mapped"] else jax.vmap

    def everywhere(f, *xs):
        return jtu.tree_map(np.asarray, eqx.filter_jit(over(f))(*xs))

    derivative = lambda g, has_aux: jax.jacrev(g, argnums=(0, 1), has_aux=has_aux)
    known, done = {}, {}  # k -> reference derivative; its results
    pick = lambda tree, i: jtu.tree_map(lambda x: x[i], tree)

    for limit in job["limits"]:
        plain = everywhere(lambda y, q: solve(limit, None)(y, q)[1], y0, p)
        if name == "Bisection":
            bad_p, bad_y0 = p, y0
        # members that are not finite: no derivatives, but the same answer
        a = everywhere(lambda y, q: solve(limit, None)(y, q)[1], bad_y0, bad_p)
        b = everywhere(lambda y, q: solve(limit, optx.RecursiveCheckpointAdjoint())(y, q)[1], bad_y0, bad_p)
        if not trace.tree_close(a, b):
            t.bad("a failing solve depends on the adjoint", entry=entry, solver=name, limit=limit, one=a, other=b)
        for r in a["result"]:
            t.outcome("without derivative: " + trace.name(r))
        for c in job["checkpoints"]:
            adjoint = optx.RecursiveCheckpointAdjoint(checkpoints=c)
            (dy, dq), out = everywhere(derivative(solve(limit, adjoint), True), y0, p)

            def detail(ix, **kw):
                i = ix[0]
                return dict(entry=entry, solver=name, limit=limit, checkpoints=c, start=y0[i], p=pick(p, i), steps=out["steps"][i], **kw)

            t.check_all(out["steps"] == plain["steps"], "the step count depends on the adjoint", detail=detail)
            t.check_all(out["result"] == plain["result"], "the outcome depends on the adjoint", detail=detail)
            for what in ("value", "aux"):
                a, b = out[what].reshape(m, -1), plain[what].reshape(m, -1)
                t.check_all(
                    ((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)).all(1),
                    f"the {what} depends on the adjoint", detail=detail,
                )
            for k in sorted(set(out["steps"].tolist())):
                here = out["steps"] == k
                if k not in known:
                    known[k] = eqx.filter_jit(over(derivative(unrolled(k), False)))
                # Members with another number of steps are replaced by one with this
                # number, since steps beyond convergence need not have a derivative.
                use = np.where(here, np.arange(m), np.argmax(here))
                if (limit, k) not in done:
                    done[limit, k] = jtu.tree_map(np.asarray, known[k](y0[use], pick(p, use)))
                ry, rq = done[limit, k]
                got = np.concatenate([dy.reshape(m, -1)] + [dq[x].reshape(m, -1) for x in dq], 1)
                want = np.concatenate([ry.reshape(m, -1)] + [rq[x].reshape(m, -1) for x in dq], 1)
                fin = np.isfinite(want).all(1) & here
                fin &= np.abs(np.where(fin[:, None], want, 0)).max(1) < 1e8  # not about to overflow
                size = 1 + np.abs(np.where(fin[:, None], want, 0)).max(1)
                t.check_all(
                    (np.abs(got - want).max(1) <= 1e-7 * size) | ~fin,
                    "the derivative differs from that of the unrolled iterations",
                    detail=lambda ix: detail(ix, got=got[ix[0]], expected=want[ix[0]]),
                )
                t.outcome(f"{k} steps", here.sum())
                t.outcome("derivatives compared", fin.sum() * got.shape[1])
                t.undecided += int((here & ~fin).sum())
            for r in np.unique(out["result"]):
                t.outcome(trace.name(r), (out["result"] == r).sum())
            t.transitions += int(out["steps"].sum())
            t.count_states((np.concatenate([got, out["value"].reshape(m, -1)], 1), 1))
    single = jax.jit(derivative(solve(limit, adjoint), True))
    for i in core.pick(m, 3, str(job)):
        for _ in range(2):
            (a, b), o = jtu.tree_map(np.asarray, single(y0[i], pick(p, i)))
            if o["steps"] == out["steps"][i] and not trace.tree_close((a, b), pick((dy, dq), i), 1e-5, 1e-5):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.sample(entry=entry, solver=name, start=y0[0], steps=out["steps"][0], derivative_in_start=dy[0])
    return t


if __name__ == "__main__":
    cheap = [
        ("root_find", "Newton", "root_find"), ("root_find", "Chord", "root_find"), ("root_find", "BestSoFarNewton", "root_find"),
        ("fixed_point", "FixedPointIteration", "fixed_point"), ("fixed_point", "Newton", "fixed-as-root"),
        ("minimise", "GradientDescent", "minimise"), ("minimise", "NonlinearCG-PR", "minimise"), ("minimise", "Optax-adam", "minimise"),
        ("minimise", "BestSoFarGD", "minimise"), ("least_squares", "GradientDescent", "residual-as-min"),
        ("root_find", "Bisection", "root_find"), ("minimise", "GoldenSearch", "minimise"),
    ]
    dear = [
        ("minimise", "BFGS", "minimise"), ("minimise", "LBFGS", "minimise"), ("minimise", "DFP-direct", "minimise"),
        ("minimise", "NelderMead", "minimise"), ("least_squares", "GaussNewton", "least_squares"),
        ("least_squares", "LevenbergMarquardt", "least_squares"), ("least_squares", "Dogleg", "least_squares"),
        ("least_squares", "BFGS", "residual-as-min"), ("root_find", "LevenbergMarquardt", "root-as-residual"),
        ("fixed_point", "GaussNewton", "fixed-as-residual"),
    ]
    jobs = []
    for e, s, posed in dear:
        some = LIMITS if core.THOROUGH else (2, 5)
        jobs.append(dict(entry=e, solver=s, posed=posed, mapped=True, limits=some, checkpoints=CHECKPOINTS if core.THOROUGH else (None, 2)))
    for e, s, posed in cheap:
        jobs.append(dict(entry=e, solver=s, posed=posed, mapped=False, limits=LIMITS, checkpoints=CHECKPOINTS))
    core.main(
        "C18", jobs, run,
        rule="all parameters x starts of the families x step limits x numbers of checkpoints x (entry point, solver) pairs",
        bounds=dict(limits=list(LIMITS), checkpoints=[str(c) for c in CHECKPOINTS]),
        assumptions=["JAX differentiates straight-line programs correctly", "members whose unrolled derivative is not finite are not judged"],
    )
