"""C19: a converted problem against the same problem posed by hand.

For every (entry point, solver) pair that involves a conversion, every problem, start, norm
and step limit of the tables is solved twice with recording wrappers: through the converting
entry point, and through the solver's own entry point with the residual, map-minus-point or
half-sum-of-squares written by hand. The recorded runs must agree step for step; for roots
the additional requirement on the residual is applied to the hand-posed run by the oracle.
What must be passed through (arguments, options, limits, error mode, adjoint) is observed
with user-level solvers and adjoints that report what they were given."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 20 if core.THOROUGH else 12
TOLS = [(1e-3, 1e-3), (1e-6, 1e-2), (1e-8, 1e-8)]


def make(name, tol, norm):
    import optimistix as optx

    from mc import solvers

    table = dict(
        Newton=lambda: optx.Newton(*tol, norm=norm),
        NewtonNoCauchy=lambda: optx.Newton(*tol, norm=norm, cauchy_termination=False),
        Chord=lambda: optx.Chord(*tol, norm=norm),
        Bisection=lambda: optx.Bisection(*tol),
        GoldenSearch=lambda: optx.GoldenSearch(*tol),
        NelderMead=lambda: optx.NelderMead(*tol, norm=norm),
        FixedPointIteration=lambda: optx.FixedPointIteration(*tol, norm=norm),
        BestSoFarMin=lambda: optx.BestSoFarMinimiser(optx.BFGS(*tol, norm=norm)),
        BestSoFarLsq=lambda: optx.BestSoFarLeastSquares(optx.GaussNewton(*tol, norm=norm)),
        BestSoFarRoot=lambda: optx.BestSoFarRootFinder(optx.Newton(*tol, norm=norm)),
    )
    if name in table:
        return table[name]()
    return solvers.ALL[name](*tol, norm)


def native(solver):
    import optimistix as optx

    if isinstance(solver, optx.AbstractMinimiser):
        return "minimise"
    if isinstance(solver, optx.AbstractLeastSquaresSolver):
        return "least_squares"
    return "root_find"


def run(job):
    return dict(runs=runs, inputs=inputs, passed=passed)[job["part"]](job, core.Tally())


def rows():
    import numpy as np

    from checks import c17_implicit as c17

    p = c17.rows("general")
    p = {k: v[:: 1 if core.THOROUGH else 3] for k, v in p.items()}
    # no solution, singular systems, functions that are not finite
    extra = dict(
        a=[0, 0, -1, 1, 1, 2.0], c=[0, 1, 1, 0, 1, 1.0], k=[0, 0, 0.5, 0.5, 0, 0], m=[0, 0, 0, 1, 0, 2],
        n=[0, 1, 0, 1, 0, 0.5], b=[1, 1, 0, 0, np.nan, np.inf], d=[0, 1, 1, 0.5, 0, 0], w=[0.7] * 6,
    )
    return {k: np.concatenate([v, np.array(extra[k], float)]) for k, v in p.items()}


def posed_by_hand(entry, target, fn, norm):
    """(y, args) -> (what the solver works on, (residual, aux))."""
    import jax.numpy as jnp

    def go(y, p):
        f, aux = fn(y, p)
        r = f - y if entry == "fixed_point" else f
        if target == "minimise":
            return (0.5 * jnp.sum(r**2) if entry == "least_squares" else norm(r)), (r, aux)
        return r, (r, aux)

    return go


def runs(job, t):
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from checks import c17_implicit as c17
    from checks.c02_convergence import norm_np
    from mc import families as fam, solvers, trace

    entry, name, normname, limit = job["entry"], job["solver"], job["norm"], job["limit"]
    norm = solvers.NORMS[normname]
    scalar = name in ("Bisection", "GoldenSearch")
    options = dict(lower=-5.0, upper=4.5) if scalar else {}
    if scalar:
        base = c17._scalar_problem(entry)
        p, = fam.product_batch(c17.scalar_rows())
        p, tol = fam.product_batch(p, np.array(TOLS))
        y0 = np.full(len(tol), 0.3)
    else:
        base = c17.problem(entry)
        p, y0, tol = fam.product_batch(rows(), np.array([[0.2, -0.1], [1.5, 1.0], [-2.0, 3.0]]), np.array(TOLS))
    fn = lambda y, q: (base(y, q), dict(a=y * q["a"], s=jnp.sum(y) + q["b"]))
    m = len(tol)
    n = STEPS
    target = native(make(name, TOLS[0], norm))
    needs_residual = entry in ("root_find", "fixed_point") and target != "root_find"
    hand = posed_by_hand(entry, target, fn, norm)

    def converted(y, q, tl):
        return trace.runner(entry, fn, make(name, (tl[0], tl[1]), norm), n, options=options, max_steps=min(n, limit))(y, q)

    def direct(y, q, tl):
        return trace.runner(target, hand, make(name, (tl[0], tl[1]), norm), n, options=options, free=needs_residual, max_steps=n if needs_residual else min(n, limit))(y, q)

    got, ref = trace.batched(converted, y0, p, tol), trace.batched(direct, y0, p, tol)

    def detail(ix, **kw):
        i = ix[0]
        return dict(
            entry=entry, solver=name, norm=normname, limit=limit, start=y0[i], tolerances=tol[i], p={k: v[i] for k, v in p.items()},
            steps=got["steps"][i], result=trace.name(got["result"][i]), **kw,
        )

    flat = lambda x: np.asarray(x).reshape(m, -1)
    eq = lambda a, b: ((np.abs(a - b) <= 1e-9 * (np.abs(a) + np.abs(b)) + 1e-12) | (a == b) | (np.isnan(a) & np.isnan(b))).all(1)
    gy, ry = got["trace"]["ys"].reshape(m, n + 1, -1), ref["trace"]["ys"].reshape(m, n + 1, -1)
    sure = np.ones(m, bool)
    if needs_residual:
        # when the hand-posed run would stop, were the residual tested as well
        term, res = ref["trace"]["term"], ref["trace"]["res"]
        r = ref["trace"]["auxs"][0].reshape(m, n, -1)
        stop, result = np.full(m, -1), np.full(m, -1)
        for k in range(min(n, limit) + 1):
            with np.errstate(all="ignore"):
                size = norm_np(normname, r[:, k - 1]) if k else np.full(m, np.inf)
                near = size < tol[:, 1]
                sure &= ~((np.abs(size - tol[:, 1]) <= 1e-9 * tol[:, 1]) & (stop < 0))
            fin = np.isfinite(ry[:, k]).all(1)
            code = np.where(fin, res[:, k], trace.NONFINITE)
            ends = (term[:, k] & near) | (code != 0)
            here = ends & (stop < 0)
            stop[here], result[here] = k, code[here]
        result[stop < 0] = trace.MAXSTEPS
        stop[stop < 0] = min(n, limit)
    else:
        stop, result = ref["steps"], ref["result"]
    # Once rounding has grown, two programs may part company; that is seen at the iterates.
    parted = np.zeros(m, bool)
    for k in range(n + 1):
        live = (k <= stop) & (k <= got["steps"]) & ~parted
        if k:
            small = np.abs(gy[:, k] - ry[:, k]).max(1) <= 1e-6 * (np.abs(ry[:, k]).max(1) + np.abs(ry[:, k] - ry[:, k - 1]).max(1)) + 1e-9
            drift = live & ~eq(gy[:, k], ry[:, k]) & small
            parted |= drift
            live &= ~drift
        t.check_all(
            eq(gy[:, k], ry[:, k]) | ~live, "the iterates differ from those of the problem posed by hand",
            detail=lambda ix: detail(ix, at=k, got=gy[ix[0], : k + 1], expected=ry[ix[0], : k + 1]),
        )
        t.transitions += int((live & (k > 0)).sum())
    sure &= ~parted
    t.undecided += int((~sure).sum())
    t.check_all((got["steps"] == stop) | ~sure, "the step count differs from that of the problem posed by hand", detail=lambda ix: detail(ix, expected=stop[ix[0]]))
    t.check_all((got["result"] == result) | ~sure, "the outcome differs from that of the problem posed by hand", detail=lambda ix: detail(ix, expected=trace.name(result[ix[0]])))
    # the auxiliary output is the user's own
    if needs_residual:
        at = np.maximum(stop - 1, 0)
        want = jtu.tree_map(lambda x: np.where((stop > 0).reshape((m,) + (1,) * (x.ndim - 2)), x[np.arange(m), at], 0), ref["trace"]["auxs"][1])
        value = got["value"]
        if name.startswith("BestSoFar"):
            want = value = None
    else:
        want, value = ref["aux"][1], ref["value"]
    if want is not None:
        for leaf in want:
            t.check_all(eq(flat(got["aux"][leaf]), flat(want[leaf])) | ~sure, "the auxiliary output differs", detail=lambda ix: detail(ix, leaf=leaf, got=got["aux"][leaf][ix[0]], expected=want[leaf][ix[0]]))
        t.check_all(eq(flat(got["value"]), flat(value)) | ~sure, "the value differs", detail=detail)
        if not name.startswith("BestSoFar"):
            t.check_all(eq(flat(got["value"]), gy[np.arange(m), got["steps"]]), "the value is not the last iterate", detail=detail)
    for r_ in np.unique(got["result"]):
        t.outcome(trace.name(r_), (got["result"] == r_).sum())
    t.count_states((np.concatenate([gy.reshape(m, -1), tol] + [v[:, None] for v in p.values()], 1), 1))
    single = jax.jit(converted)
    for i in core.pick(m, 3, str(job)):
        for _ in range(2):
            o = jtu.tree_map(np.asarray, single(y0[i], {k: v[i] for k, v in p.items()}, tol[i]))
            if not trace.tree_close(o["trace"]["ys"][:4], got["trace"]["ys"][i][:4], 1e-6, 1e-6):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.sample(**detail((0,)), points=gy[0, :4])
    return t


def inputs(job, t):
    """Integers and Python numbers as initial guess, as output, and in arguments."""
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np

    from mc import solvers, trace
    import optimistix as optx

    entry, name = job["entry"], job["solver"]
    solver = make(name, (1e-6, 1e-6), optx.max_norm)
    base = dict(
        root_find=lambda y, a: (a[0] * y[0] + y[0] ** 3 - 1.0, y[1] * a[1] + 0.5 * y[0] - 2.0),
        fixed_point=lambda y, a: (0.25 * y[1] + 0.1 * a[0], 0.5 * y[0] - 0.2 * a[1]),
        least_squares=lambda y, a: (a[0] * y[0] - 1.0, y[1] * a[1] + 0.5 * y[0] - 2.0, y[0] * y[1]),
        minimise=lambda y, a: (y[0] - a[0]) ** 2 + (y[1] + 1) ** 2 * a[1] + 0.5 * y[0] ** 4,
    )[entry]

    def outcome(y0, fn, args, options=None):
        sol = trace.ENTRY[entry](fn, solver, y0, args, options, max_steps=60, throw=False)
        return jtu.tree_map(np.asarray, sol.value), int(trace.code(sol.result)), int(sol.stats["num_steps"])

    F = lambda x: jnp.asarray(x, float)
    for u, v in ((0, 0), (1, -2), (3, 1), (-1, 2)):
        for a in ((2, 1), (1, 3)):
            ref = outcome((F(u), F(v)), base, (F(a[0]), F(a[1])))
            forms = dict(
                integers=(u, v), floats=(float(u), float(v)), numpy=(np.int32(u), np.float64(v)), bools_=(np.array(u), jnp.array(v)),
                int_arrays=(jnp.array(u), jnp.array(v)), numpy_arrays=(np.array(u), np.array(float(v))), mixed=(u, F(v)),
            )
            for label, y0 in forms.items():
                got = outcome(y0, base, (F(a[0]), F(a[1])))
                for x in jtu.tree_leaves(got[0]):
                    if x.dtype != np.dtype(float):
                        t.bad("the value is not of the default floating type", entry=entry, solver=name, form=label, dtype=str(x.dtype))
                if not (trace.tree_close(got[0], ref[0]) and got[1:] == ref[1:]):
                    t.bad("the kind of number of the initial guess matters", entry=entry, solver=name, form=label, guess=[u, v], got=got, expected=ref)
                t.transitions += 1
            for label, args in dict(integers=a, int_arrays=(jnp.array(a[0]), jnp.array(a[1])), floats=(float(a[0]), float(a[1]))).items():
                got = outcome((F(u), F(v)), base, args)
                if not (trace.tree_close(got[0], ref[0]) and got[1:] == ref[1:]):
                    t.bad("the kind of number of the arguments matters", entry=entry, solver=name, form=label, got=got, expected=ref)
                t.transitions += 1
            t.states += 1
            t.traces += 1
            t.outcome(trace.name(ref[1]))
    if entry in ("root_find", "least_squares", "fixed_point"):
        # an output that is a Python number, next to arrays
        odd = lambda y, a: (base(y, a) + (0,) if entry != "fixed_point" else base(y, a))
        ok = lambda y, a: (base(y, a) + (F(0),) if entry != "fixed_point" else base(y, a))
        if entry == "least_squares" or (entry == "root_find" and native(solver) != "root_find"):
            a, b = outcome((1.0, 2.0), odd, (2.0, 1.0)), outcome((1.0, 2.0), ok, (2.0, 1.0))
            if not (trace.tree_close(a[0], b[0]) and a[1:] == b[1:]):
                t.bad("a Python number in the output is treated differently", got=a, expected=b)
            t.transitions += 1
    return t


def passed(job, t):
    """What the solver and the adjoint are given."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from mc import trace

    entry, kind = job["entry"], job["kind"]
    bases = dict(min=optx.AbstractMinimiser, lsq=optx.AbstractLeastSquaresSolver, root=optx.AbstractRootFinder)

    class Probe(bases[kind]):
        """Steps halfway to zero; reports the arguments and options it was given."""

        rtol: float = 1e-3
        atol: float = 1e-3
        norm: object = optx.max_norm

        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            return (jnp.array(0), options["number"], args["x"])

        def step(self, fn, y, args, options, state, tags):
            f, aux = fn(y, args)
            return y * options["rate"], (state[0] + 1, options["number"], args["x"]), aux

        def terminate(self, fn, y, args, options, state, tags):
            f, _ = fn(y, args)
            return self.norm(y) < options["small"], optx.RESULTS.where(state[0] >= options["fail_at"], optx.RESULTS.nonlinear_divergence, optx.RESULTS.successful)

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            return y, aux, dict(seen=state, label=jnp.array(len(options["label"])), rate=options["rate"])

    fn_plain = dict(
        root_find=lambda y, a: y * a["x"], fixed_point=lambda y, a: y * a["x"], least_squares=lambda y, a: y * a["x"],
    )[entry]
    fn_aux = lambda y, a: (fn_plain(y, a), (y, a["x"], None, a["n"]))
    y0 = jnp.array([8.0, -4.0])
    for rate in (0.5, 0.25, 0.0):
        for small in (1.0, 1e-2):
            for fail_at in (2, 100):
                for limit in (0, 1, 2, 3, 20, None):
                    args = dict(x=jnp.array(3.0), n=7, t=None)
                    options = dict(rate=jnp.array(rate), small=small, number=jnp.array(11), label="abcd", fail_at=fail_at)
                    sizes = [8.0]
                    while sizes[-1] >= small:
                        sizes.append(sizes[-1] * rate)
                    # with roots the residual, at the point before, must be small, too
                    k, r, scale = 0, None, dict(root_find=3.0, fixed_point=2.0, least_squares=1.0)[entry]
                    extra = entry in ("root_find", "fixed_point") and kind != "root"
                    while r is None:
                        size = 8.0 * rate**k
                        near = not extra or (k > 0 and 8.0 * rate ** (k - 1) * scale < 1e-3)
                        if k >= fail_at:
                            r = trace.DIVERGENCE
                        elif size < small and near:
                            r = trace.SUCCESS
                        elif limit is not None and k >= limit:
                            r = trace.MAXSTEPS
                        else:
                            k += 1
                    for has_aux in (True, False):
                        for y_form in ("array",):
                            sol = trace.ENTRY[entry](
                                fn_aux if has_aux else fn_plain, Probe(), y0, args, options, has_aux=has_aux, max_steps=limit, throw=False
                            )
                            got = (int(sol.stats["num_steps"]), int(trace.code(sol.result)))
                            where = dict(entry=entry, kind=kind, options={q: str(v) for q, v in options.items()}, limit=limit, has_aux=has_aux)
                            if got != (k, r):
                                t.bad("steps or outcome differ", got=got, expected=[k, r], **where)
                            if sol.stats["max_steps"] != limit and not (limit is not None and int(sol.stats["max_steps"]) == limit):
                                t.bad("the step limit is not passed on", got=sol.stats["max_steps"], **where)
                            seen = [float(x) for x in sol.stats["seen"]] + [float(sol.stats["label"]), float(sol.stats["rate"])]
                            if seen != [k, 11.0, 3.0, 4.0, rate]:
                                t.bad("options or arguments are not passed on", got=seen, **where)
                            if not np.array_equal(np.asarray(sol.value), np.asarray(y0) * rate**k):
                                t.bad("the value is not the solver's", got=sol.value, **where)
                            if not has_aux and sol.aux is not None:
                                t.bad("an auxiliary output appears", got=str(sol.aux), **where)
                            if has_aux:
                                at = np.asarray(y0) * rate ** (k - 1) if k else np.zeros(2)
                                if not (np.array_equal(sol.aux[0], at) and sol.aux[2] is None and (k == 0 or float(sol.aux[1]) == 3.0)):
                                    t.bad("the auxiliary output is not the user's", got=str(sol.aux), expected=at, **where)
                            t.states += 1
                            t.transitions += k
                            t.outcome(trace.name(r))
                    # error mode
                    if limit in (1, 20):
                        raised = False
                        try:
                            jtu.tree_map(lambda x: x.block_until_ready() if hasattr(x, "block_until_ready") else x, trace.ENTRY[entry](fn_plain, Probe(), y0, args, options, max_steps=limit, throw=True).value)
                        except Exception:
                            raised = True
                        if raised != (r != trace.SUCCESS):
                            t.bad("the error mode is not respected", raised=raised, expected=trace.name(r), **where)
                        t.outcome("raised" if raised else "did not raise")
                        t.traces += 1

    # a user's adjoint is the one that runs the loop
    calls = []

    class Spy(optx.AbstractAdjoint):
        mark: int = 5

        def apply(self, primal_fn, rewrite_fn, inputs, tags):
            calls.append(self.mark)
            y, rest = optx.ImplicitAdjoint().apply(primal_fn, rewrite_fn, inputs, tags)
            return jtu.tree_map(lambda x: x + 100.0, y), rest

    options = dict(rate=jnp.array(0.5), small=1e-2, number=jnp.array(11), label="abcd", fail_at=100)
    args = dict(x=jnp.array(3.0), n=7, t=None)
    a = trace.ENTRY[entry](fn_plain, Probe(), y0, args, options, adjoint=Spy(), throw=False)
    b = trace.ENTRY[entry](fn_plain, Probe(), y0, args, options, throw=False)
    if calls != [5] or not np.allclose(np.asarray(a.value), np.asarray(b.value) + 100.0):
        t.bad("the adjoint is not passed on", calls=len(calls), got=a.value, expected=b.value)
    t.transitions += 2
    # derivatives through it: the checkpointing adjoint sees the steps, the default does not
    g = jax.grad(lambda y: jnp.sum(trace.ENTRY[entry](fn_plain, Probe(), y, args, options, max_steps=3, adjoint=optx.RecursiveCheckpointAdjoint(), throw=False).value))(y0)
    if not np.allclose(np.asarray(g), 0.125):
        t.bad("the checkpointing adjoint is not passed on", got=g)
    g = jax.grad(lambda y: jnp.sum(trace.ENTRY[entry](fn_plain, Probe(), y, args, options, max_steps=3, throw=False).value))(y0)
    if not np.allclose(np.asarray(g), 0):
        t.bad("the default adjoint is not the implicit one", got=g)
    t.transitions += 2
    return t


if __name__ == "__main__":
    LSQ = ["GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg", "GN+Armijo", "BestSoFarLsq"]
    MIN = [
        "BFGS", "BFGS-direct", "DFP", "LBFGS", "NonlinearCG-PR", "NonlinearCG-DY", "GradientDescent", "Optax-adam", "NelderMead",
        "BFGS+ClassicalTR+Dogleg", "Steepest+LinearTR", "BestSoFarMin",
    ]
    jobs = []
    big = STEPS
    for s in LSQ + MIN:
        jobs.append(dict(part="runs", entry="root_find", solver=s, norm="two", limit=big))
        jobs.append(dict(part="runs", entry="fixed_point", solver=s, norm="max" if s in LSQ else "two", limit=big))
    for s in ["Newton", "NewtonNoCauchy", "Chord", "BestSoFarRoot"]:
        for norm in ("max", "rms"):
            jobs.append(dict(part="runs", entry="fixed_point", solver=s, norm=norm, limit=big))
        jobs.append(dict(part="runs", entry="fixed_point", solver=s, norm="two", limit=2))
    for s in MIN:
        jobs.append(dict(part="runs", entry="least_squares", solver=s, norm="max", limit=big))
    for s in ("GaussNewton", "BFGS", "NonlinearCG-PR"):
        for norm in ("max", "rms"):
            jobs.append(dict(part="runs", entry="root_find", solver=s, norm=norm, limit=big))
        for limit in (0, 1, 3):
            jobs.append(dict(part="runs", entry="root_find", solver=s, norm="two", limit=limit))
            jobs.append(dict(part="runs", entry="fixed_point", solver=s, norm="rms", limit=limit))
    for limit in (0, 1, 3):
        jobs.append(dict(part="runs", entry="least_squares", solver="BFGS", norm="rms", limit=limit))
    for e, s in (("fixed_point", "Bisection"), ("least_squares", "GoldenSearch"), ("root_find", "GoldenSearch"), ("fixed_point", "GoldenSearch")):
        jobs.append(dict(part="runs", entry=e, solver=s, norm="max", limit=big))
    for e, ss in dict(
        root_find=("Newton", "Chord", "GaussNewton", "LevenbergMarquardt", "BFGS"), fixed_point=("FixedPointIteration", "Newton", "GaussNewton", "BFGS"),
        least_squares=("GaussNewton", "LevenbergMarquardt", "BFGS", "NelderMead"), minimise=("BFGS", "LBFGS", "NonlinearCG-PR", "NelderMead", "GradientDescent", "Optax-adam"),
    ).items():
        jobs += [dict(part="inputs", entry=e, solver=s) for s in ss]
    for e, kinds in dict(root_find=("min", "lsq"), fixed_point=("min", "lsq", "root"), least_squares=("min",)).items():
        jobs += [dict(part="passed", entry=e, kind=k) for k in kinds]
    order = dict(passed=0, inputs=1, runs=2)
    jobs.sort(key=lambda j: order[j["part"]])
    core.main(
        "C19", jobs, run,
        rule="all problems x starts x tolerances for each (entry point, solver, norm, limit); all option values, limits and input kinds of the tables",
        bounds=dict(steps=STEPS, tolerances=TOLS),
        assumptions=["runs whose iterates part by rounding only are not judged from there on"],
    )
