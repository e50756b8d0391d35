"""C05: best-so-far wrappers against every sequence of losses.

A user-defined solver walks through a script of losses (finite, tied, NaN, infinite) and
stops where the script says. Every script is run inside every wrapper through every entry
point and compared with a scan for the first smallest loss; real solvers are wrapped as
well, and their wrapped and plain runs are compared iterate by iterate."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


LENGTH = 6 if core.THOROUGH else 5
STEPS = 20 if core.THOROUGH else 12
inf, nan = float("inf"), float("nan")
# (2, 2) is larger than (2.5, 0) as a sum of squares though not as a maximum
RESIDUALS = [(0, 0), (1, 0), (0, -1), (2, 2), (-2.5, 0), (nan, 0), (0, inf)]
VALUES = [0, 1, 2, -1, nan, inf, -inf]
CONFIGS = [
    ("minimise", "min"), ("least_squares", "lsq"), ("least_squares", "min"),
    ("root_find", "root"), ("root_find", "lsq"), ("root_find", "min"),
    ("fixed_point", "fix"), ("fixed_point", "root"), ("fixed_point", "lsq"),
    ("fixed_point", "min"),
]
WRAP = dict(min="BestSoFarMinimiser", lsq="BestSoFarLeastSquares", root="BestSoFarRootFinder",
            fix="BestSoFarFixedPoint")


def scripted(kind):
    import equinox as eqx
    import jax.numpy as jnp
    import optimistix as optx
    from typing import Any

    class State(eqx.Module):
        k: Any

    class Body(eqx.Module):
        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            return State(jnp.array(0))

        def step(self, fn, y, args, options, state, tags):
            _, aux = fn(y, args)
            new = dict(a=y["a"] + 1.0, b=(y["b"][0] * 2.0,))
            return new, State(state.k + 1), aux

        def terminate(self, fn, y, args, options, state, tags):
            R = optx.RESULTS
            fail = state.k == options["fail"]
            return state.k == options["stop"], R.where(fail, R.nonlinear_divergence, R.successful)

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            return y, aux, {}

    base = dict(
        min=optx.AbstractMinimiser, lsq=optx.AbstractLeastSquaresSolver,
        root=optx.AbstractRootFinder, fix=optx.AbstractFixedPointSolver,
    )[kind]

    class Solver(Body, base):
        rtol: Any = 0.5
        atol: Any = 1e9
        norm: Any = optx.two_norm

    return Solver()


def first_best(losses, count):
    """Index of the first smallest loss below infinity among the first `count`, else -1."""
    best, at = inf, -1
    for i in range(count):
        if losses[i] < best:
            best, at = losses[i], i
    return at


def run_script(job):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    entry, kind = job["entry"], job["kind"]
    limit = job["limit"]
    solver = getattr(optx, WRAP[kind])(scripted(kind))
    residuals = entry != "minimise"

    def fn(y, table):
        k = y["a"].astype(int)
        aux = dict(k=k, b=y["b"][0], odd=(k % 2 == 1,))
        if entry == "minimise":
            return table[k], aux
        r = table[k]
        if entry == "fixed_point":
            zeros = jnp.zeros(3).at[1].set(r[1])
            return dict(a=y["a"] + r[0], b=(y["b"][0] + zeros,)), aux
        return dict(u=r[:1], v=[jnp.zeros((2, 1)), r[1]]), aux

    def one(table, stop, fail):
        y0 = dict(a=jnp.array(0.0), b=(jnp.array([1.0, -2.0, 4.0]),))
        sol = trace.ENTRY[entry](
            fn, solver, y0, table, dict(stop=stop, fail=fail), has_aux=True,
            max_steps=limit, throw=False,
        )
        return dict(
            value=sol.value, aux=sol.aux, steps=sol.stats["num_steps"],
            result=trace.code(sol.result),
        )

    alphabet = RESIDUALS if residuals else VALUES
    ids = np.array(list(itertools.product(range(len(alphabet)), repeat=LENGTH)))
    table = np.array(alphabet, float)[ids]
    # one more, never evaluated, entry: a loss smaller than all, to be ignored
    pad = np.zeros(2) if residuals else -inf
    table = np.concatenate([table, np.broadcast_to(pad, table[:, :1].shape)], axis=1)
    # where it stops: at the k-th iterate with success or failure, or not at all
    ends = [(k, 99) for k in range(LENGTH + 1)] + [(99, k) for k in (0, 2, LENGTH)]
    if limit is not None:
        ends = [(99, 99), (limit, 99)]
    elif entry in ("root_find", "fixed_point") and kind in ("lsq", "min"):
        # (a converted root-find does not stop unless the residual is small as well)
        ends = [(99, k) for k in range(LENGTH + 1)]
    table, ends = fam.product_batch(table, np.array(ends))
    n = len(table)
    out = trace.batched(one, table, ends[:, 0], ends[:, 1], chunk=1 << 15)
    expected_steps = np.minimum(ends.min(axis=1), LENGTH if limit is None else limit)
    K = out["steps"]
    stepwise = np.arange(LENGTH + 1)[None] < expected_steps[:, None]
    if entry == "minimise":
        loss = table
    else:
        loss = (table**2).sum(-1)
    usable = stepwise & (loss < np.inf)
    masked = np.where(usable, loss, np.inf)
    at = np.where(usable.any(axis=1), masked.argmin(axis=1), -1)
    # -inf is a loss like any other, except that "smallest" is found by argmin too
    value_k = out["value"]["a"]

    def where(i):
        j = i[0]
        return dict(
            job=job, losses=loss[j], ends=ends[j], steps=K[j], returned=value_k[j],
            aux=out["aux"]["k"][j], expected=at[j],
        )

    t.check_all(K == expected_steps, "wrapping changed the number of steps", detail=where)
    want = np.maximum(at, 0)
    t.check_all(value_k == want, "not the first smallest loss", detail=where)
    b = np.array([1.0, -2.0, 4.0])[None] * (2.0 ** want)[:, None]
    t.check_all((out["value"]["b"][0] == b).all(-1), "parts of different iterates", detail=where)
    got = at >= 0
    t.check_all(
        ~got | (out["aux"]["k"] == at), "auxiliary output of another iterate", detail=where
    )
    t.check_all(
        ~got | ((out["aux"]["b"] == b).all(-1) & (out["aux"]["odd"][0] == (at % 2 == 1))),
        "auxiliary output mixes iterates", detail=where,
    )
    failed = ends[:, 1] == expected_steps
    stopped = ends[:, 0] == expected_steps
    want_result = np.where(
        failed, trace.DIVERGENCE, np.where(stopped, trace.SUCCESS, trace.MAXSTEPS)
    )
    if WRAP_NATIVE[entry] == kind:
        t.check_all(out["result"] == want_result, "wrapping changed the outcome", detail=where)
    t.transitions += int(K.sum())
    t.count_states((np.nan_to_num(np.where(stepwise, loss, -5.0), nan=-7.0), 1), (ends, 1))
    for o in np.unique(at):
        t.outcome(f"best={o}", (at == o).sum())
    for i in core.pick(n, 3, str(job)):
        a = jax.tree_util.tree_map(np.asarray, one(jnp.asarray(table[i]), *ends[i]))
        ref = first_best(loss[i], int(expected_steps[i]))
        if ref != at[i]:
            raise AssertionError("the two reference scans disagree")
        if int(a["value"]["a"]) != max(ref, 0) or (ref >= 0 and int(a["aux"]["k"]) != ref):
            t.bad("alone: not the first smallest loss", **where((i,)))
        t.traces += 1
        t.sample(losses=loss[i], end=ends[i], returned=a["value"]["a"], job=job)
    return t


WRAP_NATIVE = dict(minimise="min", least_squares="lsq", root_find="root", fixed_point="fix")


def run_real(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from checks import c04_aux
    from mc import families as fam, trace

    t = core.Tally()
    name, entry = job["solver"], job["entry"]
    kind, make = c04_aux.makers()[name]
    scalar = name in c04_aux.SCALAR
    options = {}
    if scalar:
        cells = 5
        v = np.array(list(itertools.product((-1.0, 0.5, 2.0), repeat=cells)))
        if name == "Bisection":
            v = v[v[:, 0] * v[:, -1] < 0]
        params = dict(v=v, s=np.ones_like(v), res=np.full(len(v), 2.5))
        starts = np.array([0.25, 1.3])
        options = dict(lower=0.0, upper=1.999)

        def value(y, p):
            return fam.table_min(y, p)
    else:
        params = fam.stack(fam.smooth_params(core.THOROUGH))
        starts = fam.STARTS

        def value(y, p):
            if entry == "minimise":
                return fam.smooth_min(y, p)
            r = fam.smooth_res(y, p)
            if entry == "least_squares":
                return r
            f = r[:2] + r[2:]
            return f if entry == "root_find" else y - 0.125 * f

    def loss(y, p):
        f = value(y, p)
        if entry == "minimise":
            return f
        if entry == "fixed_point":
            f = f - y
        return jnp.sum(f**2)

    def fn(y, p):
        return value(y, p), y

    def solve(wrap):
        def one(p, y0, tol):
            solver = make(tol[0], tol[1], optx.max_norm)
            if wrap:
                solver = getattr(optx, WRAP[kind])(solver)
            solver = trace.record(solver, STEPS)
            sol = trace.ENTRY[entry](
                fn, solver, y0, p, options, has_aux=True, max_steps=STEPS, throw=False
            )
            tr = sol.stats["trace"]
            return dict(
                value=sol.value, aux=sol.aux, ys=tr["ys"], k=sol.stats["num_steps"],
                result=trace.code(sol.result),
                loss=jax.vmap(lambda y: loss(y, p))(tr["ys"]),
            )

        return one

    p, y0, tol = fam.product_batch(params, starts, np.array([(1e-3, 1e-3), (0.1, 0.5)]))
    a = trace.batched(solve(True), p, y0, tol)
    b = trace.batched(solve(False), p, y0, tol)
    n = len(tol)
    K = b["k"]
    ys = b["ys"].reshape(n, STEPS + 1, -1)
    wys = a["ys"].reshape(n, STEPS + 1, -1)
    value_ = a["value"].reshape(n, -1)

    def where(i):
        j = i[0]
        return dict(
            solver=name, entry=entry, params={k: v[j] for k, v in p.items()}, start=y0[j],
            tol=tol[j], ys=ys[j, : K[j] + 1], wrapped=wys[j, : a["k"][j] + 1],
            loss=b["loss"][j, : K[j]], value=value_[j], steps=K[j], wrapped_steps=a["k"][j],
            result=b["result"][j], wrapped_result=a["result"][j],
        )

    key = "golden-first-probe" if name == "GoldenSearch" else ""
    # The wrapper may change how XLA fuses the objective, hence its rounding.
    same_y = np.isclose(ys, wys, rtol=1e-6, atol=1e-9, equal_nan=True).all((1, 2))
    sane = np.abs(np.nan_to_num(ys)).max((1, 2)) < 1e6
    ok = same_y & (a["k"] == K) & (a["result"] == b["result"])
    t.note("runs_compared", n)
    t.undecided += int((~ok & ~sane).sum())
    t.check_all(ok | ~sane, "wrapping changed the run of the solver", detail=where)
    # what is returned, judged by the wrapped run itself
    K = a["k"]
    taken = np.arange(STEPS + 1)[None] < K[:, None]
    L = a["loss"].reshape(n, STEPS + 1)
    usable = taken & (L < np.inf)
    best = np.where(usable, L, np.inf).min(axis=1)
    slack = 1e-12 * (1 + np.abs(np.nan_to_num(best))) + 1e-300
    near = usable & (L <= (best + slack)[:, None])
    hit = ((wys == value_[:, None]).all(-1) & near).any(axis=1)
    none = ~usable.any(axis=1)
    at_start = (value_ == wys[:, 0]).all(-1)
    t.check_all(
        np.where(none, at_start, hit), "not the best iterate of the run", key=key, detail=where
    )
    t.check_all(
        none | (a["aux"].reshape(n, -1) == value_).all(-1), "auxiliary output of another point",
        key=key, detail=where,
    )
    t.transitions += int(K.sum() + b["k"].sum())
    live = taken[:, 1:].reshape(-1)
    t.count_states((wys[:, 1:].reshape(n * STEPS, -1)[live], 1))
    t.outcome("best is the last evaluated", (near & (np.arange(STEPS + 1) == (K - 1)[:, None])).any(1).sum())
    t.outcome("best is earlier", (~(near & (np.arange(STEPS + 1) == (K - 1)[:, None])).any(1)).sum())
    single = eqx.filter_jit(solve(True))
    for i in core.pick(n, 2, name):
        pi = {k: v[i] for k, v in p.items()}
        o = single(pi, y0[i], tol[i])
        o2 = single(pi, y0[i], tol[i])
        if not trace.tree_same(jax.tree_util.tree_map(np.asarray, o), jax.tree_util.tree_map(np.asarray, o2)):
            t.bad("the same solve gave different results twice", index=i)
        t.traces += 1
        t.sample(solver=name, start=y0[i], losses=L[i, : K[i]], value=o["value"])
    return t


def run(job):
    return run_real(job) if "solver" in job else run_script(job)


def jobs():
    from checks import c04_aux

    out = []
    for entry, kind in CONFIGS:
        for limit in (None, 0, 1, 3):
            out.append(dict(entry=entry, kind=kind, limit=limit))
    native = dict(min="minimise", lsq="least_squares", root="root_find", fix="fixed_point")
    for name, (kind, _) in c04_aux.makers().items():
        out.append(dict(solver=name, entry=native[kind]))
    return out


if __name__ == "__main__":
    core.main(
        "C05", jobs(), run,
        rule="returned = first evaluated iterate whose loss is smallest and below infinity, "
        "else the initial guess; auxiliary output of that iterate",
        bounds=dict(script_length=LENGTH, alphabet=len(VALUES), real_solver_steps=STEPS),
        assumptions=["a tie within 1e-12 of the smallest loss of a real solver's run may go to "
                     "either iterate (scripts decide ties exactly)"],
    )
