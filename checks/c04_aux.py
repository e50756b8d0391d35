"""C04: whose auxiliary output a solve returns.

The user's function returns as auxiliary output the very point it was called at (plus
integers, booleans and nesting derived from it). Every problem, start, step limit, solver,
entry point and wrapper is run with a recording wrapper, and after every single step the
auxiliary output must name the iterate the step started from, bit for bit."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 14 if core.THOROUGH else 9
TOLS = [(1e-3, 1e-3), (0.1, 0.5)]
LIMITS = [0, 1, 2, 4, STEPS] if core.THOROUGH else [0, 1, 3, STEPS]
SCALAR = ["Bisection", "GoldenSearch"]
WRAP = dict(min="BestSoFarMinimiser", lsq="BestSoFarLeastSquares", root="BestSoFarRootFinder",
            fix="BestSoFarFixedPoint")

FEW = {"BFGS", "LBFGS", "NonlinearCG-PR", "Optax-adam", "NelderMead", "GradientDescent",
       "GaussNewton", "LevenbergMarquardt", "Dogleg", "Newton", "FixedPointIteration",
       "Chord"}


def makers():
    import optimistix as optx

    from mc import solvers

    out = {k: (solvers.kind_of(k), v) for k, v in solvers.ALL.items()}
    out["NelderMead"] = ("min", lambda r, a, n: optx.NelderMead(r, a, n))
    out["GoldenSearch"] = ("min", lambda r, a, n: optx.GoldenSearch(r, a))
    out["Newton"] = ("root", lambda r, a, n: optx.Newton(r, a, n))
    out["Chord"] = ("root", lambda r, a, n: optx.Chord(r, a, n))
    out["Newton-rate"] = ("root", lambda r, a, n: optx.Newton(r, a, n, cauchy_termination=False))
    out["Bisection"] = ("root", lambda r, a, n: optx.Bisection(r, a))
    out["FixedPointIteration"] = ("fix", lambda r, a, n: optx.FixedPointIteration(r, a, n, 0.25))
    return out


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    name, entry, family, wrap = job["solver"], job["entry"], job["family"], job["wrap"]
    kind, make = makers()[name]
    scalar = family != "smooth"
    options = {}
    if family == "smooth":
        rows = fam.smooth_params(core.THOROUGH)[:: 1 if core.THOROUGH else 3]
        params, starts = fam.stack(rows), fam.STARTS

        def value(y, p):
            if entry == "minimise":
                return fam.smooth_min(y, p)
            r = fam.smooth_res(y, p)
            if entry == "least_squares":
                return (r[:1], r[1:])
            if entry == "root_find":
                return r[:2] + r[2:]
            return y - 0.125 * (r[:2] + r[2:])

    else:
        if name == "Bisection":
            signs = np.array([[-1, -1, 1, 1], [-2, 1, 1, 2], [-1, -1, -2, 1]], float)
            v = np.concatenate([signs, -signs])
            s = np.ones_like(v)
        elif name == "GoldenSearch":
            v, _ = fam.tables((0.0, 1.0, 2.0), (1.0,), 4)
            s = np.ones_like(v)
        else:
            v, s = fam.tables((0.0, 1.0, 1.01, np.nan), (-1.0, 0.5), 3)
            v, s = fam.product_batch(v, s)
        params = dict(v=v, s=s, res=np.full(len(v), 2.0))
        starts = np.array([0.25, 1.3])
        if name in SCALAR:
            options = dict(lower=0.0, upper=1.999)

        def value(y, p):
            f = fam.table_min(y, p)
            if entry == "fixed_point":
                return y - f
            return jnp.stack([f, 0.5 * f]) if entry == "least_squares" else f

    def tagged(y):
        head = y if scalar else y[0]
        return dict(
            at=y, cell=jnp.floor(jnp.clip(head * 8, -1000, 1000)).astype(int), nest=(head > 0.5, [y * 2.0]),
        )

    def fn(y, p):
        return value(y, p), tagged(y)

    def loss(y, p):
        v = value(y, p)
        if entry == "minimise":
            return v
        if entry == "fixed_point":
            v = v - y
        return sum(jnp.sum(x**2) for x in jax.tree_util.tree_leaves(v))

    norm = optx.max_norm

    def solve(limit):
        def one(p, y0, tol):
            solver = make(tol[0], tol[1], norm)
            if wrap:
                solver = getattr(optx, WRAP[kind])(solver)
            solver = trace.record(solver, STEPS)
            sol = trace.ENTRY[entry](
                fn, solver, y0, p, options, has_aux=True, max_steps=limit, throw=False
            )
            tr = sol.stats["trace"]
            auxs = tr["auxs"]
            if entry in ("root_find", "fixed_point") and kind in ("min", "lsq"):
                _, auxs = auxs  # the converted problem carries the residual along
            return dict(
                value=sol.value, aux=sol.aux, auxs=auxs, ys=tr["ys"],
                k=sol.stats["num_steps"], result=trace.code(sol.result),
            )

        return one

    p, y0, tol = fam.product_batch(params, starts, np.array(TOLS))
    n = len(tol)

    def tags_np(y):
        head = y if scalar else y[..., 0]
        return dict(at=y, cell=np.floor(np.clip(np.nan_to_num(head) * 8, -1000, 1000)).astype(int), nest=(head > 0.5, [y * 2.0]))

    def agree(aux, ref, mask):
        ok = np.ones(mask.shape, bool)
        for a, b in zip(jax.tree_util.tree_leaves(aux), jax.tree_util.tree_leaves(ref)):
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype.kind != b.dtype.kind:
                return np.zeros(mask.shape, bool)
            same = (a == b) | ((a != a) & (b != b))
            ok &= same.reshape(mask.shape + (-1,)).all(-1)
        return ok | ~mask

    limits = LIMITS
    if not core.THOROUGH and (wrap or family != "smooth" or name not in FEW):
        limits = [STEPS]
    for limit in limits:
        out = trace.batched(solve(limit), p, y0, tol, chunk=4096)
        K = out["k"]
        ys = out["ys"]

        def where(i):
            j = i[0]
            return dict(
                solver=name, entry=entry, wrap=wrap, limit=limit, steps=K[j],
                params={k: v[j] for k, v in p.items()}, start=y0[j], tol=tol[j],
                ys=ys[j, : K[j] + 1], aux=out["aux"]["at"][j],
                auxs=out["auxs"]["at"][j, : K[j]], value=out["value"][j],
            )

        steps = np.arange(1, STEPS + 1)[None]
        taken = steps <= K[:, None]
        # Golden-section search ignores the initial guess, so its first step evaluates
        # another point.
        taken_c = taken & (steps >= 2) if name == "GoldenSearch" else taken
        zero = K == 0
        if not wrap:
            t.check_all(
                agree(out["auxs"], tags_np(ys[:, :-1]), taken_c),
                "auxiliary output of a step is not that of the iterate it started from",
                detail=where,
            )
            idx = np.maximum(K - 1, 0)
            start_y = ys[np.arange(n), idx]
            mask = ~zero & ((K >= 2) | (name != "GoldenSearch"))
            t.check_all(
                agree(out["aux"], tags_np(start_y), mask),
                "auxiliary output of the solve is not that of the last step's start",
                detail=where,
            )
        else:
            # Of the returned point, if any iterate had a loss to compare.
            fs = np.asarray(
                jax.vmap(lambda y, q: jax.vmap(lambda z: loss(z, q))(y))(ys, p)
            ).reshape(n, STEPS + 1)
            seen = np.where(taken, fs[:, :-1], np.nan)
            usable = (~np.isnan(seen) & (seen < np.inf)).any(axis=1)
            mask = ~zero & usable
            t.check_all(
                agree(out["aux"], tags_np(out["value"]), mask),
                "best-so-far auxiliary output is not that of the returned point",
                detail=where,
            )
        zeros = jax.tree_util.tree_map(np.zeros_like, tags_np(out["value"]))
        t.check_all(
            agree(out["aux"], zeros, zero), "auxiliary output without steps is not zero",
            detail=where,
        )
        ref = jax.eval_shape(tagged, jax.ShapeDtypeStruct(y0.shape[1:], y0.dtype))
        if jax.tree_util.tree_structure(out["aux"]) != jax.tree_util.tree_structure(ref):
            t.bad("auxiliary output has another structure", entry=entry, solver=name)
        t.transitions += int(K.sum())
        live = np.broadcast_to(taken[..., None] if ys.ndim == 3 else taken, ys[:, 1:].shape)
        flat = np.where(live, ys[:, 1:], -77.0).reshape(n * STEPS, -1)
        t.count_states((flat[taken.reshape(-1)], 1), (np.where(taken, steps, 0)[taken], 1))
        still = taken & (ys[:, 1:] == ys[:, :-1]).reshape(n, STEPS, -1).all(-1) & (steps > 1)
        t.outcome("iterate kept", still.sum())
        t.outcome("iterate moved", (taken & ~still).sum())
        t.outcome("no step", zero.sum())

    # Conformance: unbatched, and without auxiliary output.
    single = eqx.filter_jit(solve(limits[-1]))
    for i in core.pick(n, 2, name + entry):
        pi = {k: v[i] for k, v in p.items()}
        a = jax.tree_util.tree_map(np.asarray, single(pi, y0[i], tol[i]))
        b = jax.tree_util.tree_map(np.asarray, single(pi, y0[i], tol[i]))
        if not trace.tree_same(a, b):
            t.bad("the same solve gave different results twice", index=i)
        k = int(a["k"])
        if not wrap and k > (1 if name == "GoldenSearch" else 0):
            if not trace.same(a["aux"]["at"], a["ys"][k - 1]):
                t.bad("unbatched: wrong auxiliary output", solver=name, entry=entry)
        t.traces += 1
        t.sample(solver=name, entry=entry, start=y0[i], steps=k, aux_at=a["aux"]["at"], ys=a["ys"][: k + 1])
        solver = make(1e-3, 1e-3, norm)
        if wrap:
            solver = getattr(optx, WRAP[kind])(solver)
        sol = trace.ENTRY[entry](value, solver, y0[i], pi, options, max_steps=2, throw=False)
        if sol.aux is not None:
            t.bad("auxiliary output although the function has none", solver=name, entry=entry)
    return t


def jobs():
    reach = dict(
        min=["minimise", "least_squares", "root_find", "fixed_point"],
        lsq=["least_squares", "root_find", "fixed_point"],
        root=["root_find", "fixed_point"],
        fix=["fixed_point"],
    )
    out = []
    for name, (kind, _) in makers().items():
        for entry in reach[kind]:
            if entry != reach[kind][0] and name not in FEW | set(SCALAR):
                continue
            if name in SCALAR:
                families = ["table"]
                if name == "GoldenSearch" and entry != "minimise":
                    continue
            elif name == "NelderMead" or kind in ("root", "fix"):
                families = ["smooth"]
            elif entry == reach[kind][0]:
                families = ["smooth", "table"]
            else:
                families = ["smooth"]
            for family in families:
                out.append(dict(solver=name, entry=entry, family=family, wrap=False))
                # (golden-section search: see known findings of C05)
                if entry == reach[kind][0] and name in FEW | {"Bisection"}:
                    out.append(dict(solver=name, entry=entry, family=family, wrap=True))
    return out


if __name__ == "__main__":
    core.main(
        "C04", jobs(), run,
        rule="after every step: auxiliary output names the iterate the step started from",
        bounds=dict(max_steps=STEPS, limits=LIMITS, tolerances=TOLS),
    )
