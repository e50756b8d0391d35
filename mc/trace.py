"""User-level wrapping solvers that record what a solver does, step by step. They use
only the documented solver interface (init/step/terminate/postprocess)."""

from typing import Any

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import optimistix as optx


RESULT_NAMES = [
    "successful",
    "nonlinear_max_steps_reached",
    "nonlinear_divergence",
    "nonfinite",
    "max_steps_reached",
    "singular",
    "breakdown",
    "stagnation",
    "conlim",
    "nonfinite_input",
]
SUCCESS, MAXSTEPS, DIVERGENCE, NONFINITE = 0, 1, 2, 3


def name(k):
    return RESULT_NAMES[int(k)] if int(k) < len(RESULT_NAMES) else "other"


def code(result):
    """Outcome -> small integer (index in RESULT_NAMES, 99 if none)."""
    out = jnp.array(99)
    for i, name in enumerate(RESULT_NAMES):
        out = jnp.where(result == getattr(optx.RESULTS, name), i, out)
    return out


class _RecState(eqx.Module):
    inner: Any
    k: jax.Array
    ys: Any
    auxs: Any
    term: jax.Array
    res: jax.Array


def _buf(n, x):
    x = jnp.asarray(x)
    return jnp.zeros((n,) + x.shape, x.dtype)


class _Rec(eqx.Module):
    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        inner = self.solver.init(fn, y, args, options, f_struct, aux_struct, tags)
        t, r = self.solver.terminate(fn, y, args, options, inner, tags)
        ys = jtu.tree_map(lambda x: _buf(self.n + 1, x).at[0].set(x), y)
        auxs = jtu.tree_map(
            lambda s: jnp.zeros((self.n,) + s.shape, s.dtype), aux_struct
        )
        term = jnp.zeros(self.n + 1, bool).at[0].set(t)
        res = jnp.full(self.n + 1, -1).at[0].set(code(r))
        return _RecState(inner, jnp.array(0), ys, auxs, term, res)

    def step(self, fn, y, args, options, state, tags):
        new_y, inner, aux = self.solver.step(fn, y, args, options, state.inner, tags)
        t, r = self.solver.terminate(fn, new_y, args, options, inner, tags)
        k = state.k
        ys = jtu.tree_map(lambda b, x: b.at[k + 1].set(x), state.ys, new_y)
        auxs = jtu.tree_map(lambda b, x: b.at[k].set(x), state.auxs, aux)
        term = state.term.at[k + 1].set(t)
        res = state.res.at[k + 1].set(code(r))
        return new_y, _RecState(inner, k + 1, ys, auxs, term, res), aux

    def terminate(self, fn, y, args, options, state, tags):
        t, r = self.solver.terminate(fn, y, args, options, state.inner, tags)
        if self.free:
            # Keep stepping whatever the solver says, until the buffer is full.
            return state.k >= self.n, optx.RESULTS.successful
        return t, r

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        y, aux, stats = self.solver.postprocess(
            fn, y, aux, args, options, state.inner, tags, result
        )
        stats = dict(stats)
        stats["trace"] = dict(
            ys=state.ys, auxs=state.auxs, term=state.term, res=state.res, k=state.k
        )
        return y, aux, stats




class RecMin(_Rec, optx.AbstractMinimiser):
    solver: optx.AbstractMinimiser
    n: int = eqx.field(static=True)
    free: bool = eqx.field(static=True, default=False)

    @property
    def rtol(self):
        return self.solver.rtol

    @property
    def atol(self):
        return self.solver.atol

    @property
    def norm(self):
        return self.solver.norm


class RecLsq(_Rec, optx.AbstractLeastSquaresSolver):
    solver: optx.AbstractLeastSquaresSolver
    n: int = eqx.field(static=True)
    free: bool = eqx.field(static=True, default=False)

    @property
    def rtol(self):
        return self.solver.rtol

    @property
    def atol(self):
        return self.solver.atol

    @property
    def norm(self):
        return self.solver.norm


class RecRoot(_Rec, optx.AbstractRootFinder):
    solver: optx.AbstractRootFinder
    n: int = eqx.field(static=True)
    free: bool = eqx.field(static=True, default=False)

    @property
    def rtol(self):
        return self.solver.rtol

    @property
    def atol(self):
        return self.solver.atol

    @property
    def norm(self):
        return self.solver.norm


class RecFix(_Rec, optx.AbstractFixedPointSolver):
    solver: optx.AbstractFixedPointSolver
    n: int = eqx.field(static=True)
    free: bool = eqx.field(static=True, default=False)

    @property
    def rtol(self):
        return self.solver.rtol

    @property
    def atol(self):
        return self.solver.atol

    @property
    def norm(self):
        return self.solver.norm


def record(solver, n, free=False):
    if isinstance(solver, optx.AbstractMinimiser):
        return RecMin(solver, n, free)
    if isinstance(solver, optx.AbstractLeastSquaresSolver):
        return RecLsq(solver, n, free)
    if isinstance(solver, optx.AbstractRootFinder):
        return RecRoot(solver, n, free)
    return RecFix(solver, n, free)


ENTRY = dict(
    minimise=optx.minimise,
    least_squares=optx.least_squares,
    root_find=optx.root_find,
    fixed_point=optx.fixed_point,
)


def runner(
    entry, fn, solver, n, *, free=False, options=None, adjoint=None, wrap=None,
    has_aux=True, max_steps=-1, tags=frozenset(),
):
    """A function (y0, args[, options]) -> dict of plain arrays describing one solve,
    for use under jit/vmap."""
    rec = record(solver, n, free)
    if wrap is not None:
        rec = wrap(rec)
    kw = {} if adjoint is None else dict(adjoint=adjoint)
    steps = n if max_steps == -1 else max_steps

    def run(y0, args, dyn_options=None):
        opts = dict(options or {})
        opts.update(dyn_options or {})
        sol = ENTRY[entry](
            fn, rec, y0, args, opts, has_aux=has_aux, max_steps=steps, throw=False,
            tags=tags, **kw
        )
        out = dict(
            value=sol.value, result=code(sol.result), aux=sol.aux,
            steps=sol.stats["num_steps"],
        )
        if "trace" in sol.stats:
            out["trace"] = sol.stats["trace"]
        out["stats"] = {
            k: v for k, v in sol.stats.items()
            if k not in ("trace", "num_steps", "max_steps")
        }
        return out

    return run


def solve(entry, fn, solver, *, max_steps, options=None, has_aux=True, adjoint=None):
    """A function (y0, args[, options]) -> dict of plain arrays, without recording."""
    kw = {} if adjoint is None else dict(adjoint=adjoint)

    def run(y0, args, dyn_options=None):
        opts = dict(options or {})
        opts.update(dyn_options or {})
        sol = ENTRY[entry](
            fn, solver, y0, args, opts, has_aux=has_aux, max_steps=max_steps,
            throw=False, **kw
        )
        return dict(
            value=sol.value, result=code(sol.result), aux=sol.aux,
            steps=sol.stats["num_steps"],
        )

    return run


def batched(run, *batches, chunk=None):
    """Execute `run` over the leading axis of the inputs with vmap; numpy out."""
    f = eqx.filter_jit(jax.vmap(run))
    n = jtu.tree_leaves(batches)[0].shape[0]
    chunk = chunk or n
    outs = []
    for i in range(0, n, chunk):
        part = jtu.tree_map(lambda x: x[i : i + chunk], batches)
        m = jtu.tree_leaves(part)[0].shape[0]
        if m < chunk and i > 0:  # pad, so as to compile once
            part = jtu.tree_map(
                lambda x: np.concatenate([x, np.repeat(x[:1], chunk - m, 0)]), part
            )
        o = jtu.tree_map(np.asarray, f(*part))
        outs.append(jtu.tree_map(lambda x: x[:m], o))
    if len(outs) == 1:
        return outs[0]
    return jtu.tree_map(lambda *xs: np.concatenate(xs), *outs)


def same(a, b):
    """Bitwise equality, NaN equal to NaN."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))


def tree_same(a, b):
    la, ta = jtu.tree_flatten(a)
    lb, tb = jtu.tree_flatten(b)
    return ta == tb and all(same(x, y) for x, y in zip(la, lb))


def tree_close(a, b, rtol=1e-9, atol=1e-9):
    la, ta = jtu.tree_flatten(a)
    lb, tb = jtu.tree_flatten(b)
    if ta != tb:
        return False
    return all(
        np.asarray(x).shape == np.asarray(y).shape
        and np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        for x, y in zip(la, lb)
    )
