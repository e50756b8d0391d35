"""C01: the solve loop, exhaustively against every script of solver answers.

The environment is a user-defined solver that plays a script: symbol k says what iterate
k looks like and what the solver answers about it. Every script of length L over the
alphabet is run through every entry point, conversion, adjoint and step limit, and the
outcome is compared with a plain interpreter of the statement."""

import itertools
import os
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


# name, iterate, asks to stop, outcome the solver reports
SYMBOLS = [
    ("go", "ok", False, "successful"),
    ("stop", "ok", True, "successful"),
    ("stop-divergence", "ok", True, "nonlinear_divergence"),
    ("divergence", "ok", False, "nonlinear_divergence"),
    ("stop-singular", "ok", True, "singular"),
    ("nan-go", "nan", False, "successful"),
    ("nan-stop", "nan", True, "successful"),
    ("inf-go", "inf", False, "successful"),
    ("-inf-stop", "-inf", True, "successful"),
    ("nan-divergence", "nan", False, "nonlinear_divergence"),
]
DEPTH = 9 if core.THOROUGH else 6  # length of scripts
FULL = 4 if core.THOROUGH else 3  # every combination of symbols up to here
LIMITS = [0, 1, 2, 3, 5, 7, None]


def all_scripts(full, depth):
    """Every script of `full` symbols; and every script that goes on for any number of
    steps up to `depth - 2` followed by any two symbols. (A correct loop never looks at
    the symbols after the first one that ends the solve; one such symbol is enough to see
    a loop that goes one too far.) Positions past the end are 'stop'."""
    n = range(len(SYMBOLS))
    out = {tuple(s) + (1,) * (depth - full) for s in itertools.product(n, repeat=full)}
    for k in range(depth - 1):
        for x, y in itertools.product(n, n):
            out.add((0,) * k + (x, y) + (1,) * (depth - 2 - k))
    return sorted(out)


# entry point, kind of solver given to it
CONFIGS = [
    ("minimise", "min"),
    ("least_squares", "lsq"),
    ("least_squares", "min"),
    ("root_find", "root"),
    ("root_find", "lsq"),
    ("root_find", "min"),
    ("fixed_point", "fix"),
    ("fixed_point", "root"),
    ("fixed_point", "lsq"),
    ("fixed_point", "min"),
]
ADJOINTS = ["implicit", "checkpoint", "checkpoint2"]


def model(script, limit, to_root):
    """The statement, interpreted: (steps, outcome)."""
    k = 0
    while True:
        name, kind, stop, outcome = SYMBOLS[script[k]] if k < len(script) else SYMBOLS[1]
        if to_root and k == 0:
            stop = False  # nothing evaluated yet, so the residual is not known to be 0
        if kind != "ok":
            return k, "nonfinite"
        if outcome != "successful":
            return k, outcome
        if stop:
            return k, "successful"
        if limit is not None and k >= limit:
            return k, "nonlinear_max_steps_reached"
        k += 1


def build():
    import equinox as eqx
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import optimistix as optx
    from typing import Any

    from mc.trace import code

    kinds = jnp.array([["ok", "nan", "inf", "-inf"].index(s[1]) for s in SYMBOLS])
    bad = jnp.array([0.0, jnp.nan, jnp.inf, -jnp.inf])
    stops = jnp.array([s[2] for s in SYMBOLS])
    outs = jnp.array(
        [["successful", "nonlinear_divergence", "singular"].index(s[3]) for s in SYMBOLS]
    )

    def symbol(script, k):
        padded = jnp.concatenate([script, jnp.ones(12, script.dtype)])
        return padded[k]

    def iterate(script, k):
        """The k-th iterate: finite leaf `a` says k; a bad number sits in one other."""
        v = bad[kinds[symbol(script, k)]]
        b = jnp.array([1.0, 2.0, 3.0]) * (k + 1)
        c = 0.5 * (k + 1)
        even = k % 2 == 0
        b = b.at[1].add(jnp.where(even, v, 0.0))
        c = c + jnp.where(even, 0.0, v)
        return dict(a=jnp.asarray(k, float), b=(b,), c=c)

    class State(eqx.Module):
        k: Any
        trail: Any
        label: str

    class Body(eqx.Module):
        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            return State(jnp.array(0), jnp.full(12, -1), "scripted")

        def step(self, fn, y, args, options, state, tags):
            _, aux = fn(y, args)
            here = y["a"].astype(int)
            new = iterate(options["script"], here + 1)
            return new, State(state.k + 1, state.trail.at[state.k].set(here), state.label), aux

        def terminate(self, fn, y, args, options, state, tags):
            # The stop flag is read at the iterate, the outcome at the state: a loop
            # pairing an iterate with another iterate's state is off.
            stop = stops[symbol(options["script"], y["a"].astype(int))]
            out = outs[symbol(options["script"], state.k)]
            R = optx.RESULTS
            res = R.where(out == 1, R.nonlinear_divergence, R.successful)
            res = R.where(out == 2, R.singular, res)
            return stop, res

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            y = dict(y, a=y["a"] + 1000.0)
            return y, aux, dict(seen=code(result), k=state.k, at=y["a"])

    class Min(Body, optx.AbstractMinimiser):
        rtol: float = 0.5
        atol: float = 0.5
        norm: Any = optx.max_norm

    class Lsq(Body, optx.AbstractLeastSquaresSolver):
        rtol: float = 0.5
        atol: float = 0.5
        norm: Any = optx.max_norm

    class Root(Body, optx.AbstractRootFinder):
        rtol: float = 0.5
        atol: float = 0.5
        norm: Any = optx.max_norm

    class Fix(Body, optx.AbstractFixedPointSolver):
        rtol: float = 0.5
        atol: float = 0.5
        norm: Any = optx.max_norm

    solvers = dict(min=Min(), lsq=Lsq(), root=Root(), fix=Fix())
    adjoints = dict(
        implicit=optx.ImplicitAdjoint(),
        checkpoint=optx.RecursiveCheckpointAdjoint(),
        checkpoint2=optx.RecursiveCheckpointAdjoint(checkpoints=2),
    )

    def fn_for(entry):
        def fn(y, args):
            aux = dict(at=y["a"], tag=(jnp.asarray(7 + y["a"], int), args * 2))
            if entry == "minimise":
                out = 0.0 * y["a"]
            elif entry == "fixed_point":
                out = y
            else:
                out = (0.0 * y["a"], jnp.zeros(2))
            return out, aux

        return fn

    def find_state(tree):
        leaves = jtu.tree_leaves(tree, is_leaf=lambda x: isinstance(x, State))
        (state,) = [x for x in leaves if isinstance(x, State)]
        return state

    return solvers, adjoints, fn_for, find_state, iterate, code


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc.trace import ENTRY, RESULT_NAMES

    t = core.Tally()
    solvers, adjoints, fn_for, find_state, iterate, code = build()
    entry, kind, adjoint = job["entry"], job["kind"], job["adjoint"]
    to_root = kind in ("min", "lsq") and entry in ("root_find", "fixed_point")
    fn = fn_for(entry)
    solver = solvers[kind]
    args = jnp.array(21)

    def one(script, limit, throw):
        y0 = iterate(script, 0)
        sol = ENTRY[entry](
            fn, solver, y0, args, dict(script=script), has_aux=True, max_steps=limit,
            adjoint=adjoints[adjoint], throw=throw,
        )
        state = find_state(sol.state)
        assert state.label == "scripted"
        given = sol.stats["max_steps"]
        assert (given is None) == (limit is None)
        return dict(
            value=sol.value, result=code(sol.result), aux=sol.aux,
            steps=sol.stats["num_steps"], limit=-1 if given is None else given,
            seen=sol.stats["seen"], k=sol.stats["k"], at=sol.stats["at"],
            state_k=state.k, trail=state.trail, n_stats=len(sol.stats),
        )

    def expect(script, limit):
        k, outcome = model(script, limit, to_root)
        return k, RESULT_NAMES.index(outcome)

    def judge(scripts, limit, out, exp):
        ks, outs, ys = exp
        n = len(scripts)

        def detail(i):
            return dict(
                script=[SYMBOLS[s][0] for s in scripts[i[0]]], limit=limit,
                expected=(ks[i[0]], RESULT_NAMES[outs[i[0]]]),
                got=(out["steps"][i[0]], out["result"][i[0]], out["value"]["a"][i[0]]),
                entry=entry, kind=kind, adjoint=adjoint,
            )

        def eq(a, b, what):
            a, b = np.asarray(a), np.asarray(b)
            same = (a == b) | ((a != a) & (b != b))
            same = same.reshape(n, -1).all(axis=1)
            t.check_all(same, what, detail=detail)

        eq(out["result"], outs, "wrong outcome")
        eq(out["steps"], ks, "wrong number of steps")
        eq(out["value"]["a"], ks + 1000, "wrong value")
        eq(out["value"]["b"][0], ys["b"][0], "wrong value")
        eq(out["value"]["c"], ys["c"], "wrong value")
        eq(out["limit"], np.full(n, -1 if limit is None else limit), "wrong step limit")
        eq(out["seen"], outs, "postprocessing saw another outcome")
        eq(out["k"], ks, "statistics of another state")
        eq(out["at"], ks + 1000, "statistics of another iterate")
        eq(out["state_k"], ks, "state of another iterate")
        trail = np.where(np.arange(12)[None] < ks[:, None], np.arange(12)[None], -1)
        eq(out["trail"], trail, "steps not taken from the successive iterates")
        zero = ks == 0
        eq(out["aux"]["at"], np.where(zero, 0, ks - 1), "wrong auxiliary output")
        eq(out["aux"]["tag"][0], np.where(zero, 0, 6 + ks), "wrong auxiliary output")
        eq(out["aux"]["tag"][1], np.where(zero, 0, 42), "wrong auxiliary output")
        eq(out["n_stats"], np.full(n, 5), "wrong statistics")

    if job["mode"] == "batch":
        scripts = np.array(all_scripts(FULL, DEPTH))
        # The default number of checkpoints is log(limit), which needs a positive limit.
        limits = LIMITS if adjoint != "checkpoint" else LIMITS[1:-1]
        for limit in limits:
            f = eqx.filter_jit(jax.vmap(lambda s: one(s, limit, False)))
            out = jax.tree_util.tree_map(np.asarray, f(scripts))
            exp = [expect(tuple(s), limit) for s in scripts.tolist()]
            ks = np.array([e[0] for e in exp])
            outs = np.array([e[1] for e in exp])
            ys = jax.vmap(iterate)(scripts, ks)
            judge(scripts, limit, out, (ks, outs, ys))
            t.transitions += int(out["steps"].sum())
            prefix = np.where(np.arange(DEPTH)[None] <= ks[:, None], scripts, -1)
            t.count_states((prefix, 1), (ks, 1), (outs, 1))
            for o in np.unique(outs):
                t.outcome(RESULT_NAMES[o], (outs == o).sum())
            i = (core.SEED * 7919 + 13) % len(scripts)
            t.sample(
                script=[SYMBOLS[s][0] for s in scripts[i]], limit=limit,
                steps=out["steps"][i], outcome=RESULT_NAMES[int(out["result"][i])],
            )
    else:
        # Errors enabled, one solve at a time: an exception iff the outcome is not success.
        scripts = all_scripts(1, 4)
        place = jax.jit(iterate)
        for limit in job["limits"]:
            f = eqx.filter_jit(lambda s: one(s, limit, True))
            g = eqx.filter_jit(lambda s: one(s, limit, False))
            for s in scripts:
                k, outcome = expect(s, limit)
                arr = np.array(s)
                y = place(arr, k)
                try:
                    out = jax.block_until_ready(f(arr))
                    raised = False
                except Exception as e:
                    if type(e).__name__ not in (
                        "EquinoxRuntimeError", "_EquinoxRuntimeError", "JaxRuntimeError",
                        "XlaRuntimeError", "EqxRuntimeError",
                    ):
                        raise
                    raised = True
                t.transitions += k
                t.traces += 1
                if raised != (outcome != 0):
                    t.bad(
                        "an error must be raised iff the outcome is not success",
                        script=[SYMBOLS[i][0] for i in s], limit=limit, raised=raised,
                        expected=RESULT_NAMES[outcome], entry=entry, kind=kind,
                    )
                    continue
                t.outcome("raised" if raised else "returned")
                if raised:
                    out = g(arr)
                out = jax.tree_util.tree_map(lambda x: np.asarray(x)[None], out)
                y = jax.tree_util.tree_map(lambda x: np.asarray(x)[None], y)
                judge(np.array([s]), limit, out, (np.array([k]), np.array([outcome]), y))
    return t


def jobs():
    out = []
    for adjoint in ADJOINTS:
        for entry, kind in CONFIGS:
            out.append(dict(mode="batch", entry=entry, kind=kind, adjoint=adjoint))
    for entry, kind in CONFIGS:
        out.append(
            dict(mode="throw", entry=entry, kind=kind, adjoint="implicit", limits=[0, 2])
        )
    for entry, kind in (("minimise", "min"), ("root_find", "lsq"), ("fixed_point", "fix")):
        out.append(
            dict(mode="throw", entry=entry, kind=kind, adjoint="checkpoint", limits=[1, 3])
        )
        out.append(
            dict(mode="throw", entry=entry, kind=kind, adjoint="implicit", limits=[None])
        )
    return out


if __name__ == "__main__":
    core.main(
        "C01", jobs(), run,
        rule="every script over the alphabet of solver answers, run on the real loop",
        bounds=dict(
            alphabet=[s[0] for s in SYMBOLS], script_length=DEPTH, full_product_length=FULL, limits=LIMITS,
            entry_and_solver_kind=CONFIGS, adjoints=ADJOINTS,
        ),
        assumptions=["scripts longer than the bound behave like a repetition of shorter ones"],
    )
