"""C28: solves stepped by hand, cut anywhere and resumed.

Every problem and start of a family is run by hand through the documented solver interface
(init, step, terminate, postprocess), noting everything after every step. The library's
entry point with every step limit in the table must return what the hand-driven run shows
at its stop or at the limit, and continuing by hand from the returned value and state must
reproduce the rest of the uncut run. The hand-driven run is itself replayed one compiled
call at a time in plain Python, and solves are chained from limit to limit."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 12 if core.THOROUGH else 8
CUTS = [0, 1, 2, 3, 5, 8, 12] if core.THOROUGH else [1, 3, 8]
ROOTS = ["Newton", "NewtonNoCauchy", "Chord", "BestSoFarRoot"]
SCALARS = dict(Bisection="root_find", GoldenSearch="minimise")


def problem(entry, name):
    """(function with auxiliary output, parameters, starts, options)"""
    import jax.numpy as jnp
    import numpy as np

    from checks import c17_implicit as c17
    from mc import families as fam

    options = {}
    if name in SCALARS:
        base = c17._scalar_problem(entry)
        rows, starts = c17.scalar_rows(), np.array([-0.5, 0.25, 1.0])
        options = dict(lower=np.array(-5.0), upper=np.array(6.0))
        fn = lambda y, q: (base(y, q), dict(at=y, s=y * q["a"]))
        return fn, rows, starts, options
    if entry in ("minimise", "least_squares"):
        base = fam.smooth_min if entry == "minimise" else fam.smooth_res
        rows = fam.stack(fam.smooth_params(core.THOROUGH)[:: 1 if core.THOROUGH else 2])
    else:
        base = c17.problem(entry)
        rows = c17.rows()
        rows = {k: v[::2] for k, v in rows.items()}
    fn = lambda y, q: (base(y, q), dict(at=y, s=jnp.sum(y) * q["a"]))
    return fn, rows, fam.STARTS, options


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from checks.c19_conversion import make
    from mc import drive, families as fam, trace

    t = core.Tally()
    entry, name = job["entry"], job["solver"]
    fn, rows, starts, options = problem(entry, name)
    rtol = 1e-3 if entry == "fixed_point" else 1e-4
    if name == "BestSoFarFix":
        solver = optx.BestSoFarFixedPoint(optx.FixedPointIteration(rtol, rtol))
    else:
        solver = make(name, (rtol, rtol), optx.max_norm)
    best = name.startswith("BestSoFar")
    p, y0 = fam.product_batch(rows, starts)
    m = len(y0)

    def hand(y, q):
        return drive.drive(solver, fn, y, q, N, options)

    def flat(x):
        return {str(k): np.asarray(v) for k, v in jtu.tree_flatten_with_path(x)[0]}

    ref = trace.batched(hand, y0, p)
    weak = np.zeros(m, bool)
    for k in (-1, 1):
        eps = 1 + k * 2.3e-16
        o = trace.batched(hand, y0 * eps + k * 1e-16, p)
        with np.errstate(all="ignore"):
            d = (np.abs(o["ys"] - ref["ys"]) <= 1e-9 * (1 + np.abs(ref["ys"]))) | ~np.isfinite(ref["ys"])
        weak |= ~d.reshape(m, -1).all(1) | (o["term"] != ref["term"]).any(1) | (o["res"] != ref["res"]).any(1)
    t.undecided += int(weak.sum())
    ys, term, res = ref["ys"].reshape(m, N + 1, -1), ref["term"], ref["res"]
    broken = ~np.isfinite(ys).all(2)
    ends = term | (res != 0) | broken
    first = np.where(ends.any(1), ends.argmax(1), N + 1)
    idx = np.arange(m)

    def close(a, b, tol=1e-8):
        a, b = np.asarray(a, float).reshape(m, -1), np.asarray(b, float).reshape(m, -1)
        with np.errstate(all="ignore"):
            return ((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))).all(1)

    t.transitions += m * N
    t.count_states((ref["ys"].reshape(m * (N + 1), -1), 1))
    for cut in CUTS:

        def one(y, q, cut=cut):
            sol = trace.ENTRY[entry](fn, solver, y, q, options, has_aux=True, max_steps=cut, throw=False)
            out = dict(
                value=sol.value, aux=sol.aux, result=trace.code(sol.result), k=sol.stats["num_steps"],
                stats={k: v for k, v in sol.stats.items() if k not in ("num_steps", "max_steps")},
            )
            if not best and cut < N:
                # go on by hand from what was returned
                dyn, static = eqx.partition(sol.state, eqx.is_array)

                def body(carry, _):
                    y, dyn = carry
                    y, state, aux = solver.step(fn, y, q, options, eqx.combine(dyn, static), frozenset())
                    stop, why = solver.terminate(fn, y, q, options, state, frozenset())
                    return (y, eqx.filter(state, eqx.is_array)), dict(y=y, aux=aux, term=stop, res=trace.code(why))

                _, out["rest"] = jax.lax.scan(body, (sol.value, dyn), None, length=N - cut)
            return out

        o = trace.batched(one, y0, p)
        want_k = np.minimum(first, cut)
        stop = first <= cut
        detail = lambda i: dict(
            solver=name, entry=entry, start=y0[i[0]], params={q: v[i[0]] for q, v in p.items()}, limit=cut,
            steps=o["k"][i[0]], expected_steps=want_k[i[0]], value=o["value"][i[0]], by_hand=ys[i[0]][: want_k[i[0]] + 2],
            outcome=trace.name(o["result"][i[0]]),
        )
        t.check_all((o["k"] == want_k) | weak, "the solve takes another number of steps than by hand", detail=detail)
        k = np.minimum(want_k, N)
        verdict = np.where(broken[idx, k], trace.NONFINITE, np.where(stop, res[idx, k], trace.MAXSTEPS))
        t.check_all((o["result"] == verdict) | weak, "the solve ends with another outcome than by hand", detail=detail)
        live = k > 0
        prev = np.maximum(k - 1, 0)
        value = ref["value"][idx, prev] if best else ref["ys"][idx, k]
        good = close(o["value"], value) | weak | (~live & best)
        t.check_all(good, "the value is not the one reached by hand", detail=detail)
        for part in ("aux", "stats"):
            a, b = flat(o[part]), flat(ref["value_aux" if part == "aux" else "stats"])
            t.check_all(np.full(m, a.keys() == b.keys()), f"the {part} have another structure than by hand", detail=detail)
            for q in a:
                if np.asarray(a[q]).dtype == object or q not in b:
                    continue
                t.check_all(close(a[q], b[q][idx, prev]) | weak | ~live, f"the {part} are not those seen by hand", detail=lambda i: dict(detail(i), leaf=q))
        if "rest" in o:
            r = o["rest"]
            length = N - cut
            got = r["y"].reshape(m, length, -1)
            at = k[:, None] + 1 + np.arange(length)[None]
            ok = np.ones((m, length), bool)
            for j in range(length):
                here = np.minimum(at[:, j], N)
                ok[:, j] = close(got[:, j], ys[idx, here]) & (r["term"][:, j] == term[idx, here]) & (r["res"][:, j] == res[idx, here])
                for (qa, a), (qb, b) in zip(flat(r["aux"]).items(), flat(ref["aux"]).items()):
                    ok[:, j] &= close(a[:, j], b[idx, here - 1])
            t.check_all(ok | weak[:, None] | broken[idx, k][:, None], "the resumed solve is not the rest of the uncut one",
                        detail=lambda i: dict(detail(i), resumed=got[i[0]][: i[1] + 1]))
            t.transitions += m * length
        t.transitions += int(o["k"].sum())
        t.outcome("stopped before the limit", int(stop.sum()))
        t.outcome("cut", int((~stop).sum()))
        if cut == CUTS[0]:
            single = eqx.filter_jit(one)
            for i in core.pick(m, 3, name + entry):
                a = single(y0[i], {q: v[i] for q, v in p.items()})
                if not weak[i] and (int(a["k"]) != o["k"][i] or int(a["result"]) != o["result"][i]):
                    t.bad("a solve alone differs from the one in a batch", **detail((i,)))
    # one compiled call at a time, as in the documentation
    step, terminate = eqx.filter_jit(solver.step), eqx.filter_jit(solver.terminate)
    for i in core.pick(m, 4, "loop" + name + entry):
        q = {a: jnp.asarray(v[i]) for a, v in p.items()}
        opts = {a: jnp.asarray(v) for a, v in options.items()}
        y = jnp.asarray(y0[i])
        f_struct, aux_struct = eqx.filter_eval_shape(lambda: fn(y, q))
        for _ in range(2):
            y = jnp.asarray(y0[i])
            state = solver.init(fn, y, q, opts, f_struct, aux_struct, frozenset())
            done, why = terminate(fn, y, q, opts, state, frozenset())
            k, trail = 0, [np.asarray(y)]
            while not (bool(done) or int(trace.code(why)) or not np.isfinite(trail[-1]).all()) and k < N:
                y, state, aux = step(fn, y, q, opts, state, frozenset())
                done, why = terminate(fn, y, q, opts, state, frozenset())
                k += 1
                trail.append(np.asarray(y))
            if not weak[i] and (k != min(first[i], N) or not np.allclose(trail, ref["ys"][i][: k + 1], rtol=1e-7, atol=1e-7, equal_nan=True)):
                t.bad("the loop of the documentation differs", solver=name, entry=entry, start=y0[i], got=trail, expected=ref["ys"][i][: k + 1])
            if sorted(opts) != sorted(options):
                t.bad("stepping changed the caller's options", solver=name, entry=entry)
        t.traces += 1
    for r, c in zip(*np.unique(res[idx, np.minimum(first, N)], return_counts=True)):
        t.outcome("by hand: " + trace.name(r), c)
    t.sample(job=job, members=m, judged=int((~weak).sum()))
    return t


def jobs():
    from mc import solvers as sv

    out = []
    for name in list(sv.MINIMISERS) + list(sv.OPTAX) + list(sv.CUSTOM_MIN) + ["NelderMead", "BestSoFarMin"]:
        out.append(dict(entry="minimise", solver=name))
    for name in list(sv.LSQ) + list(sv.CUSTOM_LSQ) + ["BestSoFarLsq"]:
        out.append(dict(entry="least_squares", solver=name))
    for name in ROOTS:
        out.append(dict(entry="root_find", solver=name))
    for name in ("FixedPointIteration", "BestSoFarFix"):
        out.append(dict(entry="fixed_point", solver=name))
    for name, entry in SCALARS.items():
        out.append(dict(entry=entry, solver=name))
    return out


if __name__ == "__main__":
    core.main(
        "C28", jobs(), run,
        rule="every problem and start of the family x solver x step limit, and every continuation from the returned state",
        bounds=dict(steps=N, limits=CUTS),
        assumptions=["a run that changes when its inputs move by a rounding unit is not judged (counted as undecided)"],
    )
