"""C23: verbosity and differentiation modes, over every solver that has them.

Every problem of a finite family is solved silently with a recording wrapper. Solving again
with a callback and with the built-in printer must give the same run, and the reports must be
one per step with the true loss, point and acceptance. Solving with forward and with reverse
mode must give the same iterates up to rounding. Functions with one differentiation mode only
and refused option values are enumerated from tables."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 24 if core.THOROUGH else 12


def silent_and(name, verbose):
    """The solver with the given verbosity."""
    import optax
    import optimistix as optx

    from mc import solvers as s

    tol = (1e-3, 1e-3)
    norm = optx.rms_norm
    table = {
        "BFGS": lambda v: optx.BFGS(*tol, norm, verbose=v),
        "BFGS-direct": lambda v: optx.BFGS(*tol, norm, use_inverse=False, verbose=v),
        "DFP": lambda v: optx.DFP(*tol, norm, verbose=v),
        "DFP-direct": lambda v: optx.DFP(*tol, norm, use_inverse=False, verbose=v),
        "LBFGS": lambda v: optx.LBFGS(*tol, norm, history_length=3, verbose=v),
        "LBFGS-direct": lambda v: optx.LBFGS(*tol, norm, use_inverse=False, verbose=v),
        "GaussNewton": lambda v: optx.GaussNewton(*tol, norm, verbose=v),
        "LevenbergMarquardt": lambda v: optx.LevenbergMarquardt(*tol, norm, verbose=v),
        "IndirectLevenbergMarquardt": lambda v: optx.IndirectLevenbergMarquardt(*tol, norm, verbose=v),
        "Dogleg": lambda v: optx.Dogleg(*tol, norm, verbose=v),
        "Optax-adam": lambda v: optx.OptaxMinimiser(optax.adam(0.25), *tol, norm, verbose=v),
        "Optax-sgd": lambda v: optx.OptaxMinimiser(optax.sgd(0.125, momentum=0.5), *tol, norm, verbose=v),
    }
    return table[name](verbose)


def family(entry):
    import numpy as np

    from mc import families as fam

    rows = fam.smooth_params(core.THOROUGH)
    p = fam.stack(rows)
    p, y0 = fam.product_batch(p, np.asarray(fam.STARTS))
    return p, y0


def run(job):
    return dict(verbose=verbose, modes=modes, single=single, refuse=refuse)[job["part"]](job, core.Tally())


def verbose(job, t):
    import contextlib
    import io

    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np

    from mc import families as fam, solvers, trace

    name, entry = job["solver"], job["entry"]
    lsq = entry == "least_squares"
    native_lsq = name in solvers.LSQ
    base = fam.smooth_res if lsq else fam.smooth_min
    fn = lambda y, q: (base(y, q), jnp.sum(y))
    loss = jax.jit((lambda y, q: 0.5 * jnp.sum(base(y, q) ** 2)) if lsq else base)
    losses = jax.jit(jax.vmap(loss, in_axes=(0, None)))
    reports = []

    def callback(**kw):
        labels = {k: v[0] for k, v in kw.items()}
        jax.debug.callback(
            lambda **vals: reports.append({k: (labels[k], np.asarray(v)) for k, v in vals.items()}),
            ordered=True, **{k: v[1] for k, v in kw.items()},
        )

    p, y0 = family(entry)
    stride = 1 if core.THOROUGH else 5
    ids = np.arange(0, len(y0), stride)
    quiet = eqx.filter_jit(trace.runner(entry, fn, silent_and(name, False), N))
    loud = eqx.filter_jit(trace.runner(entry, fn, silent_and(name, callback), N))
    printed = eqx.filter_jit(trace.solve(entry, fn, silent_and(name, True), max_steps=N))
    plain = eqx.filter_jit(trace.solve(entry, fn, silent_and(name, False), max_steps=N))
    for n, i in enumerate(ids):
        q = {k: jnp.asarray(v[i]) for k, v in p.items()}
        y = jnp.asarray(y0[i])
        ref = jtu.tree_map(np.asarray, quiet(y, q))
        reports.clear()
        out = jtu.tree_map(np.asarray, loud(y, q))
        jax.effects_barrier()
        got = list(reports)
        where = dict(solver=name, entry=entry, params={k: v[i] for k, v in p.items()}, start=y0[i])
        if not trace.tree_close(out, ref, 1e-7, 1e-9):
            t.bad("a callback changes the solve", steps=[out["steps"], ref["steps"]], got=out["value"], silent=ref["value"], **where)
            continue
        steps = int(ref["steps"])
        if len(got) != steps:
            t.bad("the number of reports is not the number of steps", reports=len(got), steps=steps, **where)
            continue
        ys = ref["trace"]["ys"]
        fs = np.asarray(losses(ys, q))
        points = np.array([r["y"][1] for r in got]).reshape(steps, -1)
        trial = np.asarray(losses(points, q)) if steps else np.zeros(0)
        count, since = 0, 0
        for k, r in enumerate(got):
            v = {a: b[1] for a, b in r.items()}
            close = lambda a, b: np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)
            bad = lambda what: t.bad(what, step=k, report={a: b for a, b in v.items()}, before=ys[k], after=ys[k + 1], losses=[fs[k], fs[k + 1]], **where)
            if any(not isinstance(b[0], str) or not b[0] for b in r.values()):
                bad("a report has no label")
            if not close(v["loss_this_step"], trial[k]):
                bad("the reported loss is not the loss at the reported point")
            if "num_steps" in v and int(v["num_steps"]) != k:
                bad("the reported step number is wrong")
            if name in solvers.OPTAX:
                if not close(v["y"], ys[k]):
                    bad("the reported point is not the point of this step")
                continue
            if not close(v["y_last_accepted_step"], ys[k + 1]):
                bad("the reported accepted point is not the point of the solve")
            took = (ys[k + 1] != ys[k]).any() or k == 0
            if took and not close(v["y"], ys[k + 1]):
                bad("the reported point is not the point that was accepted")
            if k == 0 and not close(v["y"], y0[i]):
                bad("the first reported point is not the initial guess")
            if k > 0 and not close(v["loss_last_accepted_step"], fs[k]):
                bad("the reported loss of the last accepted step is wrong")
            same = close(v["y"], v["y_last_accepted_step"])
            if not took and not same and np.isfinite(trial[k]) and native_lsq and "accepted_steps" in v:
                t.outcome("refused trial reported")
            if "accepted_steps" in v:
                if int(v["accepted_steps"]) != count or int(v["steps_since_acceptance"]) != since:
                    bad("the reported numbers of accepted and refused steps are wrong")
                # a trial equal to the iterate up to rounding may count either way
                if took:
                    count, since = count + 1, 0
                elif same and k + 1 < steps:
                    nxt = {a: b[1] for a, b in got[k + 1].items()}
                    count, since = int(nxt["accepted_steps"]), int(nxt["steps_since_acceptance"])
                    t.undecided += 1
                else:
                    since += 1
            if not np.isfinite(v["step_size"]) or v["step_size"] < 0:
                bad("the reported step size is not a length")
        t.transitions += steps
        t.traces += 1
        t.outcome(trace.name(int(ref["result"])))
        t.count_states((ys[: steps + 1], 1))
        if n % 4 == 0:  # the printer
            reports.clear()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                out = jtu.tree_map(np.asarray, printed(y, q))
                jax.effects_barrier()
            alone = jtu.tree_map(np.asarray, plain(y, q))
            if not trace.tree_close(out, alone, 1e-7, 1e-9):
                t.bad("the printer changes the solve", got=out, silent=alone, **where)
            lines = [x for x in buf.getvalue().splitlines() if x.strip()]
            # numpy may break a long vector over lines
            lines = [x for x in lines if ": " in x]
            if len(lines) != steps:
                t.bad("the number of printed lines is not the number of steps", lines=lines[:3], steps=steps, **where)
            elif steps and any("oss" not in x or "y" not in x for x in lines):
                t.bad("a printed line lacks the loss or the point", line=lines[0], **where)
            else:
                # the printed losses are those reported
                label = got[0]["loss_this_step"][0] + ": " if got else ""
                shown = sorted(float(x.split(label)[1].split(",")[0]) for x in lines)
                want = sorted(float(r["loss_this_step"][1]) for r in got)
                if not np.allclose(shown, want, rtol=1e-4, atol=1e-6, equal_nan=True) and np.isfinite(want).all():
                    t.bad("the printed losses are not those of the steps", printed=shown, expected=want, **where)
            t.outcome("printed", steps)
        if n < 2:
            t.sample(solver=name, start=y0[i], steps=steps, reports=len(got), keys=sorted(got[0]) if got else [])
    return t


def fragile_mask(go, p, y0, ref, near):
    import numpy as np

    bad = np.zeros(len(y0), bool)
    for k in (-2, -1, 1, 2):
        eps = 1 + k * 2.3e-16
        o = go(y0 * eps + k * 1e-16 * np.array([1, -1]), {a: b / eps for a, b in p.items()})
        bad |= ~near(o, ref)
    return bad


def modes(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from checks.c19_conversion import make
    from mc import families as fam, solvers, trace

    name, entry = job["solver"], job["entry"]
    base = fam.smooth_min if entry == "minimise" else fam.smooth_res
    fn = lambda y, q: (base(y, q), y * 2)
    solver = make(name, (1e-4, 1e-4), optx.max_norm)
    p, y0 = family(entry)
    outs = {}
    key = job["option"]

    def near(o, r, tol=1e-8):
        with np.errstate(all="ignore"):
            a, b = o["trace"]["ys"], r["trace"]["ys"]
            d = (np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
        return d.reshape(len(d), -1).all(1) & (o["steps"] == r["steps"]) & (o["result"] == r["result"])

    go = {}
    for mode in ("default", "fwd", "bwd"):
        options = {} if mode == "default" else {key: mode}
        f = eqx.filter_jit(jax.vmap(trace.runner(entry, fn, solver, N, options=options)))
        go[mode] = lambda y, q, f=f: jtu.tree_map(np.asarray, f(y, q))
        outs[mode] = go[mode](y0, p)
    ref = outs["default"]
    weak = fragile_mask(go["default"], p, y0, ref, near)
    t.undecided += int(weak.sum())
    # at the rounding floor the number of steps may differ
    for mode in ("fwd", "bwd"):
        o = outs[mode]
        short = np.minimum(o["steps"], ref["steps"])
        long_ys = np.where((o["steps"] > ref["steps"])[:, None, None], o["trace"]["ys"], ref["trace"]["ys"])
        with np.errstate(all="ignore"):
            moves = np.abs(np.diff(long_ys, axis=1)).max(2)
        late = (np.arange(N)[None] >= short[:, None] - 1) & (np.arange(N)[None] < np.maximum(o["steps"], ref["steps"])[:, None])
        floor = (o["steps"] != ref["steps"]) & (np.where(late, moves, 0).max(1) < 1e-10) & (o["result"] == ref["result"])
        t.undecided += int((floor & ~weak).sum())
        t.check_all(
            near(o, ref, 1e-6) | weak | floor, "the differentiation mode changes the solve",
            detail=lambda i: dict(
                solver=name, mode=mode, start=y0[i[0]], params={a: b[i[0]] for a, b in p.items()},
                got=o["trace"]["ys"][i[0]][: o["steps"][i[0]] + 1], default=ref["trace"]["ys"][i[0]][: ref["steps"][i[0]] + 1],
                outcome=[trace.name(o["result"][i[0]]), trace.name(ref["result"][i[0]])],
            ),
        )
        t.transitions += int(o["steps"].sum())
    t.count_states((ref["trace"]["ys"], 2))
    for r, c in zip(*np.unique(ref["result"], return_counts=True)):
        t.outcome(trace.name(r), c)
    one = eqx.filter_jit(trace.runner(entry, fn, solver, N, options={key: "fwd"}))
    for i in core.pick(range(len(y0)), 3, name):
        a = one(jnp.asarray(y0[i]), {k: jnp.asarray(v[i]) for k, v in p.items()})
        if not weak[i] and (int(a["steps"]) != outs["fwd"]["steps"][i]) and not floor[i]:
            t.bad("a solve alone differs from the same solve in a batch", solver=name, start=y0[i])
        t.traces += 1
    t.sample(solver=name, option=key, starts=len(y0), undecided=int(weak.sum()))
    return t


def single(job, t):
    """Functions that can be differentiated in one mode only."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from checks.c19_conversion import make
    from mc import trace

    name, entry, mode = job["solver"], job["entry"], job["mode"]

    @jax.custom_vjp
    def reverse_only(x):
        return x * x

    reverse_only.defvjp(lambda x: (x * x, x), lambda x, g: (2 * x * g,))

    def forward_only(x):
        return jax.lax.while_loop(lambda c: c[0] < 2, lambda c: (c[0] + 1, c[1] * x), (0, jnp.ones_like(x)))[1]

    def build(sq):
        if entry == "minimise":
            return lambda y, a: a[0] * sq(y[0] - a[1]) + sq(y[1] + 2) + y[0] * y[1] * 0.25
        return lambda y, a: jnp.stack([a[0] * sq(y[0] - a[1]) + 1, sq(y[1] + 2) - 1, y[0] - a[1]])

    special = build(reverse_only if mode == "bwd" else forward_only)
    plain = build(lambda x: x * x)
    solver = make(name, (1e-6, 1e-6), optx.max_norm)
    options = {} if job["implicit"] else {job["option"]: mode}

    def solve(fn):
        def f(y, a):
            sol = trace.ENTRY[entry](fn, solver, y, a, dict(options), max_steps=N, throw=False)
            return dict(value=sol.value, result=trace.code(sol.result), steps=sol.stats["num_steps"])

        return eqx.filter_jit(f)

    f, g = solve(special), solve(plain)
    for y in ([0.0, 0.0], [1.0, -1.0], [3.0, 2.0]):
        for a in ([1.0, 1.0], [4.0, -0.5]):
            x = f(jnp.array(y), jnp.array(a))
            z = g(jnp.array(y), jnp.array(a))
            if int(x["steps"]) != int(z["steps"]) or int(x["result"]) != int(z["result"]) or not np.allclose(x["value"], z["value"], rtol=1e-6, atol=1e-8):
                t.bad("a function with one differentiation mode is solved differently", solver=name, mode=mode, got=x, plain=z)
            t.states += 1
            t.traces += 1
            t.transitions += int(x["steps"])
    t.outcome(mode)
    return t


def refuse(job, t):
    import jax.numpy as jnp
    import optimistix as optx

    from checks.c19_conversion import make
    from mc import families as fam, trace

    y0 = jnp.array([1.0, 1.0])
    p = {k: jnp.asarray(v[0]) for k, v in fam.stack(fam.smooth_params()).items()}
    for entry, name, key in job["cases"]:
        fn = fam.smooth_min if entry == "minimise" else fam.smooth_res
        for value in ("FWD", "forward", "rev", "", None, 0, True, ("fwd",), "fwdbwd", "jvp"):
            try:
                trace.ENTRY[entry](fn, make(name, (1e-3, 1e-3), optx.max_norm), y0, p, {key: value}, max_steps=3, throw=False)
            except Exception:
                t.outcome("refused")
            else:
                t.bad("an unknown differentiation mode is accepted", solver=name, option=key, value=repr(value))
            t.states += 1
            t.transitions += 1
    for name in job["verbose"]:
        for value in (None, 0, 1, "yes", frozenset({"step", "loss"}), frozenset(), (), [True], 2.5):
            try:
                silent_and(name, value)
            except Exception:
                t.outcome("refused")
            else:
                t.bad("an unknown verbosity is accepted", solver=name, value=repr(value))
            t.states += 1
    return t


if __name__ == "__main__":
    V = [
        ("minimise", n) for n in ("BFGS", "BFGS-direct", "DFP", "DFP-direct", "LBFGS", "LBFGS-direct", "Optax-adam", "Optax-sgd")
    ] + [("least_squares", n) for n in ("GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg", "BFGS")]
    M = [
        ("minimise", n, "autodiff_mode")
        for n in (
            "BFGS", "BFGS-direct", "DFP", "DFP-direct", "LBFGS", "LBFGS-direct", "NonlinearCG-PR", "NonlinearCG-HS", "GradientDescent",
            "BFGS+LinearTR", "Steepest+Armijo", "CG+LinearTR", "BestSoFarMin", "BFGS+ClassicalTR+Dogleg", "LBFGS+LinearTR",
        )
    ]
    M += [
        ("least_squares", n, "jac")
        for n in (
            "GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg", "GN+Armijo", "BestSoFarLsq", "Damped+LinearTR",
            "GN+ClassicalTR", "Steepest-lsq+Armijo",
        )
    ]
    M += [("least_squares", "BFGS", "autodiff_mode"), ("least_squares", "NonlinearCG-PR", "autodiff_mode")]
    jobs = [dict(part="verbose", entry=e, solver=n) for e, n in V]
    jobs += [dict(part="modes", entry=e, solver=n, option=o) for e, n, o in M]
    # methods that need the Jacobian and its transpose cannot do with one mode
    both = ("IndirectLevenbergMarquardt", "Dogleg", "Steepest-lsq+Armijo", "Damped+LinearTR")
    defaults = dict(autodiff_mode="bwd", jac="fwd")
    for e, n, o in M:
        for mode in ("fwd", "bwd"):
            if n in both and mode == "fwd":
                continue
            jobs.append(dict(part="single", entry=e, solver=n, option=o, mode=mode, implicit=False))
        if n not in both:
            jobs.append(dict(part="single", entry=e, solver=n, option=o, mode=defaults[o], implicit=True))
    jobs.append(dict(part="refuse", cases=[m for m in M if m[1] != "BFGS+ClassicalTR+Dogleg"], verbose=[n for _, n in V]))
    core.main(
        "C23", jobs, run,
        rule="every problem and start of the family, for each (solver, verbosity) and (solver, differentiation mode)",
        bounds=dict(steps=N),
        assumptions=["a solve whose course changes when its inputs move by a rounding unit is not judged (counted as undecided)"],
    )
