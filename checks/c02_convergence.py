"""C02: success of minimisers and least-squares solvers, step by step.

Every problem of a finite family, from every start, for every tolerance pair, norm and
solver is solved with a recording wrapper. A numpy oracle recomputes from the recorded
iterates whether each step met the tolerances; the solver must stop at exactly the first
step that did and report success exactly then."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 24 if core.THOROUGH else 16
TOLS = [(0.0, 1e-2), (1e-2, 1e-6), (0.25, 0.05), (1e-3, 0.5), (1e-7, 1e-7), (0.75, 4.0)]
MARGIN = 1e-6


def norm_np(name, x):
    """Norm over the last axis."""
    import numpy as np

    x = np.abs(x)
    with np.errstate(all="ignore"):
        if name == "max":
            return x.max(axis=-1)
        if name == "rms":
            return np.sqrt((x**2).mean(axis=-1))
        return np.sqrt((x**2).sum(axis=-1))


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np

    from mc import families as fam, solvers, trace

    t = core.Tally()
    name, normname, entry, family = job["solver"], job["norm"], job["entry"], job["family"]
    make = solvers.ALL[name]
    norm = solvers.NORMS[normname]
    optax_like = name in solvers.OPTAX
    lsq_solver = solvers.kind_of(name) == "lsq"

    if family == "smooth":
        base = fam.smooth_min if entry == "minimise" else fam.smooth_res
        params = fam.stack(fam.smooth_params(core.THOROUGH))
        starts = fam.STARTS
    else:
        base = fam.table_min if entry == "minimise" else fam.table_res
        cells = 4
        if entry == "minimise":
            v, s = fam.tables((0.0, 1.0, 1.01, np.nan), (-1.0, 0.5), cells)
        else:
            v, s = fam.tables((0.0, 1.0, 1.01, np.nan), (-1.0, 0.5), cells)
            v = np.stack([v, 0.5 + 0 * v], axis=-1)
            s = np.stack([s, 0.25 * s], axis=-1)
        v, s = fam.product_batch(v, s)
        params = dict(v=v, s=s, res=np.full(len(v), 2.0))
        starts = np.array([0.25, 1.3])

    def fn(y, args):
        f = base(y, args)
        return f, f

    def objective(y, args):
        f = base(y, args)
        if entry == "least_squares" and not lsq_solver:
            f = 0.5 * jnp.sum(f**2)
        return f

    def scalar(y, args):
        f = objective(y, args)
        return 0.5 * jnp.sum(f**2) if lsq_solver else f

    def one(p, y0, tol):
        solver = trace.record(make(tol[0], tol[1], norm), STEPS)
        sol = trace.ENTRY[entry](
            fn, solver, y0, p, {}, has_aux=True, max_steps=STEPS, throw=False
        )
        tr = sol.stats["trace"]
        fs = jax.vmap(lambda y: objective(y, p))(tr["ys"])
        gs = jax.vmap(lambda y: jax.grad(scalar)(y, p))(tr["ys"])
        return dict(
            ys=tr["ys"], fs=fs, gs=gs, k=sol.stats["num_steps"],
            result=trace.code(sol.result), value=sol.value, term=tr["term"],
        )

    tols = np.array(TOLS + ([(0.0, 1.0), (0.0, 0.125)] if family == "table" else []))
    p, y0, tol = fam.product_batch(params, starts, tols)
    out = trace.batched(one, p, y0, tol, chunk=8192)
    n = len(tol)
    ys = out["ys"].reshape(n, STEPS + 1, -1)
    gs = out["gs"].reshape(n, STEPS + 1, -1)
    fs = out["fs"].reshape(n, STEPS + 1, -1)
    K, result = out["k"], out["result"]
    rtol, atol = tol[:, 0][:, None, None], tol[:, 1][:, None, None]
    with np.errstate(all="ignore"):
        dy = ys[:, 1:] - ys[:, :-1]
        if optax_like:
            scale_y = atol + rtol * np.abs(ys[:, :-1])
            df = fs[:, :-1] - np.concatenate(
                [np.full_like(fs[:, :1], np.finfo(float).max), fs[:, :-2]], axis=1
            )
            scale_f = atol + rtol * np.abs(fs[:, :-1])
        else:
            scale_y = atol + rtol * np.abs(ys[:, 1:])
            df = fs[:, 1:] - fs[:, :-1]
            scale_f = atol + rtol * np.abs(fs[:, 1:])
        # Rounding of the recomputed differences, in units of the scale.
        noise = 1e-14 * (
            (np.abs(ys[:, 1:]).max(-1) / scale_y.min(-1))
            + (np.abs(fs[:, 1:]).max(-1) + np.abs(fs[:, :-1]).max(-1)) / scale_f.min(-1)
        )
        noise = np.where(np.isfinite(noise), noise, 0)
        sy = norm_np(normname, dy / scale_y)
        sf = norm_np(normname, df / scale_f)
        met = (sy < 1) & (sf < 1)
        width = MARGIN + noise

        def sides(size, values):
            """Clearly not below one, clearly below one. Equality is decided where the
            differences of short binary fractions make it exact."""
            short = (values * 2.0**24 == np.round(values * 2.0**24)) & (np.abs(values) < 2.0**16)
            short = (short[:, 1:] & short[:, :-1]).all(-1)
            exact = short & (rtol[..., 0] == 0) & (normname == "max")
            if optax_like:
                exact = np.zeros_like(exact)
            t.note("exact ties", (exact & (size == 1)).sum())
            above = (size > 1 + width) | np.isnan(size) | (exact & (size == 1))
            return above, (size < 1 - width) | (exact & (size < 1))

        # decided when some part is clearly above, or both clearly below
        above_y, below_y = sides(sy, ys)
        above_f, below_f = sides(sf, fs)
        unsure = ~(above_y | above_f | (below_y & below_f))
    moved = (ys[:, 1:] != ys[:, :-1]).any(-1)  # step k is column k - 1
    steps = np.arange(1, STEPS + 1)[None]
    taken = steps <= K[:, None]
    succeeded = result == trace.SUCCESS
    last = steps == K[:, None]
    # Steps at which the iterate stood still: a refused trial, or a trial that is the
    # iterate itself (zero gradient, or a step below rounding).
    still = ~moved & (steps >= 2)
    gnorm = np.abs(gs[:, :-1]).max(-1)
    stalls = np.cumsum(~moved, axis=1)
    zero_grad = (gs[:, :-1] == 0).all(-1)
    negligible = gnorm * 0.25**stalls < 1e-12 * (1 + np.abs(ys[:, :-1]).max(-1))

    def where(i):
        j = i[0]
        return dict(
            solver=name, norm=normname, entry=entry, params={k: v[j] for k, v in p.items()},
            start=y0[j], rtol=tol[j, 0], atol=tol[j, 1], steps=K[j], result=result[j],
            step=i[1] + 1 if len(i) > 1 else None, ys=ys[j, : K[j] + 1],
            fs=fs[j, : K[j] + 1],
        )

    stopped_here = last & succeeded[:, None]
    first = steps == 1
    claim = taken & moved & ~first & ~unsure
    t.undecided += int((taken & moved & ~first & unsure).sum())
    # A failure in that very step (of its linear solve, or a non-finite iterate) prevails.
    broke = last & (~succeeded & (result != trace.MAXSTEPS))[:, None]
    t.check_all(
        ~(claim & met & ~stopped_here & ~broke), "tolerances met but the solve went on or failed",
        detail=where,
    )
    t.check_all(
        ~(claim & ~met & stopped_here), "success although the tolerances were not met",
        detail=where,
    )
    # With one unknown left to improve, the Hestenes-Stiefel direction is zero up to
    # rounding at points that are not stationary, so its trial may be the iterate itself.
    if "HS" in name:
        negligible = np.ones_like(negligible)
    t.undecided += int((taken & still & stopped_here & ~zero_grad & negligible).sum())
    t.check_all(
        ~(taken & still & stopped_here & ~zero_grad & ~negligible),
        "a refused trial counted as convergence", detail=where,
    )
    # A trial equal to the iterate (exactly zero gradient) meets any tolerance.
    finite = np.isfinite(fs[:, :-1]).all(-1) & np.isfinite(fs[:, 1:]).all(-1)
    if not job.get("momentum"):
        t.check_all(
            ~(taken & still & zero_grad & finite & ~stopped_here & (steps >= 2)),
            "no movement at a stationary point, but the solve went on", detail=where,
        )
    # The first step only evaluates.
    if lsq_solver:
        with np.errstate(all="ignore"):
            r0 = norm_np(normname, fs[:, 0] / (tol[:, 1:2] + tol[:, :1] * np.abs(fs[:, 0])))
        bad = (K == 1) & succeeded & ~(r0 < 1 + MARGIN)
        t.check_all(~bad, "success after the first evaluation", detail=where)
    else:
        t.check_all(~((K == 1) & succeeded), "success after the first evaluation", detail=where)
    t.check_all(
        (K == STEPS) | (result != trace.MAXSTEPS), "maximum steps reported early",
        detail=where,
    )
    t.transitions += int(K.sum())
    live = taken & np.ones_like(moved)
    t.count_states((ys[:, 1:][live], 1), (fs[:, 1:][live], 1), (np.broadcast_to(tol[:, None], (n, STEPS, 2))[live], 1))
    for o in np.unique(result):
        t.outcome(trace.name(o), (result == o).sum())
    t.note("steps_with_refused_trial", (taken & still).sum())
    t.note("success_while_standing_still", (taken & still & stopped_here).sum())
    # conformance: replay some executions alone, and twice
    single = eqx.filter_jit(one)
    for i in core.pick(n, 3, name + normname):
        pi = {k: v[i] for k, v in p.items()}
        a = jax.tree_util.tree_map(np.asarray, single(pi, y0[i], tol[i]))
        b = jax.tree_util.tree_map(np.asarray, single(pi, y0[i], tol[i]))
        if not trace.tree_same(a, b):
            t.bad("the same solve gave different results twice", index=i)
        t.traces += 1
        t.sample(
            solver=name, start=y0[i], rtol=tol[i, 0], atol=tol[i, 1], steps=a["k"],
            result=trace.name(a["result"]), ys=ys[i, : K[i] + 1][:4],
        )
        if a["k"] != K[i] or a["result"] != result[i]:
            if not (unsure[i] & taken[i]).any() and not (taken & still)[i].any():
                t.bad("a solve alone differs from the same solve in a batch", **where((i,)))
    return t


def jobs():
    from mc import solvers

    out = []
    for name in solvers.ALL:
        lsq = solvers.kind_of(name) == "lsq"
        for norm in ("max", "rms", "two"):
            entry = "least_squares" if lsq else "minimise"
            out.append(dict(solver=name, norm=norm, entry=entry, family="smooth"))
        # Adam keeps moving by momentum at stationary points.
        out.append(
            dict(
                solver=name, norm="max", entry=entry, family="table",
                momentum=name.startswith("Optax-adam"),
            )
        )
    for name in ("BFGS", "NonlinearCG-PR", "Optax-sgd"):
        out.append(dict(solver=name, norm="max", entry="least_squares", family="smooth"))
    return out


if __name__ == "__main__":
    core.main(
        "C02", jobs(), run,
        rule="a step counts as converged iff the norms of the scaled changes of point and "
        "objective recomputed from the recorded iterates are both below one",
        bounds=dict(max_steps=STEPS, tolerances=TOLS, norms=["max", "rms", "two"]),
        assumptions=[
            "a threshold within 1e-6 (plus rounding noise) of equality is not decided, unless "
            "the numbers are short binary fractions and equality is exact"
        ],
    )
