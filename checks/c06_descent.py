"""C06: step-controlled solvers against arbitrary answers of the objective.

The objective is an adversary: a table that gives each cell of the line an arbitrary value
(better, equal, slightly worse, much worse, NaN, +-infinity) and an arbitrary slope. Every
table is solved by every combination of search, descent and solver; no step may go to a
point with a larger, NaN or +infinite loss. Objectives that improve only close to the start
and logs of the evaluated points check that a refused trial is followed by a shorter one."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 16 if core.THOROUGH else 12
LONG = 40
CELLS = 5 if core.THOROUGH else 4
inf, nan = float("inf"), float("nan")
VALUES = [0.0, 1.0, 1.0625, 2.0, nan, inf, -inf]
SLOPES = [-1.0, 0.5]


def makers():
    import optimistix as optx

    from mc import solvers as S

    out = {
        k: v for k, v in S.ALL.items()
        # These accept whatever comes, or use a model that may predict an increase.
        if k not in ("GradientDescent", "GaussNewton", "GN+ClassicalTR", "BFGS+ClassicalTR")
        and not k.startswith("Optax")
    }
    tr = dict(high_cutoff=0.5, low_cutoff=0.125, high_constant=2.0, low_constant=0.5)
    ar = dict(decrease_factor=0.25, slope=0.5, step_init=2.0)
    out["BFGS+Armijo2"] = lambda r, a, n: S.CustomBFGS(
        r, a, n, True, optx.NewtonDescent(), optx.BacktrackingArmijo(**ar)
    )
    out["BFGS-direct+Armijo0"] = lambda r, a, n: S.CustomBFGS(
        r, a, n, False, optx.NewtonDescent(),
        optx.BacktrackingArmijo(decrease_factor=0.75, slope=0.001),
    )
    out["BFGS+LinearTR2"] = lambda r, a, n: S.CustomBFGS(
        r, a, n, True, optx.NewtonDescent(norm=optx.two_norm), optx.LinearTrustRegion(**tr)
    )
    out["DFP+ClassicalTR2+Dogleg"] = lambda r, a, n: S.CustomDFP(
        r, a, n, False, optx.DoglegDescent(), optx.ClassicalTrustRegion(**tr)
    )
    out["BFGS+ClassicalTR2+Indirect"] = lambda r, a, n: S.CustomBFGS(
        r, a, n, False, optx.IndirectDampedNewtonDescent(), optx.ClassicalTrustRegion(**tr)
    )
    out["LBFGS+Armijo2"] = lambda r, a, n: S.CustomLBFGS(
        r, a, n, False, 1, optx.NewtonDescent(), optx.BacktrackingArmijo(**ar)
    )
    out["CG+Armijo2"] = lambda r, a, n: S.CustomGD(
        r, a, n, optx.NonlinearCGDescent(optx.dai_yuan), optx.BacktrackingArmijo(**ar)
    )
    out["Dogleg-lsq+ClassicalTR2"] = lambda r, a, n: S.CustomGN(
        r, a, n, optx.DoglegDescent(), optx.ClassicalTrustRegion(**tr)
    )
    out["Damped-lsq+ClassicalTR2"] = lambda r, a, n: S.CustomGN(
        r, a, n, optx.DampedNewtonDescent(), optx.ClassicalTrustRegion(**tr)
    )
    out["Newton-lsq+LinearTR2"] = lambda r, a, n: S.CustomGN(
        r, a, n, optx.NewtonDescent(norm=optx.max_norm), optx.LinearTrustRegion(**tr)
    )
    return out


def is_lsq(name):
    from mc import solvers as S

    return name in S.LSQ or name in S.CUSTOM_LSQ or "-lsq" in name


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    name, family = job["solver"], job["family"]
    make = makers()[name]
    lsq = is_lsq(name)
    entry = "least_squares" if lsq else "minimise"
    steps = STEPS
    tol = (1e-6, 1e-6)

    if family == "table":
        v, s = fam.tables(VALUES, SLOPES, CELLS)
        if CELLS > 4:
            s = s[:: 4]
        v, s = fam.product_batch(v, s)
        params = dict(v=v, s=s, res=np.full(len(v), 2.0))
        starts = np.array([0.25, 1.3])
        slack = 0.0
        if lsq:
            params["v"] = np.stack([v, 0.5 + 0 * v], -1)
            params["s"] = np.stack([s, 0.25 * s], -1)

        def value(y, p):
            return (fam.table_res if lsq else fam.table_min)(y, p)
    elif family == "smooth":
        params, starts = fam.stack(fam.smooth_params(core.THOROUGH)), fam.STARTS
        slack = 1e-10

        def value(y, p):
            return (fam.smooth_res if lsq else fam.smooth_min)(y, p)
    else:
        # improves along the slope, but only within a small radius of the start
        rows = [
            dict(rho=r, out=o, gx=g[0], gy=g[1])
            for r in 2.0 ** -np.arange(0, 9)
            for o in (5.0, 100.0, nan, inf)
            for g in ((1.0, 0.0), (-1.0, 2.0), (0.5, 0.5), (4.0, 1.0))
        ]
        params, starts = fam.stack(rows), np.array([[0.0, 0.0], [3.0, -1.0]])
        steps, slack = LONG, 1e-12

        def value(y, p):
            d = y - p["y0"]
            far = jnp.sqrt(jnp.sum(d**2)) > p["rho"]
            if lsq:
                r = jnp.stack([2.0 + p["gx"] * d[0] + 0.0 * d[1], 1.0 + p["gy"] * d[1]])
                return jnp.where(far, p["out"], r)
            f = p["gx"] * d[0] + p["gy"] * d[1] + 0.125 * jnp.sum(d**2)
            return jnp.where(far, p["out"], f)

    def fn(y, p):
        return value(y, p), None

    def loss(y, p):
        f = value(y, p)
        return 0.5 * jnp.sum(f**2) if lsq else f

    def one(p, y0):
        if family == "radius":
            p = dict(p, y0=y0)
        solver = trace.record(make(*tol, optx.max_norm), steps)
        sol = trace.ENTRY[entry](
            fn, solver, y0, p, has_aux=True, max_steps=steps, throw=False
        )
        ys = sol.stats["trace"]["ys"]
        return dict(
            ys=ys, k=sol.stats["num_steps"], result=trace.code(sol.result),
            loss=jax.vmap(lambda y: loss(y, p))(ys), value=sol.value,
        )

    p, y0 = fam.product_batch(params, starts)
    out = trace.batched(one, p, y0, chunk=1 << 14)
    n = len(y0)
    K = out["k"]
    ys = out["ys"].reshape(n, steps + 1, -1)
    L = out["loss"].reshape(n, steps + 1)
    taken = np.arange(1, steps + 1)[None] <= K[:, None]
    moved = taken & (ys[:, 1:] != ys[:, :-1]).any(-1)
    a, b = L[:, :-1], L[:, 1:]

    def where(i):
        j = i[0]
        return dict(
            solver=name, params={k: v[j] for k, v in p.items()}, start=y0[j], steps=K[j],
            step=i[1] + 1 if len(i) > 1 else None, ys=ys[j, : K[j] + 1], loss=L[j, : K[j] + 1],
            result=out["result"][j],
        )

    t.check_all(
        ~(moved & (np.isnan(b) | (b == np.inf))), "moved to a point with NaN or infinite loss",
        detail=where,
    )
    t.check_all(
        ~(moved & (b > a + slack * (1 + np.abs(np.where(np.isfinite(a), a, 0))))),
        "moved to a point with a larger loss", detail=where,
    )
    t.check_all(
        ~(moved & ~np.isfinite(ys[:, 1:]).all(-1)), "moved to a non-finite point", detail=where
    )
    if family == "radius":
        t.check_all(
            moved.any(axis=1) | (K < steps), "refused trials are not followed by shorter ones",
            detail=where,
        )
        t.outcome("progress near the start", moved.any(axis=1).sum())
    t.outcome("move", moved.sum())
    t.outcome("refusal", (taken & ~moved).sum() - (K > 0).sum())
    t.outcome("move from worse to better", (moved & (b < a)).sum())
    t.outcome("move at equal loss", (moved & (b == a)).sum())
    t.transitions += int(K.sum())
    flat = taken.reshape(-1)
    t.count_states(
        (ys[:, 1:].reshape(n * steps, -1)[flat], 1), (np.nan_to_num(b, nan=-9.25).reshape(-1)[flat], 1)
    )

    # Logs of the points evaluated, one execution at a time.
    log = []

    def logged(y, p):
        jax.debug.callback(lambda z: log.append(np.array(z).reshape(-1)), y)
        return fn(y, p)

    @eqx.filter_jit
    def single(p, y0):
        if family == "radius":
            p = dict(p, y0=y0)
        solver = trace.record(make(*tol, optx.max_norm), steps)
        sol = trace.ENTRY[entry](
            logged, solver, y0, p, has_aux=True, max_steps=steps, throw=False
        )
        return sol.stats["trace"]["ys"], sol.stats["num_steps"]

    stride = max(1, n // (400 if core.THOROUGH else 80))
    idx = sorted(set(range(0, n, stride)) | set(core.pick(n, 3, name)))
    for i in idx:
        pi = {k: v[i] for k, v in p.items()}
        log.clear()
        y_, k_ = single(pi, y0[i])
        jax.block_until_ready(y_)
        jax.effects_barrier()
        y_ = np.asarray(y_).reshape(steps + 1, -1)
        k_ = int(k_)
        t.traces += 1
        if i == idx[0]:
            t.sample(solver=name, family=family, evaluated=[z for z in log[:6]], ys=y_[: k_ + 1][:6])
        if len(log) != k_:
            t.undecided += 1
            continue
        same_run = 0
        for k in range(1, k_):
            # step k+1 evaluated log[k], starting from y_[k]
            here, trial = y_[k], log[k]
            if (y_[k + 1] != here).any():
                if not np.array_equal(y_[k + 1], trial):
                    t.bad("moved to a point other than the trial", **where((i,)), log=log[: k_])
                    break
            elif k + 1 < k_ and (trial != here).any():
                before = np.abs(trial - here).max()
                after = np.abs(log[k + 1] - here).max()
                t.note("refused_trials_followed", 1)
                if not np.isfinite(before) or before < 1e-9 * (1 + np.abs(here).max()):
                    continue
                # A dogleg or indirect step is never longer than the Newton step, so a
                # trust region beyond it gives the same trial until it has shrunk below.
                # (The damping is found to 1e-2 only, which is a smaller relative change
                # of the length than any shrinking factor here.)
                capped = "Dogleg" in name or "Indirect" in name
                limit = before * (1 + 1e-9) if capped else before * (1 - 1e-9)
                same_run = same_run + 1 if after > before * (1 - 1e-9) else 0
                if not after <= limit or same_run > 12:
                    t.bad(
                        "a refused trial is not followed by a shorter one", **where((i,)),
                        log=log[: k_], at=k,
                    )
                    break
        k_b = int(K[i])
        if k_ != k_b and family == "table":
            t.bad("alone differs from the batch", **where((i,)), alone=y_[: k_ + 1])
    return t


def jobs():
    return [
        dict(solver=s, family=f) for s in makers() for f in ("table", "smooth", "radius")
    ]


if __name__ == "__main__":
    core.main(
        "C06", jobs(), run,
        rule="whenever the iterate changes, the loss at the new one is not larger, NaN or +inf; "
        "a refused trial is followed by a strictly shorter one",
        bounds=dict(table_cells=CELLS, values=len(VALUES), slopes=len(SLOPES), steps=STEPS),
        assumptions=[
            "combinations whose quadratic model may predict an increase (undamped Newton steps "
            "enlarged beyond length two in a classical trust region) are outside the statement",
            "tables decide exactly; on smooth objectives a rounding slack of 1e-10 is allowed",
        ],
    )
