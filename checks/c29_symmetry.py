"""C29: solves of reflected, relabelled and rescaled problems.

Every problem and start of a family is solved as it is and in every transformed form: signs
of the unknowns and residuals changed, unknowns and residuals reordered, and units changed
by powers of two (of everything together, or for methods that are invariant under more,
of unknowns and residuals separately). Step by step, the transformed run must be the
transform of the original one. Signs and powers of two commute with floating-point
arithmetic, so the comparison is sharp."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 12 if core.THOROUGH else 9
UNITS = [2.0**-7, 2.0**9] + [2.0**-3, 2.0**4] * core.THOROUGH
SEPARATE = [(1.0, 2.0**-6), (2.0**5, 1.0), (2.0**-4, 2.0**10)]
SCALARS = dict(Bisection="root_find", GoldenSearch="minimise")
TINY = 1e-5


def transforms(mode, entry, scalar):
    """Rows of (signs of the unknowns, swap them, signs of the residuals, reverse them,
    unit of the unknowns, unit of the residuals)."""
    out = []
    if mode == "mirror":
        for s in itertools.product((1.0, -1.0), repeat=1 if scalar else 2):
            for swap in (0.0,) if scalar else (0.0, 1.0):
                for r in ((1.0, -1.0) if entry in ("least_squares", "root_find") else (1.0,)):
                    for back in (0.0, 1.0) if entry in ("least_squares", "root_find") and not scalar else (0.0,):
                        row = (s if len(s) == 2 else s * 2, swap, r, back)
                        if row != ((1.0, 1.0), 0.0, 1.0, 0.0):
                            out.append(row)
    else:
        out.append(((1.0, 1.0), 0.0, 1.0, 0.0))
    return out


def run(job):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from checks import c17_implicit as c17
    from checks.c19_conversion import make
    from mc import drive, families as fam, trace

    t = core.Tally()
    entry, name, mode = job["entry"], job["solver"], job["mode"]
    scalar = name in SCALARS
    norm = dict(max=optx.max_norm, two=optx.two_norm)[job["norm"]]
    if scalar:
        base = c17._scalar_problem(entry)
        rows, starts = c17.scalar_rows(), np.array([-0.6, 0.3, 1.1])
    elif entry in ("minimise", "least_squares"):
        base = fam.smooth_min if entry == "minimise" else fam.smooth_res
        rows = fam.stack(fam.smooth_params(core.THOROUGH)[:: 1 if core.THOROUGH else 2])
        starts = fam.STARTS
    else:
        base = c17.problem(entry)
        rows, starts = c17.rows(), fam.STARTS
    p, y0 = fam.product_batch(rows, starts)
    m = len(y0)
    if mode == "mirror":
        scales = [(1.0, 1.0)]
    elif mode == "units":
        scales = [(u, u * u if entry == "minimise" else u) for u in UNITS]
    else:
        scales = SEPARATE
    rtol, atol = (1e-2, 1e-3)
    if mode == "separate" or entry == "minimise" and mode == "units":
        # The same absolute tolerance is used for points and values
        atol = 0.0

    def solver_for(unit):
        if name == "NelderMead":
            return optx.NelderMead(rtol, atol, norm, rdelta=0.05, adelta=0.25 * unit)
        return make(name, (rtol, atol * unit), norm)

    def to(z, g):
        """original -> transformed"""
        z = z * (g["s"] if not scalar else g["s"][0]) * g["u"]
        return z if scalar else jnp.where(g["swap"] > 0, z[::-1], z)

    def back(z, g):
        if not scalar:
            z = jnp.where(g["swap"] > 0, z[::-1], z)
        return z * (g["s"] if not scalar else g["s"][0]) / g["u"]

    def fn(z, a):
        q, g = a
        f = base(back(z, g), q)
        if entry == "fixed_point":
            return to(f, g), None
        f = f * g["v"]
        if entry == "minimise":
            return f, None
        if not scalar:
            f = jnp.where(g["back"] > 0, f[::-1], f)
            f = f * jnp.where(jnp.arange(f.shape[0]) % 2 == 0, g["r"], 1.0)
        else:
            f = f * g["r"]
        return f, None

    def goer(unit):
        solver = solver_for(unit)

        def go(y, q, g):
            options = {}
            if scalar:
                ends = jnp.array([-5.5, 6.25]) * g["s"][0] * g["u"]
                options = dict(lower=ends.min(), upper=ends.max())
            return drive.drive(solver, fn, to(y, g), (q, g), N, options, stats=False)

        return go

    def table(trs, scs):
        return dict(
            s=np.array([x[0] for x in trs]), swap=np.array([x[1] for x in trs]), r=np.array([x[2] for x in trs]),
            back=np.array([x[3] for x in trs]), u=np.array([x[0] for x in scs]), v=np.array([x[1] for x in scs]),
        )

    one = table([((1.0, 1.0), 0.0, 1.0, 0.0)], [(1.0, 1.0)])
    rep = lambda g, k: {q: np.repeat(v, k, 0) for q, v in g.items()}
    original = goer(1.0)
    ref = trace.batched(original, y0, p, rep(one, m))
    ys, term, res = ref["ys"].reshape(m, N + 1, -1), ref["term"], ref["res"]
    weak = np.zeros(m, bool)
    for k in (-1, 1):
        eps = 1 + k * 2.3e-16
        o = trace.batched(original, y0 * eps + k * 1e-16, p, rep(one, m))
        with np.errstate(all="ignore"):
            d = (np.abs(o["ys"].reshape(ys.shape) - ys) <= 1e-9 * (1 + np.abs(ys))) | ~np.isfinite(ys)
        weak |= ~d.reshape(m, -1).all(1) | (o["term"] != term).any(1) | (o["res"] != res).any(1)
    with np.errstate(all="ignore"):
        move = np.abs(np.diff(ys, axis=1)).max(-1)
        gone = ~np.isfinite(ys).all(-1) | (np.abs(ys).max(-1) > 1e8)
    small = np.zeros((m, N + 1), bool)
    small[:, 1:] = (move < TINY) & (move > 0)
    if entry in ("minimise", "least_squares"):
        # At a stationary point up to rounding the rest of the run is decided by rounding
        cost = base if entry == "minimise" else lambda y, q: 0.5 * jnp.sum(base(y, q) ** 2)
        slope = jax.jit(jax.vmap(jax.vmap(jax.grad(cost), (0, None))))(ref["ys"], p)
        small |= np.abs(np.asarray(slope).reshape(ys.shape)).max(-1) < 1e-9
    # Once a run has converged (or blown up), nothing is said about the steps that follow.
    stop = term | (res != 0)
    ended = np.cumsum(small | gone | stop, axis=1) - (small | gone | stop) > 0
    judge = ~ended & ~weak[:, None] & ~small & ~gone
    t.undecided += int(weak.sum())
    t.transitions += m * N
    t.count_states((ys.reshape(m * (N + 1), -1), 1))
    seen = 0
    for unit, value in scales:
        g = table(transforms(mode, entry, scalar), [(unit, value)])
        n = len(g["swap"])
        g = {q: np.repeat(v, n, 0) if len(v) == 1 else v for q, v in g.items()} if n > 1 else g
        go = original if unit == 1.0 else goer(unit)
        gg, idx = fam.product_batch(g, np.arange(m))
        P = {q: v[idx] for q, v in p.items()}
        o = trace.batched(go, y0[idx], P, gg, chunk=1 << 12)
        got = o["ys"].reshape(len(idx), N + 1, -1)
        s = gg["s"][:, None, : got.shape[-1]]
        want = ys[idx] * s * gg["u"][:, None, None]
        if not scalar:
            want = np.where(gg["swap"][:, None, None] > 0, want[..., ::-1], want)
        detail = lambda i: dict(
            solver=name, entry=entry, mode=mode, start=y0[idx[i[0]]], params={q: v[i[0]] for q, v in P.items()},
            transform={q: v[i[0]] for q, v in gg.items()}, step=i[1], run=got[i[0]][: i[1] + 1], expected=want[i[0]][: i[1] + 1],
            stops=o["term"][i[0]], expected_stops=term[idx[i[0]]],
        )
        with np.errstate(all="ignore"):
            same = (np.abs(got - want) <= 1e-8 * (gg["u"][:, None, None] + np.abs(want))).all(-1)
        J = judge[idx]
        t.check_all(same | ~J, "the run of the transformed problem is not the transformed run", detail=detail)
        verdict = (o["term"] == term[idx]) & (o["res"] == res[idx])
        t.check_all(verdict | ~J, "the transformed run stops elsewhere or for another reason", detail=detail)
        t.transitions += len(idx) * N
        seen += int(J.sum())
        t.count_states((got.reshape(-1, got.shape[-1]), 1))
        single = trace.eqx.filter_jit(go)
        for i in core.pick(len(idx), 2, f"{name}{mode}{unit}{value}"):
            a = single(y0[idx[i]], {q: v[i] for q, v in P.items()}, {q: v[i] for q, v in gg.items()})
            t.traces += 1
            ok = np.isclose(np.asarray(a["ys"]).reshape(N + 1, -1), got[i], rtol=1e-7, atol=1e-7 * gg["u"][i]).all(-1)
            if not (ok | ~J[i]).all():
                t.bad("a run alone differs from the one in a batch", **detail((i, int(np.argmin(ok | ~J[i])))))
    t.outcome("iterates judged", seen)
    t.outcome("stopped", int((stop & judge).any(1).sum()))
    t.outcome("refused steps", int(((move == 0) & judge[:, 1:]).sum()))
    t.sample(job=job, members=m, judged=int(judge.sum()), fragile=int(weak.sum()))
    return t


def jobs():
    from mc import solvers as sv

    out = []

    def add(entry, name, modes):
        for mode in modes:
            norm = "two" if len(out) % 2 else "max"
            out.append(dict(entry=entry, solver=name, mode=mode, norm=norm))

    for name in list(sv.MINIMISERS) + list(sv.CUSTOM_MIN) + ["Optax-sgd"]:
        add("minimise", name, ("mirror", "units"))
    add("minimise", "Optax-adam", ("mirror",))
    add("minimise", "NelderMead", ("units", "separate"))
    for name in list(sv.LSQ) + list(sv.CUSTOM_LSQ):
        if name == "IndirectLevenbergMarquardt":
            # Its inner root find raises when stepped at a stationary point
            continue
        modes = ["mirror", "units"]
        if name in ("GaussNewton", "Dogleg", "GN+Armijo", "GN+ClassicalTR", "Dogleg-lsq+LinearTR"):
            modes.append("separate")
        add("least_squares", name, modes)
    for name in ("Newton", "Chord"):
        add("root_find", name, ("mirror", "units", "separate"))
    add("root_find", "NewtonNoCauchy", ("mirror", "units"))
    add("fixed_point", "FixedPointIteration", ("mirror", "units"))
    add("root_find", "Bisection", ("mirror", "units", "separate"))
    add("minimise", "GoldenSearch", ("units", "separate"))
    return out


if __name__ == "__main__":
    core.main(
        "C29", jobs(), run,
        rule="every problem and start of the family x solver x transformation; the transformed run is the transform of the run",
        bounds=dict(steps=N, units=UNITS, separate_units=SEPARATE),
        assumptions=[
            "a run that changes when its inputs move by a rounding unit is not judged (counted as undecided)",
            f"nothing is said after a step shorter than {TINY}, since some methods compare with the rounding unit itself",
            "mirrored intervals for golden-section search and mirrored simplices for Nelder-Mead are not the "
            "transforms of the original ones, and Adam has absolute constants",
            "indirect damping is left out: its inner root find has absolute constants and raises when stepped at a stationary point",
        ],
    )
