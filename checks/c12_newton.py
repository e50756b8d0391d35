"""C12: every Newton and chord step against the exactly solved linearisation.

All 2x2 integer matrices with entries in {-1, 0, 1, 2} (singular ones included), with
linear and quadratic parts, offsets, starts, bounds, tolerances and both stopping tests,
scalar equations with convergent, cyclic, slow and divergent iterations, overdetermined
and rank-deficient systems. Each recorded step is recomputed in numpy from the recorded
iterate, and each stopping decision from the recorded steps."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 16 if core.THOROUGH else 9
TOLS = [(1e-3, 1e-3), (0.0, 0.25), (0.5, 1e-6)]
KAPPAS = [1e-2, 0.5]
SCALARS = ["cube", "atan", "double", "exp", "cycle", "sqrt", "abs"]


def scalar(xp, kind, y, a):
    if kind == "cube":
        return y**3 - a
    if kind == "atan":
        return xp.arctan(y) - 0.25 * a
    if kind == "double":
        return (y - a) ** 2
    if kind == "exp":
        return xp.exp(xp.clip(y, -50.0, 50.0)) - a
    if kind == "cycle":
        return y**3 - 2 * y + 2 + a
    if kind == "sqrt":
        return xp.sign(y - a) * xp.sqrt(xp.abs(y - a))
    return xp.where(y > 0, 2 * y, 0.5 * y) - a


def scalar_slope(kind, y, a):
    import numpy as np

    if kind == "cube":
        return 3 * y**2
    if kind == "atan":
        return 1 / (1 + y**2)
    if kind == "double":
        return 2 * (y - a)
    if kind == "exp":
        return np.where(np.abs(y) > 50, 0.0, np.exp(np.clip(y, -50, 50)))
    if kind == "cycle":
        return 3 * y**2 - 2
    if kind == "sqrt":
        return 0.5 / np.sqrt(np.abs(y - a))
    return np.where(y > 0, 2.0, 0.5)


def short(x):
    import numpy as np

    return (np.abs(x) < 2**20) & (np.round(x * 2**20) == x * 2**20)


def power(x):
    import numpy as np

    return np.abs(np.frexp(x)[0]) == 0.5


def run(job):
    import jax
    import jax.numpy as jnp
    import lineax as lx
    import numpy as np
    import optimistix as optx

    from mc import families as fam, solvers, trace

    t = core.Tally()
    n = STEPS
    fam_name, cls, bounds, cauchy, normname, layout = (job[k] for k in ("family", "cls", "bounds", "cauchy", "norm", "layout"))
    d = 1 if fam_name in SCALARS else 2
    linear_solver = dict(
        auto=lx.AutoLinearSolver(well_posed=None), svd=lx.AutoLinearSolver(well_posed=False), lu=lx.LU(), qr=lx.QR()
    )[job["linear"]]

    def pack(x):
        if layout == "dict":
            return dict(u=x[0], w=[x[1:].reshape(1, d - 1)])
        return x[0] if layout == "scalar" else x

    def unpack(y):
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(y)])

    def res(x, p):
        if fam_name == "system":
            return p["A"] @ x + p["b"] + p["q"] * x**2
        if fam_name == "tall":
            return p["A"] @ x + jnp.concatenate([p["b"], p["b"][:1] * 0.5]) + p["q"] * jnp.concatenate([x, x[:1]]) ** 2
        return scalar(jnp, fam_name, x, p["a"])

    def fn(y, p):
        x = unpack(y)
        r = res(x, p)
        out = pack(r) if r.shape == x.shape else (r[:1], dict(z=r[1:]))
        return out, x

    def one(x0, p):
        solver = getattr(optx, cls)(
            p["rtol"], p["atol"], solvers.NORMS[normname], p["kappa"], linear_solver=linear_solver, cauchy_termination=cauchy
        )
        opts = {}
        if "lower" in bounds:
            opts["lower"] = p["lo"][0] if layout == "vector0" else pack(p["lo"])
        if "upper" in bounds:
            opts["upper"] = p["hi"][0] if layout == "vector0" else pack(p["hi"])
        out = trace.runner("root_find", fn, solver, n)(pack(x0), p, opts)
        out["trace"]["ys"] = jax.vmap(unpack)(out["trace"]["ys"])
        out["value"] = unpack(out["value"])
        return out

    tols = np.array(TOLS)
    kap = np.array(KAPPAS if not cauchy else KAPPAS[:1])
    if d == 2:
        entries = (-1.0, 0.0, 1.0, 2.0)
        rows = 2 if fam_name == "system" else 3
        if rows == 2:
            A = np.array(list(itertools.product(entries, repeat=4))).reshape(-1, 2, 2)
        else:
            A = np.array(list(itertools.product((-1.0, 0.0, 2.0), repeat=6))).reshape(-1, 3, 2)
            rank = np.array([np.linalg.matrix_rank(m) for m in A])
            if job["linear"] != "svd":
                A = A[rank == 2]
        b = np.array([(1.0, -2.0), (0.0, 0.5)])
        q = np.array([0.0, 0.25, -1.0])
        x0 = np.array([(0.0, 0.0), (1.5, -1.0), (3.0, 3.0)])
        lims = np.array([(-1.0, 1.0), (0.25, 4.0)]) if bounds != "none" else np.array([(0.0, 0.0)])
        if not core.THOROUGH and (rows == 3 or layout != "vector"):
            q, x0, b = q[:2], x0[1:2], b[:1]
        A, b, q, x0, lims, tl, kp = fam.product_batch(A, b, q, x0, lims, tols, kap)
        p = dict(A=A, b=b, q=q)
    else:
        a = np.array([-1.5, 0.0, 0.5, 1.0, 3.0, 8.0])
        x0 = np.linspace(-4.0, 4.0, 33)[:, None] + 0.0
        lims = np.array([(-1.0, 1.0), (0.25, 6.0), (-8.0, 0.5)]) if bounds != "none" else np.array([(0.0, 0.0)])
        a, x0, lims, tl, kp = fam.product_batch(a, x0, lims, tols, kap)
        p = dict(a=a)
    m = len(x0)
    p.update(lo=np.repeat(lims[:, :1], d, 1), hi=np.repeat(lims[:, 1:], d, 1), rtol=tl[:, 0].copy(), atol=tl[:, 1].copy(), kappa=kp)
    if layout == "vector" and bounds != "none" and d == 2:
        p["lo"] = p["lo"] + np.array([0.0, 0.125])
        p["hi"] = p["hi"] + np.array([0.0, 0.5])
    out = trace.batched(one, x0, p, chunk=min(m, 30000))
    tr, k, result = out["trace"], out["steps"], out["result"]
    ys, term, rs = tr["ys"], tr["term"], tr["res"]

    def f_and_jac(x):
        if d == 2:
            J = p["A"].copy()
            if fam_name == "system":
                r = np.einsum("nij,nj->ni", p["A"], x) + p["b"] + p["q"][:, None] * x**2
            else:
                r = np.einsum("nij,nj->ni", p["A"], x) + np.concatenate([p["b"], 0.5 * p["b"][:, :1]], 1) + p["q"][:, None] * np.concatenate([x, x[:, :1]], 1) ** 2
                J[:, 2, 0] += 2 * p["q"] * x[:, 0]
            J[:, 0, 0] += 2 * p["q"] * x[:, 0]
            J[:, 1, 1] += 2 * p["q"] * x[:, 1]
            return r, J
        r = scalar(np, fam_name, x, a[:, None])
        return r, scalar_slope(fam_name, x, a[:, None])[:, :, None]

    def detail(ix):
        i = ix[0]
        return dict(p={q_: v[i] for q_, v in p.items()}, start=x0[i], points=ys[i][: 5], result=trace.name(result[i]))

    size = dict(max=lambda v: np.abs(v).max(1), rms=lambda v: np.sqrt((v**2).mean(1)), two=lambda v: np.sqrt((v**2).sum(1)))[normname]
    J0 = f_and_jac(x0)[1]
    t.check_all((ys[:, 0] == x0).all(1), "the first iterate is not the initial guess", detail=detail)
    t.check_all(~term[:, 0], "stopped before the first step", detail=detail)
    dprev, eprev = np.full(m, np.inf), np.zeros(m)
    sure_prev = np.ones(m, bool)
    for i in range(n):
        act = k > i
        y, y1 = ys[:, i], ys[:, i + 1]
        f, J = f_and_jac(y)
        if cls == "Chord":
            J = J0
        bad = ~np.isfinite(J).all((1, 2)) | ~np.isfinite(f).all(1)
        Jn = np.where(bad[:, None, None], np.eye(J.shape[1], d)[None], J)
        sv = np.linalg.svd(Jn, compute_uv=False)
        small_sv = sv[:, -1] <= 1e-13 * np.maximum(sv[:, 0], 1e-300)
        exact_singular = (sv[:, 0] == 0) | small_sv
        ill = (sv[:, -1] < 1e-7 * sv[:, 0]) & ~exact_singular
        if job["linear"] == "svd":
            gap = ((sv < 1e-6 * sv[:, :1]) & (sv > 1e-14 * sv[:, :1])).any(1)
            ill, exact_singular = gap, np.zeros(m, bool)
            diff = -np.einsum("nij,nj->ni", np.linalg.pinv(Jn, rcond=1e-10), f)
        else:
            Js = np.where(exact_singular[:, None, None], np.eye(J.shape[1], d)[None], Jn)
            diff = -np.einsum("nij,nj->ni", np.linalg.pinv(Js, rcond=1e-15), f)
        tiny = np.abs(J).reshape(m, -1).max(1) < 1e-100
        # singular systems: exactly zero pivots are certain to be reported, others are not
        # decided (a rounding error in the pivot makes the system regular)
        # (lineax takes the pseudoinverse of a scalar, which is not a failure)
        exact = (np.round(J * 64) == J * 64).all((1, 2)) & (np.abs(J) < 1e6).all((1, 2))
        det_exact = exact_singular & exact & (J.shape[1] == d == 2)
        sing = det_exact & ~bad
        unsure = bad | ill | (exact_singular & ~sing) | (tiny & ~sing)
        reg = act & ~unsure & ~sing
        want = y + diff
        if "lower" in bounds:
            want = np.maximum(want, p["lo"])
        if "upper" in bounds:
            want = np.minimum(want, p["hi"])
        with np.errstate(all="ignore"):
            cond = np.where(sv[:, -1] > 0, sv[:, 0] / sv[:, -1], 1.0)
            if job["linear"] == "svd":
                cond = np.ones(m) * 1e3
            tol = 1e-11 * cond[:, None] * (np.abs(y) + np.abs(diff).max(1, keepdims=True) + 1e-6 + np.abs(f).max(1, keepdims=True) / np.maximum(sv[:, :1], 1e-300) * 1e-2)
        t.check_all(
            (np.abs(y1 - want) <= tol).all(1) | ~reg, "the step does not solve the linearised equation within the bounds",
            detail=lambda ix, i=i: dict(detail(ix), step=i, expected=want[ix[0]], got=y1[ix[0]]),
        )
        # a failed linear solve ends the solve with that failure
        failed = rs[:, i + 1] == trace.RESULT_NAMES.index("singular")
        s_act = act & sing
        t.check_all(
            ~s_act | (term[:, i + 1] & failed), "a singular system is not reported by the solver",
            detail=lambda ix, i=i: dict(detail(ix), step=i, got=trace.name(rs[ix[0], i + 1])),
        )
        fin = np.isfinite(y1).all(1)
        t.check_all(
            ~s_act | ((k == i + 1) & (result == np.where(fin, trace.RESULT_NAMES.index("singular"), trace.NONFINITE))),
            "a singular system does not end the solve with a failure", detail=detail,
        )
        t.outcome("singular, iterate kept finite by the bounds", (s_act & fin).sum())
        t.outcome("singular", (s_act & ~fin).sum())
        t.check_all(~reg | ~failed, "a regular system is reported as failed", detail=detail)
        # stopping test, from the recorded step
        delta = want - y
        scale = p["atol"][:, None] + p["rtol"][:, None] * np.abs(y1)
        with np.errstate(all="ignore"):
            ds = size(delta / scale)
            err = size((tol + 1e-13 * np.abs(y)) / scale) + 1e-9 * ds
        # Short binary fractions and pivots that are powers of two: no rounding, so equality
        # is decided exactly.
        plain = (short(y) & short(y1) & (y1 == want)).all(1) & short(f).all(1) & short(Jn).all((1, 2))
        plain &= (p["rtol"] == 0) & (p["atol"] == 0.25) & (normname == "max") & (job["linear"] in ("auto", "lu"))
        if J.shape[1:] == (2, 2):
            plain &= power(np.abs(Jn[:, :, 0]).max(1)) & power(Jn[:, 0, 0] * Jn[:, 1, 1] - Jn[:, 0, 1] * Jn[:, 1, 0])
        else:
            plain &= power(Jn[:, 0, 0]) & (d == 1)
        err = np.where(plain, 0.0, err)
        lt = lambda v, e, c: (v + e < c, v - e >= c)  # surely below, surely not
        if cauchy:
            fs = size(f / p["atol"][:, None])
            y_yes, y_no = lt(ds, err, 1.0)
            f_yes, f_no = lt(fs, np.where(plain, 0.0, 1e-9 * (1 + fs)), 1.0)
            t.outcome("exactly at the tolerance", (reg & plain & ((ds == 1) & f_yes | (fs == 1) & y_yes)).sum())
            yes, no = y_yes & f_yes, y_no | f_no
            want_div = np.zeros(m, bool)
            sure = reg & (yes | no)
            stop = yes
        elif i == 0:
            sure, stop, want_div = reg, np.zeros(m, bool), np.zeros(m, bool)
        else:
            rate = ds / dprev
            rerr = rate * (err / np.maximum(ds, 1e-300) + eprev / np.maximum(dprev, 1e-300))
            factor = ds * rate / (1 - rate)
            small_y, small_n = lt(ds, err, 1e-13)
            # the exact size counted as negligible is not part of the property
            small_n &= ds > 1e-11
            small_y &= (ds == 0) | (ds < 1e-15)
            div_y = (rate - rerr > 2) | ~np.isfinite(rate)
            div_n = np.isfinite(rate) & (rate + rerr < 2)
            ferr = np.abs(factor) * (err / np.maximum(ds, 1e-300) + rerr / np.maximum(rate, 1e-300) + rerr / np.maximum(np.abs(1 - rate), 1e-300))
            conv_y = (rate + rerr < 1) & (factor - ferr > 0) & (factor + ferr < p["kappa"])
            at = plain & plain_prev & power(rate) & (rate < 1) & power(1 - rate) & (factor == p["kappa"])
            t.outcome("rate test: exactly at the threshold", (reg & at).sum())
            conv_n = (rate - rerr > 1) | (factor - ferr > p["kappa"]) | at
            sure_in = sure_prev & reg
            yes = small_y | (small_n & div_y) | conv_y
            no = small_n & div_n & conv_n
            sure = sure_in & (yes | no)
            stop = yes
            want_div = small_n & div_y
            t.outcome("rate test: negligible", (sure & small_y).sum())
            t.outcome("rate test: diverged", (sure & want_div).sum())
            t.outcome("rate test: converged", (sure & conv_y & ~small_y).sum())
            t.outcome("rate test: go on", (sure & ~stop).sum())
        got = term[:, i + 1]
        t.check_all(
            (got == stop) | ~sure, "the stopping test differs",
            detail=lambda ix, i=i: dict(detail(ix), step=i, size=ds[ix[0]], previous=dprev[ix[0]], got=bool(got[ix[0]]), expected=bool(stop[ix[0]])),
        )
        t.check_all(
            ~sure | ~stop | ((rs[:, i + 1] == trace.DIVERGENCE) == want_div) & np.isin(rs[:, i + 1], [0, trace.DIVERGENCE]),
            "success or divergence reported wrongly", detail=lambda ix, i=i: dict(detail(ix), step=i),
        )
        t.check_all(
            ~sure | ~stop | ((k == i + 1) & (result == np.where(want_div, trace.DIVERGENCE, 0))),
            "the solve does not end with the solver's verdict", detail=detail,
        )
        t.outcome("stopped", (sure & stop).sum())
        t.undecided += int((act & ~sure & ~sing).sum())
        t.transitions += int(act.sum())
        dprev, eprev, sure_prev, plain_prev = ds, err, reg, plain
    ended = k == n
    t.check_all((out["value"] == ys[np.arange(m), k]) .all(1) | (out["value"] != out["value"]).any(1), "the value is not the last iterate", detail=detail)
    for c in np.unique(result):
        t.outcome("solve: " + trace.name(c), (result == c).sum())
    t.count_states((np.concatenate([ys[:, : n].reshape(m, -1), x0] + [v.reshape(m, -1) for v in p.values()], 1), 1))
    single = jax.jit(one)
    for i in core.pick(m, 5, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q_: v[i] for q_, v in p.items()}))
            if not (trace.tree_close(o["trace"]["ys"][: 3], ys[i][: 3], 1e-6, 1e-6)):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.sample(case=detail((m // 2,)))
    return t


if __name__ == "__main__":
    jobs = []
    for cls, cauchy in itertools.product(("Newton", "Chord"), (True, False)):
        for bounds in ("none", "lower", "upper", "lowerupper"):
            jobs.append(dict(family="system", cls=cls, bounds=bounds, cauchy=cauchy, norm="max", layout="vector", linear="auto"))
            jobs.append(dict(family="system", cls=cls, bounds=bounds, cauchy=cauchy, norm="rms", layout="dict", linear="lu"))
        jobs.append(dict(family="system", cls=cls, bounds="lowerupper", cauchy=cauchy, norm="two", layout="vector0", linear="auto"))
        jobs.append(dict(family="system", cls=cls, bounds="none", cauchy=cauchy, norm="two", layout="vector", linear="svd"))
        jobs.append(dict(family="tall", cls=cls, bounds="none", cauchy=cauchy, norm="max", layout="vector", linear="auto"))
        jobs.append(dict(family="tall", cls=cls, bounds="upper", cauchy=cauchy, norm="max", layout="dict", linear="svd"))
        for i, s in enumerate(SCALARS):
            jobs.append(dict(family=s, cls=cls, bounds="none", cauchy=cauchy, norm=("max", "two", "rms")[i % 3], layout="scalar", linear="auto"))
            jobs.append(dict(family=s, cls=cls, bounds="lowerupper", cauchy=cauchy, norm="max", layout="scalar", linear="auto"))
    core.main(
        "C12", jobs, run,
        rule="all 2x2 matrices over {-1,0,1,2} x offsets x curvatures x starts x bounds x tolerances x kappa, all 3x2 "
        "matrices over {-1,0,2}, seven scalar equations x 6 levels x 33 starts, both methods, both tests",
        bounds=dict(steps=STEPS, tols=TOLS, kappas=KAPPAS),
        assumptions=["nearly singular systems (condition above 1e7) are not judged"],
    )
