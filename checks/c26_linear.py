"""C26: linear solvers and structure tags, over structured problem families.

Families of equations and objectives in three unknowns have Jacobians and Hessians that are
diagonal, triangular, tridiagonal, symmetric or definite by construction. Every problem and
start of a family is solved with the default linear solver and no tags, recording all
iterates, and then with every linear solver and tag set that fits. The runs must be the same
up to rounding; a run whose course changes when its inputs move by a rounding unit is not
judged. The default run itself is compared with the exact linearised steps in numpy for the
Newton methods."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 12 if core.THOROUGH else 7
TOL = (1e-5, 1e-5)
# solve overdetermined systems even for square problems
DAMPED = ("LevenbergMarquardt", "IndirectLevenbergMarquardt", "Damped+LinearTR", "BestSoFar-LM")


def residual(shape, y, p, xp):
    """Three equations in three unknowns whose Jacobian has the given shape."""
    a, b, m, q = p["a"], p["b"], p["m"], p["q"]
    own = [a * (1 + 0.5 * i) * y[i] + q * y[i] ** 3 - b * (1 - 0.75 * i) for i in range(3)]
    if shape == "diagonal":
        extra = [0.0, 0.0, 0.0]
    elif shape == "lower":
        extra = [0.0, m * y[0] ** 2, m * (y[0] + y[1] * y[0])]
    elif shape == "upper":
        extra = [m * (y[2] + y[1] * y[2]), m * y[2] ** 2, 0.0]
    elif shape == "unit-lower":
        own = [y[i] - b * (1 - 0.75 * i) for i in range(3)]
        extra = [0.0, m * y[0] ** 2 + q * y[0], a * (y[0] + y[1] * y[0])]
    elif shape == "tridiagonal":
        extra = [m * y[1] ** 2, m * (y[0] - y[2]), 0.5 * m * y[1]]
    elif shape in ("symmetric", "positive", "negative"):
        # gradient of a polynomial
        extra = [m * (y[1] + y[2]), m * (y[0] - 0.5 * y[2]), m * (y[0] - 0.5 * y[1])]
    else:  # general
        extra = [m * y[1] * y[2], m * y[0] ** 2 - 0.25 * y[2], 0.5 * m * (y[0] + y[1])]
    out = xp.stack([own[i] + extra[i] for i in range(3)])
    return -out if shape == "negative" else out


def potential(y, p):
    """Objective with Hessian diag(a) + m * constant + q * squares."""
    a, b, m, q = p["a"], p["b"], p["m"], p["q"]
    f = m * (y[0] * y[1] + y[0] * y[2] - 0.5 * y[1] * y[2])
    for i in range(3):
        f = f + 0.5 * a * (1 + 0.5 * i) * y[i] ** 2 + 0.25 * q * y[i] ** 4 - b * (1 - 0.75 * i) * y[i]
    return f


def tall(y, p, xp):
    r = residual("general", y, p, xp)
    return xp.concatenate([r, xp.stack([0.5 * y[0] - p["b"], y[1] * y[2] * p["q"] + 0.25])])


def family(definite):
    import numpy as np

    from mc import families as fam

    a = (1.0, 2.0, 4.0) if definite else (1.0, -2.0, 4.0)
    rows = [
        dict(a=a_, b=b, m=m, q=q)
        for a_, b, m, q in itertools.product(a, (0.0, 1.0, -3.0), (0.0, 0.25, -0.5), (0.0, 0.125, 1.0))
    ]
    starts = np.array([[0.0, 0.0, 0.0], [1.0, -0.5, 0.25], [-2.0, 1.5, 3.0], [0.5, 2.0, -1.0]])
    return fam.product_batch(fam.stack(rows), starts)


def tables():
    import lineax as lx

    tight = dict(rtol=1e-13, atol=1e-13)
    dense = {"LU": lx.LU(), "QR": lx.QR(), "SVD": lx.SVD(), "auto": lx.AutoLinearSolver(well_posed=True), "auto-any": lx.AutoLinearSolver(well_posed=False)}
    default = {"default": None}
    sets = {
        # shape -> [(tags, linear solvers)]
        "general": [((), dense)],
        "diagonal": [
            ((lx.diagonal_tag,), {**default, "Diagonal": lx.Diagonal(), "auto": dense["auto"], "auto-any": dense["auto-any"], "LU": dense["LU"]}),
            ((lx.symmetric_tag,), {**default}),
            ((lx.lower_triangular_tag,), {**default, "Triangular": lx.Triangular()}),
            ((lx.diagonal_tag, lx.symmetric_tag, lx.tridiagonal_tag), {**default, "Tridiagonal": lx.Tridiagonal()}),
        ],
        "lower": [((lx.lower_triangular_tag,), {**default, "Triangular": lx.Triangular(), "auto": dense["auto"], "QR": dense["QR"]})],
        "upper": [((lx.upper_triangular_tag,), {**default, "Triangular": lx.Triangular(), "auto": dense["auto"], "SVD": dense["SVD"]})],
        "unit-lower": [((lx.lower_triangular_tag, lx.unit_diagonal_tag), {**default, "Triangular": lx.Triangular()}), ((lx.unit_diagonal_tag,), {**default})],
        "tridiagonal": [((lx.tridiagonal_tag,), {**default, "Tridiagonal": lx.Tridiagonal(), "auto": dense["auto"], "LU": dense["LU"]})],
        "symmetric": [((lx.symmetric_tag,), {**default, "LU": dense["LU"], "auto": dense["auto"]})],
        "positive": [
            ((lx.positive_semidefinite_tag,), {**default, "Cholesky": lx.Cholesky(), "auto": dense["auto"], "CG": lx.CG(**tight), "GMRES": lx.GMRES(**tight), "QR": dense["QR"]}),
            ((lx.positive_semidefinite_tag, lx.symmetric_tag), {**default, "Cholesky": lx.Cholesky()}),
        ],
        "negative": [((lx.negative_semidefinite_tag,), {**default, "Cholesky": lx.Cholesky(), "auto": dense["auto"]})],
    }
    return sets, dense


def variants(part):
    """(label of the problem, solver, choice) -> the choices to compare, as factories."""
    import lineax as lx
    import optimistix as optx

    from mc.solvers import CustomBFGS, CustomGN

    sets, dense = tables()
    r, a = TOL
    roots = {
        "Newton": lambda ls: optx.Newton(r, a, **ls),
        "Newton-kappa": lambda ls: optx.Newton(r, a, cauchy_termination=False, **ls),
        "Newton-rms": lambda ls: optx.Newton(r, a, optx.rms_norm, **ls),
        "Chord": lambda ls: optx.Chord(r, a, **ls),
        "Chord-kappa": lambda ls: optx.Chord(r, a, cauchy_termination=False, **ls),
        "BestSoFar": lambda ls: optx.BestSoFarRootFinder(optx.Newton(r, a, **ls)),
    }
    lsq = {
        "GaussNewton": lambda ls: optx.GaussNewton(r, a, **ls),
        "LevenbergMarquardt": lambda ls: optx.LevenbergMarquardt(r, a, **ls),
        "IndirectLevenbergMarquardt": lambda ls: optx.IndirectLevenbergMarquardt(r, a, **ls),
        "Dogleg": lambda ls: optx.Dogleg(r, a, **ls),
        "GN+Armijo": lambda ls: CustomGN(r, a, optx.max_norm, optx.NewtonDescent(**ls), optx.BacktrackingArmijo()),
        "Damped+LinearTR": lambda ls: CustomGN(r, a, optx.max_norm, optx.DampedNewtonDescent(**ls), optx.LinearTrustRegion()),
        "BestSoFar-LM": lambda ls: optx.BestSoFarLeastSquares(optx.LevenbergMarquardt(r, a, **ls)),
    }
    minis = {
        "BFGS-direct": lambda ls: CustomBFGS(r, a, optx.max_norm, False, optx.NewtonDescent(**ls), optx.BacktrackingArmijo()),
        "BFGS-damped": lambda ls: CustomBFGS(r, a, optx.max_norm, False, optx.DampedNewtonDescent(**ls), optx.ClassicalTrustRegion()),
        "BFGS-dogleg": lambda ls: CustomBFGS(r, a, optx.max_norm, False, optx.DoglegDescent(**ls), optx.ClassicalTrustRegion()),
        "BFGS-indirect": lambda ls: CustomBFGS(r, a, optx.max_norm, False, optx.IndirectDampedNewtonDescent(**ls), optx.ClassicalTrustRegion()),
    }
    plain = {
        "BFGS": lambda ls: optx.BFGS(r, a), "DFP-direct": lambda ls: optx.DFP(r, a, use_inverse=False),
        "LBFGS": lambda ls: optx.LBFGS(r, a), "NonlinearCG": lambda ls: optx.NonlinearCG(r, a),
        "NelderMead": lambda ls: optx.NelderMead(r, a),
    }
    if part == "roots":
        return roots, sets
    if part == "least_squares":
        hessian = (lx.positive_semidefinite_tag, lx.symmetric_tag)
        tallset = {"QR": dense["QR"], "SVD": dense["SVD"], "auto-any": dense["auto-any"], "auto-none": lx.AutoLinearSolver(well_posed=None)}
        return lsq, {
            "tall": [((), tallset), (hessian, {"default": None, "SVD": dense["SVD"]})],
            "general": [((), {**dense, **tallset}), ((lx.positive_semidefinite_tag,), {"default": None})],
            "diagonal": [((lx.diagonal_tag, lx.symmetric_tag), {"default": None})],
        }
    if part == "minimise":
        posdef = {"Cholesky": lx.Cholesky(), "LU": dense["LU"], "QR": dense["QR"], "SVD": dense["SVD"], "auto": dense["auto"], "auto-any": dense["auto-any"], "CG": lx.CG(rtol=1e-13, atol=1e-13)}
        return minis, {"potential": [((), posdef), ((lx.positive_semidefinite_tag,), {"default": None, "Cholesky": lx.Cholesky()}), ((lx.symmetric_tag,), {"default": None})]}
    return plain, {"potential": [((lx.positive_semidefinite_tag,), {"default": None}), ((lx.symmetric_tag,), {"default": None})]}


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np

    from mc import trace

    t = core.Tally()
    part, shape, name = job["part"], job["shape"], job["solver"]
    makers, sets = variants(part)
    entry = dict(roots="root_find", least_squares="least_squares").get(part, "minimise")
    if job.get("entry"):
        entry = job["entry"]
    split = job.get("split", False)

    def raw(y, p):
        if part in ("minimise", "plain"):
            return potential(y, p)
        if shape == "tall":
            return tall(y, p, jnp)
        f = residual(shape, y, p, jnp)
        return f + y if entry == "fixed_point" else f

    def pack(x):
        return dict(a=x[:2], b=x[2]) if split else x

    def unpack(y):
        return jnp.concatenate([y["a"], y["b"][None]]) if split else y

    def fn(y, p):
        f = raw(unpack(y), p)
        if split and f.shape == (3,):
            f = pack(f)
        return f, unpack(y) * 2

    p, x0 = family(shape in ("positive", "negative", "potential"))
    n = len(x0)

    def make(solver, tags):
        single = trace.runner(entry, fn, solver, N, tags=frozenset(tags))

        def one(x, q):
            o = single(pack(x), q)
            return dict(ys=jax.vmap(unpack)(o["trace"]["ys"]), steps=o["steps"], result=o["result"], value=unpack(o["value"]), aux=o["aux"])

        f = eqx.filter_jit(jax.vmap(one))
        return one, lambda x, q: jtu.tree_map(np.asarray, f(x, q))

    def near(o, r, tol):
        with np.errstate(all="ignore"):
            d = [
                (np.abs(o[k] - r[k]) <= tol * (1 + np.abs(r[k]))) | (o[k] == r[k]) | (np.isnan(o[k]) & np.isnan(r[k]))
                for k in ("ys", "value", "aux")
            ]
        d = [x.reshape(n, -1).all(1) for x in d]
        return d[0] & d[1] & d[2] & (o["steps"] == r["steps"]) & (o["result"] == r["result"])

    _, go = make(makers[name]({}), ())
    ref = go(x0, p)
    weak = np.zeros(n, bool)
    for k in (-2, -1, 1, 2):
        eps = 1 + k * 2.3e-16
        weak |= ~near(go(x0 * eps + k * 1e-16 * np.array([1, -1, 1]), {a: b / eps for a, b in p.items()}), ref, 1e-8)
    # singular systems: what a linear solver makes of them is its own business
    bad = ~np.isin(ref["result"], [trace.SUCCESS, trace.MAXSTEPS, trace.DIVERGENCE])
    with np.errstate(all="ignore"):
        bad |= ~(np.abs(np.nan_to_num(ref["ys"], nan=np.inf)).reshape(n, -1).max(1) < 1e6)
    ill = np.zeros(n, bool)
    if part in ("roots", "least_squares"):
        jac = jax.jit(jax.vmap(jax.vmap(jax.jacfwd(raw), in_axes=(0, None))))
        J = np.asarray(jac(ref["ys"], p))
        live = np.arange(N + 1)[None] <= ref["steps"][:, None]
        J = np.where((live & np.isfinite(J).all((2, 3)))[..., None, None], J, np.eye(*J.shape[2:]))
        if entry == "fixed_point":
            J = np.where((np.abs(J - np.eye(3)).max((2, 3)) == 0)[..., None, None], J, J - np.eye(3))
        ill = (np.linalg.cond(J) > 1e6).any(1)
        if part == "roots":
            # the default run takes the exact linearised steps
            F = np.asarray(jax.jit(jax.vmap(jax.vmap(raw, in_axes=(0, None))))(ref["ys"], p))
            if entry == "fixed_point":
                F = F - ref["ys"]
            with np.errstate(all="ignore"):
                base = J if "Chord" not in name else np.broadcast_to(J[:, :1], J.shape)
                base = np.where((np.isfinite(base).all((2, 3)) & (np.linalg.cond(base) < 1e8))[..., None, None], base, np.eye(3))
                step = np.linalg.solve(base, np.nan_to_num(F)[..., None])[..., 0]
                want = ref["ys"][:, :-1] - step[:, :-1]
                diff = np.abs(ref["ys"][:, 1:] - want) <= 1e-6 * (1 + np.abs(want))
            taken = np.arange(1, N + 1)[None] <= ref["steps"][:, None]
            if name != "BestSoFar":
                t.check_all(diff.all(-1) | ~taken | (ill | bad)[:, None], "the default run does not take the linearised steps",
                            detail=lambda i: dict(start=x0[i[0]], params={k: v[i[0]] for k, v in p.items()}, ys=ref["ys"][i[0]], step=i[1]))
    t.undecided += int((weak | bad | ill).sum())
    for r, c in zip(*np.unique(ref["result"], return_counts=True)):
        t.outcome(trace.name(r), c)
    t.count_states((ref["ys"], 2))
    t.transitions += int(ref["steps"].sum())
    for tags, solvers in sets[shape]:
        for label, ls in solvers.items():
            if label == "default" and not tags:
                continue
            if label in ("LU", "auto") and name in DAMPED:  # not square
                continue
            one, f = make(makers[name]({} if ls is None else dict(linear_solver=ls)), tags)
            o = f(x0, p)
            short = np.minimum(o["steps"], ref["steps"])
            with np.errstate(all="ignore"):
                longer = np.where((o["steps"] > ref["steps"])[:, None, None], o["ys"], ref["ys"])
                moves = np.abs(np.diff(longer, axis=1)).max(2)
            late = (np.arange(N)[None] >= short[:, None] - 1) & (np.arange(N)[None] < np.maximum(o["steps"], ref["steps"])[:, None])
            floor = (o["steps"] != ref["steps"]) & (np.where(late, moves, 0).max(1) < 1e-10)
            # iterative methods break down where there is nothing left to solve
            broke = np.zeros(n, bool)
            if label in ("CG", "GMRES"):
                broke = ~np.isin(o["result"], [trace.SUCCESS, trace.MAXSTEPS, trace.DIVERGENCE])
            skip = weak | bad | ill | floor | broke
            t.undecided += int((floor | broke).sum())
            t.check_all(
                near(o, ref, 1e-6) | skip, "the linear solver or the tags change the solve",
                detail=lambda i: dict(
                    solver=name, linear=label, tags=[str(x) for x in tags], start=x0[i[0]], params={k: v[i[0]] for k, v in p.items()},
                    got=o["ys"][i[0]][: o["steps"][i[0]] + 1], default=ref["ys"][i[0]][: ref["steps"][i[0]] + 1],
                    outcome=[trace.name(o["result"][i[0]]), trace.name(ref["result"][i[0]])],
                ),
            )
            t.transitions += int(o["steps"].sum())
            t.note("judged", int((~skip).sum()))
            replayed = t.traces == 0 or core.THOROUGH
            alone = eqx.filter_jit(one)
            for i in core.pick(n, 6, name + label) if replayed else ():
                for _ in range(2):
                    b = alone(jnp.asarray(x0[i]), {k: jnp.asarray(v[i]) for k, v in p.items()})
                    if not skip[i] and (int(b["steps"]) != o["steps"][i] or int(b["result"]) != o["result"][i]):
                        t.bad("a solve alone differs from the same solve in a batch", solver=name, linear=label, start=x0[i])
                t.traces += 1
    t.sample(job=job, members=n, judged=int((~(weak | bad | ill)).sum()))
    return t


def jobs():
    out = []
    for part in ("roots", "least_squares", "minimise", "plain"):
        makers, sets = variants(part)
        for shape in sets:
            for name in makers:
                if part == "roots" and name not in ("Newton", "Chord") and shape not in dict(BestSoFar=("lower",), **{"Newton-kappa": ("general", "positive")}).get(name, ("general",)) and not core.THOROUGH:
                    continue
                out.append(dict(part=part, shape=shape, solver=name))
                if name in ("Newton", "LevenbergMarquardt", "BFGS-direct", "Dogleg") and shape in ("tall", "lower", "potential"):
                    out.append(dict(part=part, shape=shape, solver=name, split=True))
    for shape in ("general",):
        for name in ("Newton", "Chord"):
            out.append(dict(part="roots", shape=shape, solver=name, entry="fixed_point"))
    for name in ("GaussNewton", "LevenbergMarquardt", "Dogleg"):
        out.append(dict(part="least_squares", shape="general", solver=name, entry="root_find"))
    return out


if __name__ == "__main__":
    core.main(
        "C26", jobs(), run,
        rule="every problem and start of the family, for each (solver, linear solver, tag set) that fits its structure",
        bounds=dict(steps=N, unknowns=3, problems=81, starts=4),
        assumptions=[
            "singular or nearly singular systems (condition above 1e6) are not judged",
            "a solve whose course changes when its inputs move by a rounding unit is not judged (counted as undecided)",
        ],
    )
