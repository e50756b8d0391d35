"""C17: implicit derivatives against the implicit function theorem written out in numpy.

A polynomial family posed as all four kinds of problem is solved on a grid of parameters
with every native and converted solver. Forward and reverse derivatives in all parameters
are compared with sensitivities coded by hand and evaluated at the returned point, for each
way of passing the parameters, structure of the unknowns, structure tag, linear solver and
calling context in the tables; second derivatives use a scalar family. Derivatives in the
initial guess and options and of everything besides the value must vanish or be refused."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


NAMES = ("a", "c", "k", "m", "n", "b", "d", "w")
H = 0.15
TOL = 1e-7
MIN_NAMES = ("a", "c", "k", "m", "b", "d")


def rows(structure="general", thorough=False):
    """All parameter combinations with the off-diagonal pattern `structure`."""
    out = []
    for a, c, k in itertools.product((1.0, 2.0), (1.5, 3.0), (0.0, 0.5)):
        for b, d in itertools.product((-1.0, 0.0, 2.0), (0.0, 1.0) if not thorough else (-0.5, 0.0, 1.0)):
            for m in (0.5, -0.25):
                m01, m10 = dict(general=(m, -m), symmetric=(m, m), lower=(0, m), upper=(m, 0), diagonal=(0, 0))[structure]
                if structure == "diagonal" and m < 0:
                    continue
                out.append(dict(a=a, c=c, k=k, m=m01, n=m10, b=b, d=d, w=0.7))
    import numpy as np

    return {q: np.array([float(r[q]) for r in out]) for q in NAMES}


# ---- problems (jax) ---------------------------------------------------------------------
def system(y, p):
    import jax.numpy as jnp

    u, v = y
    return jnp.stack(
        [
            p["a"] * u + p["k"] * u**3 + p["m"] * v - p["b"],
            p["c"] * v + p["k"] * v**3 + p["n"] * u - p["d"],
        ]
    )


def problem(entry, sign=1.0):
    import jax.numpy as jnp

    if entry == "root_find":
        return lambda y, p: sign * system(y, p)
    if entry == "fixed_point":
        return lambda y, p: jnp.stack(y) - sign * H * system(y, p)
    if entry == "least_squares":
        return lambda y, p: jnp.concatenate([system(y, p), (p["w"] * (y[0] + y[1] - 1))[None]])

    def energy(y, p):
        u, v = y
        return (
            0.5 * p["a"] * u**2 + 0.5 * p["c"] * v**2 + 0.25 * p["k"] * (u**4 + v**4)
            + p["m"] * u * v - p["b"] * u - p["d"] * v
        )

    return energy


# ---- sensitivities (numpy) --------------------------------------------------------------
def sensitivity(entry, y, p):
    """d(value)/d(parameter), shape (n, 2, parameters)."""
    import numpy as np

    u, v = y[:, 0], y[:, 1]
    o, z = np.ones_like(u), np.zeros_like(u)
    J = np.array([[p["a"] + 3 * p["k"] * u**2, p["m"]], [p["n"], p["c"] + 3 * p["k"] * v**2]])
    Fp = dict(
        a=[u, z], c=[z, v], k=[u**3, v**3], m=[v, z], n=[z, u], b=[-o, z], d=[z, -o], w=[z, z]
    )
    if entry in ("root_find", "fixed_point"):
        M, R = J, np.array([Fp[q] for q in NAMES])  # (2,2,n), (params,2,n)
    elif entry == "minimise":
        # the gradient of the energy is the system with both couplings equal to m
        M = J.copy()
        M[1, 0] = p["m"]
        Fp = dict(Fp, m=[v, u], n=[z, z])
        R = np.array([Fp[q] for q in NAMES])
    else:
        F = np.array([
            p["a"] * u + p["k"] * u**3 + p["m"] * v - p["b"],
            p["c"] * v + p["k"] * v**3 + p["n"] * u - p["d"],
            p["w"] * (u + v - 1),
        ])
        J3 = np.concatenate([J, [[p["w"], p["w"]]]])
        M = np.einsum("ian,ibn->abn", J3, J3)
        M[0, 0] += F[0] * 6 * p["k"] * u
        M[1, 1] += F[1] * 6 * p["k"] * v
        dJ = {q: np.zeros((3, 2, len(u))) for q in NAMES}
        dJ["a"][0, 0] = 1
        dJ["c"][1, 1] = 1
        dJ["k"][0, 0], dJ["k"][1, 1] = 3 * u**2, 3 * v**2
        dJ["m"][0, 1] = 1
        dJ["n"][1, 0] = 1
        dJ["w"][2] = 1
        R = []
        for q in NAMES:
            f3 = np.array(list(Fp[q]) + [(u + v - 1) if q == "w" else z])
            R.append(np.einsum("ian,in->an", dJ[q], F) + np.einsum("ian,in->an", J3, f3))
        R = np.array(R)
    M = np.moveaxis(M, -1, 0)
    R = np.moveaxis(R, -1, 0)  # (n, params, 2)
    return -np.linalg.solve(M[:, None], R[..., None])[..., 0].transpose(0, 2, 1)


def solver_of(name):
    import jax.numpy as jnp
    import optimistix as optx

    from mc import solvers

    tol = (1e-9, 1e-9)
    square = lambda x: optx.two_norm(x) ** 2  # smooth at the root
    table = dict(
        Newton=lambda: optx.Newton(*tol),
        NewtonNoCauchy=lambda: optx.Newton(*tol, cauchy_termination=False),
        Chord=lambda: optx.Chord(*tol),
        FixedPointIteration=lambda: optx.FixedPointIteration(*tol),
        NelderMead=lambda: optx.NelderMead(1e-7, 1e-7),
        BestSoFarBFGS=lambda: optx.BestSoFarMinimiser(optx.BFGS(*tol)),
        BestSoFarLM=lambda: optx.BestSoFarLeastSquares(optx.LevenbergMarquardt(*tol)),
        BestSoFarNewton=lambda: optx.BestSoFarRootFinder(optx.Newton(*tol)),
        BestSoFarFPI=lambda: optx.BestSoFarFixedPoint(optx.FixedPointIteration(*tol)),
        BFGSsquare=lambda: optx.BFGS(1e-7, 1e-5, square),
    )
    if name in table:
        return table[name]()
    return solvers.ALL[name](*tol, optx.max_norm)


def run(job):
    return dict(grid=grid, ways=ways, tags=tags, zeros=zeros, second=second, scalar=scalar)[job["part"]](job, core.Tally())


def _judge(t, entry, value, result, jac, p, detail, what, names=NAMES, key=""):
    import numpy as np

    ok = (result == 0) & np.isfinite(value).all(1)
    want = sensitivity(entry, value, p)
    for j, q in enumerate(NAMES):
        if q not in names:
            continue
        got = jac[q]
        close = (np.abs(got - want[:, :, j]) <= TOL * (1 + np.abs(want[:, :, j]))).all(1)
        t.check_all(
            close | ~ok, f"{what}: the derivative in a parameter is not the implicit one", key,
            detail=lambda ix: dict(detail(ix), parameter=q, got=got[ix[0]], expected=want[ix[0], :, j]),
        )
    t.transitions += int(ok.sum()) * len(names)
    t.outcome("converged", ok.sum())
    t.outcome("not converged", (~ok).sum())
    t.outcome("derivatives compared", int(ok.sum()) * len(names) * 2)
    return ok


STARTS = ((0.2, -0.1), (1.5, 1.0))


def grid(job, t):
    """Every solver through every entry point that takes it."""
    import jax
    import jax.numpy as jnp
    import numpy as np

    from mc import families as fam, trace

    entry, solver = job["entry"], solver_of(job["solver"])
    fn = problem(entry)
    structure = "symmetric" if entry == "minimise" else "general"
    p, y0 = fam.product_batch(rows(structure, core.THOROUGH), np.array(STARTS))

    def value(p, y0):
        sol = trace.ENTRY[entry](fn, solver, y0, p, max_steps=600, throw=False)
        return sol.value, trace.code(sol.result)

    def one(p, y0):
        v, r = value(p, y0)
        fwd, _ = jax.jacfwd(value, has_aux=True)(p, y0)
        rev, _ = jax.jacrev(value, has_aux=True)(p, y0)
        return v, r, fwd, rev

    # differentiating a solve that failed is an error, so keep those that converge
    v, r = trace.batched(value, p, y0)
    good = (r == 0) & np.isfinite(v).all(1)
    t.outcome("not converged", (~good).sum())
    if not good.any():
        t.bad("no member converged")
        return t
    p, y0 = {q: x[good] for q, x in p.items()}, y0[good]
    v, r, fwd, rev = trace.batched(one, p, y0)

    def detail(ix):
        i = ix[0]
        return dict(entry=entry, solver=job["solver"], p={q: x[i] for q, x in p.items()}, start=y0[i], value=v[i])

    for mode, jac in (("forward", fwd), ("reverse", rev)):
        ok = _judge(t, entry, v, r, jac, p, detail, mode)
    t.count_states((np.concatenate([np.stack(list(p.values()), 1), y0, v], 1), 1))
    single = jax.jit(one)
    for i in core.pick(len(v), 3, str(job)):
        o = [jax.tree_util.tree_map(np.asarray, single({q: x[i] for q, x in p.items()}, y0[i])) for _ in range(2)]
        if not trace.tree_same(o[0], o[1]):
            t.bad("two runs of the same solve differ", **detail((i,)))
        if ok[i] and not trace.tree_close(o[0][3], jax.tree_util.tree_map(lambda x: x[i], rev), 1e-5, 1e-5):
            t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.sample(solver=job["solver"], entry=entry, value=v[0], jacobian={q: x[0] for q, x in rev.items()})
    return t


# ---- ways of passing parameters, structures, contexts -------------------------------------
PASSING = ("dict", "nested", "captured", "module", "split", "partial", "derived-guess")
LAYOUTS = ("vector", "dict", "mixed")
MODES = ("jacfwd", "jacrev", "jvp", "vjp", "linearize", "grad-of-sum")
CONTEXTS = ("jit", "vmap-in", "scan", "checkpoint", "eager")


def ways(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np

    from mc import families as fam, trace

    entry, solver = job["entry"], solver_of(job["solver"])
    base = problem(entry)
    p = rows("symmetric" if entry == "minimise" else "general")
    step = 1 if core.THOROUGH else 3
    p = {q: x[::step] for q, x in p.items()}
    n = len(p["a"])
    start = jnp.array([0.2, -0.1])

    def packed(layout):
        if layout == "vector":
            return (lambda x: x), (lambda y: y)
        if layout == "dict":
            return (lambda x: {"s": x[0], "t": [x[1]]}), (lambda y: jnp.stack([y["s"], y["t"][0]]))
        return (lambda x: (x[1:], x[0])), (lambda y: jnp.stack([y[1], y[0][0]]))

    class Mod(eqx.Module):
        theta: dict
        pack: object
        unpack: object
        label: str = "x"

        def __call__(self, y, args):
            return self.pack_out(base(self.unpack(y), dict(self.theta, **(args or {}))))

        def pack_out(self, out):
            return self.pack(out) if entry == "fixed_point" else out

    def solve(p, passing, layout):
        pack, unpack = packed(layout)
        out = lambda r: pack(r) if entry == "fixed_point" else r
        y0 = pack(start)
        if passing == "dict":
            f, args = (lambda y, a: out(base(unpack(y), a))), p
        elif passing == "nested":
            args = [(p["a"], {"x": [p["c"], p["k"]]}), jnp.array(3), None, [p["m"], (p["n"], "label")], jnp.stack([p["b"], p["d"], p["w"]])]

            def f(y, a):
                q = dict(a=a[0][0], c=a[0][1]["x"][0], k=a[0][1]["x"][1], m=a[3][0], n=a[3][1][0], b=a[4][0], d=a[4][1], w=a[4][2])
                return out(base(unpack(y), q))

        elif passing == "captured":
            f, args = (lambda y, _: out(base(unpack(y), p))), None
        elif passing == "module":
            f, args = Mod(p, pack, unpack), None
        elif passing == "split":
            f = Mod({q: p[q] for q in "ackm"}, pack, unpack)
            args = {q: p[q] for q in "nbdw"}
        elif passing == "partial":
            f, args = jtu.Partial(lambda half, y, a: out(base(unpack(y), dict(half, **a))), {q: p[q] for q in "acb"}), {q: p[q] for q in "kmndw"}
        else:  # the initial guess depends on the parameters, too
            f, args = (lambda y, a: out(base(unpack(y), a))), p
            y0 = pack(start + 0.05 * jnp.stack([p["b"], p["a"] * p["d"]]))
        sol = trace.ENTRY[entry](f, solver, y0, args, max_steps=600)
        return unpack(sol.value)

    def jac_of(g, mode, p):
        """Jacobian of g as a dict of (2,) arrays."""
        keys = list(p)
        basis = lambda q: {s: jnp.ones(()) if s == q else jnp.zeros(()) for s in keys}
        if mode == "jacfwd":
            return jax.jacfwd(g)(p)
        if mode == "jacrev":
            return jax.jacrev(g)(p)
        if mode == "both":
            return jax.jacfwd(g)(p), jax.jacrev(g)(p)
        if mode == "jvp":
            return {q: jax.jvp(g, (p,), (basis(q),))[1] for q in keys}
        if mode == "linearize":
            _, lin = jax.linearize(g, p)
            return {q: lin(basis(q)) for q in keys}
        if mode == "vjp":
            _, back = jax.vjp(g, p)
            r = [back(e)[0] for e in jnp.eye(2)]
        else:
            r = [jax.grad(lambda p: jnp.sum(e * g(p)) + 0.0 * p["a"])(p) for e in jnp.eye(2)]
        return jax.tree_util.tree_map(lambda x, y: jnp.stack([x, y]), *r)

    def compare(passing, layout, mode, context):
        def detail(ix):
            i = ix[0]
            return dict(entry=entry, solver=job["solver"], passing=passing, layout=layout, mode=mode, context=context, p={q: x[i] for q, x in pp.items()})

        pp = p
        g = lambda p: solve(p, passing, layout)
        one = lambda p: (g(p), jac_of(g, mode, p))
        if context == "jit":
            v, jac = trace.batched(one, p)
        elif context == "vmap-in":
            # differentiate a vmapped solve
            def total(p, e):
                return jnp.sum(jax.vmap(g)(p) * e)

            v = np.asarray(jax.jit(jax.vmap(g))(p))
            r = [jax.jit(jax.grad(total))(p, e) for e in jnp.eye(2)]
            jac = jax.tree_util.tree_map(lambda x, y: np.stack([x, y], 1), *r)
        elif context == "scan":

            def scanned(p):
                _, v = jax.lax.scan(lambda c, q: (c + 1, g(q)), 0, p)
                return v

            def total(p, e):
                return jnp.sum(scanned(p) * e)

            v = np.asarray(jax.jit(scanned)(p))
            r = [jax.jit(jax.grad(total))(p, e) for e in jnp.eye(2)]
            jac = jax.tree_util.tree_map(lambda x, y: np.stack([x, y], 1), *r)
        elif context == "checkpoint":
            g2 = jax.checkpoint(g)
            v, jac = trace.batched(lambda p: (g2(p), jac_of(g2, mode, p)), p)
        else:
            pp = {q: x[:: max(1, n // 3)][:3] for q, x in p.items()}
            outs = [one({q: jnp.asarray(x[i]) for q, x in pp.items()}) for i in range(len(pp["a"]))]
            v = np.stack([np.asarray(o[0]) for o in outs])
            jac = {q: np.stack([np.asarray(o[1][q]) for o in outs]) for q in pp}
            t.traces += len(v)
        for j in jac if mode == "both" else (jac,):
            _judge(t, entry, v, np.zeros(len(v), int), j, pp, detail, f"{passing}/{layout}/{mode}/{context}")
        t.count_states((np.concatenate([v, np.stack(list(pp.values()), 1)], 1), 1))

    if job["what"] == "passing":
        for passing, layout in itertools.product(PASSING, LAYOUTS):
            if core.THOROUGH or (PASSING.index(passing) + LAYOUTS.index(layout)) % 2 == 0:
                compare(passing, layout, "both", "jit")
    elif job["what"] == "modes":
        for mode in MODES:
            compare("dict", "vector", mode, "jit")
    else:
        for context in CONTEXTS[1:]:
            compare("nested", "dict", "jacrev", context)
            compare("captured", "vector", "jacrev", context)
    return t


def tags(job, t):
    """Structure tags and linear solvers of the adjoint."""
    import jax
    import jax.numpy as jnp
    import lineax as lx
    import numpy as np
    import optimistix as optx

    from mc import trace

    entry, structure, sign = job["entry"], job["structure"], job["sign"]
    fn = problem(entry, sign)
    p = rows(structure)
    p = {q: x[:: 1 if core.THOROUGH else 2] for q, x in p.items()}
    y0 = jnp.array([0.2, -0.1])
    S = dict(
        none=frozenset(), symmetric=frozenset({lx.symmetric_tag}), diagonal=frozenset({lx.diagonal_tag}),
        lower=frozenset({lx.lower_triangular_tag}), upper=frozenset({lx.upper_triangular_tag}),
        tridiagonal=frozenset({lx.tridiagonal_tag}),
        psd=frozenset({lx.positive_semidefinite_tag}), nsd=frozenset({lx.negative_semidefinite_tag}),
        both=frozenset({lx.symmetric_tag, lx.tridiagonal_tag}),
    )
    # the matrix the tags speak about
    definite = dict(root_find=sign, fixed_point=-sign, least_squares=1.0, minimise=1.0)[entry]
    use = ["none", "tridiagonal"]
    sym = structure in ("symmetric", "diagonal") or entry in ("least_squares", "minimise")
    if sym:
        use += ["symmetric", "both"]
        if entry != "least_squares":  # that Hessian need not be definite
            use += ["psd" if definite > 0 else "nsd"]
    if entry in ("root_find", "fixed_point", "minimise"):
        use += dict(diagonal=["diagonal", "lower", "upper"], lower=["lower"], upper=["upper"]).get(structure, [])
    native = dict(root_find="Newton", fixed_point="FixedPointIteration", least_squares="GaussNewton", minimise="NonlinearCG-PR")[entry]
    solvers_ = [native] + dict(
        root_find=["GaussNewton"], fixed_point=["Newton"], least_squares=["NonlinearCG-PR"], minimise=["BFGS"],
    )[entry]
    L = dict(
        default=None, auto=lx.AutoLinearSolver(well_posed=True), lstsq=lx.AutoLinearSolver(well_posed=False),
        LU=lx.LU(), QR=lx.QR(), SVD=lx.SVD(), GMRES=lx.GMRES(1e-11, 1e-11),
    )

    def compare(solvername, tag, lin, linname):
        solver = solver_of(solvername)
        kw = {} if lin is None else dict(adjoint=optx.ImplicitAdjoint(linear_solver=lin))

        def value(p):
            sol = trace.ENTRY[entry](fn, solver, y0, p, max_steps=600, throw=False, tags=S[tag], **kw)
            return sol.value, (trace.code(sol.result), sol.value)

        def one(p):
            fwd, (r, v) = jax.jacfwd(value, has_aux=True)(p)
            rev, _ = jax.jacrev(value, has_aux=True)(p)
            return v, r, fwd, rev

        v, r, fwd, rev = trace.batched(one, p)

        def detail(ix):
            i = ix[0]
            return dict(entry=entry, solver=solvername, tag=tag, linear_solver=linname, p={q: x[i] for q, x in p.items()}, value=v[i])

        # A tag about the Jacobian or Hessian promises nothing about the direction in which
        # a coefficient that makes it untrue is varied, but the derivative is still defined.
        for mode, jac in (("forward", fwd), ("reverse", rev)):
            _judge(t, entry, v, r, jac, p, detail, f"{mode} with {linname}, tag {tag}")
        t.count_states((np.concatenate([v, np.stack(list(p.values()), 1)], 1), 1))
        t.traces += 0
        return v, r

    reference = {}
    for solvername in solvers_:
        for tag in use:
            v, r = compare(solvername, tag, None, "default")
            ref = reference.setdefault(solvername, (v, r))
            t.check_all((np.abs(v - ref[0]) <= 1e-7).all(1), "a tag changed the solution", detail=lambda ix: dict(tag=tag, solver=solvername, entry=entry))
    for linname, lin in L.items():
        if lin is not None and (core.THOROUGH or structure in ("general", "symmetric") and sign > 0):
            compare(native, "none", lin, linname)
    if "psd" in use:
        compare(native, "psd", lx.CG(1e-11, 1e-11), "CG")
        compare(native, "psd", lx.Cholesky(), "Cholesky")
    if "nsd" in use:
        compare(native, "nsd", lx.Cholesky(), "Cholesky")
    if "lower" in use:
        compare(native, "lower", lx.Triangular(), "Triangular")
    if "diagonal" in use:
        compare(native, "diagonal", lx.Diagonal(), "Diagonal")
    compare(native, "tridiagonal", lx.Tridiagonal(), "Tridiagonal")
    return t


def zeros(job, t):
    """What must have no derivative."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np

    from mc import families as fam, trace

    entry, name = job["entry"], job["solver"]
    solver = solver_of(name)
    base = problem(entry)
    fn = lambda y, p: (base(y, p), dict(prod=y[0] * p["a"], p=p["b"] ** 2))
    p = rows("symmetric" if entry == "minimise" else "general")
    p = {q: x[::4] for q, x in p.items()}
    y0 = jnp.array([0.2, -0.1])

    def solve(p, y0, tol=None):
        s = solver if tol is None else eqx.tree_at(lambda s: (s.rtol, s.atol), solver, (tol, tol))
        return trace.ENTRY[entry](fn, s, y0, p, has_aux=True, max_steps=600, throw=False)

    def floats(tree):
        return [x for x in jtu.tree_leaves(tree) if eqx.is_inexact_array(x)]

    parts = dict(
        aux=lambda s: s.aux, stats=lambda s: s.stats, state=lambda s: s.state, num_steps=lambda s: s.stats["num_steps"],
    )
    n = len(p["a"])
    tangent = {q: jnp.ones(()) for q in p}
    for what, get in parts.items():
        fwd = lambda p: jax.jvp(lambda p: floats(get(solve(p, y0))), (p,), (tangent,))[1]
        out = trace.batched(fwd, p)
        for leaf in out:
            t.check_all((leaf.reshape(n, -1) == 0).all(1), f"{entry}/{name}: {what} has a forward derivative")
        t.transitions += n * max(1, len(out))

        def back(p):
            return jax.grad(lambda p: sum([jnp.sum(x) for x in floats(get(solve(p, y0)))], 0.0 * p["a"]))(p)

        if what == "num_steps":
            continue
        try:
            g = trace.batched(back, p)
        except Exception as e:
            t.outcome(f"reverse derivative of {what} refused")
            t.note("refusals", 1)
        else:
            ok = np.stack([v for v in jtu.tree_leaves(g)], 1)
            t.check_all((ok == 0).all(1), f"{entry}/{name}: {what} has a reverse derivative")
            t.outcome(f"reverse derivative of {what} zero")
        t.transitions += n
    # the auxiliary output may be used next to the value without spoiling its derivative
    both = lambda p: jax.jacfwd(lambda p: solve(p, y0).value)(p)
    # initial guess
    for mode in ("forward", "reverse"):
        jac = jax.jacfwd if mode == "forward" else jax.jacrev
        g = trace.batched(lambda p: jac(lambda y: solve(p, y).value)(y0), p)
        t.check_all((g.reshape(n, -1) == 0).all(1), f"{entry}/{name}: the value has a {mode} derivative in the initial guess")
        t.transitions += n
        if name not in ("BestSoFarBFGS", "BestSoFarLM", "BestSoFarNewton", "BestSoFarFPI"):
            g = trace.batched(lambda p: jac(lambda tol: solve(p, y0, tol).value)(jnp.array(1e-8)), p)
            t.check_all((g.reshape(n, -1) == 0).all(1), f"{entry}/{name}: the value has a {mode} derivative in the tolerance")
            t.transitions += n
    # the value's derivative is not disturbed by aux, stats and state being used as well
    v = trace.batched(lambda p: solve(p, y0).value, p)
    res = trace.batched(lambda p: trace.code(solve(p, y0).result), p)
    jac = trace.batched(lambda p: jax.jacfwd(lambda p: solve(p, y0).value + 0 * solve(p, y0).aux["prod"])(p), p)
    _judge(t, entry, v, res, jac, p, lambda ix: dict(entry=entry, solver=name), "next to the auxiliary output")
    t.count_states((np.concatenate([v, np.stack(list(p.values()), 1)], 1), 1))
    single = jax.jit(lambda p: solve(p, y0).value)
    for i in core.pick(n, 2, str(job)):
        o = np.asarray(single({q: x[i] for q, x in p.items()}))
        if not np.allclose(o, v[i], rtol=1e-6, atol=1e-6):
            t.bad("a replay on its own differs from the enumerated run", index=i)
        t.traces += 1
    return t


def scalar_rows():
    import numpy as np

    r = list(itertools.product((1.0, 2.0, 0.5), (0.0, 0.5, 1.0), (-1.0, 0.0, 0.5, 2.0)))
    return {q: np.array([x[i] for x in r]) for i, q in enumerate("akb")}


def _scalar_problem(entry):
    # F = a y + k y^3 - b
    F = lambda y, p: p["a"] * y + p["k"] * y**3 - p["b"]
    return dict(
        root_find=F,
        fixed_point=lambda y, p: y - H * F(y, p),
        least_squares=lambda y, p: __import__("jax").numpy.stack([F(y, p), 0.5 * y]),
        minimise=lambda y, p: 0.5 * p["a"] * y**2 + 0.25 * p["k"] * y**4 - p["b"] * y,
    )[entry]


def _scalar_reference(entry, y, p):
    """First and second derivatives of y in (a, k, b), from G(y, a, k, b) = 0 and its
    partial derivatives."""
    import numpy as np

    a, k, b = p["a"], p["k"], p["b"]
    o, z = np.ones_like(y), np.zeros_like(y)
    F, Fy, Fyy, Fyyy = a * y + k * y**3 - b, a + 3 * k * y**2, 6 * k * y, 6 * k
    Fi, Fiy, Fiyy = [y, y**3, -o], [o, 3 * y**2, z], [z, 6 * y, z]
    if entry != "least_squares":
        Gy, Gyy, Gi, Giy = Fy, Fyy, Fi, Fiy
        Gij = [[z] * 3] * 3
    else:  # G = F F_y + y/4
        Gy = Fy * Fy + F * Fyy + 0.25
        Gyy = 3 * Fy * Fyy + F * Fyyy
        Gi = [Fi[i] * Fy + F * Fiy[i] for i in range(3)]
        Giy = [Fiy[i] * Fy + Fi[i] * Fyy + Fy * Fiy[i] + F * Fiyy[i] for i in range(3)]
        Gij = [[Fi[i] * Fiy[j] + Fi[j] * Fiy[i] for j in range(3)] for i in range(3)]
    y1 = [-Gi[i] / Gy for i in range(3)]
    y2 = [[-(Gij[i][j] + Giy[i] * y1[j] + Giy[j] * y1[i] + Gyy * y1[i] * y1[j]) / Gy for j in range(3)] for i in range(3)]
    return np.stack(y1, 1), np.moveaxis(np.array(y2), -1, 0)


def second(job, t):
    """Derivatives of derivatives."""
    import jax
    import jax.numpy as jnp
    import numpy as np

    from mc import trace

    entry, name = job["entry"], job["solver"]
    solver = solver_of(name)
    fn = _scalar_problem(entry)
    p = scalar_rows()
    n = len(p["a"])
    y0 = jnp.array(0.3)

    def value(x):
        sol = trace.ENTRY[entry](fn, solver, y0, dict(a=x[0], k=x[1], b=x[2]), max_steps=600, throw=False)
        return sol.value

    def result(x):
        return trace.code(trace.ENTRY[entry](fn, solver, y0, dict(a=x[0], k=x[1], b=x[2]), max_steps=600, throw=False).result)

    x = np.stack([p["a"], p["k"], p["b"]], 1)
    v = trace.batched(value, x)
    ok = (trace.batched(result, x) == 0) & np.isfinite(v)
    d1, d2 = _scalar_reference(entry, v, p)

    def detail(ix):
        i = ix[0]
        return dict(entry=entry, solver=name, p=x[i], value=v[i], expected=d2[i])

    for n1, f1 in dict(fwd=jax.jacfwd, rev=jax.jacrev).items():
        g1 = trace.batched(f1(value), x)
        t.check_all((np.abs(g1 - d1) <= TOL * (1 + np.abs(d1))).all(1) | ~ok, f"{n1}: the derivative in a parameter is not the implicit one", detail=detail)
        for n2, f2 in dict(fwd=jax.jacfwd, rev=jax.jacrev).items():
            g2 = trace.batched(f2(f1(value)), x)
            t.check_all(
                (np.abs(g2 - d2) <= TOL * (1 + np.abs(d2))).all((1, 2)) | ~ok,
                f"{n2} over {n1}: the second derivative is wrong", detail=detail,
            )
            t.transitions += int(ok.sum()) * 9
            t.outcome("second derivatives compared", int(ok.sum()) * 9)
    t.check_all(np.array([ok.any()]), "no member converged")
    t.outcome("converged", ok.sum())
    t.outcome("not converged", (~ok).sum())
    t.count_states((np.concatenate([x, v[:, None]], 1), 1))
    single = jax.jit(jax.jacrev(value))
    for i in core.pick(n, 3, str(job)):
        if ok[i] and not np.allclose(single(x[i]), d1[i], rtol=1e-6, atol=1e-6):
            t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    return t


def scalar(job, t):
    """Solvers that need a bracket."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import trace

    name = job["solver"]
    entry = job["entry"]
    solver = optx.Bisection(1e-10, 1e-10) if name == "Bisection" else optx.GoldenSearch(1e-6, 1e-6)
    fn = _scalar_problem(entry)
    p = scalar_rows()
    x = np.stack([p["a"], p["k"], p["b"]], 1)
    n = len(x)

    def value(x, ends):
        sol = trace.ENTRY[entry](
            fn, solver, jnp.array(0.3), dict(a=x[0], k=x[1], b=x[2]), dict(lower=ends[0], upper=ends[1]), max_steps=600, throw=False
        )
        return sol.value, trace.code(sol.result)

    # the bracket may depend on the parameters
    def moving(x, which):
        ends = jnp.array([-5.0, 4.5]) if which == 0 else jnp.stack([-6.0 + x[0], 5.0 + x[2]])
        return value(x, ends)

    for which in (0, 1):
        for mode, jac in dict(forward=jax.jacfwd, reverse=jax.jacrev).items():
            g, r = trace.batched(lambda x: jac(lambda x: moving(x, which), has_aux=True)(x), x)
            v, _ = trace.batched(lambda x: moving(x, which), x)
            ok = r == 0
            d1, _ = _scalar_reference(entry, v, p)
            t.check_all(
                (np.abs(g - d1) <= 1e-6 * (1 + np.abs(d1))).all(1) | ~ok, f"{mode}: the derivative in a parameter is not the implicit one",
                detail=lambda ix: dict(solver=name, entry=entry, p=x[ix[0]], value=v[ix[0]], got=g[ix[0]], expected=d1[ix[0]]),
            )
            t.check_all(np.array([ok.any()]), "no member converged")
            ge, _ = trace.batched(lambda x: jac(lambda e: value(x, e), has_aux=True)(jnp.array([-5.0, 4.5])), x)
            t.check_all((ge == 0).all(1), f"the value has a {mode} derivative in the bracket")
            t.transitions += int(ok.sum()) * 5
            t.outcome("converged", ok.sum())
            t.outcome("not converged", (~ok).sum())
            t.traces += 1
    t.count_states((np.concatenate([x, v[:, None]], 1), 1))
    return t


if __name__ == "__main__":
    LSQ = ["GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg"]
    MIN = [
        "BFGS", "BFGS-direct", "DFP", "LBFGS", "NonlinearCG-PR", "NonlinearCG-HS", "GradientDescent", "Optax-sgd",
        "NelderMead", "BFGS+ClassicalTR", "Steepest+Armijo", "BestSoFarBFGS",
    ]
    table = dict(
        root_find=["Newton", "NewtonNoCauchy", "Chord", "BestSoFarNewton", "BFGSsquare", "NelderMead", "BestSoFarLM", "GN+Armijo"] + LSQ,
        fixed_point=["FixedPointIteration", "Newton", "Chord", "BestSoFarFPI", "BFGSsquare", "NelderMead"] + LSQ,
        least_squares=LSQ + ["BestSoFarLM", "GN+Armijo", "Damped+LinearTR"] + MIN,
        minimise=MIN,
    )
    jobs = [dict(part="grid", entry=e, solver=s) for e, ss in table.items() for s in ss]
    for e, s in (("root_find", "Newton"), ("root_find", "GaussNewton"), ("fixed_point", "FixedPointIteration"), ("least_squares", "GaussNewton"), ("minimise", "NonlinearCG-PR")):
        jobs += [dict(part="ways", entry=e, solver=s, what=w) for w in ("passing", "modes", "contexts")]
    for e in table:
        for structure in ("general", "symmetric", "lower", "upper", "diagonal"):
            if e == "minimise" and structure not in ("symmetric", "diagonal") or e == "least_squares" and structure in ("lower", "upper"):
                continue
            for sign in (1.0, -1.0):
                if sign < 0 and (e != "root_find" or structure not in ("symmetric", "diagonal")):
                    continue
                jobs.append(dict(part="tags", entry=e, structure=structure, sign=sign))
    for e, ss in dict(
        root_find=["Newton", "Dogleg", "BFGSsquare", "BestSoFarNewton"], fixed_point=["FixedPointIteration", "Newton", "LevenbergMarquardt"],
        least_squares=["LevenbergMarquardt", "BFGS"], minimise=["BFGS", "LBFGS", "NonlinearCG-PR", "GradientDescent"],
    ).items():
        jobs += [dict(part="zeros", entry=e, solver=s) for s in ss]
    for e, ss in dict(
        root_find=["Newton", "GaussNewton", "BFGSsquare"], fixed_point=["FixedPointIteration", "Newton"],
        least_squares=["LevenbergMarquardt", "BFGS"], minimise=["BFGS", "GradientDescent"],
    ).items():
        jobs += [dict(part="second", entry=e, solver=s) for s in ss]
    jobs += [dict(part="scalar", entry=e, solver="Bisection") for e in ("root_find", "fixed_point")]
    jobs += [dict(part="scalar", entry=e, solver="GoldenSearch") for e in ("minimise", "least_squares")]
    order = dict(ways=0, tags=1, zeros=2, grid=3, second=4, scalar=5)
    jobs.sort(key=lambda j: order[j["part"]])
    core.main(
        "C17", jobs, run,
        rule="all parameters of the grid x starts x entry points x solvers x forward/reverse; all ways of passing, layouts, modes, "
        "contexts, tags and linear solvers of the tables",
        bounds=dict(parameters=len(NAMES), tolerance=TOL),
        assumptions=["only members that report success are judged", "JAX differentiates the user's polynomial function correctly"],
    )
