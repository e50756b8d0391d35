"""C25: norms, function information and box utilities on complete small grids.

Every vector with entries from a small set, in every structure of a table, goes through the
three norms and their derivatives. Every kind of function information is built over a grid of
residuals and Jacobians (each kind of linear operator, real and complex) and compared with the
loss, gradient and directional derivative computed in numpy. The feasible step length is
compared with its definition on every combination of point, step, bounds and offset of a
grid; the Cauchy point must lie within the bounds and on the projected-gradient path."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


def run(job):
    return dict(norms=norms, info=info, step=step, cauchy=cauchy)[job["part"]](job, core.Tally())


def structures(d):
    """Packings of a vector of length d; element order is kept."""
    out = dict(vector=lambda x: x, scalars=lambda x: [x[i] for i in range(d)])
    if d >= 2:
        out["nested"] = lambda x: dict(a=x[0], b=(x[1:].reshape(1, -1),))
        out["empty"] = lambda x: (x[:1], None, x[:0], x[1:])
    if d == 4:
        out["matrix"] = lambda x: x.reshape(2, 2)
    if d == 1:
        out["scalar"] = lambda x: x[0]
    return out


def unpack(tree):
    import jax.numpy as jnp
    import jax.tree_util as jtu

    return jnp.concatenate([jnp.ravel(x) for x in jtu.tree_leaves(tree)])


def norms(job, t):
    import equinox as eqx
    import jax
    import numpy as np
    import optimistix as optx

    d = job["d"]
    values = [-2.0, -1.0, 0.0, 0.5, 3.0]
    if d <= 2:
        values += [np.inf, -np.inf, np.nan, 1e-300, 1e200, -1e-160]
    x = np.array(list(itertools.product(values, repeat=d)))
    with np.errstate(all="ignore"):
        a = np.abs(x)
        nan = np.isnan(x).any(1)
        two = np.sqrt((a**2).sum(1))
        want = dict(max=np.where(nan, np.nan, a.max(1)), two=two, rms=np.sqrt((a**2).mean(1)))
    # squares that overflow or underflow are not judged
    calm = ~(((a > 1e150) & np.isfinite(a)) | ((a < 1e-150) & (a > 0))).any(1)
    finite = np.isfinite(x).all(1)
    for kind, pack in structures(d).items():
        for name, f in dict(max=optx.max_norm, rms=optx.rms_norm, two=optx.two_norm).items():
            g = eqx.filter_jit(jax.vmap(lambda v: jax.value_and_grad(lambda v: f(pack(v)))(v)))
            h = eqx.filter_jit(jax.vmap(lambda v: jax.jvp(lambda v: f(pack(v)), (v,), (v,))[1]))
            got, slope = map(np.asarray, g(x))
            fwd = np.asarray(h(x))
            where = lambda i: dict(norm=name, structure=kind, x=x[i[0]], got=got[i[0]], expected=want[name][i[0]], slope=slope[i[0]])
            judged = calm | (name == "max")
            t.check_all(~judged | np.isclose(got, want[name], rtol=1e-12, atol=0, equal_nan=True), "a norm is wrong", detail=where)
            zero = (x == 0).all(1)
            t.check_all(~zero | ((slope == 0).all(1) & (fwd == 0)), "the derivative of a norm at zero is not zero", detail=where)
            ok = judged & finite & ~zero
            # a norm is its own derivative along the vector, and its slope is a subgradient
            t.check_all(~ok | np.isclose((slope * np.where(finite[:, None], x, 0)).sum(1), got, rtol=1e-9), "the gradient of a norm is wrong", detail=where)
            t.check_all(~ok | np.isclose(fwd, got, rtol=1e-9), "the forward derivative of a norm is wrong", detail=where)
            with np.errstate(all="ignore"):
                if name == "max":
                    bad = (np.abs(slope).sum(1) > 1 + 1e-9) | ((slope != 0) & (a < a.max(1, keepdims=True))).any(1)
                else:
                    bad = ~np.isclose(slope, x / (got[:, None] * (1 if name == "two" else d)), rtol=1e-9, atol=1e-12).all(1)
            t.check_all(~ok | ~bad, "the gradient of a norm is wrong", detail=where)
            t.states += len(x)
            t.transitions += 3 * len(x)
            for i in core.pick(range(len(x)), 2, f"{kind}{name}"):
                one = float(f(pack(np.asarray(x[i]))))
                if not np.isclose(one, got[i], rtol=1e-12, equal_nan=True):
                    t.bad("a norm alone differs from the norm in a batch", **where((i,)))
                t.traces += 1
    # nothing at all
    for name, f in dict(max=optx.max_norm, rms=optx.rms_norm, two=optx.two_norm).items():
        if not float(f((np.zeros(0), None))) == 0:
            t.bad("the norm of nothing is not zero", norm=name)
        # complex entries count with their modulus
        z = np.array([3 + 4j, 0, -5j])
        w = dict(max=5.0, two=np.sqrt(50), rms=np.sqrt(50 / 3))[name]
        if not np.isclose(float(np.real(f(dict(a=z[:1], b=z[1:])))), w, rtol=1e-12):
            t.bad("the norm of a complex vector is wrong", norm=name)
        t.states += 2
    t.outcome("vectors", len(x))
    t.sample(d=d, vectors=len(x), structures=list(structures(d)))
    return t


def info(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import lineax as lx
    import numpy as np
    import optimistix as optx

    kind, field = job["operator"], job["field"]
    FI = optx.FunctionInfo
    cplx = field == "complex"
    entries = [0, 1, -2, 1j, 2 - 1j] if cplx else [0, 1, -2, 0.5, 3]
    square = kind in ("diagonal", "tridiagonal")
    m, d = (2, 2) if square else (3, 2)
    dtype = complex if cplx else float
    rs = np.array(list(itertools.product(entries, repeat=m)), dtype)
    vs = np.array(list(itertools.product(entries[:4], repeat=d)), dtype)
    rng = list(itertools.product(entries[:3] if cplx else entries[:4], repeat=m * d))
    step = max(1, len(rng) // (400 if core.THOROUGH else 60))
    As = np.array(rng[::step], dtype).reshape(-1, m, d)
    if kind == "diagonal":
        As = As * np.eye(2)
    if kind == "tridiagonal":
        pass
    packy = lambda x: dict(a=x[0], b=x[1:])
    packr = lambda x: (x[:1], [x[1:]])

    def operator(A):
        if kind == "matrix":
            return lx.MatrixLinearOperator(A), (lambda x: x), (lambda x: x)
        if kind == "pytree":
            jac = (
                dict(a=A[:1, 0], b=A[:1, 1:]), [dict(a=A[1:, 0], b=A[1:, 1:])],
            )
            return lx.PyTreeLinearOperator(jac, jax.eval_shape(lambda: packr(jnp.zeros(m, dtype)))), packy, packr
        flat = lambda y: jnp.concatenate([jnp.atleast_1d(v) for v in jtu.tree_leaves(y)])
        if kind in ("jac-fwd", "jac-bwd"):
            fn = lambda y, _: packr(A @ flat(y))
            return lx.JacobianLinearOperator(fn, packy(jnp.zeros(d, dtype)), jac=kind[4:]), packy, packr
        if kind == "function":
            fn = lambda y: packr(A @ flat(y))
            return lx.FunctionLinearOperator(fn, jax.eval_shape(lambda: packy(jnp.zeros(d, dtype)))), packy, packr
        if kind == "diagonal":
            return lx.DiagonalLinearOperator(jnp.diag(A)), (lambda x: x), (lambda x: x)
        if kind == "tridiagonal":
            return lx.TridiagonalLinearOperator(jnp.diag(A), jnp.diag(A, -1), jnp.diag(A, 1)), (lambda x: x), (lambda x: x)
        raise ValueError(kind)

    flat = lambda y: jnp.concatenate([jnp.ravel(v) for v in jtu.tree_leaves(y)])

    def one(A, r, v):
        op, py, pr = operator(A)
        both = FI.ResidualJac(pr(r), op)
        only = FI.Residual(pr(r))
        g = both.compute_grad()
        return dict(
            loss=both.as_min(), loss2=only.as_min(), grad=flat(g), dot=both.compute_grad_dot(py(v)),
        )

    f = eqx.filter_jit(jax.vmap(jax.vmap(jax.vmap(one, (None, None, 0)), (None, 0, None)), (0, None, None)))
    out = jtu.tree_map(np.asarray, f(As, rs, vs))
    shape = (len(As), len(rs), len(vs))
    loss = np.broadcast_to(0.5 * (np.abs(rs) ** 2).sum(1)[None, :, None], shape)
    grad = np.einsum("aij,ri->arj", As, np.conj(rs))
    dot = np.einsum("arj,vj->arv", np.conj(grad), vs)
    where = lambda i: dict(operator=kind, jac=str(As[i[0]].tolist()), residual=str(rs[i[1]].tolist()), v=str(vs[i[2]].tolist()), got={k: str(x[i[:3]]) for k, x in out.items()})
    t.check_all(np.isclose(out["loss"], loss), "the loss of residuals with a Jacobian is not half the sum of squares", detail=where)
    t.check_all(np.isclose(out["loss2"], loss), "the loss of residuals is not half the sum of squares", detail=where)
    t.check_all(np.isclose(out["grad"], np.broadcast_to(grad[:, :, None], shape + (d,))).all(-1), "the gradient of residuals is wrong", detail=where)
    t.check_all(np.isclose(out["dot"], dot), "the directional derivative of residuals is wrong", detail=where)
    # and by differentiation
    if kind == "matrix":
        obj = lambda x, A, b: 0.5 * jnp.sum(jnp.abs(A @ x - b) ** 2)
        n = min(len(As), 20)
        x0 = np.zeros(d, dtype)
        ad = eqx.filter_jit(jax.vmap(jax.vmap(lambda A, r: jax.grad(obj)(x0, A, -r), (None, 0)), (0, None)))
        gg = np.asarray(ad(As[:n], rs))
        ok = np.isclose(gg, grad[:n]).all(-1) | (np.abs(rs) == 0).any(1)[None]  # |.| has no derivative at 0
        t.check_all(ok, "the gradient formula is not the derivative of the loss", detail=lambda i: dict(A=str(As[i[0]]), r=str(rs[i[1]])))
        # the other kinds of information
        H = lx.MatrixLinearOperator(jnp.eye(d, dtype=dtype))
        for r in (0.0, -1.5, 2.0):
            for g in vs:
                for v in vs:
                    want = (np.conj(g) * v).sum()
                    kinds = [FI.EvalGrad(jnp.asarray(r), packy(jnp.asarray(g))), FI.EvalGradHessian(jnp.asarray(r), packy(jnp.asarray(g)), H), FI.EvalGradHessianInv(jnp.asarray(r), packy(jnp.asarray(g)), H)]
                    for k in kinds if len(vs) < 30 or r == 0.0 else kinds[:1]:
                        if float(k.as_min()) != r or not np.isclose(complex(k.compute_grad_dot(packy(jnp.asarray(v)))), want):
                            t.bad("function information with a gradient is wrong", kind=type(k).__name__, f=r, grad=str(g), v=str(v))
                        t.traces += 1
            if float(FI.Eval(jnp.asarray(r)).as_min()) != r:
                t.bad("function information without a gradient is wrong", f=r)
    t.states += int(np.prod(shape))
    t.transitions += 4 * int(np.prod(shape))
    ones = eqx.filter_jit(one)
    for i in core.pick(range(int(np.prod(shape))), 4, kind + field):
        i = np.unravel_index(i, shape)
        o = jtu.tree_map(np.asarray, ones(As[i[0]], rs[i[1]], vs[i[2]]))
        if not np.isclose(o["dot"], out["dot"][i]):
            t.bad("information alone differs from information in a batch", **where(i))
        t.traces += 1
    t.outcome(kind, int(np.prod(shape)))
    t.sample(operator=kind, field=field, jacobians=len(As), residuals=len(rs), directions=len(vs))
    return t


def step(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    from optimistix._misc import feasible_step_length

    inf = np.inf
    x = [-3.0, -2.0, -1.0, -0.25, 0.0, 0.5, 1.0, 2.0, 4.0]
    dx = [-8.0, -2.0, -1.0, -0.25, 0.0, 0.125, 1.0, 3.0]
    lo = [-inf, -2.0, -1.0, 0.0, 0.5]
    hi = [inf, 3.0, 1.0, 0.5, 0.0]
    off = [None, 0.0, 0.25, 0.5, 0.01]
    grid = np.array([g for g in itertools.product(x, dx, lo, hi) if g[2] <= g[3]])
    X, D, L, U = grid.T

    def expected(o):
        o = 0.0 if o is None else o
        out = []
        for a, s, l, u in grid:
            if s == 0:
                out.append(1.0)
                continue
            room = (u - a) if s > 0 else (a - l)
            out.append(min(1.0, max(0.0, (1 - o) * room / abs(s))))
        return np.array(out)

    n = len(X)
    half = n // 2
    shapes = dict(
        vector=lambda v: v, scalars=lambda v: [v[i] for i in range(7)],
        nested=lambda v: dict(a=v[:half], b=(v[half:].reshape(1, -1), None)),
    )
    for o in off:
        want = expected(o)
        for kind, pack in shapes.items():
            kw = {} if o is None else dict(offset=o)
            got = eqx.filter_jit(lambda *a: feasible_step_length(*[pack(v) for v in a], **kw))(X, D, L, U)
            if jtu.tree_structure(got) != jtu.tree_structure(pack(X)):
                t.bad("step lengths have another structure", structure=kind)
                continue
            flat = np.concatenate([np.ravel(v) for v in jtu.tree_leaves(got)])
            k = len(flat)
            where = lambda i: dict(point=X[i[0]], step=D[i[0]], lower=L[i[0]], upper=U[i[0]], offset=o, got=flat[i[0]], expected=want[i[0]])
            t.check_all(np.isclose(flat, want[:k], rtol=1e-12, atol=0), "a feasible step length is wrong", detail=where)
            # by the definition: within the bounds after the step, unless outside before
            with np.errstate(all="ignore"):
                new = X[:k] + flat * D[:k]
            inside = (X[:k] >= L[:k]) & (X[:k] <= U[:k])
            t.check_all(~inside | ((new >= L[:k] - 1e-12) & (new <= U[:k] + 1e-12)), "a feasible step leaves the bounds", detail=where)
            t.check_all((flat >= 0) & (flat <= 1), "a feasible step length is not in [0, 1]", detail=where)
            t.states += k
            t.transitions += k
        for i in core.pick(range(n), 5, str(o)):
            one = feasible_step_length(jnp.asarray(X[i]), jnp.asarray(D[i]), jnp.asarray(L[i]), jnp.asarray(U[i]), **({} if o is None else dict(offset=o)))
            if not np.isclose(float(one), want[i], rtol=1e-12):
                t.bad("a step length alone differs", point=X[i], step=D[i])
            t.traces += 1
    t.outcome("full steps", int((expected(None) == 1).sum()))
    t.outcome("no step", int((expected(None) == 0).sum()))
    t.sample(combinations=n, offsets=[str(o) for o in off])
    return t


def cauchy(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import lineax as lx
    import numpy as np
    from optimistix._solver.cauchy_point import cauchy_point

    d = job["d"]
    inf = np.inf
    boxes = [(-1.0, 1.0), (0.0, 2.0), (-inf, 0.5), (-0.5, inf), (-inf, inf)]
    gs = [-3.0, -1.0, 0.0, 0.5, 4.0]
    pts = [-1.0, -0.5, 0.0, 0.5, 1.5]
    if d == 1:
        Hs = [np.array([[h]]) for h in (0.0, 0.5, 1.0, 8.0)]
    elif d == 2:
        Hs = [np.diag([1.0, 1.0]), np.diag([0.25, 8.0]), np.array([[2.0, 1.0], [1.0, 2.0]]), np.array([[1.0, -0.9], [-0.9, 1.0]]), np.diag([0.0, 1.0])]
    else:
        boxes, gs, pts = boxes[:3], [-3.0, 0.0, 0.5], [0.0, 0.5, -0.5]
        Hs = [np.eye(3), np.array([[4.0, 1, 0], [1, 3, 1], [0, 1, 2]])]
    single = [(x, g, l, u) for x in pts for g in gs for l, u in boxes if l <= x <= u]
    rows = np.array([np.array(c).T for c in itertools.product(single, repeat=d)])
    if d == 2 and not core.THOROUGH:
        pass
    y, g, lo, hi = rows[:, 0], rows[:, 1], rows[:, 2], rows[:, 3]
    for kind, pack in structures(d).items():
        if kind == "empty" or (kind == "scalars" and d == 3):
            continue
        for H in Hs:

            def one(y, g, lo, hi):
                struct = jax.eval_shape(lambda: pack(jnp.zeros(d)))
                if kind == "vector":
                    op = lx.MatrixLinearOperator(jnp.asarray(H))
                else:
                    mv = lambda v: pack(jnp.asarray(H) @ unpack(v))
                    op = lx.FunctionLinearOperator(mv, struct)
                return unpack(cauchy_point(pack(y), pack(lo), pack(hi), pack(g), op))

            f = eqx.filter_jit(jax.vmap(one))
            # the projection runs a loop of its own; alone and in a batch
            c = np.asarray(f(y, g, lo, hi))
            where = lambda i: dict(y=y[i[0]], grad=g[i[0]], lower=lo[i[0]], upper=hi[i[0]], hessian=H, structure=kind, got=c[i[0]])
            t.check_all(np.isfinite(c).all(1), "the Cauchy point is not finite", detail=where)
            t.check_all(((c >= lo - 1e-9) & (c <= hi + 1e-9)).all(1), "the Cauchy point is outside the bounds", detail=where)
            # on the path: some fraction of the gradient step, clipped, gives all elements
            with np.errstate(all="ignore"):
                frac = np.where(g != 0, (y - c) / np.where(g == 0, 1, g), np.nan)
                blocked = ((c >= hi - 1e-12) & (g < 0)) | ((c <= lo + 1e-12) & (g > 0))
            free = np.where(blocked | (g == 0), np.nan, frac)
            still = (g != 0) | (np.abs(c - y) <= 1e-12)
            t.check_all(still.all(1), "the Cauchy point moves an element with zero gradient", detail=where)
            with np.errstate(all="ignore"):
                low = np.where(np.isnan(free), inf, free).min(1)
                high = np.where(np.isnan(free), -inf, free).max(1)
                need = np.where(blocked & (g != 0), frac, 0).max(1)
            some = np.isfinite(low)
            ok = ~some | ((high - low <= 1e-9) & (low >= -1e-9) & (high <= 1 + 1e-9) & (high >= need - 1e-9))
            t.check_all(ok, "the Cauchy point is not on the path of the projected gradient", detail=where)
            t.states += len(y)
            t.transitions += len(y)
            alone = eqx.filter_jit(one)
            for i in core.pick(range(len(y)), 3, f"{kind}{H.tolist()}"):
                if not np.allclose(alone(y[i], g[i], lo[i], hi[i]), c[i], equal_nan=True):
                    t.bad("a Cauchy point alone differs from one in a batch", **where((i,)))
                t.traces += 1
            t.outcome("at a bound", int(((c == lo) | (c == hi)).any(1).sum()))
            t.outcome("interior", int(((c > lo) & (c < hi)).all(1).sum()))
            t.note("model increased", int((np.einsum("ni,ni->n", g, c - y) + 0.5 * np.einsum("ni,ij,nj->n", c - y, H, c - y) > 1e-9).sum()))
    t.sample(d=d, combinations=len(y), hessians=len(Hs))
    return t


if __name__ == "__main__":
    jobs = [dict(part="norms", d=d) for d in ((1, 2, 3, 4, 5) if core.THOROUGH else (1, 2, 3, 4))]
    jobs += [dict(part="info", operator=o, field="real") for o in ("matrix", "pytree", "jac-fwd", "jac-bwd", "function", "diagonal", "tridiagonal")]
    jobs += [dict(part="info", operator=o, field="complex") for o in ("matrix", "pytree", "diagonal")]
    jobs += [dict(part="step")]
    jobs += [dict(part="cauchy", d=d) for d in (1, 2, 3)]
    core.main(
        "C25", jobs, run,
        rule="every combination of the grids, in every structure of the tables",
        bounds=dict(entries=5, unknowns=4),
        assumptions=["norms whose squares overflow or underflow are not judged"],
    )
