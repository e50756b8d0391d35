"""C08: descents, call by call, against their definitions.

Every small integer Hessian, inverse Hessian and Jacobian (square, tall and wide, singular
ones included) with every gradient or residual of the grids and every step size is given
to every descent through its public interface, and the step is compared with the one
computed from the definition in numpy."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


SIZES = [0.0, 1e-12, 1e-7, 1e-3, 0.015625, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0, 1.5, 4.0, 1e6]
ENTRIES = (-1.0, 0.0, 1.0, 2.0, 5.0) if core.THOROUGH else (-1.0, 0.0, 1.0, 2.0)


def matrices(shape):
    import numpy as np

    if shape == "sym2":
        d = (-1.0, 0.0, 0.5, 1.0, 2.0, 8.0)
        return np.array([((a, b), (b, c)) for a in d for b in (-1.0, 0.0, 1.0, 2.0) for c in d])
    if shape == "sym3":
        out = []
        for d in itertools.product((1.0, 3.0), (2.0, 5.0), (1.0, 4.0)):
            for a, b, c in itertools.product((-1.0, 0.0, 1.0), repeat=3):
                out.append(((d[0], a, b), (a, d[1], c), (b, c, d[2])))
        return np.array(out)
    m, n = shape
    k = m * n
    e = ENTRIES if k <= 4 else (-1.0, 0.0, 1.0, 3.0)[: 4 if core.THOROUGH else 4]
    if k > 6:
        e = (-1.0, 1.0, 2.0)[:2]
    return np.array(list(itertools.product(e, repeat=k))).reshape(-1, m, n)


VECTORS = {
    2: [(0.0, 0.0), (1.0, 0.0), (0.0, -2.0), (1.0, 1.0), (-2.0, 3.0)],
    3: [(0.0, 0.0, 0.0), (1.0, 0.0, -2.0), (1.0, 1.0, 1.0), (-2.0, 3.0, 0.5)],
    1: [(0.0,), (1.0,), (-3.0,)],
    4: [(1.0, 0.0, -2.0, 1.0), (-1.0, 2.0, 0.5, 3.0)],
}


def norm_np(name, x):
    import numpy as np

    if name == "max":
        return np.abs(x).max(-1)
    if name == "rms":
        return np.sqrt((x**2).mean(-1))
    return np.sqrt((x**2).sum(-1))


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import lineax as lx
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    kind, dname, norm, packed = job["kind"], job["descent"], job["norm"], job["packed"]
    shape = tuple(job["shape"]) if isinstance(job["shape"], list) else job["shape"]
    F = optx.FunctionInfo
    norms = dict(max=optx.max_norm, rms=optx.rms_norm, two=optx.two_norm, none=None)
    nf = norms[norm]
    linear = {}
    if job.get("fails"):

        class Fails(lx.AbstractLinearSolver):
            """Solves, but calls it a failure when the right-hand side starts with a one."""

            inner: lx.AbstractLinearSolver = lx.AutoLinearSolver(well_posed=None)

            def init(self, operator, options):
                return self.inner.init(operator, options)

            def compute(self, state, vector, options):
                value, result, stats = self.inner.compute(state, vector, options)
                bad = jnp.ravel(jax.tree_util.tree_leaves(vector)[0])[0] == 1
                return value, lx.RESULTS.where(bad, lx.RESULTS.breakdown, result), stats

            def transpose(self, state, options):
                return self.inner.transpose(state, options)

            def conj(self, state, options):
                return self.inner.conj(state, options)

            def assume_full_rank(self):
                return self.inner.assume_full_rank()

        linear = dict(linear_solver=Fails())
    if dname == "SteepestDescent":
        descent = optx.SteepestDescent(norm=nf)
    elif dname == "NewtonDescent":
        descent = optx.NewtonDescent(norm=nf, **linear)
    elif dname == "DampedNewtonDescent":
        descent = optx.DampedNewtonDescent(**linear)
    elif dname == "DoglegDescent":
        descent = optx.DoglegDescent(trust_region_norm=nf, **linear)
    else:
        finder = dict(root_finder=optx.Newton(rtol=1e-9, atol=1e-9), lambda_0=job["fine"]) if job.get("fine") else {}
        descent = optx.IndirectDampedNewtonDescent(trust_region_norm=nf, **linear, **finder)

    mats = matrices(shape)
    if kind == "psd":
        mats = mats[np.linalg.eigvalsh(mats)[:, 0] > 1e-6]
    rows, n = mats.shape[1:]
    vecs = np.array(VECTORS[rows])
    M, v = fam.product_batch(mats, vecs)
    N = len(M)

    def pack(x):
        return dict(a=x[:1], b=(x[1:],)) if packed else x

    def unpack(d):
        return jnp.concatenate([d["a"], d["b"][0]]) if packed else d

    def pack_r(x):
        return (x[-1], [x[:-1]]) if packed else x

    y0 = pack(jnp.arange(1.0, n + 1))
    struct = jax.eval_shape(lambda: y0)

    def info(m, x):
        if kind == "grad":
            return F.EvalGrad(jnp.array(1.0), pack(x))
        if kind == "jac":
            op = (
                lx.FunctionLinearOperator(lambda d: pack_r(m @ unpack(d)), struct)
                if packed else lx.MatrixLinearOperator(m)
            )
            return F.ResidualJac(pack_r(x), op)
        tags = lx.positive_semidefinite_tag if kind == "psd" else lx.symmetric_tag
        op = (
            lx.FunctionLinearOperator(lambda d: pack(m @ unpack(d)), struct, tags)
            if packed else lx.MatrixLinearOperator(m, tags)
        )
        if kind == "inv":
            return F.EvalGradHessianInv(jnp.array(1.0), pack(x), op)
        return F.EvalGradHessian(jnp.array(1.0), pack(x), op)

    decoy_m = jnp.asarray(np.eye(rows, n) * 3.0)
    decoy_x = jnp.asarray(np.linspace(1.0, 2.0, rows))

    def one(m, x):
        i = info(m, x)
        state = descent.init(y0, eqx.filter_eval_shape(lambda: i))
        state = descent.query(y0, info(decoy_m, decoy_x), state)
        state = descent.query(y0, i, state)

        def step(s):
            d, r = descent.step(s, state)
            return unpack(d), trace.code(r)

        return jax.vmap(step)(jnp.array(SIZES)), jax.tree_util.tree_map(jnp.shape, 0)

    # Every descent is homogeneous in the vector (of degree nought if it normalises).
    scale = job.get("scale", 1.0)
    unscale = 1.0 if norm != "none" and dname in ("SteepestDescent", "NewtonDescent") else scale
    (D, R), _ = trace.batched(one, M, v * scale, chunk=1 << 13)
    D = D / unscale
    # D[N, S, n], R[N, S]
    s = np.array(SIZES)[None, :, None]
    if kind == "jac":
        H = np.einsum("nki,nkj->nij", M, M)
        g = np.einsum("nki,nk->ni", M, v)
        rank = np.linalg.matrix_rank(M)
        full = rank == min(rows, n)
        newton = np.einsum("nij,nj->ni", np.linalg.pinv(M), v)
    elif kind == "grad":
        g, full = v, np.ones(N, bool)
        H = newton = None
    elif kind == "inv":
        H, g, full = None, v, np.ones(N, bool)
        newton = np.einsum("nij,nj->ni", M, v)
    else:
        H, g = M, v
        full = np.abs(np.linalg.det(M)) > 1e-6
        newton = np.einsum("nij,nj->ni", np.linalg.pinv(M), v)
    ok_run = R == 0

    def where(i):
        j, k = i[0], (i[1] if len(i) > 1 else 0)
        return dict(
            descent=dname, kind=kind, norm=norm, matrix=M[j], vector=v[j], scale=scale, step_size=SIZES[k],
            step=D[j, k], result=trace.name(R[j, k]),
            newton=None if newton is None else newton[j], gradient=g[j],
        )

    def close(a, b, tol=1e-8):
        # Every step vanishes at least linearly with the step size.
        floor = np.minimum(np.array(SIZES), 1.0)[None] + 1e-30
        return (np.abs(a - b).max(-1) <= tol * (floor + np.abs(b).max(-1))) & np.isfinite(a).all(-1)

    if linear:
        first = v[:, -1 if packed and kind == "jac" else 0] == 1
        regular = full & (np.linalg.eigvalsh(H)[:, 0] > 1e-6)
        t.check_all(~first[:, None] | ~ok_run, "failure of the linear solve not reported", detail=where)
        t.check_all(first[:, None] | ok_run | ~regular[:, None], "failure although the linear solve succeeded", detail=where)
        t.outcome("linear solve fails", first.sum())
        t.transitions += D.shape[0] * D.shape[1]
        t.count_states((M, 1), (v, 1))
        return t
    zero_g = (g == 0).all(-1)
    finite = np.isfinite(D).all(-1)
    if dname == "SteepestDescent":
        unit = g if norm == "none" else g / norm_np(norm, g)[:, None]
        t.check_all(
            close(D, -s * unit[:, None]) | (zero_g[:, None] & (norm != "none")),
            "not minus step size times the gradient", detail=where,
        )
        t.check_all(ok_run, "failure reported", detail=where)
    elif dname == "NewtonDescent":
        unit = newton if norm == "none" else newton / norm_np(norm, newton)[:, None]
        skip = ~full[:, None] | ((np.abs(newton) < 1e-9).all(-1)[:, None] & (norm != "none"))
        t.check_all(
            close(D, -s * unit[:, None]) | skip, "not minus step size times the Newton direction",
            detail=where,
        )
        t.check_all(ok_run | ~full[:, None], "failure although the system is regular", detail=where)
    elif dname == "DampedNewtonDescent":
        lam = 1 / np.where(s == 0, 1, s)
        A = H[:, None] + lam[..., None] * np.eye(n)
        good = np.linalg.cond(A) < 1e7
        ref = -np.linalg.solve(np.where(good[..., None, None], A, np.eye(n)), np.broadcast_to(g[:, None, :, None], A.shape[:-1] + (1,)))[..., 0]
        ref = np.where(s == 0, 0.0, ref)
        t.undecided += int((~good).sum())
        t.check_all(close(D, ref) | ~good, "not the damped Newton step", detail=where)
        t.check_all(ok_run | ~good, "failure although the system is regular", detail=where)
    else:
        definite = full.copy()
        if kind in ("hess", "psd"):
            definite &= np.linalg.eigvalsh(H)[:, 0] > 1e-6
        radius = norm_np(norm, newton)[:, None] * np.minimum(np.array(SIZES), 1.0)[None]
        length = norm_np(norm, D)
        claim = definite[:, None] & np.ones_like(ok_run)
        t.check_all(ok_run | ~claim, "failure although the system is regular", detail=where)
        big = np.array(SIZES)[None] >= 1
        model = np.einsum("nsi,ni->ns", D, g) + 0.5 * np.einsum("nsi,nij,nsj->ns", D, H, D)
        t.check_all(~claim | (model <= 1e-9), "the step increases the model", detail=where)
        if dname == "DoglegDescent":
            gg = (g * g).sum(-1)
            ghg = np.einsum("ni,nij,nj->n", g, H, g)
            cauchy = -(gg / np.where(ghg > 1e-12, ghg, 1))[:, None] * g
            nt = -newton
            cn = norm_np(norm, cauchy)
            tight = norm == "two"
            tol_len = 1e-7 if tight else 6e-3
            on_first = radius <= cn[:, None]
            first_leg = close(
                D, cauchy[:, None] * (radius / np.where(cn > 0, cn, 1)[:, None])[..., None], 1e-7
            )
            seg = (nt - cauchy)[:, None]
            tau = ((D - cauchy[:, None]) * seg).sum(-1) / np.maximum((seg**2).sum(-1), 1e-300)
            on_seg = close(D, cauchy[:, None] + tau[..., None] * seg, 1e-6)
            in_seg = (tau > -1e-6) & (tau < 1 + 1e-6) | (np.abs(seg).max(-1) < 1e-9)
            if tight:
                # The Cauchy point is never longer than the Newton step here.
                t.check_all(
                    ~(claim & big) | close(D, np.broadcast_to(nt[:, None], D.shape)),
                    "not the Newton step for a step size of at least one", detail=where,
                )
            edge = np.abs(radius - cn[:, None]) < 1e-9 * (1 + cn[:, None])
            small = claim & ~big
            t.check_all(
                ~(small & on_first & ~edge) | first_leg, "not on the first leg of the dogleg path",
                detail=where,
            )
            t.check_all(
                ~(small & ~on_first & ~edge) | (on_seg & in_seg),
                "not on the second leg of the dogleg path", detail=where,
            )
            t.check_all(
                ~small | (np.abs(length - radius) <= tol_len * (np.array(SIZES) if tight else 1) + tol_len * radius),
                "the step does not have the length of the trust region", detail=where,
            )
            t.outcome("first leg", (small & on_first).sum())
            t.outcome("second leg", (small & ~on_first).sum())
            t.outcome("Newton step", (claim & big).sum())
        else:
            nt = -newton
            t.check_all(
                ~(claim & big) | close(D, np.broadcast_to(nt[:, None], D.shape)),
                "not the Newton step for a step size of at least one", detail=where,
            )
            # (H + lambda I) step = -g for some lambda >= 0
            r = np.einsum("nij,nsj->nsi", H, D) + g[:, None]
            ss = (D**2).sum(-1)
            lam = -(r * D).sum(-1) / np.maximum(ss, 1e-300)
            off = np.abs(r + lam[..., None] * D).max(-1)
            small = claim & ~big & ~zero_g[:, None] & (s[..., 0] > 0)
            t.check_all(
                ~small | ((off <= 1e-6 * (1 + np.abs(g).max(-1)[:, None])) & (lam > -1e-6)),
                "not on the curve of damped Newton steps", detail=where,
            )
            t.check_all(
                ~small | (np.abs(length - radius) <= (1e-8 if job.get("fine") else 2e-2)),
                "the step does not have the length of the trust region", detail=where,
            )
            t.outcome("damped", small.sum())
            t.outcome("Newton step", (claim & big).sum())
    if not (norm != "none" and dname in ("SteepestDescent", "NewtonDescent")):
        t.check_all(finite | ~ok_run, "a non-finite step without failure", detail=where)
    if kind in ("hess", "jac") and dname in ("NewtonDescent", "DoglegDescent"):
        # plainly singular systems: a vanishing column
        plain = (M == 0).all(axis=1).any(-1) & (rows >= n)
        t.check_all(~(plain[:, None] & ok_run), "failure of the linear solve not reported", detail=where)
        t.outcome("singular", plain.sum())
    t.transitions += D.shape[0] * D.shape[1]
    t.count_states((M, 1), (v, 1))
    t.outcome("success", ok_run.sum())
    t.outcome("failure", (~ok_run).sum())
    single = eqx.filter_jit(one)
    for i in core.pick(N, 2, str(job)):
        (d, r), _ = single(M[i], v[i] * scale)
        d = d / unscale
        t.traces += 1
        same = np.isclose(d, D[i], rtol=1e-7, atol=1e-9, equal_nan=True).all()
        if full[i] and not zero_g[i] and not (same and np.array_equal(r, R[i])):
            if not (kind in ("hess",) and np.linalg.cond(M[i]) > 1e6):
                t.bad("alone differs from batched", **where((i, 0)), alone=d, batched=D[i])
        t.sample(**where((i, 5)))
    return t


def jobs():
    out = []
    for packed in (False, True):
        for norm in ("none", "max", "rms", "two"):
            for kind, shape in [("grad", "sym2"), ("hess", "sym3"), ("inv", "sym2"), ("jac", [3, 2])]:
                out.append(dict(descent="SteepestDescent", kind=kind, shape=shape, norm=norm, packed=packed))
            for kind, shape in [
                ("hess", "sym2"), ("hess", "sym3"), ("psd", "sym2"), ("inv", "sym2"), ("inv", "sym3"),
                ("jac", [2, 2]), ("jac", [3, 2]), ("jac", [1, 2]),
            ]:
                out.append(dict(descent="NewtonDescent", kind=kind, shape=shape, norm=norm, packed=packed))
        for kind, shape in [
            ("hess", "sym2"), ("hess", "sym3"), ("psd", "sym2"), ("psd", "sym3"), ("jac", [2, 2]),
            ("jac", [3, 2]), ("jac", [1, 2]), ("jac", [4, 2]),
        ]:
            out.append(dict(descent="DampedNewtonDescent", kind=kind, shape=shape, norm="none", packed=packed))
            for norm in ("two", "max", "rms"):
                if kind == "psd" or kind == "jac" or norm == "two":
                    out.append(dict(descent="DoglegDescent", kind=kind, shape=shape, norm=norm, packed=packed))
            out.append(dict(descent="IndirectDampedNewtonDescent", kind=kind, shape=shape, norm="two", packed=packed))
            if kind == "psd" or kind == "jac":
                norm, start = ("rms", 64.0) if packed else ("two", 1.0)
                out.append(
                    dict(descent="IndirectDampedNewtonDescent", kind=kind, shape=shape, norm=norm, packed=packed, fine=start)
                )
    for scale in (2.0**-16, 2.0**16):
        for d, norms in [
            ("SteepestDescent", ("none", "max", "rms", "two")), ("NewtonDescent", ("none", "max", "rms", "two")),
            ("DampedNewtonDescent", ("none",)), ("DoglegDescent", ("two",)),
        ]:
            for norm in norms:
                for kind, shape in [("psd", "sym2"), ("jac", [2, 2])]:
                    out.append(dict(descent=d, kind=kind, shape=shape, norm=norm, packed=False, scale=scale))
    for packed in (False, True):
        for kind, shape in [("psd", "sym2"), ("jac", [2, 2])] + [("jac", [3, 2])] * core.THOROUGH:
            for d, norm in [
                ("NewtonDescent", "none"), ("NewtonDescent", "two"), ("DampedNewtonDescent", "none"), ("DoglegDescent", "two"),
                ("DoglegDescent", "max"), ("IndirectDampedNewtonDescent", "two"),
            ]:
                out.append(dict(descent=d, kind=kind, shape=shape, norm=norm, packed=packed, fails=True))
    return out


if __name__ == "__main__":
    core.main(
        "C08", jobs(), run,
        rule="the step equals the one computed from the definition in numpy",
        bounds=dict(step_sizes=SIZES, entries=ENTRIES),
        assumptions=[
            "systems that are singular without a vanishing column are only checked for "
            "non-finite steps being reported, since rounding decides their rank",
            "the indirect damping parameter is searched to 1e-2 (1e-9 with a finer root-finder), the dogleg intersection in "
            "other norms than the Euclidean one to 1e-3",
            "the length of the damped step need not be monotone in the maximum norm, so the "
            "indirect descent is judged in the Euclidean and the root-mean-square norm",
        ],
    )
