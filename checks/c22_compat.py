"""C22: the record returned by the scipy-style minimize, for every iteration limit.

Each problem of a finite family is first run once with the BFGS solver and a recording
wrapper. Then minimize is called with every iteration limit of a range (and with none): the
point, counts and status must be those of the recorded run cut at that limit, the value and
gradient those of the objective at that point, the inverse Hessian estimate symmetric
positive definite and the one of a numpy BFGS recursion over the accepted points. Argument
tuples, accepted spellings and refused inputs are enumerated from tables."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


LIMITS = [1, 2, 3, 4, 5, 6, 8, 11, 16, 30] if core.THOROUGH else [1, 2, 3, 5, 8, 16]
N = max(LIMITS)


def run(job):
    return dict(runs=runs, calls=calls)[job["part"]](job, core.Tally())


def norms():
    import jax.numpy as jnp
    import optimistix as optx

    return dict(
        default=None, max=optx.max_norm, rms=optx.rms_norm, two=optx.two_norm,
        weighted=lambda x: 4 * jnp.sum(jnp.abs(x)),
    )


def norm_of(name, x):
    import numpy as np

    x = np.abs(x)
    with np.errstate(all="ignore"):
        if name in ("default", "max"):
            return x.max(-1)
        if name == "weighted":
            return 4 * x.sum(-1)
        return np.sqrt((x**2).mean(-1) if name == "rms" else (x**2).sum(-1))


def runs(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    norm = norms()[job["norm"]]
    keys = "abcdmrqwe"
    params = fam.stack(fam.smooth_params(core.THOROUGH))
    starts = np.concatenate([fam.STARTS, [[np.nan, 1], [1, np.inf], [5e307, 1]]])
    tols = np.array([1e-5]) if job["default_tol"] else np.array([0.25, 1e-2, 1e-7])
    p, y0, tol = fam.product_batch(params, starts, tols)
    n = len(y0)
    fun = lambda x, *args: fam.smooth_min(x, dict(zip(keys, args)))
    tup = lambda q: tuple(q[k] for k in keys)

    def recorded(q, y, tl):
        solver = trace.record(optx.BFGS(tl, tl, norm or optx.max_norm), N)
        sol = optx.minimise(lambda y, a: fun(y, *a), solver, y, tup(q), max_steps=N, throw=False)
        tr = sol.stats["trace"]
        return dict(ys=tr["ys"], K=sol.stats["num_steps"], result=trace.code(sol.result))

    ref = trace.batched(recorded, p, y0, tol, chunk=8192)
    value = eqx.filter_jit(jax.vmap(lambda q, ys: jax.vmap(lambda y: fam.smooth_min(y, q))(ys)))
    slope = eqx.filter_jit(jax.vmap(lambda q, ys: jax.vmap(lambda y: jax.grad(fam.smooth_min)(y, q))(ys)))
    ys, K = ref["ys"], ref["K"]
    fs, gs = np.asarray(value(p, ys)), np.asarray(slope(p, ys))
    # accepted points: the first evaluation, then every move; a stationary point accepts its
    # zero step
    moved = (ys[:, 1:] != ys[:, :-1]).any(-1)
    zero = (gs[:, :-1] == 0).all(-1)
    accepted = moved | zero
    accepted[:, 0] = True
    unsure = ~moved & ~zero & (np.abs(gs[:, :-1]).max(-1) < 1e-7)
    unsure[:, 0] = False

    # numpy recursion over the accepted points
    H = np.broadcast_to(np.eye(2), (n, 2, 2)).copy()
    hs = [None]
    doubtful = np.zeros(n, bool)
    with np.errstate(all="ignore"):
        for k in range(N):
            if k:
                s, g = ys[:, k + 1] - ys[:, k], gs[:, k + 1] - gs[:, k]
                sg = np.einsum("ni,ni->n", s, g)
                scale = np.linalg.norm(s, axis=-1) * np.linalg.norm(g, axis=-1)
                live = (k < K) & moved[:, k]
                doubtful |= live & ((np.abs(sg) <= 1e-9 * scale) | (np.abs(sg) < 1e-14))
                take = live & (sg > 0)
                rho = 1 / sg
                V = np.eye(2) - rho[:, None, None] * s[:, :, None] * g[:, None, :]
                new = V @ H @ V.transpose(0, 2, 1) + rho[:, None, None] * s[:, :, None] * s[:, None, :]
                H = np.where(take[:, None, None], new, H)
            hs.append((H.copy(), doubtful.copy()))

    records = {}
    for limit in LIMITS + ["none"]:
        options = {}
        if limit != "none":
            options["maxiter"] = limit
        if norm is not None:
            options["norm"] = norm
        sub = np.arange(n)
        if limit == "none":
            # without a limit only the runs that stopped by themselves
            sub = np.flatnonzero((ref["result"] != trace.MAXSTEPS))
            if not len(sub):
                continue

        def call(q, y, tl, options=options):
            kw = {} if job["default_tol"] else dict(tol=tl)
            if options:
                kw["options"] = options
            r = optx.compat.minimize(fun, y, tup(q), method="bfgs", **kw)
            return r._asdict()

        pick = lambda tree: jtu.tree_map(lambda x: x[sub], tree)
        out = trace.batched(call, pick(p), y0[sub], tol[sub], chunk=8192)
        records[limit] = (call, sub, out)
        cut = np.minimum(K[sub], N if limit == "none" else limit)
        rows = np.arange(len(sub))
        x, f, g = ys[sub, cut], fs[sub, cut], gs[sub, cut]
        acc = np.array([accepted[i, :c].sum() for i, c in zip(sub, cut)])
        loose = np.array([unsure[i, :c].any() for i, c in zip(sub, cut)])
        ended = (K[sub] <= cut) & (ref["result"][sub] != trace.MAXSTEPS)
        status = np.where(ended, np.where(ref["result"][sub] == trace.SUCCESS, 0, 3), 1)
        t.undecided += int(loose.sum())

        def where(i):
            j = i[0]
            return dict(
                limit=limit, norm=job["norm"], tol=tol[sub[j]], start=y0[sub[j]], params={k: v[sub[j]] for k, v in p.items()},
                record={k: v[j] for k, v in out.items()}, run=ys[sub[j], : cut[j] + 1], outcome=trace.name(ref["result"][sub[j]]),
            )

        def close(a, b):
            a, b = np.asarray(a).reshape(len(sub), -1), np.asarray(b).reshape(len(sub), -1)
            with np.errstate(all="ignore"):
                ok = (np.abs(a - b) <= 1e-7 * (1e-3 + np.abs(b).max(-1, keepdims=True))) | (a == b) | (np.isnan(a) & np.isnan(b))
            return ok.all(-1)

        t.check_all((out["x"] == x).all(-1) | close(out["x"], x), "x is not the point where the run stopped", detail=where)
        # an infinite or undefined value at the very first point has no gradient to compare
        defined = np.isfinite(f)
        t.check_all(~defined | close(out["fun"], f), "fun is not the objective at x", detail=where)
        t.check_all(~defined | close(out["jac"], g), "jac is not the gradient at x", detail=where)
        t.check_all(out["nfev"] == cut, "nfev is not the number of iterations performed", detail=where)
        t.check_all((out["nit"] == acc) | loose, "nit is not the number of accepted points", detail=where)
        t.check_all((out["njev"] == acc) | loose, "njev is not the number of accepted points", detail=where)
        t.check_all(out["status"] == status, "status does not describe how the run ended", detail=where)
        t.check_all(out["success"] == (status == 0), "success does not say whether the run converged", detail=where)
        # convergence, judged from the points alone
        with np.errstate(all="ignore"):
            last = np.maximum(cut - 1, 0)
            tl = tol[sub]
            dy = norm_of(job["norm"], (ys[sub, cut] - ys[sub, last]) / (tl + tl * np.abs(ys[sub, cut]).T).T)
            df = norm_of(job["norm"], ((fs[sub, cut] - fs[sub, last]) / (tl + tl * np.abs(fs[sub, cut])))[:, None])
            noise = 1e-6 + 1e-14 * (np.abs(ys[sub, cut]).max(-1) + 2 * np.abs(fs[sub, cut])) / tl
        moving = moved[sub, last] & (cut > 1)
        far = moving & ((dy > 1 + noise) | (df > 1 + noise))
        near = moving & (dy < 1 - noise) & (df < 1 - noise)
        t.check_all(~(far & (out["status"] == 0)), "status 0 although the tolerance was not met", detail=where)
        t.check_all(~(near & (out["status"] == 1)), "status 1 although the tolerance was met", detail=where)
        refused = ~accepted[sub, last] & ~unsure[sub, last]
        t.check_all(~(refused & (out["status"] == 0)), "status 0 although the last trial was refused", detail=where)
        # inverse Hessian
        h = out["hess_inv"]
        ok = np.isfinite(h).all((1, 2)) | ~np.isfinite(x).all(-1) | ~defined | ~np.isfinite(gs[sub, cut]).all(-1)
        t.check_all(ok, "hess_inv is not finite", detail=where)
        good = np.isfinite(h).all((1, 2))
        hh = np.where(good[:, None, None], h, np.eye(2))
        size = np.abs(hh).max((1, 2))
        t.check_all(np.abs(hh - hh.transpose(0, 2, 1)).max((1, 2)) <= 1e-9 * size, "hess_inv is not symmetric", detail=where)
        low = np.linalg.eigvalsh((hh + hh.transpose(0, 2, 1)) / 2)
        t.check_all((low[:, 0] > 0) | (low[:, 0] > -1e-9 * low[:, 1]), "hess_inv is not positive definite", detail=where)
        t.note("numerically semidefinite", int((low[:, 0] <= 0).sum()))
        want = np.array([hs[c][0][i] if c else np.eye(2) for i, c in zip(sub, cut)])
        skip = np.array([bool(hs[c][1][i]) if c else False for i, c in zip(sub, cut)]) | ~np.isfinite(want).all((1, 2)) | ~defined
        cond = np.where(skip, 1, np.linalg.cond(np.where(skip[:, None, None], np.eye(2), want)))
        skip |= cond > 1e7
        t.undecided += int(skip.sum())
        t.check_all(skip | (np.abs(h - want).max((1, 2)) <= 1e-5 * np.abs(want).max((1, 2)) * np.sqrt(cond)), "hess_inv is not the BFGS estimate of the accepted points", detail=where)
        t.transitions += int(cut.sum())
        t.count_states((out["x"], 1), (out["nfev"], 1), (out["nit"], 1), (out["hess_inv"], 1))
        for s, c in zip(*np.unique(out["status"], return_counts=True)):
            t.outcome(f"status {s}", c)
    # replay without vmap, twice
    for limit, (call, sub, out) in records.items():
        for j in core.pick(range(len(sub)), 2, f"{job}{limit}"):
            i = sub[j]
            a = call({k: jnp.asarray(v[i]) for k, v in p.items()}, jnp.asarray(y0[i]), float(tol[i]))
            b = call({k: jnp.asarray(v[i]) for k, v in p.items()}, jnp.asarray(y0[i]), float(tol[i]))
            if not trace.tree_same(jtu.tree_map(np.asarray, a), jtu.tree_map(np.asarray, b)):
                t.bad("the same call gave two records", start=y0[i])
            one = {k: v[j] for k, v in out.items()}
            if int(a["nfev"]) != one["nfev"] or int(a["status"]) != one["status"] or not np.allclose(a["x"], one["x"], rtol=1e-6, atol=1e-9, equal_nan=True):
                t.bad("a call alone differs from the same call in a batch", start=y0[i], alone=a, batch=one)
            t.traces += 1
            t.sample(norm=job["norm"], limit=limit, start=y0[i], record={k: np.asarray(v) for k, v in a.items()})
    return t


def calls(job, t):
    """Argument tuples, spellings and refusals."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    minimize = optx.compat.minimize
    x0 = jnp.array([1.0, -2.0, 0.5])
    part = job["table"]

    def refused(kind, f, what):
        t.states += 1
        t.transitions += 1
        try:
            f()
        except kind:
            t.outcome("refused")
        except Exception as e:
            t.bad("refused with another kind of error", what=what, error=repr(e)[:200])
        else:
            t.bad("accepted what it does not support", what=what)

    if part == "arguments":
        # every argument tuple up to length 3 over scalars, vectors and containers: the
        # minimiser is an order-dependent function of the arguments
        pool = dict(s=2.0, a=jnp.array(3.0), v=jnp.array([1.0, 2.0, -1.0]), d=dict(k=jnp.array(0.5)), t=(1.0, jnp.array(4.0)), i=3)
        tot = lambda a: sum(jnp.sum(jnp.asarray(x) * (1.0, 1.0, 1.0)[0]) for x in jax.tree_util.tree_leaves(a))
        for r in range(4 if core.THOROUGH else 3):
            for names in itertools.product(pool, repeat=r):
                args = tuple(pool[k] for k in names)
                seen = []

                def fun(x, *a):
                    seen.append(len(a))
                    c = sum((10.0**-j) * (j + 1) * tot(v) for j, v in enumerate(a))
                    return jnp.sum((x - c) ** 2) + 1.0

                out = minimize(fun, x0, args, method="bfgs", tol=1e-8)
                want = sum((10.0**-j) * (j + 1) * float(tot(v)) for j, v in enumerate(args))
                if set(seen) != {r} or not np.allclose(out.x, want, atol=1e-5) or not bool(out.success) or abs(float(out.fun) - 1) > 1e-8:
                    t.bad("extra arguments are not passed on in order", args=names, x=out.x, expected=want)
                t.states += 1
                t.traces += 1
                t.transitions += int(out.nfev)
        return t
    fun = lambda x: jnp.sum((x - 1.0) ** 2)
    if part == "spelling":
        for m in ("".join(c) for c in itertools.product(*[(c, c.upper()) for c in "bfgs"])):
            out = minimize(fun, x0, method=m)
            t.states += 1
            t.transitions += int(out.nfev)
            if not bool(out.success) or not np.allclose(out.x, 1, atol=1e-4):
                t.bad("a spelling of the method does not work", method=m)
        for m in ("", "bfg", "bfgss", "l-bfgs", "lbfgs", "L-BFGS-B", "dfp", "cg", "newton", "nelder-mead", "bfgs ", "b"):
            refused(ValueError, lambda: minimize(fun, x0, method=m), m)
        for bad in ([1.0, 2.0], (1.0,), 1.0, jnp.array(1.0), jnp.ones((2, 2)), jnp.ones((1, 3)), {"a": jnp.ones(2)}, None, "x"):
            refused(ValueError, lambda: minimize(lambda x: jnp.sum(jnp.asarray(x) ** 2), bad, method="bfgs"), repr(bad))
        for bad in (None, [1.0], jnp.array(1.0), 2.0, {"a": 1.0}, "ab"):
            refused(TypeError, lambda: minimize(lambda x, *a: jnp.sum(x**2), x0, bad, method="bfgs"), repr(bad))
        known = dict(maxiter=5, norm=optx.two_norm)
        for k in range(3):
            for base in itertools.combinations(known, k):
                for extra in ("gtol", "disp", "line_search_maxiter", "Maxiter", "eps", "max_steps", "rtol"):
                    opts = {b: known[b] for b in base} | {extra: 1}
                    refused(ValueError, lambda: minimize(fun, x0, method="bfgs", options=opts), str(opts))
                opts = {b: known[b] for b in base}
                copy = dict(opts)
                out = minimize(fun, x0, method="bfgs", options=opts)
                if opts != copy:
                    t.bad("the options were modified", options=str(copy), now=str(opts))
                t.states += 1
                t.transitions += int(out.nfev)
                if "maxiter" in opts and int(out.nfev) > 5:
                    t.bad("the iteration limit was ignored", nfev=out.nfev)
        # a mapping that is not a dict, empty and absent options, default tolerance
        import types

        outs = [
            minimize(fun, x0, method="bfgs", options=o, **kw)
            for o, kw in ((None, {}), ({}, {}), (types.MappingProxyType({}), {}), (types.MappingProxyType(dict(norm=optx.max_norm)), dict(tol=1e-5)), ({}, dict(tol=None)))
        ]
        for o in outs[1:]:
            if int(o.nfev) != int(outs[0].nfev) or not np.array_equal(o.x, outs[0].x):
                t.bad("defaults written out change the run", got=o._asdict(), default=outs[0]._asdict())
            t.states += 1
        # types and shapes of the record
        for d in (1, 2, 3, 5):
            for dtype in (float, int):
                out = minimize(fun, jnp.arange(d).astype(dtype), method="bfgs")
                shapes = dict(x=(d,), fun=(), jac=(d,), hess_inv=(d, d), nfev=(), njev=(), nit=(), status=(), success=())
                for k, s in shapes.items():
                    v = np.asarray(getattr(out, k))
                    kind = "b" if k == "success" else "f" if k in ("x", "fun", "jac", "hess_inv") else "i"
                    if v.shape != s or v.dtype.kind != kind:
                        t.bad("a field of the record has another shape or type", field=k, shape=v.shape, dtype=str(v.dtype))
                t.states += 1
                t.traces += 1
        if tuple(out._fields) != ("x", "success", "status", "fun", "jac", "hess_inv", "nfev", "njev", "nit"):
            t.bad("fields of the record", fields=out._fields)
    return t


if __name__ == "__main__":
    jobs = [dict(part="runs", norm=n, default_tol=False) for n in ("default", "max", "rms", "two", "weighted")]
    jobs += [dict(part="runs", norm="default", default_tol=True)]
    jobs += [dict(part="calls", table=k) for k in ("arguments", "spelling")]
    core.main(
        "C22", jobs, run,
        rule="every problem, start, tolerance, norm and iteration limit of the tables; every argument tuple up to a length; every refusal of the tables",
        bounds=dict(limits=LIMITS),
        assumptions=["acceptance of steps shorter than rounding is not judged", "estimates with condition number above 1e7, or with curvature of ambiguous sign or at rounding level, are not compared with the recursion"],
    )
