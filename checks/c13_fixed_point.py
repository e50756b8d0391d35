"""C13: fixed-point iteration, step by step.

All affine maps of the plane with entries in a small set (contractions, rotations,
expansions, the identity), with a bounded nonlinearity, from several starts, with every
damping, tolerance, norm and container. Each recorded step is recomputed and the first
step whose relative movement is below one is the only one at which the solve may stop.
Maps whose output has another structure are enumerated and must be refused."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 40 if core.THOROUGH else 18
DAMPS = [0.0, 0.25, 0.5, 0.875, -0.5, 1.0]
TOLS = [(1e-3, 1e-3), (0.0, 0.25), (0.5, 1e-6), (0.0, 1e-9), (2.0, 0.0)]


def short(x):
    import numpy as np

    return (np.abs(x) < 2**20) & (np.round(x * 2**20) == x * 2**20)


def run(job):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, solvers, trace

    t = core.Tally()
    if job["part"] == "refuse":
        return refuse(t)
    n, layout, normname = STEPS, job["layout"], job["norm"]
    d = 1 if layout == "scalar" else 2

    def pack(x):
        if layout == "dict":
            return dict(u=x[0], w=[x[1:].reshape(1, 1)])
        if layout == "matrix":
            return x.reshape(2, 1)
        return x[0] if layout == "scalar" else x

    def unpack(y):
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(y)])

    def fn(y, p):
        x = unpack(y)
        out = p["A"] @ x + p["b"] + p["s"] * jnp.sin(x)
        out = jnp.where(jnp.abs(x) > p["w"], jnp.nan, out)
        return pack(out), x

    def one(x0, p):
        solver = optx.FixedPointIteration(p["rtol"], p["atol"], solvers.NORMS[normname], p["damp"])
        out = trace.runner("fixed_point", fn, solver, n)(pack(x0), p)
        out["trace"]["ys"] = jax.vmap(unpack)(out["trace"]["ys"])
        out["value"] = unpack(out["value"])
        return out

    if d == 2:
        A = np.array(list(itertools.product((-1.0, 0.0, 0.5), repeat=4))).reshape(-1, 2, 2)
        A = np.concatenate([A, [[[0.0, -1.0], [1.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]], [[2.0, 1.0], [0.0, 0.25]]]])
        b = np.array([(0.0, 0.0), (1.0, -0.5)])
        x0 = np.array([(0.0, 0.0), (1.0, -2.0), (0.5, 3.0)])
    else:
        A = np.array([-2.0, -1.0, -0.5, 0.0, 0.25, 0.9375, 1.0, 1.5]).reshape(-1, 1, 1)
        b = np.array([(0.0,), (1.0,), (-3.0,)])
        x0 = np.linspace(-3, 3, 13)[:, None]
    s = np.array([(0.0, 1e9), (0.5, 1e9), (0.5, 2.5)])
    A, b, x0, s, damp, tl = fam.product_batch(A, b, x0, s, np.array(DAMPS), np.array(TOLS))
    m = len(x0)
    p = dict(A=A, b=b, s=s[:, 0].copy(), w=s[:, 1].copy(), damp=damp, rtol=tl[:, 0].copy(), atol=tl[:, 1].copy())
    out = trace.batched(one, x0, p, chunk=min(m, 20000))
    tr, k, result = out["trace"], out["steps"], out["result"]
    ys, term = tr["ys"], tr["term"]

    def detail(ix):
        i = ix[0]
        return dict(p={q: v[i] for q, v in p.items()}, start=x0[i], points=ys[i][:5], steps=k[i], result=trace.name(result[i]))

    size = dict(max=lambda v: np.abs(v).max(1), rms=lambda v: np.sqrt((v**2).mean(1)), two=lambda v: np.sqrt((v**2).sum(1)))[normname]
    t.check_all((ys[:, 0] == x0).all(1), "the first iterate is not the initial guess", detail=detail)
    t.check_all(~term[:, 0], "stopped before the first step", detail=detail)
    for i in range(n):
        act = k > i
        y, y1 = ys[:, i], ys[:, i + 1]
        g = np.einsum("nij,nj->ni", A, y) + b + p["s"][:, None] * np.sin(y)
        g = np.where(np.abs(y) > p["w"][:, None], np.nan, g)
        want = (1 - damp[:, None]) * g + damp[:, None] * y
        fin = np.isfinite(want).all(1)
        ok = (np.abs(y1 - want) <= 1e-12 * (1 + np.abs(want) + np.abs(y) + np.abs(g))).all(1) | ~fin & ~np.isfinite(y1).all(1)
        t.check_all(ok | ~act, "the step is not the damped map", detail=lambda ix, i=i: dict(detail(ix), step=i, expected=want[ix[0]], got=y1[ix[0]]))
        ax = tr["auxs"][:, i]
        t.check_all((ax == y).all(1) | ~act, "the auxiliary output is of another point", detail=detail)
        scale = p["atol"][:, None] + p["rtol"][:, None] * np.abs(y1)
        sz = size((y - y1) / scale)
        err = size(1e-13 * (np.abs(y) + np.abs(y1)) / scale)
        err = np.where(np.isnan(err), 0, err) * ~(y == y1).all(1)
        if normname == "max":
            # short binary fractions: equality is decided exactly
            plain = (short(y) & short(y1)).all(1) & (p["rtol"] == 0) & (p["atol"] == 0.25)
            err = np.where(plain, 0, err)
            t.outcome("exactly at the threshold", (act & plain & (sz == 1)).sum())
        yes, no = sz + err < 1, ~(sz - err < 1)
        # 0/0 with a vanishing tolerance is not judged
        odd = (scale == 0).any(1)
        sure = act & (yes | no) & ~odd
        got = term[:, i + 1]
        t.check_all((got == yes) | ~sure, "the stopping test differs", detail=lambda ix, i=i: dict(detail(ix), step=i, size=sz[ix[0]], got=bool(got[ix[0]])))
        t.check_all(~sure | ~yes | ((k == i + 1) & (result == 0)), "success is not reported at the first standstill", detail=detail)
        t.check_all(~sure | yes | ~fin | (k > i + 1) | (k == n) & (result == trace.MAXSTEPS), "the solve ended early", detail=detail)
        t.check_all(~act | fin | ((k == i + 1) & (result == trace.NONFINITE)), "a non-finite iterate is not reported", detail=detail)
        t.undecided += int((act & ~sure).sum())
        t.transitions += int(act.sum())
    for c in np.unique(result):
        t.outcome(trace.name(c), (result == c).sum())
    last = ys[np.arange(m), k]
    t.check_all(((out["value"] == last) | np.isnan(last)).all(1), "the value is not the last iterate", detail=detail)
    t.count_states((np.concatenate([ys.reshape(m, -1)] + [v.reshape(m, -1) for v in p.values()], 1), 1))
    single = jax.jit(one)
    for i in core.pick(m, 6, str(job)):
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(x0[i], {q: v[i] for q, v in p.items()}))
            if not (trace.tree_close(o["trace"]["ys"], ys[i], 1e-6, 1e-6) and int(o["steps"]) == int(k[i])):
                t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    t.sample(case=detail((m // 2,)))
    return t


def refuse(t):
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    shapes = dict(
        scalar=lambda z: jnp.array(z), one=lambda z: jnp.full(1, z), two=lambda z: jnp.full(2, z), three=lambda z: jnp.full(3, z),
        matrix=lambda z: jnp.full((2, 1), z), tup=lambda z: (jnp.array(z), jnp.array(z)), lst=lambda z: [jnp.array(z), jnp.array(z)],
        dct=lambda z: dict(a=jnp.array(z)), dct2=lambda z: dict(b=jnp.array(z)), nested=lambda z: dict(a=(jnp.full(2, z),)),
    )
    found = [
        lambda: optx.FixedPointIteration(1e-3, 1e-3), lambda: optx.FixedPointIteration(1e-3, 1e-3, damp=0.5),
        lambda: optx.Newton(1e-3, 1e-3), lambda: optx.BestSoFarFixedPoint(optx.FixedPointIteration(1e-3, 1e-3)),
    ]
    for make, (a, fa), (b, fb), throw in itertools.product(found, shapes.items(), shapes.items(), (True, False)):
        t.states += 1
        t.transitions += 1
        t.traces += 1
        try:
            sol = optx.fixed_point(lambda y, _: fb(0.5), make(), fa(1.0), throw=throw, max_steps=60)
            np.asarray(sol.stats["num_steps"])
            refused = False
        except Exception:
            refused = True
        t.outcome("refused" if refused else "accepted")
        if refused != (a != b):
            t.bad("a map with another structure is not refused, or a fitting one is", point=a, mapped=b, refused=refused)
    return t


if __name__ == "__main__":
    jobs = [dict(part="refuse")] + [
        dict(part="map", layout=l, norm=nm)
        for l, nm in [("vector", "max"), ("vector", "rms"), ("vector", "two"), ("scalar", "max"), ("dict", "max"), ("dict", "two"), ("matrix", "rms"), ("scalar", "rms")]
    ]
    core.main(
        "C13", jobs, run,
        rule="all 2x2 maps over {-1,0,0.5} and 3 more, 8 scalar maps, x offsets x nonlinearity x starts x damping x tolerances",
        bounds=dict(steps=STEPS, damps=DAMPS, tols=TOLS),
    )
