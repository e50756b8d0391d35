"""C09: bisection on every small table of signs and values.

Every function given by nine values in {-2, 0, 1} at equally spaced points of the bracket
(joined linearly, or constant in between) is solved from every grid point of the bracket,
with direction given or detected and several tolerances. All numbers are dyadic, so the
evaluated points are known exactly; each must be the midpoint of an interval that still
holds a sign change. Expansion is enumerated over monotone functions, brackets and roots,
refusal over all pairs of end values."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 34 if core.THOROUGH else 24
CELLS = 8
PLACES = [(0.0, 1.0), (-3.0, 0.5), (96.0, 0.0625), (-0.25, 0.0625)]
TOLS = [
    (0.0, 2.0**-4), (2.0**-3, 2.0**-6), (2.0**-10, 0.25), (0.0, 2.0**-18), (0.25, 0.0),
    (0.5, 1.0), (0.0, 2.5), (0.125, 2.0**-20),
]


def follow(t, ys, term, res, k, value, result, fv, lo, hi, rtol, atol, n, detail, learn=False):
    """Follow the intervals along the evaluated points. `fv` = function on arrays of
    points, `lo`/`hi` the initial bracket (if `learn`, only the bracket given by the
    user: the one worked in is inferred from the second point)."""
    import numpy as np

    m = len(k)
    a, b = lo.copy(), hi.copy()
    fa, fb = fv(a), fv(b)
    alive = np.ones(m, bool)
    for i in range(n):
        act = alive & (k > i)
        y, y1 = ys[:, i], ys[:, i + 1]
        fy = fv(y)
        if learn and i == 0:
            # the other end of the new interval
            e = 2 * y1 - y
            fe = fv(e)
            ok = fe * fy <= 0
            t.check_all(ok | ~act, "the bracket found does not contain the root", detail=detail)
            inside = fa * fb < 0
            was_end = (e == a) | (e == b) | (e == y)
            t.check_all(was_end | ~inside | ~act, "a bracket holding a sign change was changed", detail=detail)
            a, b = np.minimum(y, e), np.maximum(y, e)
            fa, fb = fv(a), fv(b)
        else:
            left = y1 == a + 0.5 * (y - a)
            right = y1 == y + 0.5 * (b - y)
            t.check_all(
                left | right | ~act,
                "the next point is not the midpoint of one of the two halves",
                detail=lambda ix, i=i: dict(detail(ix), step=i, y=y[ix[0]], next=y1[ix[0]], a=a[ix[0]], b=b[ix[0]]),
            )
            okl, okr = fa * fy <= 0, fy * fb <= 0
            t.check_all(
                (left & okl) | (right & okr) | ~act,
                "the kept half has no sign change",
                detail=lambda ix, i=i: dict(detail(ix), step=i, y=y[ix[0]], a=a[ix[0]], b=b[ix[0]]),
            )
            goleft = left & okl
            t.outcome("kept the lower half", (goleft & act).sum())
            t.outcome("kept the upper half", (~goleft & act).sum())
            a, fa = np.where(goleft, a, y), np.where(goleft, fa, fy)
            b, fb = np.where(goleft, y, b), np.where(goleft, fy, fb)
        want = (b - a < atol + rtol * np.abs(y1)) & (np.abs(fy) < atol)
        t.check_all(
            (want == term[:, i + 1]) | ~act,
            "stopping test differs from bracket and residual below tolerance",
            detail=lambda ix, i=i: dict(detail(ix), step=i, width=(b - a)[ix[0]], f=fy[ix[0]]),
        )
        last = act & (k == i + 1)
        t.check_all(~last | (value == y1), "the value is not the last midpoint", detail=detail)
        t.check_all(~last | ((result == 0) == want), "success reported wrongly", detail=detail)
        t.check_all(~last | want | (k == n), "stopped early", detail=detail)
        t.transitions += int(act.sum())
    t.check_all(~term[:, 0], "stopped before the first step", detail=detail)
    return a, b


def run(job):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    if job["part"] == "refuse":
        return refuse(t, job)
    if job["part"] == "expand":
        return expand(t, job)
    kind, direction = job["kind"], job["direction"]
    n = STEPS

    def fn(y, p):
        g = (y - p["a"]) / p["h"]
        i = jnp.clip(jnp.floor(g).astype(int), 0, CELLS - 1)
        if kind == "linear":
            f = p["v"][i] + (p["v"][i + 1] - p["v"][i]) * (g - i)
        else:
            f = jnp.where(g >= CELLS, p["v"][CELLS], p["v"][i])
        return f, y

    v = np.array(list(itertools.product((-2.0, 0.0, 1.0), repeat=CELLS + 1)))
    up = (v[:, 0] <= 0) & (v[:, -1] >= 0)
    down = (v[:, 0] >= 0) & (v[:, -1] <= 0)
    if direction == "detect":
        v = v[up | down]
    elif direction == "up":
        v = v[(v[:, 0] < 0) & (v[:, -1] > 0)]
    else:
        v = v[(v[:, 0] > 0) & (v[:, -1] < 0)]
    starts = np.arange(CELLS + 1.0) if job["starts"] == "grid" else np.array([0.5, 3.75, 4.0, 7.125])
    tols = TOLS if core.THOROUGH else [TOLS[i] for i in job["tols"]]
    flip = dict(detect="detect", up=False, down=True)[direction]

    def one(y0, p):
        solver = optx.Bisection(p["rtol"], p["atol"], flip=flip)
        opts = dict(lower=p["a"], upper=p["a"] + CELLS * p["h"])
        return trace.runner("root_find", fn, solver, n)(y0, p, opts)

    for place, (a0, h0) in enumerate(PLACES):
        if place not in job["places"] and not core.THOROUGH:
            continue
        tol = np.array(tols)
        vv, g0, tt = fam.product_batch(v, starts, tol)
        m = len(vv)
        p = dict(v=vv, a=np.full(m, a0), h=np.full(m, h0), rtol=tt[:, 0].copy(), atol=tt[:, 1].copy())
        y0 = a0 + h0 * g0
        out = trace.batched(one, y0, p, chunk=min(m, 40000))
        tr = out["trace"]
        rows = np.arange(m)

        def fv(y):
            g = (y - a0) / h0
            i = np.clip(np.floor(g), 0, CELLS - 1).astype(int)
            if kind == "linear":
                return vv[rows, i] + (vv[rows, i + 1] - vv[rows, i]) * (g - i)
            return np.where(g >= CELLS, vv[rows, CELLS], vv[rows, i])

        def detail(ix):
            i = ix[0]
            return dict(values=vv[i], start=y0[i], place=(a0, h0), tol=tt[i], ys=tr["ys"][i][:8])

        t.check_all(tr["ys"][:, 0] == y0, "the initial guess is not evaluated first", detail=detail)
        lo, hi = np.full(m, a0), np.full(m, a0 + CELLS * h0)
        follow(t, tr["ys"], tr["term"], tr["res"], out["steps"], out["value"], out["result"], fv, lo, hi, p["rtol"], p["atol"], n, detail)
        t.count_states((tr["ys"], 1), (vv, 1))
        for c in np.unique(out["result"]):
            t.outcome(trace.name(c), (out["result"] == c).sum())
        t.check_all(np.isin(out["result"], [0, 1]), "unexpected outcome", detail=detail)
        single = jax.jit(one)
        for i in core.pick(m, 6, job["kind"] + direction):
            pi = {k: x[i] for k, x in p.items()}
            for _ in range(2):
                o = jax.tree_util.tree_map(np.asarray, single(y0[i], pi))
                if not trace.tree_same(o["trace"]["ys"], tr["ys"][i]) or int(o["result"]) != int(out["result"][i]):
                    t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
            t.traces += 1
        t.sample(values=vv[m // 2], start=y0[m // 2], points=tr["ys"][m // 2][:6])
    return t


def expand(t, job):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    n = 60
    kind = job["kind"]

    def fn(y, p):
        d = y - p["root"]
        d = d if kind == "linear" else (d * d * d if kind == "cubic" else d / (1 + jnp.abs(d)))
        return p["s"] * d, y

    def one(y0, p):
        solver = optx.Bisection(p["rtol"], p["atol"], flip="detect", expand_if_necessary=True)
        return trace.runner("root_find", fn, solver, n)(y0, p, dict(lower=p["lo"], upper=p["hi"]))

    roots = [-1000.0, -41.0, -7.25, -2.0, -1.5, -1.0, 0.0, 0.25, 0.5, 1.0, 3.0, 3.25, 3.5, 7.0, 9.0, 64.5, 5000.0]
    brackets = np.array([(0.0, 1.0), (-2.0, -1.0), (3.0, 3.5), (-1.0, 1.0), (0.0, 0.0078125)])
    axes = [np.array(roots), np.array([1.0, -1.0, 0.5, -4.0]), brackets, np.array([0.0, 0.25, 0.5, 1.0]), np.array([(0.0, 0.125), (2.0**-6, 2.0**-8), (0.0, 2.0**-16)])]
    root, s, br, frac, tt = fam.product_batch(*axes)
    lo, hi = br[:, 0].copy(), br[:, 1].copy()
    y0 = lo + frac * (hi - lo)
    p = dict(root=root, s=s, lo=lo, hi=hi, rtol=tt[:, 0].copy(), atol=tt[:, 1].copy())
    out = trace.batched(one, y0, p)
    tr = out["trace"]

    def fv(y):
        d = y - root
        d = d if kind == "linear" else (d * d * d if kind == "cubic" else d / (1 + np.abs(d)))
        return s * d

    def detail(ix):
        i = ix[0]
        return dict(root=root[i], slope=s[i], bracket=br[i], start=y0[i], tol=tt[i], ys=tr["ys"][i][:8])

    t.check_all(tr["ys"][:, 0] == y0, "the initial guess is not evaluated first", detail=detail)
    follow(t, tr["ys"], tr["term"], tr["res"], out["steps"], out["value"], out["result"], fv, lo, hi, p["rtol"], p["atol"], n, detail, learn=True)
    t.check_all(out["result"] == 0, "a monotone function is not solved with expansion", detail=detail)
    t.check_all(np.abs(out["value"] - root) <= p["atol"] + p["rtol"] * np.abs(out["value"]), "the value is not near the root", detail=detail)
    t.outcome("expanded", ((root < lo) | (root > hi)).sum())
    t.outcome("no expansion needed", ((root >= lo) & (root <= hi)).sum())
    t.count_states((tr["ys"], 1), (np.stack([root, s], 1), 1))
    single = jax.jit(one)
    for i in core.pick(len(root), 8, "expand" + kind):
        o = jax.tree_util.tree_map(np.asarray, single(y0[i], {k: x[i] for k, x in p.items()}))
        if not trace.tree_same(o["trace"]["ys"], tr["ys"][i]):
            t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
        t.traces += 1
    return t


def refuse(t, job):
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    def fn(y, p):
        return p[0] + (p[1] - p[0]) * (y - 1.0) / 2.0, None

    def attempt(flip, throw):
        @eqx.filter_jit
        def go(p):
            return optx.root_find(
                fn, optx.Bisection(1e-3, 1e-3, flip=flip), jnp.array(2.0), p,
                dict(lower=1.0, upper=3.0), has_aux=True, throw=throw, max_steps=50,
            ).value

        return go

    ends = (-2.0, -0.5, -1e-12, 0.0, 1e-12, 1.0, 3.0)
    for throw in (False, True):
        go = attempt("detect", throw)
        for u, v in itertools.product(ends, repeat=2):
            try:
                np.asarray(go(jnp.array([u, v])))
                refused = False
            except Exception as e:
                refused = True
                if not isinstance(e, (RuntimeError, ValueError)):
                    raise
            want = u * v > 0
            t.states += 1
            t.transitions += 1
            t.traces += 1
            t.outcome("bracket refused" if refused else "bracket taken")
            if refused != want:
                t.bad("a bracket was refused wrongly or taken without a sign change", ends=(u, v), refused=refused)
    for flip in ("up", None, 2, "DETECT"):
        t.transitions += 1
        try:
            attempt(flip, True)(jnp.array([-1.0, 1.0]))
            t.bad("an unknown direction was not refused", flip=repr(flip))
        except Exception:
            t.outcome("unknown direction refused")
    return t


if __name__ == "__main__":
    jobs = [dict(part="refuse")]
    jobs += [dict(part="expand", kind=k) for k in ("linear", "cubic", "saturating")]
    for kind, direction in itertools.product(("linear", "step"), ("detect", "up", "down")):
        jobs.append(dict(part="table", kind=kind, direction=direction, starts="grid", places=[0], tols=[0, 3]))
        jobs.append(dict(part="table", kind=kind, direction=direction, starts="off", places=[1], tols=[1, 2, 4, 5]))
        jobs.append(dict(part="table", kind=kind, direction=direction, starts="off", places=[2, 3], tols=[6, 7]))
    core.main(
        "C09", jobs, run,
        rule="all value tables over {-2,0,1} at 9 points x starts x places x tolerances; all monotone functions, "
        "roots, brackets of the expansion family; all pairs of end values",
        bounds=dict(values=[-2, 0, 1], points=CELLS + 1, steps=STEPS),
        assumptions=["the initial guess lies in the bracket", "expansion is used with strictly monotone functions"],
    )
