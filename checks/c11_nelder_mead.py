"""C11: Nelder-Mead against a plain reference simplex, step by step.

A numpy reference holds the full simplex and takes the textbook decisions; the
implementation is driven step by step through the solver interface. After every step the
iterate, its auxiliary value, the stopping test (which sees every vertex and value) and
all operation counts must agree, for every objective, start, displacement, norm and
tolerance of the families in one to four dimensions. These runs are followed up to a tie or
a comparison closer than rounding.

Ties are decided separately, on all tables of few values over the cells of a line or plane,
where arithmetic is exact. The reference is then a nondeterministic automaton: among equally
bad vertices any may be the one replaced, among equally good ones any may be the best. The
set of simplices compatible with everything observed so far must never become empty."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 60 if core.THOROUGH else 40
inf = float("inf")
NORMS = ["max", "rms", "two"]
DELTAS = [(0.05, 0.00025), (0.5, 1.0), (-0.25, 0.125), (0.0, 3.0)]
TOLS = [(1e-3, 1e-3), (0.0, 0.5), (0.3, 0.0625), (1e-6, 1e-8)]
COUNTS = ["num_reflections", "num_expansions", "num_outer_contractions", "num_inner_contractions", "num_shrinkages"]


def objective(xp, x, p):
    """x[..., d] -> value. One formula for numpy and jax; x is a list of coordinates."""
    d = len(x)
    f = p["e"]
    for i in range(d):
        f = f + p["a"] * (1.0 + 0.7 * i) * (x[i] - p["c"] * (1.0 + 0.31 * i)) ** 2
        f = f + p["k"] * xp.abs(x[i] - 0.37 * i)
    for i in range(d - 1):
        f = f + p["m"] * (x[i + 1] - 0.9 * x[i] ** 2) ** 2
    f = f + p["s"] * xp.sin(3.0 * x[0] + 1.7 * x[d - 1])
    return xp.where(x[0] > p["w"], xp.inf, f)


def params():
    rows = []
    for a, c in itertools.product((1.0, 0.1, -0.05), (0.0, 1.3)):
        for k, m, s in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 2), (0.5, 0.3, 1)]:
            for w in (1e9, 0.8, 2.1):
                for e in (0.0, -7.0):
                    rows.append(dict(a=a, c=c, k=float(k), m=float(m), s=float(s), w=w, e=e))
    return rows


def reference(x0, p, rdelta, adelta, n):
    """Generator of (best point, best value, simplex, values, counts, reliable) per step,
    vectorised over instances. x0: [m, d]."""
    import numpy as np

    m, d = x0.shape
    fv = lambda x: objective(np, [x[..., i] for i in range(d)], {k: v.reshape((-1,) + (1,) * (x.ndim - 2)) for k, v in p.items()})
    simplex = np.repeat(x0[:, None], d + 1, axis=1)
    for i in range(d):
        simplex[:, i + 1, i] += adelta + rdelta * x0[:, i]
    f = fv(simplex)
    counts = np.zeros((m, 5), int)
    good = np.ones(m, bool)
    rows = np.arange(m)
    margin = np.full(m, np.inf)

    def close(u, v):
        with np.errstate(all="ignore"):
            return (u == v) | (np.abs(u - v) <= 1e-9 * (1e-3 + np.abs(u) + np.abs(v)))

    for step in range(n):
        if step > 0:
            order = np.argsort(f, axis=1, kind="stable")
            ib, iw, i2 = order[:, 0], order[:, -1], order[:, -2]
            fb, fw, f2 = f[rows, ib], f[rows, iw], f[rows, i2]
            good &= ~close(fw, f2)
            if d > 1:
                good &= ~close(fb, f[rows, order[:, 1]])
            worst = simplex[rows, iw]
            direction = (simplex - worst[:, None]).sum(1) / d
            r = worst + 2 * direction
            fr = fv(r)
            good &= ~(close(fr, fb) | close(fr, fw) | close(fr, f2))
            expand, inner = fr < fb, fr > fw
            outer = (fr > f2) & ~inner
            reflect = ~expand & ~inner & ~outer
            const = np.select([expand, inner, outer], [3.0, 0.5, 1.5], 2.0)
            new = worst + const[:, None] * direction
            fn = fv(new)
            good &= ~close(fn, fw) & ~np.isnan(fn)
            shrink = fn > fw
            counts = counts + np.stack([reflect, expand, outer, inner, shrink], 1)
            best = simplex[rows, ib]
            shrunk = best[:, None] + 0.5 * (simplex - best[:, None])
            moved = simplex.copy()
            moved[rows, iw] = new
            simplex = np.where(shrink[:, None, None], shrunk, moved)
            f_moved = f.copy()
            f_moved[rows, iw] = fn
            f = np.where(shrink[:, None], fv(simplex), f_moved)
            took = (reflect, expand, outer, inner, shrink)
        else:
            took = None
        s = np.sort(f, axis=1)
        tie = close(s[:, 0], s[:, 1])
        yield simplex.copy(), f.copy(), counts.copy(), good.copy(), tie, took


def successors(simplex, value):
    """All simplices one step may lead to, with the operation counts it adds. A simplex is a
    sorted tuple of (value, point)."""
    d = len(simplex) - 1
    fb, fw, f2 = simplex[0][0], simplex[-1][0], simplex[-2][0]
    out = set()
    for iw in {next(i for i, v in enumerate(simplex) if v == w) for w in simplex if w[0] == fw}:
        rest = simplex[:iw] + simplex[iw + 1 :]
        worst = simplex[iw][1]
        along = lambda c: tuple(
            worst[k] + c * (sum(v[1][k] - worst[k] for v in rest) / d) for k in range(d)
        )
        fr = value(along(2.0))
        if fr < fb:
            op, c = 1, 3.0
        elif fr > fw:
            op, c = 3, 0.5
        elif fr > f2:
            op, c = 2, 1.5
        else:
            op, c = 0, 2.0
        new = along(c)
        fn = value(new)
        add = [0] * 5
        add[op] = 1
        if fn > fw:
            add[4] = 1
            for b in {v[1] for v in simplex if v[0] == fb}:
                pts = [tuple(b[k] + 0.5 * (v[1][k] - b[k]) for k in range(d)) for v in simplex]
                out.add((tuple(sorted((value(x), x) for x in pts)), tuple(add)))
        else:
            out.add((tuple(sorted(rest + ((fn, new),))), tuple(add)))
    return out


def run_ties(job):
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import drive, families as fam, trace

    t = core.Tally()
    d, cells, n = job["d"], job["cells"], job["steps"]
    atol = job.get("atol", 0.75)
    alphabet = [inf if v == "inf" else float(v) for v in job["values"]]
    tables = np.array(list(itertools.product(alphabet, repeat=cells**d)))
    tables = tables[job["part"] :: job["parts"]]

    def fn(y, table):
        i = 0
        for x in y:
            i = i * cells + jnp.clip(jnp.floor(x) + 1, 0, cells - 1).astype(int)
        return table[i], jnp.stack(y)

    def one(table, x0, delta):
        solver = optx.NelderMead(0.0, atol, optx.max_norm, rdelta=0.0, adelta=delta)
        out = drive.drive(solver, fn, tuple(x0[i] for i in range(d)), table, n)
        out["ys"] = jnp.stack(out["ys"], -1)
        return out

    starts = np.array([[0.5] * d, [0.25, 1.5][:d]])
    table, x0, delta = fam.product_batch(tables, starts, np.array(job["deltas"]))
    out = trace.batched(one, table, x0, delta)
    counts = np.stack([out["stats"][c] for c in COUNTS], -1)
    ys, term = out["ys"], out["term"]
    seen = set()
    for i in range(len(table)):
        row = table[i]

        def value(x):
            k = 0
            for v in x:
                k = k * cells + min(max(int(v // 1) + 1, 0), cells - 1)
            return float(row[k])

        pts = [tuple(x0[i])] + [
            tuple(x0[i][k] + (delta[i] if k == q else 0.0) for k in range(d)) for q in range(d)
        ]
        possible = {(tuple(sorted((value(x), x) for x in pts)), (0,) * 5)}
        for k in range(n):
            if k > 0:
                possible = {
                    (new, tuple(a + b for a, b in zip(cnt, add)))
                    for sim, cnt in possible
                    for new, add in successors(sim, value)
                }
            y, c = tuple(ys[i, k + 1]), tuple(counts[i, k])
            points = {s for s in possible if any(v == (s[0][0][0], y) for v in s[0])}
            counted = {s for s in points if s[1] == c}
            kept = set()
            for s in counted:
                fb = s[0][0][0]
                # the best one among equals is the iterate
                far = max(abs(v[1][q] - y[q]) for v in s[0] for q in range(d))
                spread = max(v[0] for v in s[0]) - fb if fb < inf else 0.0
                if term[i, k + 1] == ((far < atol and spread < atol) or fb == inf):
                    kept.add(s)
            where = dict(table=row, start=x0[i], displacement=delta[i], step=k + 1, iterates=ys[i, : k + 2], counts=dict(zip(COUNTS, c)))
            if not kept:
                what = "the iterate is not the best vertex of any possible simplex"
                if points:
                    what = "the stopping test differs (exact)" if counted else "the operation counts differ (exact)"
                t.bad(what, expected=sorted(possible)[:3], **where)
                break
            if len(possible) > 1:
                t.outcome("open choice at a tie")
            possible = kept
            t.transitions += len(kept)
            seen.update((s[0], tuple(row), k) for s in kept)
        else:
            t.outcome("followed through all ties")
    t.states += len(seen)
    t.traces += len(table)
    return t


def run(job):
    if "values" in job:
        return run_ties(job)
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import drive, families as fam, solvers, trace

    t = core.Tally()
    d, layout = job["d"], job["layout"]
    n = STEPS
    norm = solvers.NORMS[job["norm"]]
    key = "array-simplex" if layout == "vector3" else ""

    def pack(x):
        if layout == "scalars":
            return tuple(x[i] for i in range(d))
        if layout == "nested":
            return dict(b=[x[0]], a=dict(c=x[1:2], d=tuple(x[i].reshape(1, 1) for i in range(2, d))))
        if layout == "mixed":
            return (x[:2], x[2])
        return x

    def unpack(y):
        if layout == "nested":
            y = (y["b"], y["a"]["c"], y["a"]["d"])
        return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(y)])

    def fn(y, p):
        x = unpack(y)
        return objective(jnp, [x[i] for i in range(d)], p), (x, x.sum())

    def one(x0, p, rd, ad, rtol, atol):
        solver = optx.NelderMead(rtol, atol, norm, rdelta=rd, adelta=ad)
        out = drive.drive(solver, fn, pack(x0), p, n)
        out["ys"] = jax.vmap(unpack)(out["ys"])
        return out

    starts = [np.arange(d) * 0.4 - 0.3, np.zeros(d), np.full(d, -1.1), 1.7 - 0.9 * np.arange(d), np.full(d, 0.75)]
    if layout in ("vector2", "mixed", "vector3"):
        # with arrays the displacements are only documented ones for equal entries
        starts = [np.full(d, v) for v in (0.75, -1.1, 0.0, 2.3)]
    rows = params()
    if layout != "scalars" and not core.THOROUGH:
        rows = rows[::4]
    tols = TOLS if job["norm"] == "max" else TOLS[:2]
    p, x0, dl, tl = fam.product_batch(fam.stack(rows), np.array(starts), np.array(DELTAS), np.array(tols))
    m = len(x0)
    out = trace.batched(one, x0, p, dl[:, 0].copy(), dl[:, 1].copy(), tl[:, 0].copy(), tl[:, 1].copy())
    ys, term, res = out["ys"], out["term"], out["res"]
    counts = np.stack([out["stats"][c] for c in COUNTS], -1)

    def detail(ix):
        i = ix[0]
        return dict(params={k: v[i] for k, v in p.items()}, start=x0[i], deltas=dl[i], tol=tl[i], points=ys[i][:6])

    t.check_all(ys[:, 0] == x0, "the first iterate is not the initial guess", key, detail=detail)
    t.check_all(~term[:, 0], "stopped before the first step", key, detail=detail)
    alive = np.ones(m, bool)
    followed = np.zeros(m, int)
    prev = None
    states = []
    for i, (sim, f, cnt, good, tie, took) in enumerate(reference(x0, p, dl[:, :1].ravel(), dl[:, 1], n)):
        alive &= good
        r = np.arange(m)
        ib = f.argmin(1)
        best, fb = sim[r, ib], f[r, ib]
        y = ys[:, i + 1]
        at = lambda ix, i=i: dict(detail(ix), step=i + 1, expected=best[ix[0]], got=y[ix[0]])
        ok = np.all(np.abs(y - best) <= 1e-7 * (1 + np.abs(best)), axis=1)
        t.check_all(ok | tie | ~alive, "the iterate is not the best vertex of the reference simplex", key, detail=at)
        fy = objective(np, [y[:, q] for q in range(d)], p)
        t.check_all((fy <= fb + 1e-9 * (1 + np.abs(fb))) | ~alive, "the iterate is not a best vertex", key, detail=at)
        if prev is not None:
            t.check_all((fy <= prev + 1e-9 * (1 + np.abs(prev))) | ~alive, "the best value increased", key, detail=at)
        prev = fy
        # auxiliary output: that of the previous iterate
        ax = out["aux"][0][:, i]
        t.check_all(np.all(ax == ys[:, i], axis=1) | ~alive, "the auxiliary output is not that of the iterate stepped from", key, detail=at)
        t.check_all((counts[:, i] == cnt).all(1) | ~alive, "the operation counts differ", key,
                    detail=lambda ix, i=i: dict(at(ix), counts=dict(zip(COUNTS, counts[ix[0], i])), expected_counts=cnt[ix[0]]))
        # stopping test
        with np.errstate(all="ignore"):
            xs = (np.abs(sim - best[:, None]) / (tl[:, 1] + tl[:, 0] * np.abs(best).T).T[:, None]).reshape(m, -1)
            fs = np.abs(f - fb[:, None]) / (tl[:, 1] + tl[:, 0] * np.abs(fb))[:, None]
            size = dict(max=lambda v: v.max(1), rms=lambda v: np.sqrt((v**2).mean(1)), two=lambda v: np.sqrt((v**2).sum(1)))[job["norm"]]
            sx, sf = size(xs), size(fs)
        conv = (sx < 1) & (sf < 1)
        unsure = (np.abs(sx - 1) < 1e-6) | (np.abs(sf - 1) < 1e-6) | tie
        finite = np.isfinite(fb)
        want_t = conv | ~finite
        t.check_all((term[:, i + 1] == want_t) | unsure | ~alive, "the stopping test differs", key,
                    detail=lambda ix: dict(at(ix), point_size=sx[ix[0]], value_size=sf[ix[0]], got=bool(term[ix[0], i + 1])))
        t.check_all(((res[:, i + 1] == 0) == finite) | ~alive, "the outcome differs", key, detail=at)
        t.undecided += int((unsure & alive).sum())
        t.transitions += int(alive.sum())
        followed += alive
        if took is not None:
            for nm, tk in zip(("reflect", "expand", "outer contraction", "inner contraction", "shrink"), took):
                t.outcome(nm, (tk & alive).sum())
        t.outcome("stopping test met", (want_t & alive).sum())
    t.note("runs followed to the end", int((followed == n).sum()))
    t.note("runs", m)
    sel = np.repeat(np.arange(m), n)
    mask = (np.arange(n)[None] < followed[:, None]).ravel()
    t.count_states((np.concatenate([ys[:, 1:], np.broadcast_to(x0[:, None], (m, n, d)), counts], -1).reshape(m * n, -1)[mask], 1))
    # conformance: the library's own loop takes the same steps
    def whole(x0, p, rd, ad, rtol, atol):
        solver = optx.NelderMead(rtol, atol, norm, rdelta=rd, adelta=ad)
        sol = optx.minimise(fn, solver, pack(x0), p, has_aux=True, max_steps=n, throw=False)
        return dict(value=unpack(sol.value), steps=sol.stats["num_steps"], result=trace.code(sol.result), counts=jnp.stack([sol.stats[c] for c in COUNTS]))

    single = jax.jit(whole)
    for i in core.pick(m, 8, str(job)):
        a = [x0[i], {k: v[i] for k, v in p.items()}, *dl[i], *tl[i]]
        first = np.argmax(term[i]) if term[i].any() else n
        for _ in range(2):
            o = jax.tree_util.tree_map(np.asarray, single(*a))
            k = int(o["steps"])
            if followed[i] < max(k, first):
                continue
            ok = k == first and np.allclose(o["value"], ys[i, k], rtol=1e-7, atol=1e-7) and (o["counts"] == counts[i, k - 1]).all()
            want = int(res[i, k]) if term[i, k] else trace.MAXSTEPS
            if not (ok and int(o["result"]) == want):
                t.bad("the library's loop differs from the driven run", key, **detail((i,)), loop=o)
        t.traces += 1
    t.sample(case=detail((m // 3,)))
    return t


if __name__ == "__main__":
    jobs = [dict(d=d, layout="scalars", norm="max") for d in (1, 2, 3, 4)]
    jobs += [dict(d=d, layout="scalars", norm=nm) for d in (2, 3) for nm in ("rms", "two")]
    jobs += [
        dict(d=2, layout="vector2", norm="max"), dict(d=3, layout="mixed", norm="rms"),
        dict(d=3, layout="nested", norm="max"), dict(d=4, layout="nested", norm="two"),
        dict(d=3, layout="vector3", norm="max"),
    ]
    big = core.THOROUGH
    parts = 8
    for part in range(parts):
        jobs.append(dict(d=2, cells=3, values=[0, 1, 2], steps=12 if big else 9, deltas=[1.0, -0.75] if big else [1.0], parts=parts, part=part))
    jobs.append(dict(d=1, cells=6, values=[0, 1, 2], steps=14, deltas=[1.0, 3.0, -0.75], parts=1, part=0))
    jobs.append(dict(d=1, cells=5, values=[0, 1, "inf"], steps=14, deltas=[1.0, -0.75], parts=1, part=0))
    jobs.append(dict(d=2, cells=3, values=[0, "inf"], steps=10, deltas=[1.0, -0.75], parts=1, part=0))
    jobs.append(dict(d=1, cells=6, values=[0, 1, 2], steps=14, deltas=[1.0, 3.0, -0.75], parts=1, part=0, atol=1.0))
    jobs.append(dict(d=2, cells=3, values=[0, 1], steps=9, deltas=[1.0, -0.75], parts=1, part=0, atol=1.0))
    core.main(
        "C11", jobs, run,
        rule="all objectives (180) x starts (5) x displacements (4) x tolerances (4) in 1-4 dimensions, three norms, "
        "several containers; every step up to the bound or the first tie; all tables of 3x3 cells over {0,1,2}, of 6 cells "
        "on a line, and with infinite values, through all ties",
        bounds=dict(steps=STEPS, dims=[1, 2, 3, 4], deltas=DELTAS, tols=TOLS),
        assumptions=["objective values are not NaN", "array-valued unknowns: entries equal at the start"],
    )
