"""C10: golden-section search on every small table and a grid of unimodal functions.

Functions given by eight values in {0, 1, 2, inf} on equal cells of the interval, and
unimodal functions with the minimum on a grid including both ends, are searched on
intervals all over the real line, from initial guesses inside and outside. A monitor
follows the interval along the evaluated points: each new point must divide one of the two
admissible subintervals by the golden ratio (either on ties), keep the best point seen,
shrink by the golden ratio, and stop exactly at the tolerance test."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


STEPS = 26 if core.THOROUGH else 20
CELLS = 8
PHI = (1 + 5**0.5) / 2
PLACES = [(0.0, 1.0), (-5.0, -3.0), (96.0, 97.0), (-1000.0, 1000.0), (0.001, 0.0018), (-2.0, 6.0)]
TOLS = [(0.0, 0.0), (1e-3, 1e-3), (0.0, 0.05), (0.1, 1e-6), (1e-6, 10.0)]


def follow(t, ys, pts, term, k, result, value, fv, lo, hi, rtol, atol, n, best_of, detail):
    """`pts[:, i]` is the point evaluated by step i, `fv` the function, `best_of` the true
    minimiser (None if not unimodal)."""
    import numpy as np

    m = len(k)
    span = hi - lo
    c0, d0 = lo + span * (2 - PHI), lo + span * (PHI - 1)
    first = pts[:, 0]
    near = lambda u, v, w: np.abs(u - v) <= 1e-9 * w + 1e-13 * (np.abs(lo) + np.abs(hi))
    isc, isd = near(first, c0, span), near(first, d0, span)
    t.check_all(isc | isd | (k < 1), "the first points do not divide the interval by the golden ratio", detail=detail)
    mid = np.where(isc, d0, c0)
    a, b = lo.copy(), hi.copy()
    fm = fv(mid)
    best, fbest = mid.copy(), fm.copy()
    for i in range(n):
        act = k > i
        y = pts[:, i]
        fy = fv(y)
        w = b - a
        # undecided where the function is evaluated too close to a jump or a tie by rounding
        gap = np.abs(fy - fm)
        tie = (fy == fm) | (gap <= 1e-11 * (np.abs(fy) + np.abs(fm)))
        t.check_all(((y >= lo) & (y <= hi)) | ~act, "a point outside the interval is evaluated", detail=detail)
        left, right = np.minimum(y, mid), np.maximum(y, mid)
        y_is_left = y < mid
        f_left, f_right = np.where(y_is_left, fy, fm), np.where(y_is_left, fm, fy)
        keep_left = f_left < f_right
        # the next point tells which part is kept: (a, right) with `left` inside, or
        # (left, b) with `right` inside
        nxt = ys[:, i + 1]
        wl, wr = a + (right - left), left + (b - right)
        isl, isr = near(nxt, wl, w), near(nxt, wr, w)
        t.check_all(
            isl | isr | ~act, "the next point does not divide an admissible interval by the golden ratio",
            detail=lambda ix, i=i: dict(detail(ix), step=i, next=nxt[ix[0]], expected=(wl[ix[0]], wr[ix[0]])),
        )
        t.check_all(
            tie | (isl & keep_left) | (isr & ~keep_left) | ~act,
            "the part with the smaller value was dropped",
            detail=lambda ix, i=i: dict(detail(ix), step=i, left=(left[ix[0]], f_left[ix[0]]), right=(right[ix[0]], f_right[ix[0]]), next=nxt[ix[0]]),
        )
        t.undecided += int((tie & act & (fy != fm)).sum())
        dy, df = np.abs(y - mid), gap
        wants = []
        for sy, sf in itertools.product((mid, y), (fm, fy)):
            for eps in (-1, 1):
                f = 1 + eps * 1e-9
                wants.append((dy < f * (atol + rtol * np.abs(sy))) & (df < f * (atol + rtol * np.abs(sf)) + 0.0 * eps))
        wants = np.array(wants)
        yes, no = wants.all(0), ~wants.any(0)
        t.undecided += int((~yes & ~no & act).sum())
        got = term[:, i + 1]
        t.check_all(
            ~act | (~yes | got) & (~no | ~got), "stopping test is not 'innermost points agree within tolerance'",
            detail=lambda ix, i=i: dict(detail(ix), step=i, dy=dy[ix[0]], df=df[ix[0]], got=bool(got[ix[0]])),
        )
        t.check_all(~act | (k > i + 1) | (got == (result == 0)), "success reported wrongly", detail=detail)
        t.check_all(~act | (k > i + 1) | got | (k == n), "stopped early", detail=detail)
        t.check_all(~act | (k > i + 1) | (value == nxt), "the value is not the last point", detail=detail)
        goleft = isl & (keep_left | tie)
        t.outcome("kept the lower part", (goleft & act).sum())
        t.outcome("kept the upper part", (~goleft & act).sum())
        better = fy < fbest
        best, fbest = np.where(better, y, best), np.where(better, fy, fbest)
        mid, fm = np.where(goleft, left, right), np.where(goleft, f_left, f_right)
        a, b = np.where(goleft, a, left), np.where(goleft, right, b)
        t.check_all(((best >= a) & (best <= b)) | tie | ~act, "the best point seen is outside the interval", detail=detail)
        t.check_all((np.abs((b - a) * PHI - w) <= 1e-6 * w) | ~act, "the interval does not shrink by the golden ratio", detail=detail)
        if best_of is not None:
            slack = 1e-9 * span + 1e-12 * np.abs(best_of) + tie * w
            t.check_all(
                ((best_of >= a - slack) & (best_of <= b + slack) & (np.abs(nxt - best_of) <= (b - a) + slack)) | ~act,
                "the minimum is not in the remaining interval", detail=lambda ix, i=i: dict(detail(ix), step=i),
            )
        t.transitions += int(act.sum())
    t.check_all(~term[:, 0], "stopped before the first step", detail=detail)


def run(job):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    n = STEPS
    table = job["family"] == "table"

    def fn(y, p):
        if table:
            i = jnp.clip(jnp.floor((y - p["lo"]) / (p["hi"] - p["lo"]) * CELLS).astype(int), 0, CELLS - 1)
            f = p["v"][i]
        else:
            d = (y - p["c"]) / (p["hi"] - p["lo"])
            f = jnp.where(d < 0, -p["sl"] * d, p["sr"] * d)
            f = jnp.where(p["pw"] == 1, f, jnp.where(p["pw"] == 2, f * f, jnp.sqrt(f))) + p["e"]
        return f, y

    lo0, hi0 = PLACES[job["place"]]
    span0 = hi0 - lo0
    tols = np.array(TOLS)
    if table:
        values = (0.0, 1.0, 2.0) + ((float("inf"),) if core.THOROUGH else ())
        v = np.array(list(itertools.product(values, repeat=CELLS)))
        if not core.THOROUGH:
            v = np.concatenate([v, np.where(v == 2, np.inf, v)])
            v = np.unique(v, axis=0)
        if job["place"]:
            tols = tols[[job["place"] % len(tols)]]
        vv, tt = fam.product_batch(v, tols)
        m = len(vv)
        p = dict(v=vv)
    else:
        c = lo0 + span0 * np.concatenate([np.linspace(0, 1, 41), [-0.5, 1.25, 0.3333, 0.618033, 0.381966]])
        slopes = np.array([(1.0, 1.0), (0.25, 4.0), (8.0, 0.5)])
        c, s, pw, e, tt = fam.product_batch(c, slopes, np.array([1.0, 2.0, 0.5]), np.array([0.0, -3.0]), tols)
        m = len(c)
        p = dict(c=c, sl=s[:, 0].copy(), sr=s[:, 1].copy(), pw=pw, e=e)
    lo, hi = np.full(m, lo0), np.full(m, hi0)
    p.update(lo=lo, hi=hi, rtol=tt[:, 0].copy(), atol=tt[:, 1].copy())

    def one(y0, p):
        solver = optx.GoldenSearch(p["rtol"], p["atol"])
        return trace.runner("minimise", fn, solver, n)(y0, p, dict(lower=p["lo"], upper=p["hi"]))

    rows = np.arange(m)

    def fv(y):
        if table:
            i = np.clip(np.floor((y - lo) / (hi - lo) * CELLS), 0, CELLS - 1).astype(int)
            return vv[rows, i]
        d = (y - c) / (hi - lo)
        f = np.where(d < 0, -p["sl"] * d, p["sr"] * d)
        return np.where(pw == 1, f, np.where(pw == 2, f * f, np.sqrt(f))) + e

    guesses = [lo0 + 0.5 * span0, lo0, hi0, lo0 - 7.0, hi0 + span0, 0.0]
    base = None
    for g in guesses if not table or job["place"] == 0 else guesses[:2]:
        out = trace.batched(one, np.full(m, g), p)
        tr = out["trace"]

        def detail(ix):
            i = ix[0]
            return dict(p={k: x[i] for k, x in p.items()}, guess=g, points=tr["auxs"][i][:6])

        if base is None:
            base = (tr["ys"][:, 1:], tr["auxs"], out["result"], out["steps"], out["value"])
            follow(t, tr["ys"], tr["auxs"], tr["term"], out["steps"], out["result"], out["value"], fv, lo, hi,
                   p["rtol"], p["atol"], n, None if table else np.clip(c, lo, hi), detail)
            t.count_states((tr["auxs"], 1), (np.stack([np.nan_to_num(x.reshape(m, -1).sum(1) if x.ndim > 1 else x, posinf=1e9) for x in p.values()], 1), 1), *([(vv, 1)] if table else []))
            for r in np.unique(out["result"]):
                t.outcome(trace.name(r), (out["result"] == r).sum())
            t.check_all(np.isin(out["result"], [0, 1]), "unexpected outcome", detail=detail)
            single = jax.jit(one)
            for i in core.pick(m, 6, str(job)):
                for _ in range(2):
                    o = jax.tree_util.tree_map(np.asarray, single(g, {k: x[i] for k, x in p.items()}))
                    ok = trace.tree_close(o["trace"]["auxs"], tr["auxs"][i], 1e-12, 1e-12) and int(o["result"]) == int(out["result"][i])
                    if not ok:
                        t.bad("a replay on its own differs from the enumerated run", **detail((i,)))
                t.traces += 1
            t.sample(case=detail((m // 2,)))
        else:
            new = (tr["ys"][:, 1:], tr["auxs"], out["result"], out["steps"], out["value"])
            for u, v_ in zip(base, new):
                same = (u == v_) | ((u != u) & (v_ != v_))
                t.check_all(same.reshape(m, -1).all(1), "the initial guess changes the search", detail=detail)
            t.transitions += int(out["steps"].sum())
    return t


if __name__ == "__main__":
    jobs = [dict(family=f, place=i) for f in ("table", "unimodal") for i in range(len(PLACES))]
    core.main(
        "C10", jobs, run,
        rule="all tables of 8 values (one interval with all tolerances and guesses, five more intervals), all unimodal "
        "functions of the grid (46 minima x 3 asymmetries x 3 powers x 2 offsets x 5 tolerances x 6 intervals x 6 guesses)",
        bounds=dict(steps=STEPS, cells=CELLS, places=PLACES, tols=TOLS),
        assumptions=["objective values are not NaN"],
    )
