"""Finite, enumerated families of problems. Every member is given by numbers passed as
`args`, so that one compiled solve serves the whole family under vmap."""

import itertools

import jax.numpy as jnp
import numpy as np
from jax import lax


# ---- smooth two-dimensional objectives -------------------------------------------------
# args: a, b, c, d (curvatures and centre), m (coupling), r (Rosenbrock-like valley),
# q (quartic), w (beyond |y0| = w the objective is undefined), e (constant)
_S = "abcdmrqwe"


def smooth_min(y, p):
    x0, x1 = y[0], y[1]
    f = (
        0.5 * p["a"] * (x0 - p["c"]) ** 2
        + 0.5 * p["b"] * (x1 - p["d"]) ** 2
        + p["m"] * x0 * x1
        + p["r"] * (x1 - x0**2) ** 2
        + p["q"] * x0**4
        + p["e"]
    )
    return jnp.where(jnp.abs(x0) > p["w"], jnp.nan, f)


def smooth_res(y, p):
    x0, x1 = y[0], y[1]
    out = jnp.stack(
        [
            p["a"] * (x0 - p["c"]),
            p["b"] * (x1 - p["d"]) + p["m"] * x0,
            p["r"] * (x1 - x0**2),
            p["q"] * x0**2 + p["e"],
        ]
    )
    return jnp.where(jnp.abs(x0) > p["w"], jnp.nan, out)


def smooth_params(thorough=False):
    """Rows of parameters of the smooth family."""
    rows = []
    for a, b in [(1, 1), (1, 4), (2, 0.5), (8, 1)]:
        for c, d in [(0, 0), (1, -2)]:
            for m in (0, 0.5):
                for r in (0, 1):
                    for q, w, e in [(0, 1e9, 0), (0.25, 1e9, 1), (0.25, 3, 0)]:
                        rows.append(dict(a=a, b=b, c=c, d=d, m=m, r=r, q=q, w=w, e=e))
    # nonconvex, flat and unbounded ones
    for a, b in [(-1, 1), (0, 0), (0, 1), (-1, -1)]:
        for q in (0, 0.25):
            for r in (0, 1):
                rows.append(dict(a=a, b=b, c=1, d=1, m=0, r=r, q=q, w=1e9, e=0))
    if thorough:
        for a, b in itertools.product((0.5, 3, 16), repeat=2):
            for c, d in itertools.product((-1, 0.5, 4), repeat=2):
                for m in (-0.5, 0, 0.25):
                    rows.append(dict(a=a, b=b, c=c, d=d, m=m, r=0.5, q=0.125, w=6, e=-1))
    return rows


def stack(rows):
    return {k: np.array([float(r[k]) for r in rows]) for k in rows[0]}


def product_batch(*axes):
    """All combinations. Each axis is a dict of equally long arrays (or an array);
    returns the same structures, flattened over the product."""
    lens = [len(next(iter(a.values()))) if isinstance(a, dict) else len(a) for a in axes]
    idx = np.indices(lens).reshape(len(lens), -1)
    out = []
    for i, a in zip(idx, axes):
        if isinstance(a, dict):
            out.append({k: np.asarray(v)[i] for k, v in a.items()})
        else:
            out.append(np.asarray(a)[i])
    return out


STARTS = np.array([[0.0, 0.0], [1.0, 1.0], [-2.0, 1.0], [2.5, -0.5]])


# ---- tables: arbitrary answers ----------------------------------------------------------
def table_cell(y, p):
    n = p["v"].shape[0]
    k = jnp.floor(y * p["res"]).astype(int)
    return jnp.mod(k, n)


def table_min(y, p):
    """Scalar y; value and slope are looked up in the cell of y. The slope need not be
    consistent with the values."""
    k = table_cell(y, p)
    f = p["v"][k] + p["s"][k] * (y - lax.stop_gradient(y))
    return jnp.where(jnp.isfinite(y), f, jnp.nan)


def table_res(y, p):
    """Two residuals of a scalar unknown, with a table of values and of derivatives."""
    k = table_cell(y, p)
    f = p["v"][k] + p["s"][k] * (y - lax.stop_gradient(y))
    return jnp.where(jnp.isfinite(y), f, jnp.nan)


def tables(values, slopes, cells, slope_cells=None):
    """Every table of `cells` values, with every slope table."""
    v = np.array(list(itertools.product(values, repeat=cells)), float)
    s = np.array(list(itertools.product(slopes, repeat=cells)), float)
    return v, s
