"""Plain references for quasi-Newton and conjugate-gradient methods (numpy, vectorised over
a leading batch axis), an exact line search written as a user's search, and a monitor that
follows recorded runs."""

import itertools

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import optimistix as optx


EPS = 2.0**-52


def dot(a, b):
    return np.einsum("ni,ni->n", a, b)


def outer(a, b):
    return np.einsum("ni,nj->nij", a, b)


def mv(m, v):
    return np.einsum("nij,nj->ni", m, v)


def bfgs(B, s, y):
    """Direct BFGS update of B."""
    Bs = mv(B, s)
    return B + outer(y, y) / dot(s, y)[:, None, None] - outer(Bs, Bs) / dot(s, Bs)[:, None, None]


def dfp(B, s, y):
    """Direct DFP update of B: (I - y s^T/sy) B (I - s y^T/sy) + y y^T/sy."""
    sy = dot(s, y)[:, None, None]
    P = np.eye(s.shape[1])[None] - outer(s, y) / sy
    return np.einsum("nji,njk,nkl->nil", P, B, P) + outer(y, y) / sy


def lbfgs(pairs, valid, m, d):
    """Dense BFGS matrix from the newest `m` valid pairs. pairs: list (oldest first) of
    (s, y); valid: list of boolean arrays."""
    n = len(valid[0]) if valid else 0
    newest = np.zeros(n, int)  # number of valid pairs after position i
    keep = []
    for v in reversed(valid):
        keep.append(v & (newest < m))
        newest = newest + v
    keep = keep[::-1]
    gamma = np.ones(n)
    for (s, y), v in zip(pairs, valid):
        gamma = np.where(v, dot(y, y) / np.where(v, dot(s, y), 1.0), gamma)
    B = gamma[:, None, None] * np.eye(d)[None]
    for (s, y), kp in zip(pairs, keep):
        safe_s = np.where(kp[:, None], s, 1.0)
        safe_y = np.where(kp[:, None], y, 1.0)
        B = np.where(kp[:, None, None], bfgs(B, safe_s, safe_y), B)
    return B


def beta(method, g, g_prev, p_prev):
    """Textbook values and denominators."""
    yk = g - g_prev
    num = dict(PR=dot(g, yk), FR=dot(g, g), HS=dot(g, yk), DY=dot(g, g))[method]
    den = dict(PR=dot(g_prev, g_prev), FR=dot(g_prev, g_prev), HS=dot(p_prev, yk), DY=dot(p_prev, yk))[method]
    ok = np.abs(den) > EPS
    b = np.where(ok, num / np.where(ok, den, 1.0), 0.0)
    if method == "PR":
        b = np.maximum(b, 0.0)
    return b, den


def spd_grid(d):
    """All symmetric matrices with the listed entries that are safely positive definite."""
    entries = (-1.0, 0.0, 1.0) if d == 3 else (-1.0, 0.0, 0.5, 2.0)
    A = []
    for diag in itertools.product((1.0, 2.0, 5.0), repeat=d):
        for off in itertools.product(entries, repeat=d * (d - 1) // 2):
            M = np.diag(diag)
            M[np.tril_indices(d, -1)] = off
            M = M + np.tril(M, -1).T
            if np.linalg.eigvalsh(M)[0] > 0.2:
                A.append(M)
    return np.array(A)


def linear_cg(A, b, x0, d):
    """Yields (new point, residual before the step) of linear conjugate gradients."""
    x, r = x0.copy(), b - mv(A, x0)
    p = r.copy()
    for _ in range(d):
        Ap = mv(A, p)
        with np.errstate(all="ignore"):
            al = dot(r, r) / dot(p, Ap)
            x = x + al[:, None] * p
            r1 = r - al[:, None] * Ap
            p = r1 + (dot(r1, r1) / dot(r, r))[:, None] * p
        yield x, r
        r = r1


class _ExactState(eqx.Module):
    trial: jax.Array


class ExactSearch(optx.AbstractSearch):
    """Exact minimisation along each direction, for quadratics: evaluates the full step to
    learn the curvature, then takes the minimising one."""

    def init(self, y, f_info_struct):
        return _ExactState(jnp.array(True))

    def step(self, first_step, y, y_eval, f_info, f_eval_info, state):
        # `trial`: the point just evaluated is the unit step of a new direction.
        d = jtu.tree_map(lambda a, b: a - b, y_eval, y)
        slope = f_info.compute_grad_dot(d)
        curv = 2 * (f_eval_info.f - f_info.f - slope)
        size = jnp.where(curv > 0, -slope / jnp.where(curv > 0, curv, 1.0), 1.0)
        probing = state.trial & jnp.invert(first_step)
        accept = jnp.invert(probing)
        return (
            jnp.where(probing, size, 1.0),
            accept,
            optx.RESULTS.successful,
            _ExactState(accept),
        )


def follow(t, ys, k, grad, start, advance, detail, what="the accepted point is not on the reference direction", shrink=0.5, on_step=None, tol=1e-7):
    """Follow runs of a solver with backtracking (unit step, halved at each refusal).
    `start(g)` -> (memory, direction, sure); `advance(memory, s, y, g, take)` -> (memory,
    direction, sure) for the members `take`. Members drop out when `sure` is False."""
    m, d = ys.shape[0], ys.shape[2]
    y = ys[:, 0]
    g = grad(y)
    memory, p, sure = start(g)
    alive = (k >= 1) & sure & (ys[:, 1] == y).all(1)
    t.check_all((ys[:, 1] == y).all(1) | (k < 1), "the first step does not stay at the initial guess", detail=detail)
    refused = np.zeros(m)
    taken = np.zeros(m, int)
    for i in range(1, ys.shape[1] - 1):
        act = alive & (k > i)
        y1 = ys[:, i + 1]
        stay = (y1 == y).all(1)
        alpha = shrink**refused
        want = y + alpha[:, None] * p
        step = np.abs(alpha[:, None] * p).max(1)
        # a step too small to be told from rounding ends the following
        big = step > 1e-9 * (1 + np.abs(y).max(1))
        moved = act & ~stay
        ok = (np.abs(y1 - want) <= tol * (step[:, None] + 1e-9 * np.abs(y)) + 1e-14 * np.abs(y)).all(1)
        t.check_all(
            ok | ~moved | ~big, what,
            detail=lambda ix: dict(detail(ix), step=i, y=y[ix[0]], expected=want[ix[0]], got=y1[ix[0]], refusals=refused[ix[0]]),
        )
        alive &= big | stay
        take = moved & alive
        g1 = grad(y1)
        s, yd = y1 - y, g1 - g
        fin = np.isfinite(g1).all(1) & np.isfinite(y1).all(1)
        take &= fin
        alive &= fin | ~act
        memory, p1, sure = advance(memory, s, yd, g1, take)
        p = np.where(take[:, None], p1, p)
        g = np.where(take[:, None], g1, g)
        y = np.where(take[:, None], y1, y)
        alive &= sure | ~take
        refused = np.where(take, 0, np.where(act & stay, refused + 1, refused))
        taken += take
        t.transitions += int(act.sum())
        t.outcome("moved", take.sum())
        t.outcome("refused", (act & stay).sum())
        alive &= k > i
    t.note("moves followed", int(taken.sum()))
    return taken
