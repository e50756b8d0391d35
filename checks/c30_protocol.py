"""C30: user-written searches and descents are driven by the documented protocol.

The search is a script: every sequence of acceptances and step sizes up to the bound (and, with
a failure of the search, the descent or both at some step, all of them in the thorough tier and
a fixed quarter in the quick one) is played on the real solvers, for every base
class that takes a search and a descent. Search and descent write down everything they are
told. The reference is the protocol of the documentation, executed in plain NumPy."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 7 if core.THOROUGH else 6
SIZES = [0.0625, 0.25]
# A step size of the second kind makes the descent report a failure
BROKEN = [0.09375, 0.375]
TOLS = [(0.1, 0.05), (1e-3, 1e-3)]
BASES = ["gradient", "bfgs", "bfgs-direct", "dfp", "dfp-direct", "lbfgs", "lbfgs-direct", "gauss-newton"]


def scripts():
    """All scripts: (accept, size index) per step, and at most one failure: (step, kind).
    Kinds: 1 search, 2 descent, 3 both. The quick tier plays a failure on a quarter of the
    scripts, chosen so that every step, kind and acceptance pattern occurs."""
    out = []
    for accepts in itertools.product((1, 0), repeat=N - 1):
        for sizes in itertools.product((0, 1), repeat=N):
            for where, kind in [(-1, 0)] + [(w, k) for w in range(N) for k in (1, 2, 3)]:
                if kind and (where + sum(sizes) + 2 * sum(accepts)) % 4 and not core.THOROUGH:
                    continue
                out.append(((1,) + accepts, sizes, where, kind))
    accept = [s[0] for s in out]
    size, fail = [], []
    for _, sizes, where, kind in out:
        size.append([(BROKEN if i == where and kind & 2 else SIZES)[s] for i, s in enumerate(sizes)])
        fail.append([i == where and bool(kind & 1) for i in range(N)])
    return accept, size, fail


def parts():
    """The user's search and descent, and solvers made of them."""
    from typing import Any, Callable

    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import optimistix as optx

    PROBE = jnp.array([0.75, -1.25])

    def flat(y):
        return jnp.concatenate([jnp.ravel(x) for x in jtu.tree_leaves(y)])

    def like(y, v):
        leaves, tree = jtu.tree_flatten(y)
        out, i = [], 0
        for x in leaves:
            out.append(v[i : i + x.size].reshape(x.shape))
            i += x.size
        return jtu.tree_unflatten(tree, out)

    def grad_of(info):
        return flat(info.compute_grad() if isinstance(info, optx.FunctionInfo.ResidualJac) else info.grad)

    def operator(info):
        for key in ("hessian", "hessian_inv", "jac"):
            if hasattr(info, key):
                return getattr(info, key)

    def apply(info, y, v):
        """The operator of the information, applied to a vector; the gradient itself if none."""
        op = operator(info)
        if op is None:
            return jnp.zeros(4)
        out = flat(op.mv(like(y, v)))
        return jnp.zeros(4).at[: out.size].set(out)

    class Told(eqx.Module):
        """What the last call was told."""

        rec: Any
        calls: jax.Array
        kind: str = eqx.field(static=True)

    class Search(optx.AbstractSearch):
        accept: jax.Array
        size: jax.Array
        fail: jax.Array

        def init(self, y, f_info_struct):
            z, v = jnp.array(0.0), jnp.zeros(2)
            rec = dict(first=jnp.array(False), y=v, trial=v, f=z, g=v, op=jnp.zeros(4), slope=z, f_trial=z, start=flat(y))
            return Told(rec, jnp.array(0), "search " + type(f_info_struct).__name__)

        def step(self, first_step, y, y_eval, f_info, f_eval_info, state):
            assert state.kind == "search " + type(f_info).__name__, "other information than announced"
            k = state.calls
            diff = jtu.tree_map(lambda a, b: a - b, y_eval, y)
            rec = dict(
                first=first_step, y=flat(y), trial=flat(y_eval), f=f_info.as_min(), g=grad_of(f_info), op=apply(f_info, y, PROBE),
                slope=f_info.compute_grad_dot(diff), f_trial=f_eval_info.as_min(), start=state.rec["start"],
            )
            result = optx.RESULTS.where(self.fail[k], optx.RESULTS.nonlinear_divergence, optx.RESULTS.successful)
            return self.size[k], self.accept[k], result, Told(rec, k + 1, state.kind)

    class Descent(optx.AbstractDescent):
        def init(self, y, f_info_struct):
            z, v = jnp.array(0.0), jnp.zeros(2)
            rec = dict(y=v, f=z, g=v, op=jnp.zeros(4), secant=jnp.zeros(4), direction=v, start=flat(y))
            return Told(rec, jnp.array(0), "descent " + type(f_info_struct).__name__)

        def query(self, y, f_info, state):
            assert state.kind == "descent " + type(f_info).__name__, "other information than announced"
            old, q = state.rec, state.calls
            g = grad_of(f_info)
            inverse = hasattr(f_info, "hessian_inv")
            s = g - old["g"] if inverse else flat(y) - old["y"]
            direction = -(1 + 0.25 * q) * g + 0.5 * old["direction"]
            rec = dict(
                y=flat(y), f=f_info.as_min(), g=g, op=apply(f_info, y, PROBE), secant=apply(f_info, y, s), direction=direction,
                start=old["start"],
            )
            return Told(rec, q + 1, state.kind)

        def step(self, step_size, state):
            bad = (step_size == BROKEN[0]) | (step_size == BROKEN[1])
            result = optx.RESULTS.where(bad, optx.RESULTS.singular, optx.RESULTS.successful)
            return self.unpack(step_size * state.rec["direction"]), result

        unpack: Callable = eqx.field(static=True)

    def fields(base):
        class Solver(base):
            rtol: float
            atol: float
            norm: Callable
            descent: Any
            search: Any
            verbose: Callable = lambda **_: None
            use_inverse: bool = True
            history_length: int = 3

        return Solver

    qn = dict(bfgs=optx.AbstractBFGS, dfp=optx.AbstractDFP, lbfgs=optx.AbstractLBFGS)

    def solver(base, tol, norm, search, unpack):
        args = (*tol, norm, Descent(unpack), search)
        if base == "gradient":
            return fields(optx.AbstractGradientDescent)(*args)
        if base == "gauss-newton":
            return fields(optx.AbstractGaussNewton)(*args)
        return fields(qn[base.split("-")[0]])(*args, use_inverse=not base.endswith("direct"))

    return dict(Told=Told, Search=Search, solver=solver, flat=flat)


def problems():
    """Nonlinear but of quadratic growth, so that no script drives a run off to infinity."""
    import jax.numpy as jnp

    rows = [
        dict(a=1.0, b=1.0, m=0.5, c=0.0, d=0.0, k=0.0),
        dict(a=2.0, b=0.5, m=0.0, c=1.0, d=-2.0, k=1.0),
        dict(a=-0.5, b=1.0, m=0.25, c=1.0, d=1.0, k=-0.75),
    ]

    def objective(y, q):
        u, v = y[0] - q["c"], y[1] - q["d"]
        return 0.5 * (q["a"] * u**2 + q["b"] * v**2) + q["m"] * u * v + q["k"] * jnp.sin(y[0] + 0.5 * y[1])

    def residual(y, q):
        u, v = y[0] - q["c"], y[1] - q["d"]
        return jnp.stack([q["a"] * u, q["b"] * v + q["m"] * u, q["k"] * jnp.sin(y[0] + 0.5 * y[1]), jnp.tanh(u) - 0.5])

    return objective, residual, rows


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    base, layout, tol = job["base"], job["layout"], job["tol"]
    lsq = base == "gauss-newton"
    P = parts()
    norm = dict(max=optx.max_norm, rms=optx.rms_norm, two=optx.two_norm)[job["norm"]]
    objective, residual, rows = problems()
    residual = residual if lsq else objective
    unpack = dict(
        vector=lambda v: v, nested=lambda v: dict(u=v[0], v=(v[1:],)), matrix=lambda v: v.reshape(1, 2),
    )[layout]
    accept, size, fail = (np.array(x) for x in scripts())
    rows = fam.stack(rows)
    starts = np.array([[0.5, -0.25], [-1.0, 0.75]] + [[0.0, 0.0]] * core.THOROUGH)
    p, y0 = fam.product_batch(rows, starts)
    members = len(y0)
    which = np.repeat(np.arange(members), len(accept))
    script = np.tile(np.arange(len(accept)), members)
    p, y0 = {k: v[which] for k, v in p.items()}, y0[which]
    accept, size, fail = accept[script].astype(bool), size[script], fail[script].astype(bool)
    m = len(y0)

    def fn(y, q):
        return residual(P["flat"](y), q), P["flat"](y)

    def make(a, s, f):
        return P["solver"](base, tol, norm, P["Search"](a, s, f), unpack)

    def by_hand(y, q, a, s, f):
        solver, y = make(a, s, f), unpack(y)
        f_struct, aux_struct = eqx.filter_eval_shape(lambda: fn(y, q))
        state = solver.init(fn, y, q, {}, f_struct, aux_struct, frozenset())
        dyn, static = eqx.partition(state, eqx.is_array)
        t0, r0 = solver.terminate(fn, y, q, {}, state, frozenset())

        def told(state):
            found = [x for x in jtu.tree_leaves(state, is_leaf=lambda x: isinstance(x, P["Told"])) if isinstance(x, P["Told"])]
            out = {x.kind.split()[0]: dict(x.rec, calls=x.calls) for x in found}
            assert len(found) == len(out) == 2, "the states of search and descent are not carried"
            return out

        def body(carry, _):
            y, dyn = carry
            y, state, aux = solver.step(fn, y, q, {}, eqx.combine(dyn, static), frozenset())
            term, res = solver.terminate(fn, y, q, {}, state, frozenset())
            out = dict(y=P["flat"](y), aux=aux, term=term, res=trace.code(res), told=told(state))
            return (y, eqx.filter(state, eqx.is_array)), out

        out = jax.lax.scan(body, (y, dyn), None, length=N)[1]
        return dict(out, t0=t0, r0=trace.code(r0))

    entry_point = optx.least_squares if lsq else optx.minimise

    def by_entry(y, q, a, s, f):
        sol = entry_point(fn, make(a, s, f), unpack(y), q, has_aux=True, max_steps=N, throw=False)
        return dict(value=P["flat"](sol.value), res=trace.code(sol.result), steps=sol.stats["num_steps"], aux=sol.aux)

    o = trace.batched(by_hand, y0, p, accept, size, fail)
    e = trace.batched(by_entry, y0, p, accept, size, fail)

    # The protocol, by the book
    if lsq:
        values = jax.jit(jax.vmap(residual))
        jacs = jax.jit(jax.vmap(jax.jacfwd(residual)))

        def look(y):
            r, J = np.asarray(values(y, p)), np.asarray(jacs(y, p))
            return dict(f=0.5 * (r**2).sum(1), g=np.einsum("nij,ni->nj", J, r), r=r, J=J)
    else:
        both = jax.jit(jax.vmap(jax.value_and_grad(residual)))

        def look(y):
            f, g = (np.asarray(x) for x in both(y, p))
            return dict(f=f, g=g, r=f[:, None], J=np.zeros((m, 1, 2)))

    probe = np.array([0.75, -1.25])
    measure = dict(max=lambda x: np.abs(x).max(1), two=lambda x: np.sqrt((x**2).sum(1)), rms=lambda x: np.sqrt((x**2).mean(1)))[job["norm"]]

    def detail(k):
        def one(i):
            i = i[0] if isinstance(i, tuple) else i
            return dict(
                base=base, layout=layout, start=y0[i], params={q: v[i] for q, v in p.items()}, accept=accept[i], size=size[i],
                search_fails=fail[i], step=k, run=o["y"][i], search_told={q: v[i][k] for q, v in o["told"]["search"].items()},
                descent_told={q: v[i][k] for q, v in o["told"]["descent"].items()}, expected_point=y[i], expected_trial=trial_k[i],
            )

        return one

    def close(a, b, scale=1.0):
        a, b = np.asarray(a, float).reshape(m, -1), np.asarray(b, float).reshape(m, -1)
        return (np.abs(a - b) <= 1e-8 * (scale + np.abs(b))).all(1)

    y = trial = y0
    at = None
    queries, direction = np.zeros(m), np.zeros((m, 2))
    op = np.zeros((m, 4))
    t.check_all(~o["t0"] & (o["r0"] == 0), "a solve stops before its first step", detail=lambda i: dict(base=base, start=y0[i]))
    stop = np.full(m, N)
    code = np.full(m, trace.MAXSTEPS)
    value, aux, sure = y0.copy(), np.zeros((m, 2)), np.ones(m, bool)
    done = np.zeros(m, bool)
    for k in range(N):
        trial_k = trial
        told_s = {q: v[:, k] for q, v in o["told"]["search"].items()}
        told_d = {q: v[:, k] for q, v in o["told"]["descent"].items()}
        new = look(trial)
        check = lambda ok, what: t.check_all(ok, what, detail=detail(k))
        check(told_s["calls"] == k + 1, "the search is not called once per step with its own state")
        check(told_s["first"] == (k == 0), "the search is misled about the first step")
        check(close(told_s["start"], y0) & close(told_d["start"], y0), "search or descent is not initialised at the initial guess")
        check(close(told_s["trial"], trial), "the search is not told the trial point")
        check(close(told_s["f_trial"], new["f"]), "the search is not told the loss at the trial point")
        if k:
            check(close(told_s["y"], y), "the search is not told the accepted point")
            check(close(told_s["f"], at["f"]) & close(told_s["g"], at["g"]), "the search is not told loss and gradient at the accepted point")
            check(close(told_s["op"], op), "the search is told another operator than the descent was")
            check(close(told_s["slope"], (at["g"] * (trial - y)).sum(1)), "the search is not told the slope along the step")
        ok = accept[:, k]
        take = ok[:, None]
        old_y, old = y, at
        y = np.where(take, trial, y)
        pick = lambda a, b: np.where(ok.reshape((m,) + (1,) * (a.ndim - 1)), a, b)
        at = new if old is None else {q: pick(new[q], old[q]) for q in new}
        direction = np.where(take, -(1 + 0.25 * queries[:, None]) * new["g"] + 0.5 * direction, direction)
        queries = queries + ok
        check(told_d["calls"] == queries, "the descent is not queried exactly at accepted points")
        check(close(told_d["y"], y), "the descent is not told the accepted point")
        check(close(told_d["f"], at["f"]) & close(told_d["g"], at["g"]), "the descent is not told loss and gradient at the accepted point")
        check(close(told_d["direction"], direction), "the state of the descent is not carried")
        if lsq:
            want = np.einsum("nij,j->ni", at["J"], probe)
            check(close(told_d["op"], want), "the descent is not told the Jacobian at the accepted point")
        elif base != "gradient":
            if k == 0:
                check(close(told_d["op"][:, :2], np.tile(probe, (m, 1))), "the first matrix is not the identity")
            else:
                s, dg = y - old_y, at["g"] - old["g"]
                judged = ok & ((s * dg).sum(1) > 1e-9)
                got = told_d["secant"][:, :2]
                want = dg if base.endswith("direct") else s
                size_of = np.abs(want).max(1, keepdims=True)
                good = (np.abs(got - want) <= 1e-6 * size_of).all(1)
                check(good | ~judged, "the matrix given to the descent does not obey the secant rule")
                t.outcome("secant", int(judged.sum()))
                check(close(told_d["op"], op) | ok, "the matrix changes at a refused point")
        op = told_d["op"]
        check(close(o["y"][:, k], y), "the iterate is not the last accepted point")
        trial = y + size[:, k, None] * direction
        broken = np.isin(size[:, k], BROKEN)
        want = np.where(fail[:, k], trace.RESULT_NAMES.index("nonlinear_divergence"), np.where(broken, trace.RESULT_NAMES.index("singular"), 0))
        check(o["res"][:, k] == want, "the failure of search or descent is not reported")
        if k:
            with np.errstate(all="ignore"):
                dy = measure((y - old_y) / (tol[1] + tol[0] * np.abs(y)))
                df = measure((at["r"] - old["r"]) / (tol[1] + tol[0] * np.abs(at["r"])))
            near = (np.abs(dy - 1) < 1e-9) | (np.abs(df - 1) < 1e-9)
            expect = ok & (dy < 1) & (df < 1)
            check((o["term"][:, k] == expect) | near & ok, "the stop is not that of the accepted step")
            t.outcome("stops", int(expect.sum()))
        elif not lsq:
            check(~o["term"][:, k], "the first evaluation counts as convergence")
        # What the entry point has to report
        ends = (o["term"][:, k] | (o["res"][:, k] != 0)) & ~done
        stop[ends], code[ends] = k + 1, o["res"][ends, k]
        live = ~done
        value[live], aux[live] = y[live], (old_y if k else y0)[live]
        done |= ends
    k, trial_k = N - 1, trial
    t.check_all(e["steps"] == stop, "the entry point stops elsewhere", detail=lambda i: dict(detail(k)(i), steps=e["steps"][i], expected=stop[i]))
    t.check_all(e["res"] == code, "the entry point reports another outcome", detail=lambda i: dict(detail(k)(i), outcome=e["res"][i], expected=code[i]))
    t.check_all(close(e["value"], value) & close(e["aux"], aux), "the entry point returns another point or auxiliary output",
                detail=lambda i: dict(detail(k)(i), value=e["value"][i], aux=e["aux"][i], expected=value[i], expected_aux=aux[i]))
    t.transitions += m * N * 2
    for c in np.unique(code):
        t.outcome(trace.name(c), int((code == c).sum()))
    t.count_states((o["y"].reshape(m * N, -1), 1), (o["told"]["search"]["trial"].reshape(m * N, -1), 1))
    single = eqx.filter_jit(by_hand)
    for i in core.pick(m, 4, f"{base}{layout}{tol}"):
        a = single(y0[i], {q: v[i] for q, v in p.items()}, accept[i], size[i], fail[i])
        t.traces += 1
        if not np.allclose(a["y"], o["y"][i], rtol=1e-8, atol=1e-8) or not (np.asarray(a["res"]) == o["res"][i]).all():
            t.bad("a run alone differs from the one in a batch", **detail(k)(i))
    t.outcome("largest coordinate below 100", int(np.abs(o["y"]).max() < 100))
    t.sample(base=base, layout=layout, accept=accept[-1], size=size[-1], run=o["y"][-1])
    return t


def jobs():
    out = []
    for i, base in enumerate(BASES):
        for layout in ("vector", "nested", "matrix"):
            if layout == "matrix" and not core.THOROUGH and base not in ("gauss-newton", "bfgs"):
                continue
            for tol in TOLS:
                out.append(dict(base=base, layout=layout, tol=tol, norm=("max", "two", "rms")[len(out) % 3]))
    return out


if __name__ == "__main__":
    core.main(
        "C30", jobs(), run,
        rule="every script of answers (acceptance, step size) without failure and, with one failure, "
        + ("every script" if core.THOROUGH else "a fixed quarter of the scripts") + " x problem x start x base class x layout, by hand and "
        "through the entry point",
        bounds=dict(steps=N, sizes=SIZES, failing_sizes=BROKEN, tolerances=TOLS, scripts=len(scripts()[0])),
        assumptions=["JAX differentiates the test functions correctly", "the first trial is accepted, as the documentation requires"],
    )
