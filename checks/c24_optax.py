"""C24: wrapped Optax optimisers and gradient descent against the plain update loop.

For every optimiser of a table (stateless, stateful, scheduled, line-searching, asking for the
value) and every problem and start of a finite family, a plain loop of value, gradient,
transform and add is run outside the library. The recorded iterates, auxiliary outputs, the
step at which the tolerance test first holds, and what is returned at every step limit must
be those of the loop. Gradient descent is compared with y - rate * gradient in numpy."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 30 if core.THOROUGH else 14
LIMITS = (1, 2, 3, 7) if core.THOROUGH else (1, 4)
TOLS = [(1e-9, 1e-9), (0.05, 0.02), (0.0, 0.3)]
MARGIN = 1e-7


def optimisers():
    import jax
    import jax.numpy as jnp
    import optax

    def custom():
        """Uses all it is given: the value, gradient and objective."""

        def init(params):
            return jnp.zeros(()), jax.tree_util.tree_map(jnp.zeros_like, params)

        def update(updates, state, params=None, *, value, grad, value_fn, **extra):
            count, mean = state
            here = value_fn(params)
            mean = jax.tree_util.tree_map(lambda m, g: 0.5 * m + 0.25 * g, mean, grad)
            scale = 0.1 / (1 + jnp.abs(value) + jnp.abs(here)) / (1 + count)
            return jax.tree_util.tree_map(lambda m, u: -scale * (m + u), mean, updates), (count + 1, mean)

        return optax.GradientTransformationExtraArgs(init, update)

    return dict(
        sgd=optax.sgd(0.1),
        momentum=optax.sgd(0.05, momentum=0.9),
        nesterov=optax.sgd(0.05, momentum=0.9, nesterov=True),
        scheduled=optax.sgd(optax.exponential_decay(0.2, 3, 0.5, end_value=0.01)),
        unbounded=optax.sgd(optax.exponential_decay(0.2, 3, 0.5)),
        cosine=optax.adam(optax.warmup_cosine_decay_schedule(0.01, 0.3, 4, 12)),
        piecewise=optax.sgd(optax.piecewise_constant_schedule(0.1, {2: 0.5, 5: 4.0})),
        adam=optax.adam(0.2),
        adamw=optax.adamw(0.2, weight_decay=0.1),
        adabelief=optax.adabelief(0.1),
        adagrad=optax.adagrad(0.3),
        rmsprop=optax.rmsprop(0.1, momentum=0.5),
        lion=optax.lion(0.05),
        rprop=optax.rprop(0.1),
        signsgd=optax.sign_sgd(0.05),
        clipped=optax.chain(optax.clip_by_global_norm(0.5), optax.adam(0.3)),
        plain=optax.scale(-0.1),
        trace=optax.chain(optax.trace(0.5), optax.scale(-0.05)),
        noisy=optax.noisy_sgd(0.05, key=3),
        polyak=optax.polyak_sgd(max_learning_rate=0.3),
        backtracking=optax.chain(optax.sgd(1.0), optax.scale_by_backtracking_linesearch(max_backtracking_steps=8)),
        zoom=optax.chain(optax.sgd(1.0), optax.scale_by_zoom_linesearch(max_linesearch_steps=6)),
        lbfgs=optax.lbfgs(memory_size=3),
        plateau=optax.chain(optax.sgd(0.2), optax.contrib.reduce_on_plateau(patience=1, factor=0.5)),
        finite=optax.apply_if_finite(optax.adam(0.3), 2),
        custom=custom(),
        zero=optax.set_to_zero(),
    )


def norm_np(name, x):
    import numpy as np

    x = np.abs(x)
    with np.errstate(all="ignore"):
        if name == "max":
            return x.max(-1)
        return np.sqrt((x**2).mean(-1) if name == "rms" else (x**2).sum(-1))


def run(job):
    return dict(optax=wrapped, gd=descent)[job["part"]](job, core.Tally())


def packing(kind):
    import jax.numpy as jnp
    import jax.tree_util as jtu

    if kind == "vector":
        return (lambda x: x), (lambda y: y)
    return (lambda x: dict(b=x[1:], a=(x[0],))), (lambda y: jnp.stack([jnp.ravel(v)[0] for v in jtu.tree_leaves(y)]))


def family():
    import numpy as np

    from mc import families as fam

    params = fam.stack(fam.smooth_params(core.THOROUGH))
    return fam.product_batch(params, np.asarray(fam.STARTS), np.array(TOLS))


def flat(tree, lead):
    import jax.tree_util as jtu
    import numpy as np

    leaves = [np.asarray(x) for x in jtu.tree_leaves(tree)]
    return np.concatenate([x.reshape(x.shape[:lead] + (-1,)) for x in leaves], axis=-1)


def near(a, b, tol=1e-9):
    import numpy as np

    with np.errstate(all="ignore"):
        return (np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))


def wrapped(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optax
    import optimistix as optx

    from mc import families as fam, solvers, trace

    name, entry = job["optim"], job["entry"]
    optim = optimisers()[name]
    if name == "unbounded":
        try:
            optx.OptaxMinimiser(optim, 1e-3, 1e-3)
        except ValueError as e:
            # one entry of known_findings.txt
            t.bad("an optimiser is refused", key="empty-cell" if "Cell is empty" in str(e) else "", error=repr(e))
            return t
    pack, unpack = packing(job["packing"])
    base = fam.smooth_min if entry == "minimise" else fam.smooth_res
    fn = lambda y, q: (base(unpack(y), q), (y, jnp.sum(unpack(y))))
    loss = (lambda y, q: fn(y, q)[0]) if entry == "minimise" else (lambda y, q: 0.5 * jnp.sum(fn(y, q)[0] ** 2))
    norm = solvers.NORMS[job["norm"]]
    p, y0, tol = family()
    full = optax.with_extra_args_support(optim)

    def loop(y, q):
        y = pack(y)

        def body(carry, _):
            y, state = carry
            f, g = jax.value_and_grad(loss)(y, q)
            updates, state = full.update(g, state, y, value=f, grad=g, value_fn=lambda z: loss(z, q))
            new = optax.apply_updates(y, updates)
            return (new, state), (y, f, updates)

        (last, _), (ys, fs, us) = jax.lax.scan(body, (y, full.init(y)), None, length=N)
        return ys, fs, us, last

    def solve(y, q, tl, max_steps=N, record=True):
        solver = optx.OptaxMinimiser(optim, tl[0], tl[1], norm)
        solver = trace.record(solver, N) if record else solver
        sol = trace.ENTRY[entry](fn, solver, pack(y), q, {}, has_aux=True, max_steps=max_steps, throw=False)
        out = dict(value=sol.value, aux=sol.aux, result=trace.code(sol.result), steps=sol.stats["num_steps"])
        if record:
            out["ys"] = sol.stats["trace"]["ys"]
            out["auxs"] = sol.stats["trace"]["auxs"]
        return out

    ys, fs, us, last = trace.batched(loop, y0, p)
    ys = np.concatenate([flat(ys, 2), flat(last, 1)[:, None]], 1)
    us = flat(us, 2)
    out = trace.batched(solve, y0, p, tol)
    got = flat(out["ys"], 2)
    K = out["steps"]
    finite = np.isfinite(ys).all(-1)
    # the loop of the library ends at the first iterate that is not finite
    n = len(y0)
    rtol, atol = tol[:, 0, None], tol[:, 1, None]
    with np.errstate(all="ignore"):
        sy = norm_np(job["norm"], us / (atol[..., None] + rtol[..., None] * np.abs(ys[:, :-1])))
        df = np.diff(np.concatenate([np.full((n, 1), np.finfo(float).max), fs], 1), axis=1)
        sf = np.abs(df) / (atol + rtol * np.abs(fs))
        met = (sy < 1) & (sf < 1)
        noise = MARGIN + 1e-13 * (np.abs(fs) + np.abs(ys[:, :-1]).max(-1)) / np.maximum(atol, 1e-300)
        close = (np.abs(sy - 1) < noise) | (np.abs(sf - 1) < noise)
    stop = met | ~finite[:, 1:]
    first = np.where(stop.any(1), stop.argmax(1) + 1, N)
    first = np.where(finite[:, 0], first, 0)
    doubt = np.array([close[i, : max(first[i], min(K[i], N))].any() for i in range(n)])
    succeeded = np.array([first[i] > 0 and stop[i].any() and finite[i, first[i]] for i in range(n)])
    want = np.where(succeeded, trace.SUCCESS, np.where(stop.any(1) | ~finite[:, 0], trace.NONFINITE, trace.MAXSTEPS))
    # rounding: runs of the loop from starts one unit apart show which members are chaotic
    moved = trace.batched(loop, y0 * (1 + 2.3e-16) + 1e-16, p)
    ys2 = np.concatenate([flat(moved[0], 2), flat(moved[3], 1)[:, None]], 1)
    upto = np.arange(N + 1)[None, :, None] <= first[:, None, None]
    chaotic = ~(near(ys2, ys, 1e-10) | ~upto).all((1, 2))
    skip = doubt | chaotic
    t.undecided += int(skip.sum())

    def where(i):
        j = i[0]
        return dict(
            optimiser=name, entry=entry, params={k: v[j] for k, v in p.items()}, start=y0[j], tol=tol[j],
            got=got[j, : K[j] + 1], loop=ys[j, : first[j] + 1], steps=[K[j], first[j]], outcome=trace.name(out["result"][j]),
        )

    t.check_all((near(got, ys, 1e-7) | ~upto).all((1, 2)) | chaotic | doubt, "the iterates are not those of the plain loop", detail=where)
    t.check_all((K == first) | skip, "the solve does not stop at the step where the tolerance test first holds", detail=where)
    t.check_all((out["result"] == want) | skip, "the outcome does not follow from the loop", detail=where)
    value = flat(out["value"], 1)
    t.check_all(near(value, ys[np.arange(n), first], 1e-7).all(-1) | skip, "the value is not the point of the last step", detail=where)
    # the aux of a step belongs to the point at which it was evaluated
    ya = flat(out["auxs"], 2)[:, :, :2]
    live = np.arange(N)[None, :, None] < first[:, None, None]
    t.check_all((near(ya, ys[:, :-1], 1e-7) | ~live).all((1, 2)) | skip, "aux is not that of the point of its step", detail=where)
    t.transitions += int(K.sum())
    t.count_states((got, 2))
    for r, c in zip(*np.unique(out["result"], return_counts=True)):
        t.outcome(trace.name(r), c)
    # every step limit
    for limit in LIMITS:
        o = trace.batched(lambda y, q, tl: solve(y, q, tl, limit, False), y0, p, tol)
        end = np.minimum(first, limit)
        v = flat(o["value"], 1)
        t.check_all((o["steps"] == end) | skip, "another number of steps with a limit", detail=where)
        t.check_all(near(v, ys[np.arange(n), end], 1e-7).all(-1) | skip, "the value at a limit is not the point of that step", detail=where)
        res = np.where(first <= limit, want, trace.MAXSTEPS)
        t.check_all((o["result"] == res) | skip | (first == limit), "the outcome at a limit is wrong", detail=where)
        t.transitions += int(o["steps"].sum())
    one = eqx.filter_jit(solve)
    for i in core.pick(range(n), 3, str(job)):
        a = one(y0[i], {k: v[i] for k, v in p.items()}, tol[i])
        if not skip[i] and (int(a["steps"]) != K[i] or not near(flat(a["value"], 0), value[i], 1e-7).all()):
            t.bad("a solve alone differs from the same solve in a batch", **where((i,)))
        t.traces += 1
    t.sample(optimiser=name, entry=entry, members=n, judged=int((~skip).sum()), stops=int(succeeded.sum()))
    return t


def descent(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optimistix as optx

    from mc import families as fam, solvers, trace

    entry = job["entry"]
    pack, unpack = packing(job["packing"])
    base = fam.smooth_min if entry == "minimise" else fam.smooth_res
    fn = lambda y, q: (base(unpack(y), q), y)
    loss = base if entry == "minimise" else (lambda x, q: 0.5 * jnp.sum(base(x, q) ** 2))
    rates = np.array([0.0, 0.01, 0.1, 0.5, 1.5])
    params, y0, tol = family()
    p, rate = fam.product_batch(dict(params, y0=y0, tol=tol), rates)
    y0, tol = p.pop("y0"), p.pop("tol")
    n = len(y0)

    def solve(y, q, tl, r):
        solver = trace.record(optx.GradientDescent(r, tl[0], tl[1], solvers.NORMS[job["norm"]]), N)
        sol = trace.ENTRY[entry](fn, solver, pack(y), q, {}, has_aux=True, max_steps=N, throw=False)
        return dict(value=sol.value, ys=sol.stats["trace"]["ys"], result=trace.code(sol.result), steps=sol.stats["num_steps"])

    out = trace.batched(solve, y0, p, tol, rate)
    ys = flat(out["ys"], 2)
    grad = eqx.filter_jit(jax.vmap(lambda ys, q: jax.vmap(lambda y: jax.grad(loss)(y, q))(ys)))
    value = eqx.filter_jit(jax.vmap(lambda ys, q: jax.vmap(lambda y: loss(y, q))(ys)))
    gs, fs = np.asarray(grad(ys, p)), np.asarray(value(ys, p))
    K = out["steps"]
    k = np.arange(N + 1)[None]
    live = k <= K[:, None]
    where = lambda i: dict(
        entry=entry, rate=rate[i[0]], start=y0[i[0]], tol=tol[i[0]], params={a: b[i[0]] for a, b in p.items()},
        got=ys[i[0], : K[i[0]] + 1], gradients=gs[i[0], : K[i[0]] + 1], outcome=trace.name(out["result"][i[0]]),
    )
    start_ok = np.isfinite(y0).all(-1)
    t.check_all((ys[:, 0] == y0).all(-1), "the run does not start from the guess", detail=where)
    # the first step evaluates the guess, every later one moves by rate * gradient
    t.check_all(((ys[:, 1] == ys[:, 0]).all(-1)) | (K < 1), "the first step does not evaluate the guess", detail=where)
    with np.errstate(all="ignore"):
        want = ys[:, 1:-1] - rate[:, None, None] * gs[:, 1:-1]
    ok = near(ys[:, 2:], want, 1e-9).all(-1) | ~live[:, 2:]
    t.check_all(ok, "a point is not y - rate * gradient", detail=where)
    # stopping
    rtol, atol = tol[:, 0, None], tol[:, 1, None]
    with np.errstate(all="ignore"):
        sy = norm_np(job["norm"], np.diff(ys, axis=1) / (atol[..., None] + rtol[..., None] * np.abs(ys[:, 1:])))
        fdim = fs
        df = np.abs(np.diff(fdim, axis=1)) / (atol + rtol * np.abs(fs[:, 1:]))
        met = (sy < 1) & (df < 1)
        noise = MARGIN + 1e-13 * (np.abs(fs[:, 1:]) + np.abs(fs[:, :-1]) + np.abs(ys[:, 1:]).max(-1)) / np.maximum(atol, 1e-300)
        close = (np.abs(sy - 1) < noise) | (np.abs(df - 1) < noise)
    step = np.arange(1, N + 1)[None]
    taken = (step <= K[:, None]) & (step >= 2)
    last = step == K[:, None]
    success = (out["result"] == trace.SUCCESS)[:, None]
    t.undecided += int((taken & close).sum())
    t.check_all(~(taken & ~close & met & ~(last & success)), "the tolerances were met but the solve went on", detail=where)
    t.check_all(~(taken & ~close & ~met & last & success), "success although the tolerances were not met", detail=where)
    t.check_all((K == N) | (out["result"] != trace.MAXSTEPS), "maximum steps reported early", detail=where)
    t.check_all(near(flat(out["value"], 1), ys[np.arange(n), K]).all(-1), "the value is not the last point", detail=where)
    t.transitions += int(K.sum())
    t.count_states((ys, 2))
    for r, c in zip(*np.unique(out["result"], return_counts=True)):
        t.outcome(trace.name(r), c)
    one = eqx.filter_jit(solve)
    for i in core.pick(range(n), 5, str(job)):
        a = one(y0[i], {k: v[i] for k, v in p.items()}, tol[i], rate[i])
        if int(a["steps"]) != K[i] and not close[i].any():
            t.bad("a solve alone differs from the same solve in a batch", **where((i,)))
        t.traces += 1
    t.sample(entry=entry, members=n, norm=job["norm"])
    return t


if __name__ == "__main__":
    names = [
        "lbfgs", "zoom", "backtracking", "sgd", "momentum", "nesterov", "scheduled", "unbounded", "cosine", "piecewise", "adam", "adamw", "adabelief", "adagrad",
        "rmsprop", "lion", "rprop", "signsgd", "clipped", "plain", "trace", "noisy", "polyak", "plateau", "finite", "custom", "zero",
    ]
    jobs = [
        dict(part="optax", optim=o, entry="minimise", norm=("max", "rms", "two")[k % 3], packing=("vector", "dict")[k % 2])
        for k, o in enumerate(names)
    ]
    jobs += [dict(part="optax", optim=o, entry="least_squares", norm="max", packing="vector") for o in ("adam", "custom", "polyak")]
    jobs += [
        dict(part="gd", entry=e, norm=m, packing=k)
        for e, m, k in (("minimise", "max", "vector"), ("minimise", "two", "dict"), ("least_squares", "max", "vector"), ("minimise", "rms", "vector"))
    ]
    core.main(
        "C24", jobs, run,
        rule="every problem, start and tolerance of the family, for each optimiser, rate and step limit of the tables",
        bounds=dict(steps=N, limits=list(LIMITS)),
        assumptions=["members of the loop that move by more than 1e-10 when the start moves by one rounding unit, or whose tolerance test is within rounding of its threshold, are not judged"],
    )
