"""C21: the same problem posed on a vector, a matrix, scalars and nested containers.

One family of problems with four unknowns is enumerated over its parameters and starts and
solved by every solver with the unknowns (and the residuals) packed in each structure of a
table. All iterates, auxiliary outputs, step counts and outcomes are compared, element by
element, with those on a plain vector. Structure, shapes and float types of what is returned
are compared with the initial guess, in single and in double precision mode, for guesses
given as arrays, numpy arrays, Python floats and integers."""

import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


N = 8


def packers():
    """Each takes a vector of length n, element order is kept."""
    import equinox as eqx

    class Box(eqx.Module):
        second: object
        first: object
        label: str = eqx.field(static=True, default="box")

    h = lambda x: x.shape[0] // 2
    return dict(
        vector=lambda x: x,
        matrix=lambda x: x.reshape(2, -1),
        scalars=lambda x: tuple(x[i] for i in range(x.shape[0])),
        nested=lambda x: dict(a=[x[0]], b=(x[1:3], dict(c=x[3:].reshape(1, 1, -1)))),
        renamed=lambda x: dict(alpha=(x[0],), zeta=[x[1:3], [x[3:].reshape(1, 1, -1)]]),
        module=lambda x: Box(x[: h(x)].reshape(-1, 1), [None, x[h(x) :]]),
        halves=lambda x: [x[: h(x)], x[h(x) :].reshape(1, -1)],
        empty=lambda x: (x[:1], x[:0], x[1:]),
        scalardict=lambda x: dict(p={str(i): x[i] for i in range(2)}, q=[[x[i]] for i in range(2, x.shape[0])]),
    )


def flat(tree, lead=0):
    import jax.tree_util as jtu
    import numpy as np

    leaves = [np.asarray(x) for x in jtu.tree_leaves(tree)]
    return np.concatenate([x.reshape(x.shape[:lead] + (-1,)) for x in leaves], axis=-1)


def vec(y):
    import jax.numpy as jnp
    import jax.tree_util as jtu

    return jnp.concatenate([jnp.ravel(x) for x in jtu.tree_leaves(y)])


def grid(entry, thorough):
    import itertools

    import numpy as np

    if entry in ("minimise", "least_squares"):
        axes = dict(a=(1, 4), c=(0, 1, -2), r=(0, 1, 10), q=(0, 1), m=(0, 0.5), w=(1e9, 2.5))
    else:
        axes = dict(a=(1, -2), c=(0, 1, -2), r=(0, 0.25, 1), q=(0, 1), m=(0, 0.5), w=(1e9, 2.5))
    starts = [(0, 0, 0, 0), (1, -1, 0.5, 2), (-1.25, 1, 2, -0.5), (3, 1, 1, 1)]
    if thorough:
        starts += [(1, 1, 1, 1), (0.5, 0, -2, 1)]
    rows = [dict(zip(axes, map(float, x))) for x in itertools.product(*axes.values())]
    p = {k: np.array([r[k] for r in rows for _ in starts]) for k in axes}
    y = np.array([s for _ in rows for s in starts], float)
    return p, y


def problem(entry):
    import jax.numpy as jnp

    def guard(v, x, p):
        return jnp.where(jnp.max(jnp.abs(x)) > p["w"], jnp.nan, v)

    def res(x, p):
        s = jnp.sqrt(p["r"])
        return jnp.stack([
            jnp.sqrt(p["a"]) * (x[0] - p["c"]), x[1] - 0.5 * x[3], s * (x[1] - x[0] * x[0]), p["q"] * x[2] * x[2],
            x[2] - x[3], p["m"] + 0.5 * x[3],
        ])

    def minimise(x, p):
        return guard(0.5 * jnp.sum(res(x, p) ** 2) + p["m"] * x[0] * x[3], x, p)

    def least_squares(x, p):
        return guard(res(x, p), x, p)

    def root_find(x, p):
        r = jnp.stack([
            p["a"] * x[0] + 0.25 * x[1] - p["c"], 2 * x[1] + p["r"] * x[2] * x[2] + p["q"], x[2] - p["m"] * x[0] + 0.5,
            x[3] + 0.5 * x[1] * p["q"] - 1,
        ])
        return guard(r, x, p)

    def fixed_point(x, p):
        r = jnp.stack([
            p["c"] + 0.25 * p["a"] * jnp.sin(x[1]), 0.5 * x[0] - p["r"] * x[2], p["m"] * x[3] + 0.125 * x[0],
            p["q"] * 0.5 * jnp.cos(x[2]),
        ])
        return guard(r, x, p)

    return dict(minimise=minimise, least_squares=least_squares, root_find=root_find, fixed_point=fixed_point)[entry]


def posed(entry, pack, pack_out):
    import jax.numpy as jnp

    base = problem(entry)

    def fn(y, p):
        x = vec(y)
        f = base(x, p)
        f = f if entry == "minimise" else pack_out(f)
        return f, dict(s=jnp.sum(x) * p["a"], y=y, z=[f])

    return fn


def run(job):
    return dict(structures=structures, types=types)[job["part"]](job, core.Tally())


def structures(job, t):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import optimistix as optx

    from checks.c19_conversion import make
    from mc import solvers, trace

    entry, name = job["entry"], job["solver"]
    pk = packers()
    p, y0 = grid(entry, core.THOROUGH)
    solver = make(name, (1e-4, 1e-4), solvers.NORMS[job["norm"]])
    nelder = name == "NelderMead"

    def flatten(o):
        B = len(o["steps"])
        tr = o["trace"]
        return dict(
            value=flat(o["value"], 1), ys=flat(tr["ys"], 2), auxs=flat(tr["auxs"], 2), aux=flat(o["aux"], 1),
            result=o["result"], steps=o["steps"], res=tr["res"], term=tr["term"],
            stats=flat(o["stats"], 1) if jtu.tree_leaves(o["stats"]) else np.zeros((B, 0)),
        )

    def go(kind, out, y):
        fn = posed(entry, pk[kind], pk[out])
        run1 = trace.runner(entry, fn, solver, N)
        packed = lambda y, q: run1(pk[kind](y), q)
        o = trace.batched(packed, y, p)
        # structure, shapes and float type of the value are those of the guess
        struct = eqx.filter_eval_shape(lambda y: pk[kind](y), y[0])
        got = jtu.tree_map(lambda x: jax.ShapeDtypeStruct(x.shape[1:], x.dtype), o["value"])
        if jtu.tree_structure(got) != jtu.tree_structure(struct) or jtu.tree_leaves(got) != jtu.tree_leaves(struct):
            t.bad("the value has another structure than the guess", solver=name, structure=kind, got=str(got), guess=str(struct))
            return None
        return flatten(o)

    base = "scalars" if nelder else "vector"
    ref = go(base, "vector", y0)
    # solves that hang on the last bits of their inputs are not judged
    fragile = np.zeros(len(y0), bool)
    fn = posed(entry, pk[base], pk["vector"])
    run1 = trace.runner(entry, fn, solver, N)
    f = eqx.filter_jit(jax.vmap(lambda y, q: run1(pk[base](y), q)))

    def near(a, b, tol):
        d = np.abs(a - b)
        ok = (d <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)
        return ok.reshape(len(ok), -1).all(1)

    for k in (-2, -1, 1, 2):
        eps = 1 + k * 2.3e-16
        moved = y0 * eps + k * 1e-16 * np.array([1, -1, 1, 1])
        o = flatten(jtu.tree_map(np.asarray, f(moved, {a: b / eps for a, b in p.items()})))
        with np.errstate(invalid="ignore"):
            fragile |= ~near(o["ys"], ref["ys"], 1e-8) | (o["steps"] != ref["steps"]) | (o["result"] != ref["result"])
    t.undecided += int(fragile.sum())
    t.count_states((ref["ys"], 2))
    for kind, out in job["kinds"]:
        o = go(kind, out, y0)
        if o is None:
            continue
        # one entry of known_findings.txt
        key = "array-simplex" if nelder and kind not in ("scalars", "scalardict") else ""
        detail = lambda i: dict(
            entry=entry, solver=name, structure=kind, residuals=out, params={a: b[i[0]] for a, b in p.items()}, y0=y0[i[0]],
            got=o["ys"][i[0]][: o["steps"][i[0]] + 1], vector=ref["ys"][i[0]][: ref["steps"][i[0]] + 1],
            outcome=[trace.name(o["result"][i[0]]), trace.name(ref["result"][i[0]])],
        )
        with np.errstate(invalid="ignore"):
            # at the rounding floor: from the shorter run's last step on, nothing moves
            short = np.minimum(o["steps"], ref["steps"])
            longer = np.where((o["steps"] > ref["steps"])[:, None, None], o["ys"], ref["ys"])
            moves = np.abs(np.diff(longer, axis=1)).max(2)
            late = (np.arange(N)[None] >= short[:, None] - 1) & (np.arange(N)[None] < np.maximum(o["steps"], ref["steps"])[:, None])
            floor = (o["steps"] != ref["steps"]) & (np.where(late, moves, 0).max(1) < 1e-12) & (o["result"] == ref["result"])
            t.undecided += int((floor & ~fragile).sum())
            t.note("at the rounding floor", int(floor.sum()))
            t.check_all((o["steps"] == ref["steps"]) | fragile | floor, "another number of steps in another structure", key, detail)
            t.check_all((o["result"] == ref["result"]) | fragile, "another outcome in another structure", key, detail)
            for q in ("ys", "value", "aux", "auxs", "stats"):
                if q in ("ys", "auxs"):
                    a, b = o[q], ref[q]
                    live = np.arange(a.shape[1])[None, :, None] < (short + (q == "ys"))[:, None, None]
                    a, b = np.where(live, a, 0), np.where(live, b, 0)
                else:
                    a, b = o[q], ref[q]
                if a.shape != b.shape:
                    t.bad("aux or statistics have another size in another structure", key, solver=name, structure=kind)
                    continue
                t.check_all(near(a, b, 1e-6) | fragile | (floor & (q == "stats")), f"{q} differ in another structure", key, detail)
        t.transitions += int(o["steps"].sum())
        t.outcome(kind, len(y0))
    for r, c in zip(*np.unique(ref["result"], return_counts=True)):
        t.outcome(trace.name(r), c)
    # replay on its own
    kind, out = job["kinds"][0]
    fn = posed(entry, pk[kind], pk[out])
    one = eqx.filter_jit(trace.runner(entry, fn, solver, N))
    for i in core.pick(range(len(y0)), 3, name):
        a = one(pk[kind](jnp.asarray(y0[i])), {k: v[i] for k, v in p.items()})
        if nelder and kind not in ("scalars", "scalardict"):
            continue
        if not fragile[i] and (int(a["steps"]) != ref["steps"][i] or not np.allclose(flat(a["value"]), ref["value"][i], rtol=1e-6, atol=1e-9, equal_nan=True)):
            t.bad("replay differs", solver=name, structure=kind, y0=y0[i])
        t.traces += 1
    t.sample(entry=entry, solver=name, kinds=job["kinds"], fragile=int(fragile.sum()))
    return t


def types(job, t):
    """Float types, structures and kinds of initial guesses in both precision modes."""
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np

    from checks.c19_conversion import make
    from mc import solvers, trace

    entry, name = job["entry"], job["solver"]
    scalar = name in ("Bisection", "GoldenSearch")
    x0 = [1, 2, 0, 1]
    p = dict(a=1.0, c=0.0 if entry != "fixed_point" else 1.0, r=0.25, q=0.0, m=0.0, w=1e9)
    base = problem(entry)
    pk = packers()

    def fn(y, q):
        x = vec(y)
        f = base(x, q)
        aux = dict(n=jnp.arange(3), y=y, s=jnp.sum(x), flag=x[0] > 0)
        if entry == "fixed_point":
            leaves, struct = jtu.tree_flatten(y)
            sizes = np.cumsum([np.size(v) for v in leaves])[:-1]
            f = struct.unflatten([v.reshape(np.shape(w)) for v, w in zip(jnp.split(f, sizes), leaves)])
        return f, aux

    def scalar_fn(y, q):
        f = {"minimise": (y - 0.5) ** 2, "root_find": y - 0.5, "fixed_point": 0.5 * y + 0.25}[entry]
        return f, dict(n=jnp.arange(3), y=y, s=y * 2, flag=y > 0)

    found = {}
    for x64 in (False, True):
        with jax.enable_x64(x64):
            dtype = np.dtype("float64" if x64 else "float32")
            guesses = {}
            if scalar:
                guesses = dict(array=jnp.asarray(1.0), numpy=np.asarray(1.0, dtype), float=1.0, int=1, intarray=jnp.asarray(1))
            else:
                for kind in ("vector", "matrix", "nested", "module", "scalars"):
                    guesses[kind] = pk[kind](jnp.asarray(x0, dtype))
                guesses["numpy"] = {"u": np.asarray(x0[:2], dtype), "v": (np.asarray(x0[2:], dtype),)}
                guesses["float"] = [float(v) for v in x0]
                guesses["int"] = tuple(x0)
                guesses["intarray"] = jnp.asarray(x0)
                guesses["mixed"] = (float(x0[0]), x0[1], np.asarray(x0[2], dtype), jnp.asarray([x0[3]], dtype))
            if not scalar and not core.THOROUGH:
                keep = job["guesses"]
                guesses = {k: v for k, v in guesses.items() if k in keep}
            for label, guess in guesses.items():
                solver = make(name, (1e-3, 1e-3), solvers.NORMS["max"])
                options = dict(lower=-1.0, upper=3.0) if scalar else {}
                q = {k: jnp.asarray(v, dtype) for k, v in p.items()}
                sol = trace.ENTRY[entry](scalar_fn if scalar else fn, solver, guess, q, options, has_aux=True, max_steps=200, throw=False)
                where = dict(entry=entry, solver=name, guess=label, x64=x64)
                if jtu.tree_structure(sol.value) != jtu.tree_structure(guess):
                    t.bad("the value has another structure than the guess", **where)
                    continue
                for v, g in zip(jtu.tree_leaves(sol.value), jtu.tree_leaves(guess)):
                    if not isinstance(v, jax.Array) or v.dtype != dtype or v.shape != np.shape(g):
                        t.bad("the value has another shape or float type than the guess", got=str(getattr(v, "dtype", type(v))), **where)
                want = dict(n=np.dtype("int64" if x64 else "int32"), s=dtype, flag=np.dtype(bool))
                for k, d in want.items():
                    if sol.aux[k].dtype != d:
                        t.bad("aux has another type", aux=k, got=str(sol.aux[k].dtype), **where)
                if jtu.tree_structure(sol.aux["y"]) != jtu.tree_structure(guess):
                    t.bad("aux has another structure", **where)
                found[x64, label] = (flat(sol.value), int(trace.code(sol.result)), int(sol.stats["num_steps"]))
                t.states += 1
                t.traces += 1
                t.transitions += found[x64, label][2]
                t.outcome(f"{dtype}")
    ref = found[True, "array" if scalar else "vector"]
    if name == "NelderMead":
        ref = found[True, "scalars"]
    for (x64, label), (value, result, steps) in found.items():
        array = label in ("vector", "matrix", "nested", "module", "numpy", "intarray")
        key = "array-simplex" if name == "NelderMead" and array else ""
        where = dict(entry=entry, solver=name, guess=label, x64=x64, got=value, outcome=trace.name(result), steps=steps, double=ref)
        if result != ref[1]:
            t.bad("outcome depends on the kind of guess or the precision", key, **where)
        elif x64 and (steps != ref[2] or not np.allclose(value, ref[0], rtol=1e-6, atol=1e-9)):
            t.bad("solve depends on the kind of guess", key, **where)
        elif not np.allclose(value, ref[0], atol=0.05):
            t.bad("value depends on the precision", key, **where)
    t.sample(entry=entry, solver=name, value=ref[0], outcome=trace.name(ref[1]), steps=ref[2])
    return t


if __name__ == "__main__":
    from mc import solvers as _s  # names only

    MIN = list(_s.MINIMISERS) + list(_s.OPTAX) + list(_s.CUSTOM_MIN) + ["NelderMead", "BestSoFarMin"]
    LSQ = list(_s.LSQ) + list(_s.CUSTOM_LSQ) + ["BestSoFarLsq"]
    ROOT = ["Newton", "NewtonNoCauchy", "Chord", "BestSoFarRoot"]
    quick = [("nested", "matrix"), ("scalars", "nested")]
    more = quick + [("matrix", "scalars"), ("renamed", "vector"), ("module", "renamed"), ("halves", "module"), ("empty", "empty"), ("scalardict", "halves")]
    some = quick[:1] + more[2:3] + more[4:5] + more[6:]
    wide = ("BFGS", "LevenbergMarquardt", "Newton", "FixedPointIteration", "NelderMead", "Dogleg", "LBFGS", "NonlinearCG-PR")
    jobs = []
    pairs = [("minimise", s) for s in MIN] + [("least_squares", s) for s in LSQ] + [("root_find", s) for s in ROOT]
    pairs += [("fixed_point", "FixedPointIteration"), ("fixed_point", "Newton"), ("root_find", "LevenbergMarquardt"), ("root_find", "BFGS"), ("least_squares", "BFGS")]
    for k, (entry, s) in enumerate(pairs):
        wider = some if s in wide else [quick[0], more[1 + k % (len(more) - 1)]]
        kinds = more if core.THOROUGH else wider
        kinds = [(a, a if entry == "fixed_point" else b) for a, b in kinds]
        jobs.append(dict(part="structures", entry=entry, solver=s, norm=("max", "rms", "two")[k % 3], kinds=kinds))
    tpairs = pairs + [("root_find", "Bisection"), ("fixed_point", "Bisection"), ("minimise", "GoldenSearch")]
    if not core.THOROUGH:
        drop = ("BFGS+ClassicalTR", "DFP+LinearTR", "Steepest+LinearTR", "Steepest-lsq+Armijo", "NonlinearCG-FR", "NonlinearCG-DY", "DFP", "GN+ClassicalTR")
        tpairs = [x for x in tpairs if x[1] not in drop]
    all_guesses = ["vector", "matrix", "nested", "module", "scalars", "numpy", "float", "int", "intarray", "mixed"]
    for e, s in tpairs:
        few = all_guesses if s in ("NelderMead", "GradientDescent", "Newton", "GaussNewton", "FixedPointIteration") else ["vector", "nested", "mixed"]
        jobs.append(dict(part="types", entry=e, solver=s, guesses=few))
    jobs.sort(key=lambda j: -len(j.get("kinds", [1] * 4)))
    core.main(
        "C21", jobs, run,
        rule="every parameter vector and start of the grid, for each (entry point, solver, structure); every kind of guess in both precision modes",
        bounds=dict(unknowns=4, steps=N),
        assumptions=["a solve whose course changes when its inputs move by a rounding unit is not judged (counted as undecided)"],
    )
