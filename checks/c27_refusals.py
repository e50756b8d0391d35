"""C27: every combination of components, function shapes and parameters, accepted or refused.

Every descent and search is given every kind of function information; every solver family
is assembled with every pair of descent and search; the methods for scalar problems and the
minimisers are given functions with every pair of input and output shape in the table,
directly and through conversions; every search parameter is set to values inside, on and
outside its range, as a number and inside a compiled function. A combination must be
refused with an error exactly when it cannot work, and an accepted one must give a result."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


# what each component needs to know about the function
GRADIENT = {"grad", "hessian", "inverse", "jacobian"}
CURVATURE = {"hessian", "inverse", "jacobian"}
MODEL = {"hessian", "jacobian"}  # evaluates the quadratic model, or changes the Hessian
DESCENTS = dict(
    steepest=GRADIENT, steepest_normed=GRADIENT, cg=GRADIENT, newton=CURVATURE, newton_normed=CURVATURE,
    damped=MODEL, indirect=MODEL, dogleg=MODEL,
)
SEARCHES = dict(rate=GRADIENT | {"value", "residual"}, armijo=GRADIENT, classical=MODEL, linear=GRADIENT)
INFOS = ["value", "grad", "hessian", "inverse", "residual", "jacobian"]
PROVIDES = dict(BFGS="inverse", DFP="inverse", LBFGS="inverse", BFGSdirect="hessian", DFPdirect="hessian", LBFGSdirect="hessian", GD="grad", GN="jacobian")


def descent(name):
    import lineax as lx
    import optimistix as optx

    return dict(
        steepest=optx.SteepestDescent(), steepest_normed=optx.SteepestDescent(norm=optx.two_norm), cg=optx.NonlinearCGDescent(optx.polak_ribiere),
        newton=optx.NewtonDescent(), newton_normed=optx.NewtonDescent(norm=optx.max_norm), damped=optx.DampedNewtonDescent(),
        indirect=optx.IndirectDampedNewtonDescent(), dogleg=optx.DoglegDescent(linear_solver=lx.AutoLinearSolver(well_posed=None)),
    )[name]


def search(name):
    import optimistix as optx

    return dict(rate=optx.LearningRate(0.5), armijo=optx.BacktrackingArmijo(), classical=optx.ClassicalTrustRegion(), linear=optx.LinearTrustRegion())[name]


def info(name, struct):
    import jax.numpy as jnp
    import lineax as lx
    import optimistix as optx

    F = optx.FunctionInfo
    tree = dict(vector=lambda x: jnp.array(x), pair=lambda x: (jnp.array(x[0]), jnp.array([x[1]])), scalar=lambda x: jnp.array(x[0]))[struct]
    y, g = tree([1.0, 2.0]), tree([0.5, -1.0])
    h = lambda a, b: lx.PyTreeLinearOperator(
        dict(vector=lambda: jnp.diag(jnp.array([a, b])), scalar=lambda: jnp.array(a),
             pair=lambda: ((jnp.array(a), jnp.zeros(1)), (jnp.zeros(1), jnp.array([[b]]))))[struct](),
        lx.MatrixLinearOperator(jnp.eye(2)).out_structure() if struct == "vector" else _struct(y), lx.positive_semidefinite_tag,
    )
    f = jnp.array(1.5)
    return y, dict(
        value=lambda: F.Eval(f), grad=lambda: F.EvalGrad(f, g), hessian=lambda: F.EvalGradHessian(f, g, h(2.0, 4.0)),
        inverse=lambda: F.EvalGradHessianInv(f, g, h(0.5, 0.25)), residual=lambda: F.Residual(g), jacobian=lambda: F.ResidualJac(g, h(2.0, 4.0)),
    )[name]()


def _struct(y):
    import jax

    return jax.eval_shape(lambda: y)


def attempt(f):
    """(refused, finite result, kind of error)"""
    import jax.tree_util as jtu
    import numpy as np

    try:
        out = f()
        leaves = [np.asarray(x) for x in jtu.tree_leaves(out)]
    except Exception as e:
        return True, None, type(e).__name__ + ": " + str(e)[:200]
    return False, all(np.isfinite(x).all() for x in leaves if x.dtype.kind in "fc"), ""


def judge(t, got, valid, what, calls=1, **detail):
    refused, finite, err = got
    t.states += 1
    t.transitions += calls
    t.outcome("refused" if refused else "accepted")
    if valid and refused:
        t.bad(f"{what}: refused although it can work", error=err, **detail)
    elif not valid and not refused:
        t.bad(f"{what}: accepted although it cannot work", **detail)
    elif valid and not finite:
        t.bad(f"{what}: the result is not finite", **detail)


def components(t, job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    for struct, kind, jit in itertools.product(("vector", "pair", "scalar"), INFOS, (False, True)):
        y, fi = info(kind, struct)
        for name, needs in DESCENTS.items():

            def use(y, fi, name=name):
                d = descent(name)
                state = d.init(y, eqx.filter_eval_shape(lambda: fi))
                state = d.query(y, fi, state)
                step, result = d.step(jnp.array(0.5), state)
                return step

            f = eqx.filter_jit(use) if jit else use
            judge(t, attempt(lambda: f(y, fi)), kind in needs, "a descent", 3, descent=name, info=kind, unknowns=struct, jit=jit)
            t.traces += 1
        for name, needs in SEARCHES.items():
            for first in (True, False):
                y_eval = jax.tree_util.tree_map(lambda x: x * 0.75, y)

                def use(y, y_eval, fi, name=name, first=first):
                    s = search(name)
                    state = s.init(y, eqx.filter_eval_shape(lambda: fi))
                    size, accept, result, state = s.step(
                        jnp.array(first), y, y_eval, fi, optx.FunctionInfo.Eval(jnp.array(1.0)), state
                    )
                    return size, accept

                f = eqx.filter_jit(use) if jit else use
                judge(t, attempt(lambda: f(y, y_eval, fi)), kind in needs, "a search", 2, search=name, info=kind, unknowns=struct, jit=jit, first=first)
                t.traces += 1


def assembled(t, job):
    """Whole solvers."""
    import jax.numpy as jnp
    import optimistix as optx

    from mc import solvers as sv

    family = job["solver"]
    provides = PROVIDES[family]
    args = (1e-3, 1e-3, optx.max_norm)
    make = dict(
        BFGS=lambda d, s: sv.CustomBFGS(*args, True, d, s), BFGSdirect=lambda d, s: sv.CustomBFGS(*args, False, d, s),
        DFP=lambda d, s: sv.CustomDFP(*args, True, d, s), DFPdirect=lambda d, s: sv.CustomDFP(*args, False, d, s),
        LBFGS=lambda d, s: sv.CustomLBFGS(*args, True, 2, d, s), LBFGSdirect=lambda d, s: sv.CustomLBFGS(*args, False, 2, d, s),
        GD=lambda d, s: sv.CustomGD(*args, d, s), GN=lambda d, s: sv.CustomGN(*args, d, s),
    )[family]

    def res(y, _):
        return jnp.stack([y["u"] - 1, y["v"][0] + 0.5, 0.5 * y["u"] * y["v"][0]])

    fn = res if family == "GN" else lambda y, _: jnp.sum(res(y, None) ** 2)
    y0 = dict(u=jnp.array(0.5), v=jnp.array([1.5]))
    entries = ["least_squares", "root_find"] if family == "GN" else ["minimise", "least_squares", "root_find"]
    for d, s in itertools.product(DESCENTS, SEARCHES):
        valid = provides in DESCENTS[d] and provides in SEARCHES[s]
        for i, entry in enumerate(entries):
            if i and d not in ("newton", "dogleg", "steepest") and not core.THOROUGH:
                continue
            if i and valid and not core.THOROUGH and s != "linear":
                continue
            g = fn if entry == entries[0] else res
            got = attempt(lambda: getattr(optx, entry)(g, make(descent(d), search(s)), y0, max_steps=3, throw=False).value)
            judge(t, got, valid, "a solver", solver=family, descent=d, search=s, entry=entry)
            t.traces += 1


def shapes():
    import jax.numpy as jnp

    f = lambda v: jnp.asarray(v, float)
    inputs = dict(scalar=0.5, zero=jnp.array(0.5), one=jnp.array([0.5]), two=jnp.array([0.5, 1.0]), matrix=jnp.array([[0.5]]), tup=(jnp.array(0.5),), lst=[jnp.array(0.5)],
                  dct=dict(a=jnp.array(0.5)), pair=(jnp.array(0.5), jnp.array(1.0)), integer=1, boolean=True)
    outputs = dict(
        scalar=lambda s: s, one=lambda s: s[None], two=lambda s: jnp.stack([s, s]), matrix=lambda s: s[None, None], tup=lambda s: (s,), lst=lambda s: [s],
        dct=lambda s: dict(a=s), pair=lambda s: (s, s), integer=lambda s: jnp.round(s).astype(int), number=lambda s: 1.0, nothing=lambda s: None, empty=lambda s: (),
        complex=lambda s: s + 1j * s, boolean=lambda s: s > 1,
    )
    return inputs, outputs


def flat(y):
    import jax
    import jax.numpy as jnp

    return jnp.sum(jnp.stack([jnp.sum(jnp.asarray(l, float)) for l in jax.tree_util.tree_leaves(y)]))


REAL = ("scalar", "integer", "number", "boolean")  # outputs that are one real number


def scalar_methods(t, job):
    import optimistix as optx

    inputs, outputs = shapes()
    one = ("scalar", "zero", "integer", "boolean")
    opts = dict(lower=-4.0, upper=4.0)
    root = lambda wrap: wrap(optx.Bisection(1e-3, 1e-3))
    gold = lambda wrap: wrap(optx.GoldenSearch(1e-3, 1e-3))
    plain = lambda s: s
    cases = [("root_find", root, plain), ("minimise", gold, plain)]
    if core.THOROUGH or True:
        cases += [("root_find", root, optx.BestSoFarRootFinder), ("minimise", gold, optx.BestSoFarMinimiser)]
    for (entry, make, wrap), (i, y0), (o, out) in itertools.product(cases, inputs.items(), outputs.items()):
        if o in ("complex", "nothing", "empty"):
            continue
        fn = lambda y, _: out(flat(y) + 0.25)
        valid = i in one and o in REAL
        got = attempt(lambda: getattr(optx, entry)(fn, make(wrap), y0, options=opts, max_steps=4, throw=False).value)
        # flat functions have no sign change, which is refused for that reason
        if entry == "root_find" and o in ("number", "boolean") and valid:
            t.outcome("no sign change")
            continue
        judge(t, got, valid, "a method for scalars", entry=entry, input=i, output=o)
        t.traces += 1
    # the bracket is required
    for missing, entry in itertools.product(("lower", "upper", "both"), ("root_find", "minimise")):
        make = root if entry == "root_find" else gold
        o = {} if missing == "both" else {k: v for k, v in opts.items() if k != missing}
        judge(t, attempt(lambda: getattr(optx, entry)(lambda y, _: y, make(plain), 0.5, options=o, max_steps=4, throw=False).value), False, "a missing bound", entry=entry, missing=missing)
    for flip in (True, False, "detect", "yes", "", 1, 0, None, 2.5):
        got = attempt(lambda: optx.root_find(lambda y, _: -y if flip is True else y, optx.Bisection(1e-3, 1e-3, flip=flip), 0.5, options=opts, max_steps=4, throw=False).value)
        judge(t, got, flip in (True, False, "detect") and isinstance(flip, (bool, str)), "a direction of bisection", flip=repr(flip))


def objectives(t, job):
    import optimistix as optx

    from mc import solvers as sv

    inputs, outputs = shapes()
    name = job["solver"]
    makes = dict(sv.MINIMISERS, **sv.OPTAX, **sv.CUSTOM_MIN, NelderMead=lambda r, a, n: optx.NelderMead(r, a, n), BestSoFar=lambda r, a, n: optx.BestSoFarMinimiser(optx.BFGS(r, a, n)))
    make = makes[name]
    for (i, y0), (o, out) in itertools.product(inputs.items(), outputs.items()):
        if i in ("boolean", "matrix", "lst", "integer", "zero") and not core.THOROUGH:
            continue
        fn = lambda y, _: out((flat(y) - 1.0) ** 2)
        got = attempt(lambda: optx.minimise(fn, make(1e-3, 1e-3, optx.max_norm), y0, max_steps=2, throw=False).value)
        if o in REAL[1:] and i != "scalar":
            continue
        judge(t, got, o in REAL, "an objective", solver=name, input=i, output=o)
        t.traces += 1


def parameters(t, job):
    import equinox as eqx
    import jax.numpy as jnp
    import optimistix as optx

    values = [-1.0, -1e-9, 0.0, 1e-9, 0.1, 0.5, 0.99, 1.0, 1.01, 2.0]
    open01 = lambda v: 0 < v < 1
    cases = [
        ("BacktrackingArmijo", "decrease_factor", open01), ("BacktrackingArmijo", "slope", open01), ("BacktrackingArmijo", "step_init", lambda v: v > 0),
    ]
    for tr in ("ClassicalTrustRegion", "LinearTrustRegion"):
        cases += [(tr, "low_constant", lambda v: v >= 0), (tr, "high_constant", lambda v: v >= 0)]
    for (cls, field, ok), v, way in itertools.product(cases, values, ("number", "array", "jit")):
        judge(t, attempt(_make(cls, {field: v}, way)), ok(v), "a parameter of a search", search=cls, field=field, given=v, way=way)
        t.traces += 1
    for tr, low, high, way in itertools.product(("ClassicalTrustRegion", "LinearTrustRegion"), values, values, ("number", "array", "jit")):
        judge(t, attempt(_make(tr, dict(low_cutoff=low, high_cutoff=high), way)), low <= high, "the cutoffs of a search", search=tr, low=low, high=high, way=way)
        t.traces += 1


def _make(cls, kw, way):
    import equinox as eqx
    import jax.numpy as jnp
    import optimistix as optx

    make = getattr(optx, cls)
    if way == "number":
        return lambda: make(**kw)
    kw = {k: jnp.array(v) for k, v in kw.items()}
    if way == "array":
        return lambda: make(**kw)
    return lambda: eqx.filter_jit(lambda q: [getattr(make(**q), k) for k in q])(kw)


def run(job):
    t = core.Tally()
    globals()[job["part"]](t, job)
    t.sample(job=job, cases=t.states, outcomes=dict(t.outcomes))
    return t


if __name__ == "__main__":
    from mc import solvers as sv

    jobs = [dict(part="components"), dict(part="scalar_methods"), dict(part="parameters")]
    jobs += [dict(part="assembled", solver=s) for s in PROVIDES]
    jobs += [dict(part="objectives", solver=s) for s in ("BFGS", "LBFGS", "NelderMead", "NonlinearCG-PR", "GradientDescent", "Optax-adam", "DFP-direct", "BestSoFar", "BFGS+ClassicalTR+Dogleg")]
    core.main(
        "C27", jobs, run,
        rule="every (component, function information, structure), (solver family, descent, search, entry point), "
        "(method, input shape, output shape), (parameter, value, way of passing it) of the tables",
        bounds=dict(descents=len(DESCENTS), searches=len(SEARCHES), informations=len(INFOS)),
        assumptions=["which information a component needs is taken from the documentation"],
    )
