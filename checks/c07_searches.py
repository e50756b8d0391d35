"""C07: searches, call by call, against their documented rules.

The searches are driven directly through their public interface. Every combination of
function information, step, actual change (on, between and beside all cutoffs, NaN,
infinite), first-trial flag and preceding history is compared with a plain interpreter of
the rules; all numbers are dyadic so that the comparison is exact, ties included."""

import itertools
import pathlib
import sys


sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import core  # noqa: E402


DEPTH = 8 if core.THOROUGH else 6
inf, nan = float("inf"), float("nan")
ARMIJO = [
    dict(decrease_factor=0.5, slope=0.125, step_init=1.0),
    dict(decrease_factor=0.25, slope=0.5, step_init=2.0),
    dict(decrease_factor=0.75, slope=0.0625, step_init=0.5),
]
TRUST = [
    dict(high_cutoff=0.75, low_cutoff=0.25, high_constant=2.0, low_constant=0.5),
    dict(high_cutoff=0.5, low_cutoff=0.125, high_constant=4.0, low_constant=0.25),
    dict(high_cutoff=0.5, low_cutoff=0.5, high_constant=1.5, low_constant=0.125),
    dict(high_cutoff=1.5, low_cutoff=0.0, high_constant=3.5, low_constant=0.75),
]
KINDS = ["EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac"]
HESSIANS = [((1, 0), (0, 1)), ((2, 1), (1, 2)), ((4, -1), (-1, 1)), ((1, 2), (2, 1)), ((0, 0), (0, 0))]


def rules(search, par, first, pred, actual, step):
    """(accept, next step size) as numpy arrays; `accept` is -1 where nothing is claimed."""
    import numpy as np

    if search == "BacktrackingArmijo":
        accept = first | ((pred <= 0) & (actual <= par["slope"] * pred))
        return accept.astype(int), np.where(accept, par["step_init"], par["decrease_factor"] * step)
    if search == "LearningRate":
        return np.ones_like(first, int), np.full_like(step, par["learning_rate"])
    # ratio = actual / pred with pred < 0
    refuse = ~(actual <= par["low_cutoff"] * pred) & ~first
    high = (actual < par["high_cutoff"] * pred) & ~first
    factor = np.where(refuse, par["low_constant"], np.where(high, par["high_constant"], 1.0))
    accept = (~refuse).astype(int)
    # A step predicted not to change anything: only an increase is claimed to be refused.
    unclaimed = (pred > 0) & ~first
    still = (pred == 0) & ~first & ~(actual > 0) & ~np.isnan(actual)
    return np.where(unclaimed | still, -1, accept), factor * step


def run(job):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import lineax as lx
    import numpy as np
    import optimistix as optx

    from mc import families as fam, trace

    t = core.Tally()
    if job["search"] == "construction":
        return construction(t)
    sname, par, kind, packed = job["search"], job["par"], job["kind"], job["packed"]
    search = getattr(optx, sname)(**par)
    F = optx.FunctionInfo

    def pack(v):
        return dict(a=v[:1], b=(v[1],)) if packed else v

    def unpack(d):
        return jnp.concatenate([d["a"], d["b"][0][None]]) if packed else d

    struct = jax.eval_shape(lambda: pack(jnp.zeros(2)))

    def op(m, out=None):
        if not packed:
            return lx.MatrixLinearOperator(m)
        return lx.FunctionLinearOperator(lambda d: (out or pack)(m @ unpack(d)), struct)

    def info(c):
        if kind == "EvalGrad":
            return F.EvalGrad(c["f"], pack(c["g"]))
        if kind == "EvalGradHessian":
            return F.EvalGradHessian(c["f"], pack(c["g"]), op(c["h"]))
        if kind == "EvalGradHessianInv":
            return F.EvalGradHessianInv(c["f"], pack(c["g"]), op(c["h"]))
        return F.ResidualJac(c["r"], op(c["h"], lambda v: v))

    def eval_info(c):
        if kind == "ResidualJac":
            return F.Residual(c["r1"])
        return F.Eval(c["f1"])

    def one(hist, c):
        """Drive the search through a history of cases, then the case."""
        f_info = info(c)
        struct_ = eqx.filter_eval_shape(lambda: f_info)
        state = search.init(pack(c["y"]), struct_)
        outs = []
        seq = [{k: v[i] for k, v in hist.items()} for i in range(hist["f"].shape[0])] + [c]
        for i, q in enumerate(seq):
            first = jnp.array(i == 0) if len(seq) > 1 else c["first"] > 0
            size, accept, result, state = search.step(
                first, pack(q["y"]), pack(q["y"] + q["d"]), info(q), eval_info(q), state
            )
            outs.append((size, accept, trace.code(result)))
        return tuple(jnp.stack(x) for x in zip(*outs))

    # the grid of single cases
    if kind == "ResidualJac":
        axes = [
            np.array(HESSIANS, float),
            np.array(list(itertools.product((-2.0, 0.0, 1.0), repeat=2))),  # residual
            np.array(list(itertools.product((-1.0, 0.0, 0.5), repeat=2))),  # step
            np.array(list(itertools.product((-2.0, 0.0, 0.5, 1.0, nan, inf), (0.0, 1.0, -inf)))),
            np.array([0.0, 1.0]),
        ]
        h, r, d, r1, first = fam.product_batch(*axes)
        case = dict(h=h, r=r, d=d, r1=r1, first=first, f=np.zeros(len(h)))
        f0 = 0.5 * (r**2).sum(-1)
        actual = 0.5 * (r1**2).sum(-1) - f0
        g = np.einsum("nij,ni->nj", h, r)
        hh = np.einsum("nki,nkj->nij", h, h)
    else:
        lows = {par.get("low_cutoff", 0), par.get("high_cutoff", 0), par.get("slope", 0)}
        ratios = sorted({-1.0, 0.0, 1.0, 2.0, 0.03125, 0.375} | lows | {x + 0.0078125 for x in lows} | {x - 0.0078125 for x in lows})
        axes = [
            np.array(HESSIANS, float),
            np.array(list(itertools.product((-2.0, 0.0, 1.0), repeat=2))),  # gradient
            np.array(list(itertools.product((-1.0, 0.0, 0.5), repeat=2))),  # step
            np.array(ratios + [nan, inf, -inf, 1e300]),
            np.array([0.0, -3.0]),
            np.array([0.0, 1.0]),
        ]
        h, g, d, ratio, f0, first = fam.product_batch(*axes)
        hh = h
        case = dict(h=h, g=g, d=d, f=f0, first=first)
    lin = (g * d).sum(-1)
    quad = lin + 0.5 * np.einsum("ni,nij,nj->n", d, hh, d)
    pred = quad if sname == "ClassicalTrustRegion" else lin
    if kind != "ResidualJac":
        actual = np.where(np.isfinite(ratio) & (ratio != 1e300), ratio * pred, ratio)
        # a change that is not proportional when nothing is predicted
        actual = np.where((pred == 0) & np.isfinite(ratio), ratio, actual)
        case["f1"] = f0 + actual
        actual = case["f1"] - f0
    n = len(d)
    case["y"] = np.broadcast_to(np.array([1.0, -2.0]), (n, 2)).copy()

    def where(i):
        j = i[0]
        return dict(
            search=sname, par=par, kind=kind, predicted=pred[j], actual=actual[j],
            case={k: v[j] for k, v in case.items()}, at=i,
        )

    empty = {k: np.zeros((n, 0) + v.shape[1:]) for k, v in case.items()}
    size, accept, res = trace.batched(one, empty, case)
    want_accept, want_size = rules(
        sname, par, first > 0, pred, actual, np.full(n, par.get("step_init", 1.0))
    )
    claimed = want_accept >= 0
    t.check_all(~claimed | (accept[:, 0] == want_accept), "accepts or refuses wrongly", detail=where)
    t.check_all(~claimed | (size[:, 0] == want_size), "wrong next step size", detail=where)
    t.check_all(res[:, 0] == 0, "search failed", detail=where)
    t.transitions += n
    t.note("outside_the_statement", (~claimed).sum())
    t.count_states((pred, 1), (np.nan_to_num(actual, nan=7e77), 1), (first, 1))
    t.outcome("accept", (accept[:, 0] > 0).sum())
    t.outcome("refuse", (accept[:, 0] == 0).sum())
    t.outcome("enlarge", ((accept[:, 0] > 0) & (size[:, 0] > par.get("step_init", 1.0))).sum())

    # every history of representatives: refused, accepted, very good, NaN
    reps = []
    for a_, s_ in [(0, None), (1, "same"), (1, "up")]:
        ok = (first == 0) & (want_accept == a_) & np.isfinite(actual) & (pred < 0)
        if s_ == "same":
            ok &= want_size == par.get("step_init", 1.0)
        if s_ == "up":
            ok &= want_size > par.get("step_init", 1.0)
        found = np.flatnonzero(ok)
        if len(found):
            reps.append(found[len(found) // 2])
    reps.append(np.flatnonzero((first == 0) & np.isnan(actual) & (pred < 0))[0])
    seqs = np.array(list(itertools.product(reps, repeat=DEPTH)))
    hist = {k: v[seqs[:, :-1]] for k, v in case.items()}
    last = {k: v[seqs[:, -1]] for k, v in case.items()}
    size, accept, res = trace.batched(one, hist, last)
    step = np.full(len(seqs), par.get("step_init", 1.0))

    def where2(i):
        j = i[0]
        return dict(
            search=sname, par=par, kind=kind, predicted=pred[seqs[j]], actual=actual[seqs[j]],
            sizes=size[j], accepts=accept[j],
        )

    for k in range(DEPTH):
        w_a, step = rules(
            sname, par, np.full(len(seqs), k == 0), pred[seqs[:, k]], actual[seqs[:, k]], step
        )
        t.check_all(accept[:, k] == w_a, "accepts or refuses wrongly after a history", detail=where2)
        t.check_all(size[:, k] == step, "wrong step size after a history", detail=where2)
    t.transitions += seqs.size
    t.count_states((seqs, 1))
    # conformance: outside of vmap
    single = eqx.filter_jit(one)
    for i in core.pick(len(seqs), 4, str(job)):
        a = single({k: v[i] for k, v in hist.items()}, {k: v[i] for k, v in last.items()})
        if not (np.array_equal(a[0], size[i]) and np.array_equal(a[1], accept[i])):
            t.bad("alone differs from batched", **where2((i,)))
        t.traces += 1
        t.sample(**where2((i,)))
    return t


def construction(t):
    import optimistix as optx

    bad = [("BacktrackingArmijo", dict(decrease_factor=x)) for x in (0.0, 1.0, -0.5, 1.5)]
    bad += [("BacktrackingArmijo", dict(slope=x)) for x in (0.0, 1.0, -0.5, 1.5)]
    bad += [("BacktrackingArmijo", dict(step_init=x)) for x in (0.0, -1.0)]
    for s in ("LinearTrustRegion", "ClassicalTrustRegion"):
        bad += [
            (s, dict(low_cutoff=0.75, high_cutoff=0.5)), (s, dict(low_cutoff=1.5)),
            (s, dict(high_cutoff=0.0)), (s, dict(low_constant=-0.5)), (s, dict(high_constant=-1.0)),
        ]
    good = [("BacktrackingArmijo", p) for p in ARMIJO]
    good += [(s, p) for s in ("LinearTrustRegion", "ClassicalTrustRegion") for p in TRUST]
    for name, par in bad:
        try:
            getattr(optx, name)(**par)
        except Exception:
            t.outcome("refused at construction")
        else:
            t.bad("out-of-range parameters accepted", search=name, par=par)
        t.transitions += 1
        t.states += 1
    for name, par in good:
        s = getattr(optx, name)(**par)
        if any(float(getattr(s, k)) != v for k, v in par.items()):
            t.bad("parameters changed at construction", search=name, par=par)
        t.outcome("constructed")
        t.transitions += 1
        t.states += 1
        t.traces += 1
    return t


def jobs():
    out = [dict(search="construction")]
    for packed in (False, True):
        for kind in KINDS:
            for par in ARMIJO:
                out.append(dict(search="BacktrackingArmijo", par=par, kind=kind, packed=packed))
            for par in TRUST:
                out.append(dict(search="LinearTrustRegion", par=par, kind=kind, packed=packed))
                if kind in ("EvalGradHessian", "ResidualJac"):
                    out.append(dict(search="ClassicalTrustRegion", par=par, kind=kind, packed=packed))
        out.append(dict(search="LearningRate", par=dict(learning_rate=0.375), kind="EvalGrad", packed=packed))
    return out


if __name__ == "__main__":
    core.main(
        "C07", jobs(), run,
        rule="accept/refuse and next step size by direct interpretation of the rules, exact",
        bounds=dict(history=DEPTH, parameter_sets=len(ARMIJO) + len(TRUST)),
        assumptions=["nothing is claimed when a trust-region model predicts an increase"],
    )
