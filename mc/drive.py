"""Drive a solver by hand through the documented interface, step after step, without the
library's loop."""

import equinox as eqx
import jax
import jax.numpy as jnp
from jax import lax

from . import trace


def drive(solver, fn, y0, args, n, options=None, tags=frozenset(), stats=True):
    """`n` steps from `y0`, whatever the solver's stopping test says. Returns arrays with a
    leading axis of length n (n + 1 for ys, term, res)."""
    options = dict(options or {})
    f_struct, aux_struct = eqx.filter_eval_shape(lambda: fn(y0, args))
    state = solver.init(fn, y0, args, options, f_struct, aux_struct, tags)
    dyn, static = eqx.partition(state, eqx.is_array)
    t0, r0 = solver.terminate(fn, y0, args, options, state, tags)

    def body(carry, _):
        y, dyn = carry
        state = eqx.combine(dyn, static)
        y, state, aux = solver.step(fn, y, args, options, state, tags)
        term, res = solver.terminate(fn, y, args, options, state, tags)
        out = dict(y=y, aux=aux, term=term, res=trace.code(res))
        if stats:
            value, aux2, st = solver.postprocess(
                fn, y, aux, args, options, state, tags, res
            )
            out.update(stats=st, value=value, value_aux=aux2)
        return (y, eqx.filter(state, eqx.is_array)), out

    _, out = lax.scan(body, (y0, dyn), None, length=n)
    out["ys"] = jax.tree_util.tree_map(
        lambda a, b: jnp.concatenate([jnp.asarray(a)[None], b]), y0, out.pop("y")
    )
    out["term"] = jnp.concatenate([jnp.asarray(t0)[None], out["term"]])
    out["res"] = jnp.concatenate([trace.code(r0)[None], out["res"]])
    return out
