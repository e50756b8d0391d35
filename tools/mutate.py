"""Stress the checks: apply each mutant to a scratch copy of /repo and run the checks named.

    /opt/venv/bin/python tools/mutate.py [NAME ...]   (names or properties; default all)

A mutant is (name, properties, file, old, new[, count]); `old` must occur `count` times (1).
Prints one line per (mutant, property): caught, MISSED, or error. Nothing in /repo changes.
"""

import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time


V = pathlib.Path(__file__).resolve().parent.parent
S = "_solver/"
M = []


def m(name, props, file, old, new, count=1):
    M.append((name, props.split(), file, old, new, count))


# C01 the loop
m("loop-count", "C01", "_iterate.py", "return new_y, num_steps + 1, new_dynamic_state, aux, new_terminate, new_result", "return new_y, jnp.where(new_result == RESULTS.successful, num_steps + 1, num_steps), new_dynamic_state, aux, new_terminate, new_result")
m("loop-max-result", "C01", "_iterate.py", "(result == RESULTS.successful) & jnp.invert(terminate),\n        RESULTS.nonlinear_max_steps_reached", "(num_steps == (-1 if max_steps is None else max_steps)) & (result == RESULTS.successful),\n        RESULTS.nonlinear_max_steps_reached")
m("loop-nonfinite-any", "C01", "_misc.py", "return jtu.tree_reduce(jnp.logical_and, bools, jnp.array(True))", "return jtu.tree_leaves(bools)[-1] if jtu.tree_leaves(bools) else jnp.array(True)")
m("loop-isnan", "C01", "_misc.py", "jnp.all(jnp.isfinite(x)), tree)", "jnp.all(jnp.invert(jnp.isnan(x))), tree)")
m("loop-init-term", "C01", "_iterate.py", "        init_terminate,\n        init_result,\n    )", "        jnp.array(False),\n        init_result,\n    )")
m("loop-post-aux", "C01 C04", "_iterate.py", "fn, final_y, final_aux, args, options, final_state, tags, result\n    )", "fn, final_y, init_aux if max_steps == 1 else final_aux, args, options, final_state, tags, result\n    )")
m("loop-throw-max", "C01", "_iterate.py", "sol = result.error_if(sol, result != RESULTS.successful)", "sol = result.error_if(sol, (result != RESULTS.successful) & (num_steps > 0))")
m("loop-max-stat", "C01", "_iterate.py", '{"num_steps": num_steps, "max_steps": max_steps, **stats}', '{"num_steps": num_steps, "max_steps": num_steps if max_steps is None else max_steps, **stats}')
# C02 convergence
m("cauchy-or", "C02", "_misc.py", "return y_converged & f_converged", "return y_converged & (f_converged | (norm(f_diff) == 0)) | (y_converged & (norm(y_diff) < 0.1 * atol))")
m("cauchy-scale-abs", "C02", "_misc.py", "f_scale = (atol + rtol * ω(f).call(jnp.abs)).ω", "f_scale = (atol + rtol * ω(f).call(lambda x: jnp.maximum(jnp.abs(x), 1.0))).ω")
m("cauchy-yscale", "C02", "_misc.py", "y_scale = (atol + rtol * ω(y).call(jnp.abs)).ω", "y_scale = (atol + rtol * max_norm(y) * ω(y).call(jnp.ones_like)).ω")
m("gn-prev-f", "C02", S + "gauss_newton.py", "                f_eval_info.residual,\n                f_diff,", "                state.f_info.residual,\n                f_diff,")
m("bfgs-prev-y", "C02", S + "quasi_newton.py", "self.rtol, self.atol, self.norm, state.y_eval, y_diff, f_eval, f_diff", "self.rtol, self.atol, self.norm, y, y_diff, f_eval, f_diff")
m("gd-norm", "C02", S + "gradient_methods.py", "self.rtol, self.atol, self.norm, state.y_eval, y_diff, f_eval, f_diff", "self.rtol, self.atol, max_norm, state.y_eval, y_diff, f_eval, f_diff")
m("gn-reject-term", "C02", S + "gauss_newton.py", "return y, state.f_info, state.aux, descent_state, jnp.array(False)", "return y, state.f_info, state.aux, descent_state, state.terminate | (num_steps_since_acceptance > 8)")
m("optax-term", "C02 C24", S + "optax.py", "            updates,\n            f,\n            f - state.f,", "            updates,\n            f,\n            jnp.minimum(f - state.f, 0),")
m("gold-term", "C02 C10", S + "golden.py", "            state.middle,\n            y_diff,", "            state.upper,\n            y_diff,")
# C03 roots
m("root-near", "C03 C19", "_root_find.py", "near_zero = self.norm(f) < self.atol", "near_zero = self.norm(f) < self.atol + self.rtol")
m("root-first", "C03", "_root_find.py", "return terminate & near_zero, result", "return terminate & (near_zero | (self.norm(f) == jnp.inf)), result")
m("newton-f", "C03 C12", S + "newton_chord.py", "                jtu.tree_map(jnp.zeros_like, state.f),\n                state.f,", "                state.f,\n                state.f,")
m("bis-f", "C03 C09", S + "bisection.py", "return y_small & f_small, RESULTS.successful", "return y_small & (f_small | (state.error == 0) | (jnp.abs(state.lower - state.upper) < self.atol)), RESULTS.successful")
m("fp-err", "C03 C13", S + "fixed_point.py", "error = (y**ω - new_y**ω).ω", "error = ((1 - self.damp) * (y**ω - new_y**ω)).ω")
m("newton-diff-clip", "C03 C12", S + "newton_chord.py", "            diff = (y**ω - new_y**ω).ω\n        scale", "            pass\n        scale")
# C04 aux
m("gn-aux", "C04", S + "gauss_newton.py", "prev_aux = tree_where(state.first_step, aux, state.aux)", "prev_aux = aux")
m("qn-aux", "C04", S + "quasi_newton.py", "prev_aux = tree_where(state.first_step, aux, state.aux)", "prev_aux = tree_where(state.first_step | terminate, aux, state.aux)")
m("gd-aux", "C04", S + "gradient_methods.py", "return y, state.f_info, state.aux, descent_state, jnp.array(False)", "return y, state.f_info, aux_eval, descent_state, jnp.array(False)")
m("gold-aux", "C04", S + "golden.py", "        new_state = lax.cond(is_min, new_middle, new_outer, state)\n", "        new_state = lax.cond(is_min, new_middle, new_outer, state)\n        aux = lax.cond(terminate, lambda: fn(new_state.middle, args)[1], lambda: aux)\n")
# C05 best so far
m("best-le", "C05", S + "best_so_far.py", "pred = loss < state.best_loss", "pred = loss <= state.best_loss")
m("best-y", "C05", S + "best_so_far.py", "best_y = tree_where(pred, y, state.best_y)", "best_y = tree_where(pred & jnp.isfinite(state.best_loss), new_y, tree_where(pred, y, state.best_y))")
m("best-nan", "C05", S + "best_so_far.py", "pred = loss < state.best_loss", "pred = jnp.invert(loss >= state.best_loss)")
m("best-aux", "C05", S + "best_so_far.py", "best_aux = tree_where(pred, new_aux, state.best_aux)", "best_aux = tree_where(loss <= state.best_loss, new_aux, state.best_aux)")
m("best-sign", "C05", S + "best_so_far.py", "        return sum_squares(f)\n\n    # Redeclare these three to work around the Equinox bug fixed here:\n    # https://github.com/patrick-kidger/equinox/pull/544\n    @property\n    def rtol(self):\n        return self.solver.rtol\n\n    @property\n    def atol(self):\n        return self.solver.atol\n\n    @property\n    def norm(self):  # pyright: ignore[reportIncompatibleMethodOverride]\n        return self.solver.norm\n\n\nBestSoFarLeast", "        return self.norm(f)\n\n    # Redeclare these three to work around the Equinox bug fixed here:\n    # https://github.com/patrick-kidger/equinox/pull/544\n    @property\n    def rtol(self):\n        return self.solver.rtol\n\n    @property\n    def atol(self):\n        return self.solver.atol\n\n    @property\n    def norm(self):  # pyright: ignore[reportIncompatibleMethodOverride]\n        return self.solver.norm\n\n\nBestSoFarLeast")
# C06 descent / C07 searches
m("armijo-red", "C06 C07", S + "backtracking.py", "has_reduction = predicted_reduction <= 0", "has_reduction = jnp.isfinite(predicted_reduction)")
m("armijo-reset", "C07", S + "backtracking.py", "accept, self.step_init, self.decrease_factor * state.step_size", "first_step | (satisfies_armijo & (f_min_diff < 0)), self.step_init, self.decrease_factor * state.step_size")
m("tr-accept", "C06 C07", S + "trust_region.py", "accept = f_min_diff <= self.low_cutoff * predicted_reduction", "accept = jnp.invert(f_min_diff > self.low_cutoff * predicted_reduction)")
m("tr-good", "C07", S + "trust_region.py", "good = f_min_diff < self.high_cutoff * predicted_reduction", "good = jnp.abs(f_min_diff) > jnp.abs(self.high_cutoff * predicted_reduction)")
m("tr-first", "C07", S + "trust_region.py", "good = good & jnp.invert(first_step)\n", "")
m("tr-high", "C07", S + "trust_region.py", "mul = jnp.where(good, self.high_constant, 1)", "mul = jnp.where(good & (state.step_size <= 1), self.high_constant, 1)")
m("tr-pred", "C06 C07", S + "trust_region.py", "return 0.5 * (jacobian_term - rtr)", "return jnp.minimum(0.5 * (jacobian_term - rtr), f_info.compute_grad_dot(y_diff))")
m("tr-half", "C07", S + "trust_region.py", "(f_info.grad**ω + 0.5 * f_info.hessian.mv(y_diff) ** ω).ω", "(f_info.grad**ω + f_info.hessian.mv(y_diff) ** ω).ω")
m("lr", "C07", S + "learning_rate.py", "        del first_step, y, y_eval, f_info, f_eval_info, state\n        learning_rate = cast(Array, self.learning_rate)\n        return learning_rate, jnp.array(True)", "        learning_rate = cast(Array, self.learning_rate)\n        return learning_rate, first_step | (f_eval_info.as_min() < 1e6)")
# C08 descents
m("dog-interp", "C08", S + "dogleg.py", "t_interp = jnp.where(b >= 0, quadratic_2, quadratic_1)", "t_interp = jnp.where(b >= 0, quadratic_2, jnp.minimum(quadratic_1, 1.9))")
m("dog-scale", "C08", S + "dogleg.py", "scaled_step_size = state.newton_norm * step_size", "scaled_step_size = jnp.maximum(state.newton_norm, state.cauchy_norm) * step_size")
m("dog-result", "C08", S + "dogleg.py", "state.result == RESULTS.successful, root_result, state.result\n", "(state.result == RESULTS.successful) | (index == 0), root_result, state.result\n")
m("lm-param", "C08", S + "levenberg_marquardt.py", "lm_param = jnp.where(pred, 1 / safe_step_size, jnp.finfo(step_size.dtype).max)", "lm_param = jnp.where(step_size > 1, 0.0, jnp.where(pred, 1 / safe_step_size, jnp.finfo(step_size.dtype).max))")
m("ilm-newton", "C08", S + "levenberg_marquardt.py", "& (step_size < 1)", "& (step_size < 0.9)")
m("nd-norm", "C08", S + "gauss_newton.py", "newton = (newton**ω / self.norm(newton)).ω", "newton = (newton**ω / jnp.maximum(self.norm(newton), 1e-3)).ω")
m("sd-norm", "C08", S + "gradient_methods.py", "grad = (grad**ω / self.norm(grad)).ω", "grad = (grad**ω / two_norm(grad)).ω")
# C09 bisection
m("bis-mid", "C09", S + "bisection.py", "new_y = new_lower + 0.5 * (new_upper - new_lower)", "new_y = 0.5 * jnp.where(new_lower * new_upper < 0, 0.9, 1.0) * (new_upper + new_lower)")
m("bis-expand", "C09", S + "bisection.py", "expand_upper = need_positive ^ (upper_val < lower_val)", "expand_upper = need_positive | (upper_val < lower_val)")
m("bis-neg", "C09", S + "bisection.py", "negative = state.flip ^ (error < 0)", "negative = jnp.where(state.flip, error >= 0, error <= 0)")
m("bis-rtol", "C09", S + "bisection.py", "scale = self.atol + self.rtol * jnp.abs(y)", "scale = self.atol + self.rtol * jnp.maximum(jnp.abs(state.lower), jnp.abs(state.upper))")
# C10 golden
m("gold-min", "C10", S + "golden.py", "is_min = f < state.f_middle", "is_min = f <= state.f_middle")
m("gold-lower", "C10", S + "golden.py", "new_upper = tree_where(is_lower, state.upper, y_)", "new_upper = tree_where(is_lower, state.upper, jnp.minimum(state.upper, y_ + self.atol))")
m("gold-mid", "C10", S + "golden.py", "middle = lower + (upper - lower) / (golden_ratio + 1)", "middle = upper - (upper - lower) / (golden_ratio + 1)")
# C11 NM
m("nm-outer", "C11", S + "nelder_mead.py", "out_const = 1.5", "out_const = 1.25")
m("nm-inner", "C11", S + "nelder_mead.py", "inner_contract = f_vertex > f_worst", "inner_contract = f_vertex >= f_worst")
m("nm-shrink", "C11", S + "nelder_mead.py", "jnp.where(state.first_pass, jnp.array(True), f_new_vertex > f_worst)", "jnp.where(state.first_pass, jnp.array(True), f_new_vertex >= f_worst)")
m("nm-adelta", "C11", S + "nelder_mead.py", "+ self.rdelta * leaf[relative_indices]", "+ self.rdelta * jnp.abs(leaf[relative_indices])")
m("nm-term", "C11 C02", S + "nelder_mead.py", "converged = x_converged & f_converged", "converged = x_converged & (f_converged | (state.stats.n_shrink > 3))")
m("nm-div", "C11", S + "nelder_mead.py", "diverged = jnp.any(jnp.invert(jnp.isfinite(f_best)))", "diverged = jnp.any(jnp.isnan(f_best))")
m("nm-expand", "C11", S + "nelder_mead.py", "expand = f_vertex < f_best", "expand = f_vertex <= f_best")
m("nm-stats", "C11", S + "nelder_mead.py", "num_expansions=state.stats.n_expand", "num_expansions=state.stats.n_expand + state.stats.n_shrink")
# C12 newton
m("newton-rate", "C12", S + "newton_chord.py", "at_least_two = state.step >= 2", "at_least_two = state.step >= 1")
m("newton-small", "C12", S + "newton_chord.py", "at_least_two & jnp.invert(small) & diverged,", "at_least_two & diverged,")
m("newton-clip-up", "C12", S + "newton_chord.py", "jnp.clip(a, max=b), new_y, upper)", "jnp.where(a > b, 0.5 * (a + b), a), new_y, upper)")
m("newton-linfail", "C12 C01", S + "newton_chord.py", "result=RESULTS.promote(sol.result),", "result=RESULTS.where(state.step > 0, RESULTS.successful, RESULTS.promote(sol.result)),")
m("chord-jac", "C12", S + "newton_chord.py", "linear_state=state.linear_state,", "linear_state=state.linear_state if self._is_newton or self.cauchy_termination else (lx.linearise(lx.JacobianLinearOperator(_NoAux(fn), y, args, tags=tags)), state.linear_state[1]),")
# C13
m("fp-damp", "C13", S + "fixed_point.py", "(1 - self.damp) * i_np1 + self.damp * i_n, fn_y_n, y", "(1 - self.damp) * i_np1 + self.damp * i_n if jnp.ndim(i_n) < 2 else i_np1, fn_y_n, y")
m("fp-scale", "C13", S + "fixed_point.py", "self.rtol * ω(new_y).call(jnp.abs)", "self.rtol * ω(y).call(jnp.abs)")
# C14
m("bfgs-eps", "C14", S + "quasi_newton.py", "inner_nonzero = inner > jnp.finfo(inner.dtype).eps\n\n        def no_update(args):\n            *_, f_info = args\n            if self.use_inverse:\n                return f_info.hessian_inv\n            else:\n                return f_info.hessian\n\n        def update(args):\n            inner, grad_diff, y_diff, f_info = args\n            if self.use_inverse:\n                assert isinstance(f_info, FunctionInfo.EvalGradHessianInv)\n                hessian_inv = f_info.hessian_inv\n                # Use Woodbury", "inner_nonzero = jnp.abs(inner) > jnp.finfo(inner.dtype).eps\n\n        def no_update(args):\n            *_, f_info = args\n            if self.use_inverse:\n                return f_info.hessian_inv\n            else:\n                return f_info.hessian\n\n        def update(args):\n            inner, grad_diff, y_diff, f_info = args\n            if self.use_inverse:\n                assert isinstance(f_info, FunctionInfo.EvalGradHessianInv)\n                hessian_inv = f_info.hessian_inv\n                # Use Woodbury")
m("bfgs-woodbury", "C14", S + "quasi_newton.py", "term2 = ((_outer(inv_mvp, y_diff) ** ω + mvp_outer**ω) / inner).ω", "term2 = ((mvp_outer**ω + mvp_outer**ω) / inner).ω")
m("bfgs-direct", "C14", S + "quasi_newton.py", "term2 = (_outer(mvp, mvp) ** ω / tree_dot(y_diff, mvp)).ω", "term2 = (_outer(mvp, mvp) ** ω / jnp.maximum(tree_dot(y_diff, mvp), inner)).ω")
# C15
m("lbfgs-circ", "C15", S + "limited_memory_bfgs.py", "    circ_index = (\n        jnp.arange(state.history_length) + state.index_start\n    ) % state.history_length\n\n    # First", "    circ_index = (\n        jnp.arange(state.history_length) + jnp.minimum(state.index_start, state.history_length)\n    ) % state.history_length\n\n    # First")
m("lbfgs-gamma", "C15", S + "limited_memory_bfgs.py", "lambda x: x[(state.index_start - 1) % state.history_length],\n        (state.y_diff_history, state.grad_diff_history),", "lambda x: x[state.index_start % state.history_length],\n        (state.y_diff_history, state.grad_diff_history),")
m("lbfgs-gamma-dir", "C15", S + "limited_memory_bfgs.py", "lambda x: x[(state.index_start - 1) % state.history_length],\n        (state.grad_diff_history, state.y_diff_history),", "lambda x: x[jnp.minimum(state.index_start - 1, state.history_length - 1)],\n        (state.grad_diff_history, state.y_diff_history),")
# C16
m("cg-descent", "C16", S + "nonlinear_cg.py", "tree_dot(grad, nonlinear_cg_direction) < 0,", "tree_dot(grad, nonlinear_cg_direction) <= 0.5 * tree_dot(grad, neg_grad),")
m("cg-beta", "C16", S + "nonlinear_cg.py", "return _NonlinearCGDescentState(y_diff=y_diff, grad=grad)", "return _NonlinearCGDescentState(y_diff=nonlinear_cg_direction, grad=grad)")
m("cg-dy", "C16", S + "nonlinear_cg.py", "pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps\n    safe_denom = jnp.where(pred, denominator, 1)\n    return cast(Scalar, jnp.where(pred, numerator / safe_denom, 0))\n\n\nclass", "pred = denominator > jnp.finfo(denominator.dtype).eps\n    safe_denom = jnp.where(pred, denominator, 1)\n    return cast(Scalar, jnp.where(pred, numerator / safe_denom, 0))\n\n\nclass")
# C17
m("imp-resid", "C17", "_ad.py", "return root, jtu.tree_map(eqxi.nondifferentiable_backward, residual)", "return root, residual")
m("imp-fp", "C17", "_fixed_point.py", "return (f_val**ω - fixed_point**ω).ω\n\n\n# Keep", "return (f_val**ω - jax.lax.stop_gradient(fixed_point)**ω).ω\n\n\n# Keep")
m("imp-solver", "C17", "_adjoint.py", "return implicit_jvp(primal_fn, rewrite_fn, inputs, tags, self.linear_solver)", "return implicit_jvp(primal_fn, rewrite_fn, inputs, tags | {lx.symmetric_tag}, self.linear_solver)")
m("imp-gn", "C17", "_least_squares.py", "    return jax.grad(objective)(optimum)", "    r0, _ = residual_fn(jax.lax.stop_gradient(optimum), args)\n    _, vjp = jax.vjp(lambda o: residual_fn(o, args)[0], jax.lax.stop_gradient(optimum))\n    r1, _ = residual_fn(optimum, args)\n    return vjp(r1)[0]")
# C18
m("ckpt-stop", "C18", "_adjoint.py", "return primal_fn(inputs + (while_loop,))", "fn, solver, y0, *rest = inputs\n        return primal_fn((fn, solver, jax.lax.stop_gradient(y0), *rest) + (while_loop,))")
m("ckpt-n", "C18", "_adjoint.py", 'eqxi.while_loop, kind="checkpointed", checkpoints=self.checkpoints', 'eqxi.while_loop, kind="checkpointed", checkpoints=self.checkpoints if self.checkpoints is None else max(self.checkpoints - 1, 0)')
# C19
m("conv-half", "C19", "_least_squares.py", "return 0.5 * sum_squares(residual), aux", "return sum_squares(residual), aux")
m("conv-fp-opt", "C19", "_fixed_point.py", "            max_steps=max_steps,\n            adjoint=adjoint,\n            throw=throw,\n        )\n    else:", "            adjoint=adjoint,\n            throw=throw,\n        )\n    else:")
m("conv-norm", "C19", "_root_find.py", "eqx.Partial(_to_minimise_fn, fn, solver.norm)", "eqx.Partial(_to_minimise_fn, fn, max_norm)")
m("conv-throw", "C19", "_least_squares.py", "            adjoint=adjoint,\n            throw=throw,\n        )\n    else:", "            adjoint=adjoint,\n        )\n    else:")
# C20
m("vmap-where", "C20", "_misc.py", "dynamic_out, static_out = lax.cond(pred, _true_fun, _false_fun, dynamic)", "dynamic_out, static_out = lax.cond(jnp.any(pred), _true_fun, _false_fun, dynamic)")
# C21
m("tree-gn", "C21 C08", S + "levenberg_marquardt.py", "lambda_i = jnp.where(jnp.isfinite(lambda_i), lambda_i, self.lambda_0)", "lambda_i = jnp.where(jnp.isfinite(lambda_i), lambda_i, self.lambda_0 * 2)")
m("tree-eye", "C21 C14", S + "quasi_newton.py", "jnp.eye(jnp.size(l1), dtype=dtype).reshape(", "(jnp.eye(jnp.size(l1), dtype=dtype) / max(jnp.ndim(l1), 1)).reshape(")
m("tree-lbfgs", "C21 C15", S + "limited_memory_bfgs.py", 'lambda x: jnp.einsum("h,h...->...", descent[: state.history_length], x)', 'lambda x: jnp.einsum("h,hk->k", descent[: state.history_length], x.reshape(x.shape[0], -1)).reshape(x.shape[1:][::-1]).T')
# C22
m("compat-status", "C22", "compat/_impl.py", "sol.result == RESULTS.nonlinear_max_steps_reached, 1, 3", "sol.result == RESULTS.nonlinear_max_steps_reached, 1, 2")
m("compat-nit", "C22", "compat/_impl.py", "nit=sol.state.num_accepted_steps", "nit=sol.stats['num_steps']")
m("compat-tol", "C22", "compat/_impl.py", "tol = 1e-5", "tol = 1e-4")
m("compat-f", "C22", "compat/_impl.py", "fun=sol.state.f_info.f", "fun=fun(sol.state.y_eval, *args)")
# C23
m("verb-y", "C23", S + "gauss_newton.py", 'y=("y", state.y_eval),', 'y=("y", y),')
m("verb-loss", "C23", S + "quasi_newton.py", 'loss_this_step=("Loss on this step", f_eval)', 'loss_this_step=("Loss on this step", f_info.f)')
m("verb-mode", "C23", "_misc.py", 'return jax.jacfwd(lin_fn)(y_eval)', 'return jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32).astype(x.dtype), jax.jacfwd(lin_fn)(y_eval))')
m("verb-count", "C23", S + "gauss_newton.py", 'accept, 0, state.num_steps_since_acceptance + 1', 'accept, 1, state.num_steps_since_acceptance + 1')
# C24
m("optax-value", "C24", S + "optax.py", "grads, state.opt_state, y, value=f, grad=grads, value_fn=_fn_for_optax", "grads, state.opt_state, y, value=state.f, grad=grads, value_fn=_fn_for_optax")
m("optax-y", "C24", S + "optax.py", "            self.norm,\n            y,\n            updates,", "            self.norm,\n            new_y,\n            updates,")
m("optax-norm", "C24", S + "optax.py", "            self.norm,\n            y,\n            updates,", "            max_norm,\n            y,\n            updates,")
# C25
m("feas-off", "C25", "_misc.py", "distance_to_upper = (1 - offset) * (upper - x)", "distance_to_upper = upper - x")
m("feas-clip", "C25", "_misc.py", "max_to_lower = jnp.clip(max_to_lower, min=0, max=1)", "max_to_lower = jnp.clip(jnp.abs(max_to_lower), min=0, max=1)")
m("cauchy-clip", "C25", S + "cauchy_point.py", "return (_y**ω + tree_min(step_size) * gradient_step**ω).ω", "return (_y**ω + ω(step_size) * gradient_step**ω).ω")

# C26
m("lin-tags", "C26", S + "newton_chord.py", "lin_fn, jax.eval_shape(lambda: y), tags=tags", "lin_fn, jax.eval_shape(lambda: y), tags=tags | ({lx.diagonal_tag} if lx.tridiagonal_tag in tags else set())")
m("lin-chord", "C26 C12", S + "newton_chord.py", "jac = lx.linearise(jac)\n", "jac = lx.linearise(jac)\n            jac = jac.T if lx.is_lower_triangular(jac) else jac\n")
m("lin-damped", "C26", S + "levenberg_marquardt.py", "if lx.is_positive_semidefinite(f_info.hessian):", "if isinstance(linear_solver, lx.LU):\n            operator = f_info.hessian\n        if lx.is_positive_semidefinite(f_info.hessian):")
# C27
m("ref-golden", "C27", S + "golden.py", "or f_struct.shape != ():", "or len(f_struct.shape) > 1:")
m("ref-bis", "C27", S + "bisection.py", "or f_struct.shape != ():", "or f_struct.size != 1:")
m("ref-low", "C27", S + "trust_region.py", "self.low_constant < 0,", "self.low_constant <= 0,")
m("ref-cutoff", "C27", S + "trust_region.py", "self.low_cutoff > self.high_cutoff,", "self.low_cutoff >= self.high_cutoff,")
m("ref-min", "C27", "_minimise.py", "and f_struct.shape == ()", "and f_struct.size == 1")
# C28
m("hand-pop", "C28", S + "golden.py", 'options["upper"]', 'options.pop("upper")')
m("hand-state", "C28 C01", "_iterate.py", "        return new_y, num_steps + 1, new_dynamic_state, aux, new_terminate, new_result", "        new_dynamic_state = jtu.tree_map(lambda a, b: jnp.where(new_terminate, b, a), new_dynamic_state, dynamic_state) if max_steps is not None and max_steps < 4 else new_dynamic_state\n        return new_y, num_steps + 1, new_dynamic_state, aux, new_terminate, new_result")

# second set
m("x-loop-fail", "C01", "_iterate.py", "return jnp.invert(terminate) & (result == RESULTS.successful)", "return jnp.invert(terminate)")
m("x-loop-zero", "C01", "_iterate.py", "        init_terminate,\n        init_result,\n    )", "        init_terminate,\n        RESULTS.where(init_terminate, RESULTS.successful, init_result),\n    )")
m("x-post-result", "C01 C05", "_iterate.py", "    return final_y, (\n        num_steps,\n        result,\n", "    return final_y, (\n        jnp.where(result == RESULTS.nonlinear_max_steps_reached, max_steps or num_steps, num_steps),\n        RESULTS.where(tree_allfinite(final_y), result, RESULTS.nonfinite) if hasattr(RESULTS, 'nonfinite') else result,\n")
m("x-cauchy-fnew", "C02", S + "quasi_newton.py", "f_diff = (f_eval**ω - state.f_info.f**ω).ω", "f_diff = jnp.minimum(f_eval - state.f_info.f, 0)")
m("x-gn-ydiff", "C02", S + "gauss_newton.py", "y_diff = (state.y_eval**ω - y**ω).ω", "y_diff = jtu.tree_map(lambda a, b: jnp.abs(a) - jnp.abs(b), state.y_eval, y)")
m("x-lin-clip", "C12", S + "newton_chord.py", "        if lower is not None or upper is not None:", "        if lower is not None and upper is not None:")
m("x-chord-one", "C12", S + "newton_chord.py", "diffsize_prev=state.diffsize,", "diffsize_prev=jnp.where(state.step == 1, state.diffsize, jnp.maximum(state.diffsize, 1e-2 * state.diffsize_prev)),")
m("x-newton-promote", "C12 C01", S + "newton_chord.py", "result = RESULTS.where(linsolve_fail, state.result, terminate_result)", "result = RESULTS.where(linsolve_fail & jnp.invert(terminate), state.result, terminate_result)")
m("x-bis-start", "C09", S + "bisection.py", "        error, aux = fn(y, args)\n", "        y = jnp.clip(y, state.lower, state.upper)\n        error, aux = fn(y, args)\n")
m("x-bis-end", "C09", S + "bisection.py", "flip = lower_val > upper_val", "flip = lower_val > 0")
m("x-bis-exp", "C09", S + "bisection.py", "need_positive=lower_val < 0.0,", "need_positive=upper_val < 0.0,")
m("x-gold-first", "C10", S + "golden.py", "y_ = jnp.where(state.first, state.lower + (state.upper - state.middle), y)", "y_ = jnp.where(state.first & ((y <= state.lower) | (y >= state.upper)), state.lower + (state.upper - state.middle), y)")
m("x-gold-f", "C10", S + "golden.py", "            state.f_middle,\n            f_diff,", "            f,\n            f_diff,")
m("x-fp-norm", "C13", S + "fixed_point.py", "(1 - self.damp) * i_np1 + self.damp * i_n, fn_y_n, y", "i_n + (1 - self.damp) * (i_np1 - i_n) * jnp.where(jnp.abs(i_np1 - i_n) > 1e3, 0.5, 1.0), fn_y_n, y")
m("x-bfgs-sign", "C14", S + "quasi_newton.py", "grad_diff = (grad**ω - f_info.grad**ω).ω\n        inner = tree_dot(grad_diff, y_diff)\n\n        # In particular inner = 0 on the first step (as then state.grad=0), and so for\n        # this we jump", "grad_diff = (grad**ω - f_info.grad**ω).ω\n        inner = jnp.abs(tree_dot(grad_diff, y_diff))\n\n        # In particular inner = 0 on the first step (as then state.grad=0), and so for\n        # this we jump", count=2)
m("x-lbfgs-zero", "C15", S + "limited_memory_bfgs.py", "                    :, state.index_start % self.history_length\n                ].set(0)", "                    :, state.index_start % self.history_length\n                ].multiply(jnp.where(state.index_start < self.history_length, 0, 1))")
m("x-lbfgs-cross", "C15", S + "limited_memory_bfgs.py", "].set(v_tree_dot(state.grad_diff_history, y_diff))", "].set(v_tree_dot(updated_grad_diff_history, y_diff))")
m("x-lbfgs-drop", "C15", S + "limited_memory_bfgs.py", "index_start=state.index_start + 1,\n                    history_length=self.history_length,\n                    y_diff_history=updated_y_diff_history,\n                    grad_diff_history=updated_grad_diff_history,\n                    inner_history", "index_start=(state.index_start + 1) % (2 * self.history_length + 1),\n                    history_length=self.history_length,\n                    y_diff_history=updated_y_diff_history,\n                    grad_diff_history=updated_grad_diff_history,\n                    inner_history")
m("x-lbfgs-gamma", "C15", S + "limited_memory_bfgs.py", "gamma_k = jnp.where(pred, y_grad_diff_inner / safe_grad_diff_norm_sq, 1.0)", "gamma_k = jnp.where(pred, jnp.clip(y_grad_diff_inner / safe_grad_diff_norm_sq, 1e-3, 1e3), 1.0)")
m("x-cg-fr", "C16", S + "nonlinear_cg.py", "    numerator = sum_squares(grad)\n    denominator = sum_squares(grad_prev)", "    numerator = sum_squares(grad)\n    denominator = jnp.maximum(sum_squares(grad_prev), 0.01 * numerator)")
m("x-cg-hs", "C16", S + "nonlinear_cg.py", "    numerator = tree_dot(grad, grad_diff)\n    denominator = tree_dot(y_diff_prev, grad_diff)\n    # Triggers at initialisation and convergence, as above.\n    pred = jnp.abs(denominator)", "    numerator = tree_dot(grad, grad_diff)\n    denominator = tree_dot(y_diff_prev, grad_diff)\n    # Triggers at initialisation and convergence, as above.\n    pred = denominator")
m("x-imp-tags", "C17 C26", "_adjoint.py", "return implicit_jvp(primal_fn, rewrite_fn, inputs, tags, self.linear_solver)", "tags = frozenset(tags) - {lx.symmetric_tag} | ({lx.diagonal_tag} if lx.symmetric_tag in tags else set())\n        return implicit_jvp(primal_fn, rewrite_fn, inputs, tags, self.linear_solver)")
m("x-imp-norm", "C17 C19", "_root_find.py", "rewrite_fn=_rewrite_minimise_fn,", "rewrite_fn=_rewrite_fn,")
m("x-imp-sign", "C17", "_fixed_point.py", "return (f_val**ω - fixed_point**ω).ω\n\n\n# Keep", "return (f_val**ω - 1.0000001 * fixed_point**ω).ω\n\n\n# Keep")
m("x-conv-args", "C19", "_root_find.py", "            _LstsqToRoot(solver),  # pyright: ignore\n            y0,\n            args,\n            options,\n            max_steps=max_steps,\n            adjoint=adjoint,\n            throw=throw,\n            tags=tags,", "            _LstsqToRoot(solver),  # pyright: ignore\n            y0,\n            args,\n            options,\n            max_steps=max_steps if max_steps is None else max(max_steps, 1),\n            adjoint=adjoint,\n            throw=throw,\n            tags=tags,")
m("x-conv-int", "C19", "_misc.py", "        dtype = default_floating_dtype()\n    return _asarray(dtype, x)", "        dtype = jnp.float32\n    return _asarray(dtype, x)")
m("x-compat-args", "C22", "compat/_impl.py", "return fun(y, *args)", "return fun(y, *sorted(args, key=jnp.ndim))")
m("x-compat-tol0", "C22", "compat/_impl.py", "if tol is None:", "if not tol:")
m("x-compat-opt", "C22", "compat/_impl.py", "options = dict(options)", "pass")
m("x-compat-max0", "C22", "compat/_impl.py", 'max_steps = options.pop("maxiter", None)', 'max_steps = options.pop("maxiter", None) or None')
m("x-compat-norm", "C22", "compat/_impl.py", 'norm = options.pop("norm", max_norm)', 'norm = options.pop("norm", max_norm) and max_norm')
m("x-optax-state", "C24", S + "optax.py", "step=state.step + 1, f=f, opt_state=new_opt_state, terminate=terminate", "step=state.step + 1, f=f, opt_state=jtu.tree_map(lambda a, b: jnp.where(terminate, b, a), new_opt_state, state.opt_state) if False else new_opt_state, terminate=terminate & (state.step > 1)")
m("x-optax-fn", "C24", S + "optax.py", "_fn_for_optax = lambda y: fn(y, args)[0]", "_fn_for_optax = lambda y: 0.5 * fn(y, args)[0]")
m("x-best-fp", "C05", S + "best_so_far.py", "return sum_squares((y**ω - f**ω).ω)", "return sum_squares(((y**ω - f**ω) / (1 + ω(y).call(jnp.abs))).ω)")
m("x-best-first", "C05", S + "best_so_far.py", "best_loss = jnp.where(pred, loss, state.best_loss)", "best_loss = jnp.where(pred, jnp.maximum(loss, 1e-30), state.best_loss)")
m("x-feas-out", "C25", "_misc.py", "max_to_upper = jnp.clip(max_to_upper, min=0, max=1)", "max_to_upper = jnp.where(max_to_upper < 0, 1.0, jnp.clip(max_to_upper, max=1))")
m("x-allfinite", "C01 C20", "_misc.py", "return jtu.tree_reduce(jnp.logical_and, bools, jnp.array(True))", "return jtu.tree_reduce(jnp.logical_or, bools, jnp.array(len(jtu.tree_leaves(bools)) == 0))")
m("x-dtype", "C21", "_misc.py", "fn = lambda x: jnp.full(x.shape, fill_value, x.dtype)", "fn = lambda x: jnp.full(x.shape, fill_value)")
m("x-verb", "C23", S + "quasi_newton.py", 'y_last_accepted_step=("y on the last accepted step", y),', 'y_last_accepted_step=("y on the last accepted step", state.y_eval),')
m("x-gd-reject", "C06 C20", S + "gradient_methods.py", "y_descent, descent_result = self.descent.step(step_size, descent_state)", "y_descent, descent_result = self.descent.step(jnp.maximum(step_size, 1e-6), descent_state)")
m("x-nm-reflect", "C11", S + "nelder_mead.py", "in_const = 0.5", "in_const = 0.55")
# C29
m("sym-cauchy", "C29", S + "dogleg.py", "denom_nonzero = denom > jnp.finfo(denom.dtype).eps", "denom_nonzero = denom > 1e-5")
m("sym-fr", "C29", S + "nonlinear_cg.py", "    denominator = sum_squares(grad_prev)\n    # This triggers", "    denominator = sum_squares(grad_prev) + 1e-4\n    # This triggers")
m("sym-lbfgs", "C29 C15", S + "limited_memory_bfgs.py", "inner_nonzero = inner > jnp.finfo(inner.dtype).eps", "inner_nonzero = inner > 1e-5")
m("sym-scale", "C29 C02", "_misc.py", "y_scale = (atol + rtol * ω(y).call(jnp.abs)).ω", "y_scale = (atol + rtol * ω(y).call(lambda x: jnp.maximum(x, 0))).ω")
# C30
m("proto-query", "C30", S + "gauss_newton.py", "self.descent.query(state.y_eval, f_eval_info, descent_state)", "self.descent.query(y, f_eval_info, descent_state)")
m("proto-query-gd", "C30", S + "gradient_methods.py", "self.descent.query(state.y_eval, f_eval_info, descent_state)", "self.descent.query(y, f_eval_info, descent_state)")
m("proto-prio", "C30", S + "quasi_newton.py", "            search_result == RESULTS.successful, descent_result, search_result", "            descent_result == RESULTS.successful, search_result, descent_result")
m("proto-prio-gn", "C30", S + "gauss_newton.py", "            search_result == RESULTS.successful, descent_result, search_result", "            accept, search_result, descent_result")
m("proto-trial", "C30", S + "gradient_methods.py", "y_eval = (y**ω + y_descent**ω).ω", "y_eval = tree_where(accept, (y**ω + y_descent**ω).ω, (0.5 * (y**ω + state.y_eval**ω)).ω)")
m("proto-state", "C30", S + "quasi_newton.py", "            search_state=search_state,\n            f_info=f_info,", "            search_state=tree_where(accept, search_state, state.search_state),\n            f_info=f_info,")
m("proto-first", "C30", S + "gauss_newton.py", "            first_step=jnp.array(False),\n            y_eval=y_eval,", "            first_step=state.first_step & (num_accepted_steps < 1),\n            y_eval=y_eval,")
m("proto-size", "C30", S + "quasi_newton.py", "self.descent.step(step_size, descent_state)", "self.descent.step(jnp.where(accept, step_size, jnp.minimum(step_size, 0.25)), descent_state)")
m("proto-descent", "C30", S + "gradient_methods.py", "            descent_state=descent_state,\n            terminate=terminate,\n            result=result,", "            descent_state=state.descent_state,\n            terminate=terminate,\n            result=result,")
# strict comparisons turned into non-strict ones and back
m("tie-cauchy-y", "C02 C12", "_misc.py", "y_converged = norm((ω(y_diff).call(jnp.abs) / y_scale**ω).ω) < 1", "y_converged = norm((ω(y_diff).call(jnp.abs) / y_scale**ω).ω) <= 1")
m("tie-cauchy-f", "C02 C12", "_misc.py", "f_converged = norm((ω(f_diff).call(jnp.abs) / f_scale**ω).ω) < 1", "f_converged = norm((ω(f_diff).call(jnp.abs) / f_scale**ω).ω) <= 1")
m("tie-root", "C03", "_root_find.py", "near_zero = self.norm(f) < self.atol", "near_zero = self.norm(f) <= self.atol")
m("tie-bis-y", "C09", S + "bisection.py", "y_small = jnp.abs(state.lower - state.upper) < scale", "y_small = jnp.abs(state.lower - state.upper) <= scale")
m("tie-bis-f", "C09", S + "bisection.py", "f_small = jnp.abs(state.error) < self.atol", "f_small = jnp.abs(state.error) <= self.atol")
m("tie-best-min", "C05", S + "best_so_far.py", "pred = loss < state.best_loss", "pred = loss <= state.best_loss")
m("tie-nm-x", "C11", S + "nelder_mead.py", "x_converged = self.norm((x_diff**ω / x_scale**ω).ω) < 1", "x_converged = self.norm((x_diff**ω / x_scale**ω).ω) <= 1")
m("tie-nm-f", "C11", S + "nelder_mead.py", "f_converged = self.norm((f_diff**ω / f_scale**ω).ω) < 1", "f_converged = self.norm((f_diff**ω / f_scale**ω).ω) <= 1")
m("tie-feas", "C25", "_misc.py", "max_to_upper = jnp.asarray(jnp.where(dx > 0, distance_to_upper / dx, jnp.inf))", "max_to_upper = jnp.asarray(jnp.where(dx >= 0, distance_to_upper / dx, jnp.inf))")
m("tie-fixed", "C13", S + "fixed_point.py", "return state.relative_error < 1, RESULTS.successful", "return state.relative_error <= 1, RESULTS.successful")
m("tie-two", "C12", S + "newton_chord.py", "at_least_two = state.step >= 2", "at_least_two = state.step > 2")
m("tie-factor", "C12", S + "newton_chord.py", "return (factor > 0) & (factor < tol)", "return (factor > 0) & (factor <= tol)")
m("tie-armijo", "C07", S + "backtracking.py", "satisfies_armijo = f_min_diff <= self.slope * predicted_reduction", "satisfies_armijo = f_min_diff < self.slope * predicted_reduction")
m("tie-lbfgs", "C15", S + "limited_memory_bfgs.py", "pred = curvature > 0", "pred = curvature >= 0")
m("tie-cg", "C16", S + "nonlinear_cg.py", "tree_dot(grad, nonlinear_cg_direction) < 0,", "tree_dot(grad, nonlinear_cg_direction) <= 0,")

def main():
    want = set(sys.argv[1:])
    root = pathlib.Path(tempfile.mkdtemp(prefix="mutate-"))
    try:
        for name, props, file, old, new, count in M:
            if want and name not in want and not want & set(props):
                continue
            work = root / name
            shutil.copytree("/repo/optimistix", work / "optimistix", ignore=shutil.ignore_patterns("__pycache__"))
            path = work / "optimistix" / file
            text = path.read_text()
            if text.count(old) != count:
                print(f"{name:16s} does not apply ({text.count(old)} occurrences)", flush=True)
                continue
            path.write_text(text.replace(old, new))
            for p in props:
                (check,) = V.glob(f"checks/{p.lower()}_*.py")
                env = dict(os.environ, VERIF_REPO=str(work))
                start = time.time()
                r = subprocess.run([sys.executable, str(check)], env=env, cwd=V, capture_output=True, text=True, timeout=1200)
                verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, f"error {r.returncode}")
                lines = [x for x in r.stdout.splitlines() if x.startswith("---")]
                print(f"{name:16s} {p} {verdict:8s} {time.time() - start:5.0f}s {' | '.join(lines)[:200]}", flush=True)
                if verdict.startswith("error"):
                    print(r.stderr[-600:])
            shutil.rmtree(work)
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    main()
