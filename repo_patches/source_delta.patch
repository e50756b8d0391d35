From de44c3b6f7ec5af3cbc20e15fb7a06f7bca02919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:27 +0000
Subject: [PATCH 01/20] fix: keep the golden-section probe points inside
 [lower, upper]

The first interior point was computed as a fraction of the interval width
without adding the lower bound, so any interval not starting at zero was
searched at points outside of it.
---
 optimistix/_solver/golden.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index bb5ca05..e04c1e7 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -81,7 +81,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
         # length a and b, respectively. The ratio of their lengths, b / a, is equal
         # to the golden ratio.
         golden_ratio = (1 + math.sqrt(5)) / 2
-        middle = (upper - lower) / (golden_ratio + 1)
+        middle = lower + (upper - lower) / (golden_ratio + 1)
 
         f_middle, _ = fn(middle, args)
 
-- 
2.43.0


From 58e490c7cabb7d8f9a6f3a144e2aaf1978d20496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:27 +0000
Subject: [PATCH 02/20] fix: read Nelder-Mead best and worst vertices from the
 updated simplex

The indices were computed from the updated function values, but the vertices
were looked up in the simplex from before the update. Whenever the replaced
vertex became the best one, the returned point (and the point a shrink
contracts towards) was the discarded worst vertex.
---
 optimistix/_solver/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d3ff013..8ee5af7 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -384,8 +384,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_best = -f_best_neg
         (f_worst, f_second_worst), (worst_index, _) = lax.top_k(f_new_simplex, 2)
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
-        best = _structured_index(simplex, best_index)
-        worst = _structured_index(simplex, worst_index)
+        best = _structured_index(new_simplex, best_index)
+        worst = _structured_index(new_simplex, worst_index)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
-- 
2.43.0


From cb6a8fc2981b25f73635e4975433a4ee5050d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:54 +0000
Subject: [PATCH 03/20] fix: count outer contractions in Nelder-Mead statistics

The counter was incremented for steps that were neither expansions nor
contractions, i.e. for plain reflections.
---
 optimistix/_solver/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 8ee5af7..afee635 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -257,7 +257,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                     expand = f_vertex < f_best
                     inner_contract = f_vertex > f_worst
                     contract = f_vertex > f_second_worst
-                    outer_contract = jnp.invert(expand | contract)
+                    outer_contract = contract & jnp.invert(inner_contract)
                     reflect = (f_vertex > f_best) & (f_vertex < f_second_worst)
                     contract_const = jnp.where(inner_contract, in_const, out_const)
                     #
-- 
2.43.0


From 33714144db5b697b332d86d33d7811e0f1a4d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:11 +0000
Subject: [PATCH 04/20] fix: return the aux of the current point from
 Nelder-Mead steps

The first step returned zeros and later steps returned the aux of the last
trial vertex. Solvers built on top of it rely on it being the aux of `y`: a
root find could report success on its first step with a nonzero residual, and
the best-so-far wrapper recorded the wrong loss.
---
 optimistix/_solver/nelder_mead.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index afee635..d98c597 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -57,10 +57,13 @@ class _NelderMeadState(eqx.Module, Generic[Y, Aux]):
     - `first_pass`: A bool which indicates if this is the first call to Nelder Mead
         which allows for extra setup. This ultimately exists to save on compilation
         time.
+    - `aux_simplex`: A PyTree with leading axis of leaves `n_vertices`. The auxiliary
+        output of the problem function evaluated on each vertex of simplex.
     """
 
     simplex: PyTree
     f_simplex: Array
+    aux_simplex: PyTree
     best: tuple[Scalar, Y, Scalar]
     worst: tuple[Scalar, Y, Scalar]
     second_worst_val: Scalar
@@ -176,6 +179,9 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             simplex = jtu.tree_unflatten(treedef, new_leaves)
 
         f_simplex = jnp.full(n_vertices, jnp.inf, dtype=f_struct.dtype)
+        aux_simplex = jtu.tree_map(
+            lambda x: jnp.repeat(x[None], n_vertices, axis=0), aux
+        )
         # Shrink will be called the first time step is called, so remove one from stats
         # at init.
         stats = _NMStats(
@@ -185,6 +191,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         return _NelderMeadState(
             simplex=simplex,
             f_simplex=f_simplex,
+            aux_simplex=aux_simplex,
             best=(
                 jnp.array(0.0),
                 jtu.tree_map(lambda x: x[0], simplex),
@@ -228,13 +235,14 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         def init_step(state):
             simplex = state.simplex
             f_new_vertex = jnp.array(jnp.inf)
+            _, aux = fn(y, args)
             return (
                 state,
                 simplex,
                 jtu.tree_map(lambda _, x: x[0], y, simplex),
                 f_new_vertex,
                 state.stats,
-                state.aux,
+                aux,
             )
 
         def main_step(state):
@@ -356,17 +364,20 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             # compute f_simplex, return simplex
             simplex = tree_where(first_pass, simplex, shrink_simplex)
             unwrapped_simplex = jtu.tree_map(lambda _, x: x[...], y, simplex)
-            f_simplex, _ = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
-            return f_simplex, simplex
+            f_simplex, aux_simplex = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
+            return f_simplex, aux_simplex, simplex
 
         def update_simplex(best, new_vertex, simplex, first_pass):
             simplex = jtu.tree_map(
                 lambda _, a, b: a.at[worst_index].set(b), best, simplex, new_vertex
             )
             f_simplex = state.f_simplex.at[worst_index].set(f_new_vertex)
-            return f_simplex, simplex
+            aux_simplex = jtu.tree_map(
+                lambda a, b: a.at[worst_index].set(b), state.aux_simplex, aux
+            )
+            return f_simplex, aux_simplex, simplex
 
-        f_new_simplex, new_simplex = lax.cond(
+        f_new_simplex, aux_new_simplex, new_simplex = lax.cond(
             shrink,
             shrink_simplex,
             update_simplex,
@@ -386,16 +397,20 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
         best = _structured_index(new_simplex, best_index)
         worst = _structured_index(new_simplex, worst_index)
+        # As with the other solvers, return the `aux` of the `y` we were passed. (After
+        # the first pass, this is the best vertex so far.)
+        prev_aux = tree_where(state.first_pass, aux, state.aux)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
+            aux_simplex=aux_new_simplex,
             best=(f_best, best, best_index),
             worst=(f_worst, worst, worst_index),
             second_worst_val=f_second_worst,
             stats=stats,
             result=state.result,
             first_pass=jnp.array(False),
-            aux=aux,
+            aux=jtu.tree_map(lambda x: x[best_index], aux_new_simplex),
             step=state.step + 1,
         )
         try:
@@ -408,7 +423,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         else:
             out = best
 
-        return out, new_state, aux
+        return out, new_state, prev_aux
 
     def terminate(
         self,
-- 
2.43.0


From 8cb021b518bfc2cb76b40aa71b215007b22f040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:34 +0000
Subject: [PATCH 05/20] fix: sign of the Hestenes-Stiefel and Dai-Yuan formulas

Both are written in terms of gradients rather than negative gradients, for
which the denominator is +d^T (g - g_prev). With the wrong sign the search
directions were not conjugate, and disagreed with Fletcher-Reeves and
Polak-Ribiere on quadratics.
---
 optimistix/_solver/nonlinear_cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nonlinear_cg.py b/optimistix/_solver/nonlinear_cg.py
index 73ed02b..d9a8ecf 100644
--- a/optimistix/_solver/nonlinear_cg.py
+++ b/optimistix/_solver/nonlinear_cg.py
@@ -52,7 +52,7 @@ def hestenes_stiefel(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     [`optimistix.NonlinearCGDescent`][]."""
     grad_diff = (grad**ω - grad_prev**ω).ω
     numerator = tree_dot(grad, grad_diff)
-    denominator = -tree_dot(y_diff_prev, grad_diff)
+    denominator = tree_dot(y_diff_prev, grad_diff)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
@@ -63,7 +63,7 @@ def dai_yuan(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     """The Dai--Yuan formula for β. Used with [`optimistix.NonlinearCG`][] and
     [`optimistix.NonlinearCGDescent`][]."""
     numerator = sum_squares(grad)
-    denominator = -tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
+    denominator = tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
-- 
2.43.0


From 3b498aaa50174b51a00a9c96ac50780f37e7fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:34 +0000
Subject: [PATCH 06/20] fix: respect the norm option of compat.minimize

The option was accepted and then ignored.
---
 optimistix/compat/_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/compat/_impl.py b/optimistix/compat/_impl.py
index ee15e42..0ed2e8d 100644
--- a/optimistix/compat/_impl.py
+++ b/optimistix/compat/_impl.py
@@ -97,14 +97,14 @@ def minimize(
     else:
         options = dict(options)
     max_steps = options.pop("maxiter", None)
-    options.pop("norm", max_norm)
+    norm = options.pop("norm", max_norm)
     if len(options) != 0:
         raise ValueError(f"Unsupported options: {set(options.keys())}")
 
     def wrapped_fn(y, args):
         return fun(y, *args)
 
-    solver = BFGS(rtol=tol, atol=tol, norm=max_norm)
+    solver = BFGS(rtol=tol, atol=tol, norm=norm)
     sol = minimise(wrapped_fn, solver, x0, args, max_steps=max_steps, throw=False)
     status = jnp.where(
         sol.result == RESULTS.successful,
-- 
2.43.0


From 98e2f1fea9730cdf8a0ca1bbe17d686ceffbe4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:34 +0000
Subject: [PATCH 07/20] fix: accept roots at either end of the bisection
 interval

A zero at an endpoint was only recognised if the function was negative at the
other endpoint; otherwise an error claimed that there was no root in the
interval.
---
 optimistix/_solver/bisection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/bisection.py b/optimistix/_solver/bisection.py
index 85858a6..1796c9f 100644
--- a/optimistix/_solver/bisection.py
+++ b/optimistix/_solver/bisection.py
@@ -146,9 +146,10 @@ class Bisection(AbstractRootFinder[Scalar, Scalar, Aux, _BisectionState]):
                     args=args,
                 )
             else:
-                lower_neg = lower_val < 0
-                upper_neg = upper_val < 0
-                root_not_contained = lower_neg == upper_neg
+                # A root exactly at an endpoint is still contained.
+                increasing = (lower_val <= 0) & (upper_val >= 0)
+                decreasing = (lower_val >= 0) & (upper_val <= 0)
+                root_not_contained = jnp.invert(increasing | decreasing)
                 flip = eqx.error_if(
                     flip,
                     root_not_contained,
-- 
2.43.0


From dc78e38e1259690d7abb94a229ff359d725ba2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:34 +0000
Subject: [PATCH 08/20] fix: use the stable quadratic formula in the dogleg
 step

The two forms were swapped, so the form subject to cancellation was always the
one used. When the constant term vanishes this produced a NaN step.
---
 optimistix/_solver/dogleg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 090d496..4c50ffc 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -167,7 +167,7 @@ class DoglegDescent(
                 # use slightly different formulas when `b >=` and `b < 0`.
                 # See https://github.com/fortran-lang/stdlib/issues/674 for a number of
                 # references.
-                t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
+                t_interp = jnp.where(b >= 0, quadratic_2, quadratic_1)
                 result = RESULTS.successful
             else:
                 root_find_options = {"lower": jnp.array(1.0), "upper": jnp.array(2.0)}
-- 
2.43.0


From ad6b97910d273ddf5095b0fca10814b8cdd2f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:32:24 +0000
Subject: [PATCH 09/20] fix: test the new iterate for termination and
 non-finite values

The loop tested the iterate from before the step, so a step which stopped with
a non-finite result could be reported as successful, or as having run out of
steps.
---
 optimistix/_iterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_iterate.py b/optimistix/_iterate.py
index 7b1c94e..b365207 100644
--- a/optimistix/_iterate.py
+++ b/optimistix/_iterate.py
@@ -235,7 +235,7 @@ def _iterate(inputs):
         y, num_steps, dynamic_state, _, _, _ = carry
         state = eqx.combine(static_state, dynamic_state)
         new_y, new_state, aux = solver.step(fn, y, args, options, state, tags)
-        new_terminate, new_result = terminate_and_result(y, new_state)
+        new_terminate, new_result = terminate_and_result(new_y, new_state)
         new_dynamic_state, new_static_state = eqx.partition(new_state, eqx.is_array)
         assert eqx.tree_equal(static_state, new_static_state) is True
         return new_y, num_steps + 1, new_dynamic_state, aux, new_terminate, new_result
-- 
2.43.0


From d7e1e919ebb2d2d4cc34a030b2e304ea21d7f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:09 +0000
Subject: [PATCH 10/20] fix: differentiate the root-finding problem when using
 a minimiser

Root finding with a minimiser applied the implicit function theorem to the
gradient of the norm of the residual. That is not differentiable at a root, so
gradients through the solve were silently zero.
---
 optimistix/_root_find.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/optimistix/_root_find.py b/optimistix/_root_find.py
index 4efe33a..a0fe039 100644
--- a/optimistix/_root_find.py
+++ b/optimistix/_root_find.py
@@ -4,13 +4,13 @@ import equinox as eqx
 import jax.numpy as jnp
 import jax.tree_util as jtu
 from equinox import AbstractVar
-from jaxtyping import PyTree
+from jaxtyping import PyTree, Scalar
 
 from ._adjoint import AbstractAdjoint, ImplicitAdjoint
 from ._custom_types import Aux, Fn, MaybeAuxFn, Out, SolverState, Y
 from ._iterate import AbstractIterativeSolver, iterative_solve
 from ._least_squares import AbstractLeastSquaresSolver
-from ._minimise import AbstractMinimiser, minimise
+from ._minimise import AbstractMinimiser
 from ._misc import inexact_asarray, NoneAux, OutAsArray, tree_full_like
 from ._solution import Solution
 
@@ -31,6 +31,20 @@ if _rewrite_fn.__globals__["__name__"].startswith("jaxtyping"):
     _rewrite_fn = _rewrite_fn.__wrapped__  # pyright: ignore[reportFunctionMemberAccess]
 
 
+def _rewrite_minimise_fn(root, _, inputs):
+    minimise_fn, _, _, args, *_ = inputs
+    del inputs
+    # The objective may not be differentiable at a root, so differentiate the original
+    # root-finding problem instead.
+    _, (f_val, _) = minimise_fn(root, args)
+    return f_val
+
+
+# Keep `optx.implicit_jvp` is happy.
+if _rewrite_minimise_fn.__globals__["__name__"].startswith("jaxtyping"):
+    _rewrite_minimise_fn = _rewrite_minimise_fn.__wrapped__  # pyright: ignore[reportFunctionMemberAccess]
+
+
 def _to_minimise_fn(root_fn, norm, y, args):
     root, aux = root_fn(y, args)
     return norm(root), (root, aux)
@@ -177,19 +191,29 @@ def root_find(
     fn = OutAsArray(fn)
 
     if isinstance(solver, AbstractMinimiser):
-        del tags
-        sol = minimise(
-            eqx.Partial(_to_minimise_fn, fn, solver.norm),
+        y0 = jtu.tree_map(inexact_asarray, y0)
+        minimise_fn = eqx.Partial(_to_minimise_fn, fn, solver.norm)
+        minimise_fn = eqx.filter_closure_convert(minimise_fn, y0, args)  # pyright: ignore
+        minimise_fn = cast(Fn[Y, Scalar, Aux], minimise_fn)
+        f_struct, aux_struct = minimise_fn.out_struct  # pyright: ignore[reportFunctionMemberAccess]
+        if options is None:
+            options = {}
+
+        sol = iterative_solve(
+            minimise_fn,
             _MinimToRoot(solver),  # pyright: ignore
             y0,
             args,
             options,
-            has_aux=True,
             max_steps=max_steps,
             adjoint=adjoint,
             throw=throw,
+            tags=tags,
+            f_struct=f_struct,
+            aux_struct=aux_struct,
+            rewrite_fn=_rewrite_minimise_fn,
         )
-        _, aux = sol.aux
+        _, aux = sol.aux  # pyright: ignore[reportGeneralTypeIssues]
         sol = eqx.tree_at(lambda s: s.aux, sol, aux)
         return sol
     elif isinstance(solver, AbstractLeastSquaresSolver):
-- 
2.43.0


From 20fbfb118c73d43d1b04db6747c0ed2ddb9e5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:09 +0000
Subject: [PATCH 11/20] fix: do not apply Hessian tags to the Jacobian of a
 least-squares problem

The tags of a least-squares problem describe the Hessian, but they were
attached to the Jacobian of the residuals. Tagging the Hessian as positive
semidefinite made Gauss-Newton and dogleg solves return wrong answers, and
raised an error for non-square residuals.
---
 optimistix/_solver/gauss_newton.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/gauss_newton.py b/optimistix/_solver/gauss_newton.py
index 8dcd7f3..ddb6d7e 100644
--- a/optimistix/_solver/gauss_newton.py
+++ b/optimistix/_solver/gauss_newton.py
@@ -159,14 +159,15 @@ def _make_f_info(
     fn: Callable[[Y, Args], tuple[Any, Aux]],
     y: Y,
     args: Args,
-    tags: frozenset,
     jac: Literal["fwd", "bwd"],
 ) -> tuple[FunctionInfo.ResidualJac, Aux]:
+    # For a least-squares problem then the user-provided `tags` describe the Hessian, so
+    # these must not be used for the Jacobian.
     if jac == "fwd":
         f_eval, lin_fn, aux_eval = jax.linearize(
             lambda _y: fn(_y, args), y, has_aux=True
         )
-        jac_eval = lx.FunctionLinearOperator(lin_fn, jax.eval_shape(lambda: y), tags)
+        jac_eval = lx.FunctionLinearOperator(lin_fn, jax.eval_shape(lambda: y))
     elif jac == "bwd":
         # Materialise the Jacobian in this case.
         def _for_jacrev(_y):
@@ -175,7 +176,7 @@ def _make_f_info(
 
         jac_pytree, (f_eval, aux_eval) = jax.jacrev(_for_jacrev, has_aux=True)(y)
         output_structure = jax.eval_shape(lambda: f_eval)
-        jac_eval = lx.PyTreeLinearOperator(jac_pytree, output_structure, tags)
+        jac_eval = lx.PyTreeLinearOperator(jac_pytree, output_structure)
     else:
         raise ValueError("Only `jac='fwd'` or `jac='bwd'` are valid.")
     return FunctionInfo.ResidualJac(f_eval, jac_eval), aux_eval
@@ -224,7 +225,7 @@ class AbstractGaussNewton(AbstractLeastSquaresSolver[Y, Out, Aux, _GaussNewtonSt
         tags: frozenset[object],
     ) -> _GaussNewtonState:
         jac = options.get("jac", "fwd")
-        f_info_struct, _ = eqx.filter_eval_shape(_make_f_info, fn, y, args, tags, jac)
+        f_info_struct, _ = eqx.filter_eval_shape(_make_f_info, fn, y, args, jac)
         f_info = tree_full_like(f_info_struct, 0, allow_static=True)
         return _GaussNewtonState(
             first_step=jnp.array(True),
@@ -250,7 +251,7 @@ class AbstractGaussNewton(AbstractLeastSquaresSolver[Y, Out, Aux, _GaussNewtonSt
         tags: frozenset[object],
     ) -> tuple[Y, _GaussNewtonState, Aux]:
         jac = options.get("jac", "fwd")
-        f_eval_info, aux_eval = _make_f_info(fn, state.y_eval, args, tags, jac)
+        f_eval_info, aux_eval = _make_f_info(fn, state.y_eval, args, jac)
         # We have a jaxpr in `f_info.jac`, which are compared by identity. Here we
         # arrange to use the same one so that downstream equality checks (e.g. in the
         # `filter_cond` below)
-- 
2.43.0


From 67745a40db7d97ef5d93130808be78835cc6adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 12/20] fix: return a zero dogleg step at a stationary point

With a zero gradient both legs of the dogleg are zero, and interpolating between
them divided zero by zero. The resulting NaN step was rejected forever, so a solve
that had landed exactly on its solution ran out of steps.
---
 optimistix/_solver/dogleg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 4c50ffc..f19965d 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -189,7 +189,7 @@ class DoglegDescent(
             return newton, RESULTS.successful
 
         index = jnp.where(
-            state.cauchy_norm > scaled_step_size, 0, jnp.where(step_size < 1, 1, 2)
+            state.cauchy_norm >= scaled_step_size, 0, jnp.where(step_size < 1, 1, 2)
         )
         y_diff, root_result = lax.switch(
             index,
-- 
2.43.0


From 8a674d000f8b653217add8f38bde1b188c6fb7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:19 +0000
Subject: [PATCH 13/20] fix: IndirectDampedNewtonDescent raising under vmap
 when one batch element is non-finite

Under vmap both branches of the conditional are evaluated. The linear solves in
the tangents of the root-find always throw on failure, so that one batch element
with a failed Newton step made the whole batch raise, even with throw=False.
---
 optimistix/_solver/levenberg_marquardt.py | 27 ++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/levenberg_marquardt.py b/optimistix/_solver/levenberg_marquardt.py
index d97498e..357988e 100644
--- a/optimistix/_solver/levenberg_marquardt.py
+++ b/optimistix/_solver/levenberg_marquardt.py
@@ -11,7 +11,13 @@ from equinox.internal import ω
 from jaxtyping import Array, Float, PyTree, Scalar, ScalarLike
 
 from .._custom_types import Aux, Out, Y
-from .._misc import default_verbose, max_norm, tree_full_like, two_norm
+from .._misc import (
+    default_verbose,
+    max_norm,
+    tree_full_like,
+    tree_where,
+    two_norm,
+)
 from .._root_find import AbstractRootFinder, root_find
 from .._search import AbstractDescent, FunctionInfo
 from .._solution import RESULTS
@@ -211,9 +217,23 @@ class IndirectDampedNewtonDescent(
         # so that a `step_size` of `1` corresponds to the full length of the Newton
         # step (anything greater than `1` will still accept the Newton step.)
         scaled_step_size = state.newton_norm * step_size
+        # Only do a root-find if we have a small step size, and our Newton step was
+        # successful.
+        do_root_solve = (state.result == RESULTS.successful) & (step_size < 1)
+        # Under `vmap` the root-find is evaluated even for those batch elements that do
+        # not use it. The linear solves in the tangents of `comparison_fn` always throw
+        # on failure, so make sure that they are well-defined in this case.
+        dynamic_f_info, static_f_info = eqx.partition(state.f_info, eqx.is_array)
+        safe_f_info = eqx.combine(
+            tree_where(
+                do_root_solve, dynamic_f_info, tree_full_like(dynamic_f_info, 0)
+            ),
+            static_f_info,
+        )
 
         def comparison_fn(lambda_i: Scalar, _):
-            step, _ = damped_newton_step(1 / lambda_i, state.f_info, self.linear_solver)
+            lambda_i = jnp.where(jnp.isfinite(lambda_i), lambda_i, self.lambda_0)
+            step, _ = damped_newton_step(1 / lambda_i, safe_f_info, self.linear_solver)
             return self.trust_region_norm(step) - scaled_step_size
 
         def reject_newton():
@@ -234,9 +254,6 @@ class IndirectDampedNewtonDescent(
         def accept_newton():
             return state.newton, state.result
 
-        # Only do a root-find if we have a small step size, and our Newton step was
-        # successful.
-        do_root_solve = (state.result == RESULTS.successful) & (step_size < 1)
         neg_y_diff, new_result = lax.cond(do_root_solve, reject_newton, accept_newton)
         return (-(neg_y_diff**ω)).ω, new_result
 
-- 
2.43.0


From 61bd497fd3e46103b9707a7db70c881e273e4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:00 +0000
Subject: [PATCH 14/20] fix: dogleg with a non-Euclidean trust region norm
 under vmap

DoglegDescent finds the intersection with the trust region by bisection when
the norm is not the two norm. Under vmap this also ran for batch elements that
do not interpolate, and bisection then raised since there was no root.
---
 optimistix/_solver/dogleg.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index f19965d..aa70fc5 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -120,6 +120,9 @@ class DoglegDescent(
         # so that a `step_size` of `1` corresponds to the full length of the Newton
         # step (anything greater than `1` will still accept the Newton step.)
         scaled_step_size = state.newton_norm * step_size
+        index = jnp.where(
+            state.cauchy_norm >= scaled_step_size, 0, jnp.where(step_size < 1, 1, 2)
+        )
 
         def accept_scaled_cauchy(cauchy, newton):
             """Scale and return the Cauchy step."""
@@ -171,9 +174,16 @@ class DoglegDescent(
                 result = RESULTS.successful
             else:
                 root_find_options = {"lower": jnp.array(1.0), "upper": jnp.array(2.0)}
+                # Under `vmap` this branch is evaluated even for those batch elements
+                # that do not use it, and a failed Newton step need not intersect the
+                # trust region at all. Root-finders like bisection raise an error if
+                # there is no root, so give them a trivial one in these cases.
+                has_root = (index == 1) & (state.result == RESULTS.successful)
                 root_sol = root_find(
-                    lambda t, _: (
-                        self.trust_region_norm(interpolate(t)) - scaled_step_size
+                    lambda t, _: jnp.where(
+                        has_root,
+                        self.trust_region_norm(interpolate(t)) - scaled_step_size,
+                        t - 1.5,
                     ),
                     self.root_finder,
                     y0=jnp.array(1.5),
@@ -188,9 +198,6 @@ class DoglegDescent(
             """Return the Newton step."""
             return newton, RESULTS.successful
 
-        index = jnp.where(
-            state.cauchy_norm >= scaled_step_size, 0, jnp.where(step_size < 1, 1, 2)
-        )
         y_diff, root_result = lax.switch(
             index,
             [accept_scaled_cauchy, interpolate_cauchy_and_newton, accept_newton],
-- 
2.43.0


From c8086bd5c9c09cf2053106e63c3f9d953062749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:14 +0000
Subject: [PATCH 15/20] fix: count Nelder-Mead reflections that tie with
 another vertex

A reflected point whose value equals that of the best or second worst vertex
replaces the worst vertex, but was not counted in num_reflections.
---
 optimistix/_solver/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d98c597..883e496 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -266,7 +266,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                     inner_contract = f_vertex > f_worst
                     contract = f_vertex > f_second_worst
                     outer_contract = contract & jnp.invert(inner_contract)
-                    reflect = (f_vertex > f_best) & (f_vertex < f_second_worst)
+                    reflect = jnp.invert(expand | contract)
                     contract_const = jnp.where(inner_contract, in_const, out_const)
                     #
                     # NOTE: Throughout, we use worst + const * search_direction, not
-- 
2.43.0


From 48f1988a7f9b2708b7bb751b41db44fcb169e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:57 +0000
Subject: [PATCH 16/20] fix: make the norm of scalar solvers callable

The class attribute was turned into a bound method, so that calling it passed
the solver as an additional argument. Root-finding and fixed-point problems
could not be solved with golden-section search.
---
 optimistix/_solver/bisection.py | 2 +-
 optimistix/_solver/golden.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/bisection.py b/optimistix/_solver/bisection.py
index 1796c9f..2d60674 100644
--- a/optimistix/_solver/bisection.py
+++ b/optimistix/_solver/bisection.py
@@ -103,7 +103,7 @@ class Bisection(AbstractRootFinder[Scalar, Scalar, Aux, _BisectionState]):
     flip: bool | Literal["detect"] = "detect"
     expand_if_necessary: bool = False
     # All norms are the same for scalars.
-    norm: ClassVar[Callable[[PyTree], Scalar]] = jnp.abs
+    norm: ClassVar[Callable[[PyTree], Scalar]] = staticmethod(jnp.abs)
 
     def init(
         self,
diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index e04c1e7..b2aa5a0 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -50,7 +50,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
     rtol: float
     atol: float
     # All norms are the same for scalars.
-    norm: ClassVar[Callable[[PyTree], Float[Array, ""]]] = jnp.abs
+    norm: ClassVar[Callable[[PyTree], Float[Array, ""]]] = staticmethod(jnp.abs)
 
     def init(
         self,
-- 
2.43.0


From 61a140282172f618a22f18f47677351bd2d00099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:03 +0000
Subject: [PATCH 17/20] fix: accept Optax transformations without extra
 arguments

OptaxMinimiser passes value, grad and value_fn to every update. Plain
gradient transformations such as optax.scale do not take these, so using
one raised a TypeError.
---
 optimistix/_solver/optax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optimistix/_solver/optax.py b/optimistix/_solver/optax.py
index 6628cfd..516d926 100644
--- a/optimistix/_solver/optax.py
+++ b/optimistix/_solver/optax.py
@@ -56,6 +56,12 @@ class OptaxMinimiser(AbstractMinimiser[Y, Aux, _OptaxState]):
             `(str, jax.Array)` providing a human-readable name and its corresponding
             value.
         """
+        # Deferred, as Optax is not a dependency of Optimistix.
+        import optax
+
+        if isinstance(optim, optax.GradientTransformation):
+            # Let through transformations that do not ask for `value` etc.
+            optim = optax.with_extra_args_support(optim)
         # See https://github.com/deepmind/optax/issues/577: Optax has an issue in which
         # it doesn't use pytrees correctly.
         self.optim = eqxi.closure_to_pytree(optim)
-- 
2.43.0


From e06993771b8363edcc913c5cf9260d3964bfb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:31 +0000
Subject: [PATCH 18/20] fix: end the Cauchy point search when only infinite
 intercepts remain

---
 optimistix/_solver/cauchy_point.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/cauchy_point.py b/optimistix/_solver/cauchy_point.py
index dcf2172..c731792 100644
--- a/optimistix/_solver/cauchy_point.py
+++ b/optimistix/_solver/cauchy_point.py
@@ -117,7 +117,10 @@ def _find_cauchy_point(
         is_cauchy = stop_at_previous | jnp.invert(skip_to_next)
 
         point = _point(y, grad, optimal_intercept, lower, upper)
-        more_to_try = jnp.any(state.intercepts > next_intercept)
+        # Infinite intercepts are never reached.
+        more_to_try = jnp.any(
+            jnp.isfinite(state.intercepts) & (state.intercepts > next_intercept)
+        )
 
         return _CauchyState(
             intercepts=intercepts,
-- 
2.43.0


From f98a9239c3ffbc6d67350fed8932254366d3d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:32 +0000
Subject: [PATCH 19/20] fix: let Chord use iterative linear solvers

The chord method stopped gradients through the whole state of the linear solver.
The state of CG, GMRES and BiCGStab includes the operator, which is not all arrays,
so these raised a TypeError. Stop gradients only through the arrays.
---
 optimistix/_solver/newton_chord.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/newton_chord.py b/optimistix/_solver/newton_chord.py
index cdaf65c..0da0d10 100644
--- a/optimistix/_solver/newton_chord.py
+++ b/optimistix/_solver/newton_chord.py
@@ -37,6 +37,12 @@ def _converged(factor: Scalar, tol: float) -> Bool[Array, " "]:
     return (factor > 0) & (factor < tol)
 
 
+def _stop_gradient(state):
+    # The state of an iterative linear solver includes the operator, and hence non-arrays.
+    dynamic_state, static_state = eqx.partition(state, eqx.is_array)
+    return eqx.combine(lax.stop_gradient(dynamic_state), static_state)
+
+
 class _NewtonChordState(eqx.Module, Generic[Y]):
     f: PyTree[Array]
     linear_state: tuple[lx.AbstractLinearOperator, PyTree] | None
@@ -83,7 +89,7 @@ class _AbstractNewtonChord(AbstractRootFinder[Y, Out, Aux, _NewtonChordState[Y]]
             jac = lx.JacobianLinearOperator(_NoAux(fn), y, args, tags=tags)
             jac = lx.linearise(jac)
             init_later_state = self.linear_solver.init(jac, options={})
-            init_later_state = lax.stop_gradient(init_later_state)
+            init_later_state = _stop_gradient(init_later_state)
             linear_state = (jac, init_later_state)
         if self.cauchy_termination:
             f_val = tree_full_like(f_struct, jnp.inf)
@@ -121,7 +127,7 @@ class _AbstractNewtonChord(AbstractRootFinder[Y, Out, Aux, _NewtonChordState[Y]]
         else:
             fx, aux = fn(y, args)
             jac, linear_state = state.linear_state  # pyright: ignore
-            linear_state = lax.stop_gradient(linear_state)
+            linear_state = _stop_gradient(linear_state)
             sol = lx.linear_solve(
                 jac, fx, self.linear_solver, state=linear_state, throw=False
             )
-- 
2.43.0


From e1c8efe3f521a1686fe07b1ed00fe0d3ad2ef745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:55 +0000
Subject: [PATCH 20/20] fix: dogleg step is not NaN in a tiny trust region
 around a stationary point

---
 optimistix/_solver/dogleg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index aa70fc5..52a958c 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -160,11 +160,13 @@ class DoglegDescent(
                 inner_prod = tree_dot(cauchy, (newton**ω - cauchy**ω).ω)
                 b = 2 * (inner_prod - a)
                 c = state.cauchy_norm**2 - 2 * inner_prod + a - scaled_step_size**2
+                # Never negative, except for rounding.
+                discriminant = jnp.maximum(b**2 - 4 * a * c, 0)
                 quadratic_1 = jnp.clip(
-                    0.5 * (-b + jnp.sqrt(b**2 - 4 * a * c)) / a, min=1, max=2
+                    0.5 * (-b + jnp.sqrt(discriminant)) / a, min=1, max=2
                 )
                 quadratic_2 = jnp.clip(
-                    ((2 * c) / (-b - jnp.sqrt(b**2 - 4 * a * c))), min=1, max=2
+                    ((2 * c) / (-b - jnp.sqrt(discriminant))), min=1, max=2
                 )
                 # The quadratic formula is not numerically stable, and it is best to
                 # use slightly different formulas when `b >=` and `b < 0`.
-- 
2.43.0

