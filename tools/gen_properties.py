"""Writes properties.jsonl (kept as Python so that the text is reviewable)."""

import json
import pathlib

S = "optimistix/_solver/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe,
                hook_needed=hook,
            ),
        )
    )


prop(
    "C01",
    "A solve stops exactly when its solver says so and reports the true reason",
    "For any solver, a solve takes steps from the initial guess until the first iterate "
    "(the initial guess included) at which the solver asks to stop, the solver reports a "
    "failure, or the iterate contains a non-finite number, and it never takes more steps "
    "than the limit. The reported outcome is 'non-finite' if that last iterate is not "
    "finite, otherwise the solver's own outcome, and 'maximum steps reached' exactly when "
    "the limit ended a solve that was neither stopped nor failed; the reported step count, "
    "limit, value, auxiliary output, statistics and final state are those of that last "
    "iterate. With errors enabled an exception is raised if and only if the outcome is not "
    "success, and none of this depends on the kind of problem, the adjoint, or whether the "
    "limit is finite.",
    ["histories", "configurations", "fault_sequences"],
    "every finite sequence of per-iterate solver answers (go on / stop / fail with either "
    "outcome / NaN or infinite iterate), every step limit including zero and none, every "
    "problem kind, adjoint and error mode",
    "Tests run real solvers on problems that converge, so they see one stop reason per "
    "solver; they never drive the loop through every order of stop, failure, NaN and limit.",
    ["optimistix/_iterate.py", "optimistix/_solution.py", "optimistix/_minimise.py",
     "optimistix/_least_squares.py", "optimistix/_root_find.py",
     "optimistix/_fixed_point.py", "optimistix/_adjoint.py"],
    [("loop condition and body", "optimistix/_iterate.py:_iterate"),
     ("outcome after the loop", "optimistix/_iterate.py:_iterate"),
     ("raising", "optimistix/_iterate.py:iterative_solve")],
    ["Solution.{value,result,aux,stats,state}", "exceptions of the entry points"],
)

prop(
    "C02",
    "Minimisers and least-squares solvers report success iff tolerances are met",
    "A built-in gradient-based minimiser or least-squares solver (including wrapped Optax "
    "optimisers) reports success only after a step in which both the change of the iterate "
    "and the change of the objective value (of the residuals, for least squares) measured in "
    "the solver's norm are below absolute tolerance plus relative tolerance times magnitude, "
    "elementwise. It stops at the first step after the initial evaluation that moves to a new "
    "iterate for which this is so, and a step whose trial point is refused never counts as "
    "convergence. If no such step occurs within the limit the outcome is not success.",
    ["inputs", "histories", "configurations"],
    "every objective in enumerated families, every start, every tolerance pair, norm, solver "
    "and step limit in the stated tables",
    "Tests check that the final answer is close on problems that converge; a solver that stops "
    "too early, too late, ignores one tolerance, uses a different norm, or stops on a rejected "
    "step still returns an answer within the loose tolerance of the tests.",
    ["optimistix/_misc.py", S + "gauss_newton.py", S + "gradient_methods.py",
     S + "quasi_newton.py", S + "optax.py", S + "nonlinear_cg.py"],
    [("cauchy_termination", "optimistix/_misc.py"),
     ("accepted branch of the step", S + "gauss_newton.py"),
     ("accepted branch of the step", S + "gradient_methods.py"),
     ("accepted branch of the step", S + "quasi_newton.py")],
    ["Solution.result", "Solution.stats['num_steps']", "iterates seen by a wrapping solver"],
)

prop(
    "C03",
    "A successful root-find or fixed point satisfies its equation within tolerance",
    "If a root-find reports success then the residual at the last evaluated iterate, measured "
    "in the solver's norm, is below the absolute tolerance, whichever root-finder, "
    "least-squares solver or minimiser was used, and a problem without a root is never "
    "reported as solved. If a fixed-point solve reports success the mapped point and the point "
    "agree to within the tolerances in the same sense. The solver additionally must have met "
    "its own step tolerance, and stops as soon as both are met.",
    ["inputs", "histories", "configurations"],
    "every function of enumerated families with and without roots, every start, tolerance, "
    "norm, and every built-in solver through both entry points",
    "Tests only use problems that have a solution, so false success on a rootless or stalled "
    "problem is invisible, as is a residual test against the wrong tolerance or norm.",
    ["optimistix/_root_find.py", "optimistix/_fixed_point.py", S + "newton_chord.py",
     S + "bisection.py", S + "fixed_point.py"],
    [("extra termination test for minimisers and least squares", "optimistix/_root_find.py"),
     ("terminate", S + "newton_chord.py"), ("terminate", S + "bisection.py"),
     ("terminate", S + "fixed_point.py")],
    ["Solution.result", "Solution.value", "Solution.aux carrying the evaluated point"],
)

prop(
    "C04",
    "Auxiliary output always belongs to the iterate the last step started from",
    "The auxiliary output of a solve is the auxiliary value the user's function returned at "
    "the iterate from which the last step was taken, never that of a rejected or internal "
    "trial point, of another step, or of a transformed problem, whatever structure it has. "
    "This holds for every solver with an initial evaluation at the current iterate, through "
    "every entry point and conversion, and under best-so-far wrapping it is the auxiliary "
    "value of the returned point; with zero steps it is zeros of the right structure.",
    ["inputs", "histories", "configurations"],
    "every objective/start of enumerated families (with accepted and rejected steps), every "
    "step count, solver and entry point",
    "Tests pass an aux and check only that it comes through with the right structure; they do "
    "not tie its value to an iterate, and rarely hit rejected steps.",
    ["optimistix/_iterate.py", S + "gauss_newton.py", S + "gradient_methods.py",
     S + "quasi_newton.py", S + "nelder_mead.py", S + "best_so_far.py",
     "optimistix/_root_find.py", "optimistix/_fixed_point.py", "optimistix/_least_squares.py"],
    [("prev_aux", S + "gauss_newton.py"), ("prev_aux", S + "quasi_newton.py"),
     ("prev_aux", S + "gradient_methods.py"), ("aux unwrapping", "optimistix/_root_find.py")],
    ["Solution.aux", "third output of a solver step"],
)

prop(
    "C05",
    "Best-so-far wrappers return the best point visited, with its own aux",
    "A best-so-far wrapper returns, among all iterates from which the wrapped solver took a "
    "step, the first one with the smallest loss (objective value, sum of squared residuals, "
    "Euclidean size of the root residual or of the fixed-point defect), together with that "
    "iterate's auxiliary output. Iterates whose loss is NaN or +infinity never qualify, "
    "and if no iterate qualifies the initial guess is returned. Wrapping changes neither the "
    "iterates, nor the number of steps, nor the outcome of the wrapped solver.",
    ["histories", "inputs", "configurations"],
    "every loss sequence over a small alphabet including ties, NaN and infinities up to a "
    "length bound, every step limit, all four wrappers, and real solvers inside",
    "The tests run one oscillating problem per wrapper; they reach no ties, NaN, infinite "
    "losses, or best points at the ends of the run.",
    [S + "best_so_far.py"],
    [("best tracking in step", S + "best_so_far.py"), ("loss definitions", S + "best_so_far.py")],
    ["Solution.value", "Solution.aux", "Solution.result", "Solution.stats['num_steps']"],
)

prop(
    "C06",
    "Step-controlled solvers never move to a worse or non-finite point",
    "A solver using a line search or trust region (BFGS, DFP, L-BFGS, nonlinear CG, "
    "Levenberg-Marquardt, dogleg, and any user combination of these searches and descents) "
    "never moves to a point whose loss exceeds the loss of its current iterate or is NaN or "
    "+infinity, as long as its model predicts no increase. A refused trial leaves the iterate "
    "unchanged and the solver then tries a shorter step (or the same one, while its trust "
    "region is still larger than the full Newton step). This holds for arbitrary objective "
    "functions, including inconsistent, discontinuous and partly undefined ones.",
    ["inputs", "histories", "configurations", "fault_sequences"],
    "every sequence of objective answers (better, equal, slightly worse, much worse, NaN, "
    "infinite) at the trial points up to a depth bound, every search-descent-solver combination",
    "Tests use smooth objectives where almost every trial is accepted; the reject path and "
    "NaN trial points are practically unvisited.",
    [S + "backtracking.py", S + "trust_region.py", S + "gauss_newton.py",
     S + "gradient_methods.py", S + "quasi_newton.py"],
    [("accept", S + "backtracking.py"), ("accept", S + "trust_region.py"),
     ("rejected branch", S + "gauss_newton.py"), ("rejected branch", S + "quasi_newton.py"),
     ("rejected branch", S + "gradient_methods.py")],
    ["iterates and losses seen by a wrapping solver", "Solution.value"],
)

prop(
    "C07",
    "Searches accept and resize steps exactly by their documented rules",
    "Backtracking accepts a trial exactly when it is the first, or the predicted linear change "
    "is non-positive and the actual change is at most the slope times it; it then resets to "
    "the initial step size, and otherwise multiplies the step size by the decrease factor. A "
    "trust region refuses and multiplies the step size by its low constant when actual over "
    "predicted reduction is below the low cutoff, multiplies it by the high constant when above "
    "the high cutoff, and else accepts unchanged, with the first trial always accepted "
    "unchanged; the linear version predicts with the gradient, the classical one with the full "
    "quadratic model. A learning rate accepts every trial with its constant rate, and "
    "out-of-range parameters are refused at construction.",
    ["inputs", "histories", "configurations"],
    "every combination of actual/predicted reductions on a grid covering all cutoffs, every "
    "parameter setting in a table, every kind of function information, every accept/reject "
    "history up to a depth bound",
    "No test calls a search directly with chosen reductions; end-to-end tests converge under "
    "many different (wrong) acceptance rules.",
    [S + "backtracking.py", S + "trust_region.py", S + "learning_rate.py",
     "optimistix/_search.py"],
    [("step", S + "backtracking.py"), ("step and predict_reduction", S + "trust_region.py"),
     ("step", S + "learning_rate.py")],
    ["outputs of AbstractSearch.init/step"],
)

prop(
    "C08",
    "Descents return the step they define at every trust-region or step size",
    "Steepest, Newton and damped Newton descents return exactly minus step size times the "
    "(optionally normalised) gradient, minus step size times the (optionally normalised) "
    "Newton direction, and minus the solution of the system damped by one over the step size, "
    "for gradient, Hessian, inverse-Hessian and residual-Jacobian information alike, giving "
    "the least-squares solution for non-square Jacobians. Dogleg and indirect damped steps have "
    "length min(step size, 1) times the Newton length in the trust-region norm (for dogleg: up "
    "to the Newton step itself), lie on the dogleg path or damped curve, equal the Newton step "
    "for step size at least one, and never increase the model. Failures of the linear solve "
    "are reported.",
    ["inputs", "configurations"],
    "every small integer matrix/vector/Jacobian of the enumerated families including singular "
    "and rank-deficient ones, every step size on a grid, every norm and information kind",
    "Descents are tested only end to end on convergent problems; a wrong branch, wrong radius or "
    "wrong interpolation still converges.",
    [S + "gradient_methods.py", S + "gauss_newton.py", S + "levenberg_marquardt.py",
     S + "dogleg.py"],
    [("query/step", S + "dogleg.py"), ("damped_newton_step", S + "levenberg_marquardt.py"),
     ("newton_step", S + "gauss_newton.py"), ("query/step", S + "gradient_methods.py")],
    ["outputs of AbstractDescent.init/query/step"],
)

prop(
    "C09",
    "Bisection keeps a sign change, halves the bracket and finds the root",
    "Given a bracket with opposite signs (a root exactly at an end counts) bisection evaluates "
    "the initial guess and then always the midpoint of an interval whose ends straddle a sign "
    "change of the function, inside the bracket, halving it each step until it and the residual "
    "are within tolerance, for increasing and decreasing functions and with direction given or "
    "detected. A bracket without a sign change is refused with an error when direction is "
    "detected, unless expansion is requested, in which case for a monotone function a bracket "
    "containing the root is found on the correct side. Success is reported exactly when the "
    "bracket is below tolerance and the residual is below the absolute tolerance.",
    ["inputs", "histories", "configurations"],
    "every sign pattern of the function on a dyadic grid, every bracket, start, direction "
    "option and tolerance in the tables",
    "Tests use a few smooth monotone functions with central roots; sign patterns with several "
    "roots, roots at ends, and expansion to each side are a finite space they do not walk.",
    [S + "bisection.py"],
    [("init", S + "bisection.py"), ("step", S + "bisection.py"),
     ("_expand_interval_repeatedly", S + "bisection.py")],
    ["points at which the user's function is evaluated (aux)", "Solution.value/result"],
)

prop(
    "C10",
    "Golden-section search brackets a minimum and shrinks by the golden ratio",
    "Golden-section search evaluates only points inside the given interval, ignores the "
    "initial guess, and after every step the interval it works in contains the best point "
    "evaluated so far and shrinks by the golden ratio. For a function with a single minimum in "
    "the interval the returned point is within the remaining interval of that minimum, "
    "including minima at either end and for intervals anywhere on the real line. It reports "
    "success exactly when the two innermost points agree within tolerance in both point and "
    "value.",
    ["inputs", "histories", "configurations"],
    "every comparison outcome sequence (left/right) to a depth bound, every minimum position "
    "on a grid, every interval and tolerance in the tables",
    "Tests use two or three smooth bowls with positive intervals; the binary tree of bracket "
    "decisions and offset intervals are not walked.",
    [S + "golden.py"],
    [("init", S + "golden.py"), ("step", S + "golden.py")],
    ["points at which the user's function is evaluated (aux)", "Solution.value/result"],
)

prop(
    "C11",
    "Nelder-Mead returns the best vertex it has evaluated and never loses it",
    "Starting from the initial guess and one displaced copy per unknown, every Nelder-Mead step "
    "replaces the worst vertex by its reflection, by the expansion if the reflection beats the "
    "best vertex, or by the outer (inner) contraction if it is worse than the second worst (the "
    "worst) vertex, and if even that point is worse than the worst vertex halves the simplex "
    "towards the best one instead. The iterate is always the vertex with the smallest value, "
    "whose value never increases, and the reported counts are the numbers of these operations (one "
    "given up for a shrink counts as both). Success is reported exactly when all vertices agree "
    "with the best one within tolerance in point and value.",
    ["inputs", "histories", "configurations"],
    "every objective of the enumerated piecewise families, every start, dimension up to a "
    "bound, every prefix length of the run",
    "Tests check convergence on smooth bowls; which branch was taken, and whether best/worst "
    "bookkeeping is right after each branch, is never observed.",
    [S + "nelder_mead.py"],
    [("step", S + "nelder_mead.py"), ("terminate", S + "nelder_mead.py"),
     ("statistics", S + "nelder_mead.py")],
    ["Solution.value at every step limit", "Solution.stats", "evaluated points"],
)

prop(
    "C12",
    "Newton and chord iterations take the exact linearised step within bounds",
    "Each Newton step moves to the point where the linearisation at the current iterate "
    "vanishes, and each chord step uses the linearisation at the initial guess, then clipped "
    "elementwise to the optional lower and upper bounds; a failed linear solve ends the solve "
    "with that failure. With the default test, success is reported exactly when step and "
    "residual are within tolerance. With the alternative test, after at least two steps, "
    "success means the step has become negligible or the estimated remaining error is below "
    "kappa, and divergence is reported when successive steps grow more than twofold or are not "
    "finite.",
    ["inputs", "histories", "configurations"],
    "every small system of the enumerated families (integer Jacobians including singular ones, "
    "piecewise nonlinear scalars), every bound, tolerance, kappa, and test mode",
    "Tests check that roots are found; step formulas, clipping, and the rate-based decisions are "
    "only exercised on convergent runs where errors in them are hidden.",
    [S + "newton_chord.py"],
    [("step", S + "newton_chord.py"), ("terminate", S + "newton_chord.py")],
    ["iterates", "Solution.result", "Solution.stats['num_steps']"],
)

prop(
    "C13",
    "Fixed-point iteration applies the damped map and stops when it stands still",
    "Each step replaces the point by (1-damp) times the mapped point plus damp times the point. "
    "Success is reported at exactly the first step whose movement, in the solver's norm relative "
    "to absolute tolerance plus relative tolerance times the magnitude of the new point, is below "
    "one, and not earlier or later. A map whose output structure differs from the point's is "
    "refused.",
    ["inputs", "histories", "configurations"],
    "every map of the enumerated affine and piecewise families (contracting, expanding, cyclic), "
    "damping, tolerances, norms and step limits in the tables",
    "Tests run a handful of contractions undamped and once damped and look only at the limit.",
    [S + "fixed_point.py", "optimistix/_fixed_point.py"],
    [("step", S + "fixed_point.py"), ("terminate", S + "fixed_point.py"),
     ("structure test", "optimistix/_fixed_point.py")],
    ["iterates", "Solution.result", "Solution.stats['num_steps']"],
)

prop(
    "C14",
    "BFGS and DFP keep a symmetric positive-definite matrix obeying the secant rule",
    "After every accepted step with positive curvature the BFGS or DFP approximation maps the "
    "last step to the last gradient change (or back, in inverse form), is symmetric and "
    "positive definite, and equals the textbook update of the previous one; without positive "
    "curvature it is unchanged. The Hessian and the inverse form stay exact inverses of each "
    "other and produce the same iterates. On a quadratic with exact minimisation along each "
    "direction both reach the minimum in at most as many steps as there are unknowns.",
    ["histories", "inputs", "configurations"],
    "every sequence of step/gradient-change pairs over a small integer alphabet up to a length "
    "bound, both forms, both formulas, several problem structures",
    "Tests check the final minimiser; an update that loses symmetry, definiteness or the secant "
    "rule still converges on bowls because of the line search.",
    [S + "quasi_newton.py"],
    [("update_hessian (BFGS)", S + "quasi_newton.py"), ("update_hessian (DFP)", S + "quasi_newton.py"),
     ("curvature guard", S + "quasi_newton.py")],
    ["init_hessian/update_hessian outputs", "iterates"],
)

prop(
    "C15",
    "L-BFGS equals dense BFGS restricted to its most recent history",
    "For every sequence of accepted steps, the limited-memory approximation (direct or inverse) "
    "acts on every vector exactly like the dense BFGS matrix built from the scaled identity "
    "given by the newest pair and the last m positive-curvature pairs in order, no matter how "
    "often the history has wrapped around. Pairs without positive curvature change nothing, and "
    "with fewer than m pairs only those present count. The direct and the inverse form are "
    "inverse to each other and lead to the same iterates.",
    ["histories", "inputs", "configurations"],
    "every sequence of step/gradient-change pairs over a small alphabet (including "
    "non-positive curvature) longer than the history, every history length up to a bound",
    "One test compares the operators after a few fixed updates; wrap-around orders, skipped "
    "pairs in between and short histories are not enumerated.",
    [S + "limited_memory_bfgs.py"],
    [("ring buffer", S + "limited_memory_bfgs.py"), ("two-loop recursion", S + "limited_memory_bfgs.py"),
     ("compact form", S + "limited_memory_bfgs.py")],
    ["init_hessian/update_hessian outputs", "iterates"],
)

prop(
    "C16",
    "Nonlinear CG directions follow their formulas, descend, and restart",
    "The first direction is steepest descent; each later direction is minus the gradient plus "
    "beta times the previous direction, where beta is given by the chosen textbook formula "
    "(Polak-Ribiere clipped at zero, Fletcher-Reeves, Hestenes-Stiefel, Dai-Yuan) evaluated with the "
    "current gradient, the previous accepted gradient and the previous direction, and falls back "
    "to steepest descent when that would not descend. Every direction taken is a descent "
    "direction, and a vanishing denominator gives beta zero, never NaN. On quadratics with exact "
    "line minimisation all four formulas coincide with linear conjugate gradients.",
    ["histories", "inputs", "configurations"],
    "every gradient sequence over a small integer alphabet up to a length bound, every formula, "
    "every kind of function information",
    "Tests check that minima are found; sign or index errors in beta are masked by the "
    "steepest-descent fallback and line search (the sign error fixed here lived in the tested "
    "code).",
    [S + "nonlinear_cg.py"],
    [("beta formulas", S + "nonlinear_cg.py"), ("query", S + "nonlinear_cg.py")],
    ["descent outputs", "the public beta functions", "iterates"],
)

prop(
    "C17",
    "Implicit derivatives of every solve obey the implicit function theorem",
    "With the implicit adjoint, forward- and reverse-mode derivatives of a converged solution "
    "with respect to the arguments equal minus the inverse Jacobian of the optimality condition "
    "times its derivative in the arguments, for all four problem kinds and whichever solver "
    "(native or converted) found the solution. Derivatives with respect to the initial guess, "
    "and of the auxiliary output, statistics and state, are zero or refused, and structure tags "
    "promised by the user or the linear solver chosen change nothing but cost. Derivatives "
    "compose: they can be taken twice and work under jit, vmap and for arguments in any structure, "
    "captured or passed.",
    ["inputs", "configurations", "programs"],
    "every parametrised problem of the families with closed-form sensitivities, every parameter "
    "grid point, solver, entry point, mode of differentiation and way of passing parameters",
    "Tests compare against finite differences on a few problems and skip combinations; gradients "
    "that are silently zero for some solver/problem pairs were present.",
    ["optimistix/_ad.py", "optimistix/_adjoint.py", "optimistix/_root_find.py",
     "optimistix/_least_squares.py", "optimistix/_minimise.py", "optimistix/_fixed_point.py"],
    [("implicit_jvp", "optimistix/_ad.py"), ("rewrite functions", "optimistix/_root_find.py"),
     ("rewrite functions", "optimistix/_minimise.py"),
     ("rewrite functions", "optimistix/_least_squares.py"),
     ("rewrite functions", "optimistix/_fixed_point.py")],
    ["jax.jvp / jax.grad / jax.jacobian of Solution.value"],
)

prop(
    "C18",
    "Checkpointed derivatives equal derivatives through the unrolled iterations",
    "With the recursive-checkpoint adjoint, reverse-mode derivatives of the solution with "
    "respect to arguments and initial guess equal those obtained by differentiating the same "
    "number of solver steps written out one after another, for every step count and every "
    "number of checkpoints. The computed solution, outcome and step count are identical to "
    "those with the implicit adjoint. This includes solves that fail or run into their limit.",
    ["inputs", "histories", "configurations"],
    "every step limit and checkpoint count up to a bound, every problem and start of the "
    "families, several solvers and all entry points",
    "Tests compare this adjoint on convergent problems only with finite differences at the "
    "solution, where the dependence on start and step count vanishes.",
    ["optimistix/_adjoint.py", "optimistix/_iterate.py"],
    [("checkpointed while loop", "optimistix/_adjoint.py"), ("loop", "optimistix/_iterate.py")],
    ["jax.grad of Solution.value", "Solution.*"],
)

prop(
    "C19",
    "Solving through a converted problem solves the same problem",
    "Passing a root-finder to a fixed-point problem finds roots of map minus point, passing a "
    "least-squares solver or minimiser to a root or fixed-point problem minimises the size of the "
    "residual, and passing a minimiser to least squares minimises half the sum of squares: each "
    "gives step for step the same iterates, outcome and step count as posing that problem by "
    "hand, apart from the additional requirement on the residual for roots. Arguments, options, "
    "auxiliary output, step limit, error mode and adjoint are passed through unchanged. Integer "
    "and Python-number inputs are treated as the corresponding floating-point ones.",
    ["inputs", "configurations", "histories"],
    "every problem of the families, every (entry point, solver) pair, step limits, and input "
    "kinds in the tables",
    "Tests check each pair converges to the right answer, not that it runs the documented "
    "problem; lost options or limits and altered objectives are not seen.",
    ["optimistix/_root_find.py", "optimistix/_least_squares.py", "optimistix/_fixed_point.py",
     "optimistix/_minimise.py", "optimistix/_misc.py"],
    [("conversions", "optimistix/_root_find.py"), ("conversion", "optimistix/_least_squares.py"),
     ("conversion", "optimistix/_fixed_point.py"), ("OutAsArray", "optimistix/_misc.py")],
    ["Solution.*"],
)

prop(
    "C20",
    "Batched, compiled and repeated solves agree with single solves",
    "Solving a batch of problems with vmap gives for each member the value, outcome, step count, "
    "statistics and auxiliary output of solving it alone, no matter how differently its "
    "neighbours behave (converge at other steps, fail, diverge or are non-finite). The same holds "
    "under jit, inside scans, and when the same call is repeated or interleaved with others. "
    "Solvers, options and inputs are never modified by a solve.",
    ["inputs", "configurations", "programs"],
    "every ordered batch of members from a pool of behaviour classes, every solver and every "
    "calling context in the tables",
    "The tests vmap a few solvers over near-identical members; cross-talk only shows when "
    "members take different branches or different numbers of steps.",
    ["optimistix/_iterate.py", "optimistix/_misc.py", S + "quasi_newton.py",
     S + "gauss_newton.py", S + "nelder_mead.py", S + "limited_memory_bfgs.py",
     S + "bisection.py"],
    [("masked while loop", "optimistix/_iterate.py"), ("filter_cond", "optimistix/_misc.py")],
    ["Solution.* under vmap/jit/scan/repetition"],
)

prop(
    "C21",
    "The structure the unknowns are stored in does not change the answer",
    "Solving the same problem with the unknowns and residuals stored as one vector, as a matrix, "
    "as separate scalars, or as any nested container of arrays gives the same iterates, outcome, "
    "step count and auxiliary output, repacked. Every returned value has exactly the structure, "
    "shapes and floating type of the initial guess, in single and in double precision modes. "
    "Renaming or regrouping the containers, which keeps the order of the elements, has no effect.",
    ["inputs", "configurations"],
    "every packing of the unknowns from a table, every built-in solver, norm and problem of the "
    "families, both precision modes",
    "Tests use one structure per problem; an error that mixes up leaves or axes shows only when "
    "two packings of the same problem are compared.",
    ["optimistix/_misc.py", S + "quasi_newton.py", S + "limited_memory_bfgs.py",
     S + "nelder_mead.py", S + "gauss_newton.py", S + "dogleg.py", S + "nonlinear_cg.py",
     S + "newton_chord.py"],
    [("identity operator and outer products", S + "quasi_newton.py"),
     ("history buffers", S + "limited_memory_bfgs.py"), ("initial simplex", S + "nelder_mead.py"),
     ("tree utilities", "optimistix/_misc.py")],
    ["Solution.value, its structure and dtypes", "iterates"],
)

prop(
    "C22",
    "The scipy-style minimize reports a consistent record of the BFGS run",
    "The compatibility minimizer returns the point at which the underlying BFGS run stopped, with "
    "the objective value and gradient at that very point, a symmetric positive-definite inverse "
    "Hessian estimate, one function evaluation per iteration performed, and as many gradient "
    "evaluations and iterations as points accepted. Success and status 0 occur exactly when the "
    "run converged within the tolerance in the chosen norm, status 1 exactly when the iteration "
    "limit was hit, and 3 otherwise. Extra arguments are passed on in order and unsupported "
    "methods, options, or malformed inputs are refused.",
    ["inputs", "configurations", "histories"],
    "every objective and start of the families, iteration limit, tolerance, norm and argument "
    "tuple in the tables, including failing and non-finite runs",
    "Tests compare the minimiser found on standard problems; counts, status codes at the limit, "
    "and agreement of value, gradient and point are not checked.",
    ["optimistix/compat/_impl.py", S + "quasi_newton.py"],
    [("result record", "optimistix/compat/_impl.py")],
    ["OptimizeResults fields", "exceptions"],
)

prop(
    "C23",
    "Verbosity and differentiation-mode options never change a solve",
    "Turning on verbose output, with the built-in printer or a user callback, changes nothing "
    "about a solve, and the callback sees one report per step with the step's true loss, point "
    "and acceptance. Choosing forward or reverse mode for gradients or Jacobians changes nothing "
    "but rounding. Functions that support only one differentiation mode work with the matching "
    "choice (forward-only residuals excepted for the methods that also need the transpose of the "
    "Jacobian), and any other value of these options is refused.",
    ["configurations", "inputs", "histories"],
    "every solver having these options, every option value, every problem/start of the families "
    "and step limits",
    "Verbose output is not tested for content at all, and modes are compared on one problem.",
    ["optimistix/_misc.py", S + "gauss_newton.py", S + "quasi_newton.py",
     S + "gradient_methods.py", S + "optax.py"],
    [("default_verbose", "optimistix/_misc.py"), ("lin_to_grad", "optimistix/_misc.py"),
     ("_make_f_info", S + "gauss_newton.py")],
    ["Solution.*", "arguments of the verbose callback"],
)

prop(
    "C24",
    "Wrapped Optax optimisers and gradient descent follow the plain update loop",
    "Minimising with a wrapped Optax optimiser produces exactly the iterates of the usual loop "
    "'compute value and gradient, transform, add', with the optimiser's state carried from step "
    "to step and value, gradient and objective made available to optimisers that ask for them. "
    "Gradient descent with a learning rate produces the points y - rate * gradient. Both stop at "
    "the tolerance test or the limit and return the point of that step.",
    ["inputs", "histories", "configurations"],
    "every optimiser in a table (stateless, stateful, scheduled, line-searching), every problem "
    "and start of the families, every step limit",
    "Tests only check that a minimum is approached, which holds with stale gradients or states.",
    [S + "optax.py", S + "gradient_methods.py"],
    [("step", S + "optax.py"), ("step", S + "gradient_methods.py")],
    ["iterates", "Solution.value", "Solution.stats['num_steps']"],
)

prop(
    "C25",
    "Norms, function information and box utilities compute what they say",
    "The three norms are the maximum, root-mean-square and Euclidean norm over all elements of a "
    "structure taken together, with zero (sub)derivative rather than NaN at zero. For every kind of "
    "function information the scalar loss, gradient and directional derivative are those of the "
    "objective (half the sum of squares for residuals). The feasible step length is the largest "
    "fraction of a step in [0, 1] that keeps each element within its bounds (a fraction of that "
    "with an offset), and the Cauchy point of a point within its bounds is finite, within the bounds "
    "and on the projected path from the point along the negative gradient.",
    ["inputs", "configurations"],
    "every small-integer vector/matrix/bounds combination of the enumerated grids and every "
    "structure in the table",
    "Tests look at a few fixed vectors; the case distinctions (signs, zero steps, active bounds) "
    "form a finite grid they do not cover.",
    ["optimistix/_misc.py", "optimistix/_search.py", S + "cauchy_point.py"],
    [("norms", "optimistix/_misc.py"), ("FunctionInfo", "optimistix/_search.py"),
     ("feasible_step_length", "optimistix/_misc.py"), ("cauchy_point", S + "cauchy_point.py")],
    ["outputs of the functions"],
)

prop(
    "C26",
    "The choice of linear solver and structure tags never changes a solve",
    "For a problem whose Jacobian or Hessian has a structure (diagonal, triangular, tridiagonal, "
    "symmetric, definite), promising that structure by tags, and choosing any linear solver that "
    "fits the system for any solver or descent that takes one, gives the same iterates, outcome, "
    "number of steps and auxiliary output as the default linear solver without tags, up to rounding, "
    "whenever the systems are well conditioned. Newton and chord steps with the default are the exact "
    "solutions of the linearised equations.",
    ["inputs", "configurations"],
    "every problem and start of a structured family x solver x fitting linear solver x true tag set, through "
    "native and converted entry points",
    "Tests use the default linear solver almost everywhere and never compare two runs; a wrong factorisation "
    "reuse, transpose or tag shows only for a particular structure and solver.",
    [S + "newton_chord.py", S + "gauss_newton.py", S + "levenberg_marquardt.py", S + "dogleg.py", "optimistix/_root_find.py"],
    [("linear solves", S + "newton_chord.py"), ("newton_step", S + "gauss_newton.py"), ("damped_newton_step", S + "levenberg_marquardt.py"),
     ("tags", "optimistix/_root_find.py")],
    ["recorded iterates"],
)
prop(
    "C27",
    "What cannot work is refused, and everything else is accepted",
    "A descent or search given function information it cannot use (no gradient, no curvature, or only an "
    "inverse Hessian where the Hessian is needed), a method for scalar problems given an input or output that is "
    "not a scalar or no bracket, a minimisation whose objective is not one real number, and search parameters "
    "outside their documented range (given as numbers, arrays, or inside a compiled function) are refused with an "
    "error. Every other combination of solver family, descent, search, problem shape and parameters is accepted "
    "and returns finite values on a well-behaved problem.",
    ["configurations", "inputs"],
    "every combination of component and function information, of solver family, descent and search, of method and "
    "input/output shape, and of parameter and value in the tables",
    "Tests exercise working combinations; a missing or wrongly placed refusal silently turns into a wrong answer, "
    "and an overzealous one only shows for a combination nobody tested.",
    ["optimistix/_minimise.py", S + "bisection.py", S + "golden.py", S + "trust_region.py", S + "backtracking.py", S + "dogleg.py",
     S + "gauss_newton.py", S + "levenberg_marquardt.py", S + "gradient_methods.py", S + "nonlinear_cg.py"],
    [("checks of components", S + "trust_region.py"), ("objective shape", "optimistix/_minimise.py"), ("scalar shape", S + "bisection.py")],
    ["error or returned value"],
)

prop(
    "C28",
    "A solve can be stepped by hand, cut at any limit and resumed",
    "Driving a solver by hand with its four documented methods (initialise, step, ask whether to stop, "
    "postprocess), in one compiled loop or one call at a time, gives the same iterates, number of steps, outcome, "
    "value, auxiliary output and statistics as the entry point, for every step limit, and leaves the caller's "
    "function, options and states usable for further runs. The value and state returned by a solve that was cut at "
    "its limit (or that stopped) continue it: further steps by hand are those of the uncut solve.",
    ["inputs", "histories", "configurations"],
    "every problem and start of a family x solver x step limit x continuation",
    "Tests only call the entry points and look at the final value; the interactive interface is shown in an "
    "example notebook that is not a test.",
    ["optimistix/_iterate.py", S + "quasi_newton.py", S + "gauss_newton.py", S + "gradient_methods.py", S + "bisection.py",
     S + "golden.py", S + "nelder_mead.py", S + "optax.py", S + "best_so_far.py", S + "newton_chord.py", S + "fixed_point.py"],
    [("solve loop", "optimistix/_iterate.py"), ("solver states", S + "quasi_newton.py")],
    ["iterates, stop answers and returned states"],
)

prop(
    "C29",
    "Mirroring, reordering or rescaling a problem does the same to its solve",
    "Negating or reordering unknowns, or residuals and equations, of a problem negates or reorders every iterate "
    "of its solve and changes neither stops nor outcomes, for every method that uses derivatives (indirect damping apart), fixed-point "
    "iteration and (with its interval mirrored) bisection. Measuring unknowns and residuals in another unit, a power "
    "of two (objectives in its square), with absolute tolerances in that unit or zero, gives the same run in the new "
    "unit for all methods but Adam and indirect damping. The iterates of Newton, chord, Gauss-Newton, dogleg, "
    "golden-section, bisection and Nelder-Mead runs do not depend on the separate units of unknowns and values "
    "either, as long as neither steps nor gradients have reached rounding level.",
    ["inputs", "configurations"],
    "every problem and start of a family x solver x transformation in the tables",
    "Tests solve each problem in one orientation and one scale; a lost absolute value, a threshold with a hidden "
    "unit or a preference for one coordinate shows only when two solves are compared.",
    [S + "quasi_newton.py", S + "limited_memory_bfgs.py", S + "nonlinear_cg.py", S + "gauss_newton.py", S + "levenberg_marquardt.py",
     S + "dogleg.py", S + "trust_region.py", S + "backtracking.py", S + "newton_chord.py", S + "bisection.py", S + "golden.py",
     S + "nelder_mead.py", S + "fixed_point.py", "optimistix/_misc.py"],
    [("termination test", "optimistix/_misc.py"), ("update formulas", S + "quasi_newton.py"), ("search rules", S + "trust_region.py")],
    ["iterates and stop answers of pairs of runs"],
)

prop(
    "C30",
    "User-written searches and descents are driven by the documented protocol",
    "In every solver that takes a search and a descent, the search is called exactly once per step, with a flag that "
    "is true only the first time, the last accepted point, the trial point, function information at both, and its own "
    "state from its last call; the descent is initialised once, queried exactly when the search accepts, with the "
    "accepted point, function information there and its own state, and asked for one step of exactly the size the "
    "search chose, which is added to the last accepted point to give the next trial. A failure reported by the search, "
    "or else by the descent, ends the solve with that outcome. Iterate, auxiliary output, stop, step count and outcome "
    "are those of this protocol for every sequence of answers the search may give.",
    ["histories", "programs", "configurations"],
    "every script of acceptances and step sizes up to the bound, with and without a failure, x base class x problem x start x storage layout",
    "Tests only use the built-in searches and descents, whose answers are tied to the function, so most sequences of "
    "answers never occur and a wrong argument is hidden by a forgiving component.",
    [S + "quasi_newton.py", S + "limited_memory_bfgs.py", S + "gauss_newton.py", S + "gradient_methods.py", "optimistix/_search.py"],
    [("step of quasi-Newton solvers", S + "quasi_newton.py"), ("step of least-squares solvers", S + "gauss_newton.py"),
     ("step of gradient methods", S + "gradient_methods.py")],
    ["everything search and descent are told; iterates and stop answers"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
