"""Text of the per-property sections of DESIGN.md: what is enumerated, the oracle, the
bounds, and why tests do not reach it."""

P = {
"C01": ("All scripts of a user-level solver: symbol k says what iterate k looks like (finite, NaN, infinite) and what the solver answers about it (go on, stop, stop with a failure, fail without stopping). Every script runs through every entry point, solver kind (native and converted), adjoint, step limit and error mode.",
 "An interpreter of the statement (about 40 lines) that walks the script.",
 "scripts up to the length and alphabet named in the evidence; limits 0, 1, ..., longer than the script, and none",
 "Unit tests see the loop only through real solvers, which never stop at the initial guess, fail without stopping, or return NaN on a chosen step."),
"C02": ("Every problem of a finite family (quadratics, flat, singular and nonconvex objectives; residual families), start, tolerance pair and norm, for every minimiser and least-squares solver, with a recording wrapper.",
 "numpy recomputes the tolerance test from the recorded iterates; the run must stop at exactly the first step that meets it.",
 "up to the recorded number of steps per solve; comparisons within 1e-6 of equality are counted as undecided",
 "Tests check that a solve converges, not at which step; stopping one step early or late, or in another norm, is invisible to them."),
"C03": ("Systems with and without roots, starts, tolerances, norms, every root finder, least-squares solver, minimiser and fixed-point solver, through both entry points.",
 "numpy recomputes residual and movement at the recorded iterates.",
 "as C02",
 "Tests solve solvable problems; a false success needs a problem without a root and a solver whose own test is met."),
"C04": ("Objectives whose auxiliary output is the point of evaluation itself (plus integers, booleans, nested data). Every problem, start, step limit, solver, entry point, conversion and wrapper.",
 "After every step the auxiliary output must be, bit for bit, the iterate the step started from.",
 "all step limits of the table, all prefixes of the runs",
 "Tests use a constant auxiliary output, which is right at every point."),
"C05": ("All scripts of losses over an alphabet with ties, NaN and infinities, played by a user-level solver inside each wrapper and entry point; real solvers wrapped and unwrapped.",
 "A scan for the first smallest loss.",
 "script length and alphabet in the evidence",
 "Tests wrap one converging solver, for which best, last and first coincide in the limit."),
"C06": ("An adversarial objective: every table giving each cell of the line an arbitrary value (better, equal, worse, NaN, both infinities) and slope, for every combination of solver, descent and search.",
 "No move to a larger, NaN or +infinite loss; a refused trial leaves the iterate and is followed by a shorter trial.",
 "table size and alphabets in the evidence",
 "The property speaks about arbitrary functions. Tests use smooth ones, on which refused trials are rare and never NaN."),
"C07": ("Searches are driven call by call through their public interface: every kind of function information, step, actual change (on, beside and between the cutoffs, NaN, infinite), first flag and preceding history.",
 "An interpreter of the documented rules; dyadic numbers make ties exact.",
 "histories up to the depth in the evidence",
 "Ties and cutoffs are reached with probability zero by running solvers."),
"C08": ("Every small integer Hessian, inverse Hessian and Jacobian (square, tall, wide, singular), gradient or residual and step size, for every descent; the same at scales 2^-16 and 2^16, and with a user-level linear solver that fails on some right-hand sides.",
 "The definition, in numpy (dense solves, path membership, model values).",
 "entries and step sizes in the evidence",
 "The branches of the dogleg and damped steps depend on inequalities between lengths which a few test problems do not cover."),
"C09": ("Every function given by nine values out of {-2, 0, 1}, in two interpolations, every initial guess on the grid, direction given or detected, several tolerances; expansion over monotone functions; refusal over pairs of end values.",
 "A monitor that follows the bracket along the evaluated points.",
 "3^9 tables, steps in the evidence",
 "Several sign changes, zeros at end points and midpoints, and plateaus are exactly the cases a random test function never has."),
"C10": ("Every table of eight cells over {0, 1, 2, inf} and unimodal functions with minima on a grid including both ends, on intervals all over the line.",
 "A monitor that follows the bracket; each new point must divide an admissible subinterval by the golden ratio.",
 "about 30 steps, where the point recursion is still accurate",
 "Ties, minima at the ends and shifted intervals."),
"C11": ("Objectives, starts, displacements, norms and tolerances in one to four dimensions; the solver is driven step by step.",
 "A numpy reference simplex; the stopping test is used as an observer of all vertices and values.",
 "runs are followed up to a tie or a comparison closer than rounding",
 "Tests only ask whether the end point is near the minimum, which wrong bookkeeping of vertices does not prevent."),
"C12": ("All 2x2 matrices with entries in {-1, 0, 1, 2} with quadratic parts, offsets, starts, bounds and both stopping tests; scalar equations that converge, cycle, creep and diverge; overdetermined and rank-deficient systems.",
 "numpy solves each linearisation exactly and recomputes each stopping decision.",
 "condition above 1e7 is not judged",
 "Divergence, singular steps and active bounds occur in no test."),
"C13": ("All affine maps of the plane over a small alphabet (contractions, rotations, expansions, identity) with a bounded nonlinearity; dampings, tolerances, norms, containers; maps of wrong structure.",
 "The definition, and the first step below tolerance.",
 "steps in the evidence", "The stop at exactly the first admissible step needs borderline cases."),
"C14": ("Every sequence of small integer (step, gradient change) pairs, fed to the update of each variant; complete runs; all quadratics of a grid with exact line minimisation.",
 "Dense textbook updates, secant rule, symmetry, definiteness, inversity.",
 "sequence length 5, dimensions 1 to 3", "Any matrix converges somehow; a wrong update only slows the solver down."),
"C15": ("Every sequence over an alphabet of pairs (some without positive curvature), long enough for the history to wrap twice, for history lengths one to five; complete runs.",
 "A dense reference that keeps a plain list.",
 "sequence length 11", "Tests never wrap the ring buffer with a skipped update at the seam."),
"C16": ("All gradient triples and gradient sequences over small integer alphabets, with every kind of function information; complete runs; all quadratics of a grid.",
 "A reference holding the previous gradient and direction; linear CG.",
 "sequence length 6", "A wrong beta still descends, because of the fallback, and converges."),
"C17": ("A polynomial family posed as all four kinds of problem on a grid of parameters, for every solver, mode, structure, tag, linear solver, context and way of passing parameters.",
 "Sensitivities coded by hand from the implicit function theorem.",
 "see evidence; only members reporting success are judged",
 "Tests compare a few problems with finite differences and a loose tolerance."),
"C18": ("Problems, starts, every step limit and every number of checkpoints of the tables through all entry points.",
 "JAX's derivative of the solver steps written out one after another.",
 "limits and checkpoints in the evidence", "Tests use one number of checkpoints and converged solves."),
"C19": ("Every (entry point, solver) pair that converts, every problem, start, norm and limit; what is passed through is observed by user-level solvers and adjoints.",
 "The same problem posed by hand.", "steps in the evidence", "Tests check only that converted solves converge."),
"C20": ("Every ordered batch up to a size over a pool of seven members that behave differently; partial batching, nesting, scan, map, conditional, interleaving, repetition.",
 "The single solve of each member.", "batch size 2 in every order, 3 in the thorough tier, and the full pool",
 "Interference needs a particular neighbour: one that fails, is not finite, or ends at another step."),
"C21": ("A family in four unknowns packed in every structure of a table, for every solver; precision modes and kinds of numbers.",
 "The run on a plain vector, element by element.", "steps in the evidence", "Each test uses one structure."),
"C22": ("A family of objectives, every iteration limit of a range; argument tuples, spellings, refused inputs.",
 "The recorded BFGS run cut at the limit; the objective; a numpy BFGS recursion.", "limits in the evidence",
 "Tests look at converged results, where trial and accepted point agree."),
"C23": ("Every solver with these options, option value and problem; functions with one mode only; refused values.",
 "The silent run and the recorded steps.", "steps in the evidence", "Verbose output is not tested for content."),
"C24": ("Optimisers (stateless, stateful, scheduled, line-searching, value-using), problems, starts and every limit of a range.",
 "The plain Optax loop outside the library.", "steps and limits in the evidence", "Tests check convergence of a few optimisers."),
"C25": ("Every vector over a small set in every structure; residual/Jacobian grids for each kind of linear operator, real and complex; every combination of point, step, bounds and offset.",
 "numpy.", "entries in the evidence", "The case distinctions form a grid that tests with a few vectors do not cover."),
"C26": ("Families of equations, residuals and objectives in three unknowns whose Jacobian is diagonal, triangular, tridiagonal, symmetric or definite by construction. Every problem and start is solved by every solver or descent that takes a linear solver, with every linear solver and tag set that fits.",
 "The recorded run with the default linear solver and no tags, itself compared with numpy solutions of the linearised equations for the Newton methods.",
 "3 unknowns, steps in the evidence; systems with condition above 1e6, and runs that change when their inputs move by a rounding unit, are not judged",
 "Tests leave the linear solver at its default and never compare two runs."),
"C27": ("Every descent and search with every kind of function information, in three structures, with and without compilation; every solver family assembled with every descent and search; every input and output shape for scalar methods and minimisers; every search parameter inside, on and outside its range.",
 "A table, taken from the documentation, of what each component needs.",
 "the tables in the check",
 "Tests use combinations that work."),
"C28": ("Every problem and start of a family is run by hand through the documented solver interface, everything being noted after every step; the entry point is called with every step limit of a table, and each cut solve is continued by hand from what it returned.",
 "The hand-driven run, which uses no part of the library's loop; it is replayed one compiled call at a time in plain Python.",
 "steps and limits in the evidence; runs that change when their inputs move by a rounding unit are not judged",
 "Tests never step a solver by hand and never use a returned state."),
"C29": ("Every problem and start of a family is run as it is and in every transformed form: all sign patterns and orders of the unknowns, signs and order of the residuals, common units 2^-7 and 2^9, and separate units where the method ignores them. All iterates and stop answers of each pair of runs are compared.",
 "The untransformed run of the same solver, mapped by the transformation. Signs and powers of two commute with floating-point arithmetic, so the comparison has no tolerance to speak of.",
 "steps in the evidence; runs that change when their inputs move by a rounding unit, and steps at rounding level, are not judged",
 "Tests never compare two runs and use one orientation and scale."),
"C30": ("The search is a script and the descent has a memory; both write down everything they are told. Every sequence of acceptances and step sizes, and sequences with a failure of search, descent or both at some step, are played on every base class that takes a search and a descent, by hand and through the entry point.",
 "The protocol of the documentation, executed in NumPy: which point, loss, gradient, Jacobian, slope and state each call must be told, and which trial, iterate, stop and outcome follow. Matrices given to the descent must be those given to the search later and obey the secant rule.",
 "steps, sizes and number of scripts in the evidence; at most one failure per script; the quick tier plays all scripts without failure but only a fixed quarter of those with one",
 "Tests use built-in searches, which never give most of these sequences of answers."),
}
