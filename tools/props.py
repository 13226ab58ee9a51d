AD = "include/sleipnir/autodiff/"
OPT = "include/sleipnir/optimization/"
SOL = OPT + "solver/"
UT = SOL + "util/"
REAL = "for every assignment of real numbers to the inputs"
PROPS = []
NA = {}
def P(id, title, statement, over, qtext, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, **kw))

P("A01", "Expressions evaluate to the mathematical value of the formula that built them",
  "An expression built from constants and variables with the arithmetic operators and math functions evaluates, for whatever values its variables hold at the time it is read, to the value of the formula as written; simplifications made while building it (for operands that are constants such as 0 or 1) never change that value wherever the formula is defined. Reading a value after variables change always reflects the newest variable values, also for intermediate expressions.",
  ["inputs", "programs"], "All operators and functions, every combination of constant/variable operands including special constants, all real values in the domain.",
  "Tests evaluate each operator at a few points with fixed operands; pruning rules and operand-type dispatch depend on the operand's values and kinds.",
  [AD + "expression.hpp", AD + "variable.hpp", AD + "expression_graph.hpp"],
  [("operator nodes and constant pruning", AD + "expression.hpp"), ("lazy value refresh", AD + "expression_graph.hpp update_values"), ("per-variable graph cache", AD + "variable.hpp value()")])
P("A02", "Gradients equal the exact partial derivatives of the expression",
  "The gradient of any expression with respect to any list of distinct variables equals the vector of its exact partial derivatives at the variables' current values, in the order requested, with zeros for variables the expression does not depend on. This holds however subexpressions are shared, and again after the variables' values change.",
  ["inputs", "programs", "histories"], "Every operator with every operand kind; all shared DAGs within the bound; all real values in the domain of differentiability.",
  "Derivative formulas are spot checked at single points; a wrong term that vanishes there, or accumulation errors on shared nodes, are invisible.",
  [AD + "gradient.hpp", AD + "jacobian.hpp", AD + "expression.hpp", AD + "expression_graph.hpp"],
  [("grad_l/grad_r per operator", AD + "expression.hpp"), ("reverse accumulation", AD + "expression_graph.hpp append_triplets"), ("linear rows cached once", AD + "jacobian.hpp")])
P("A03", "Jacobians contain exactly the partial derivatives of each row, at each update",
  "Every entry of a Jacobian equals the partial derivative of its row's expression with respect to its column's variable at the current variable values, for rows of every kind (constant, linear, quadratic, nonlinear) in any mix and order and for any order of distinct variables, including absent ones. Repeated evaluations after the variables move give the values at the new point.",
  ["inputs", "programs", "histories"], "All mixes of row kinds within the bound, all orders of variables, two successive points; all real values.",
  "Linear rows are cached and nonlinear rows are recomputed and merged; only particular mixes and single evaluations are tested.",
  [AD + "jacobian.hpp", AD + "expression_graph.hpp"],
  [("cached linear rows merged with recomputed rows", AD + "jacobian.hpp value()")])
P("A04", "Hessians equal the exact second derivatives; the lower form is their lower half",
  "The Hessian of any expression (with respect to distinct variables) equals the symmetric matrix of its exact second partial derivatives at the current variable values; when only the lower triangle is requested the result is exactly that triangle with nothing above the diagonal. This holds for all operators, operand kinds and sharing patterns.",
  ["inputs", "programs"], "Every operator with every operand kind; all DAGs within the bound; all real values where the second derivative exists.",
  "Second derivatives are checked for few formulas at few points; the symbolic-gradient tree each operator builds is separate code from its numeric gradient.",
  [AD + "hessian.hpp", AD + "expression.hpp", AD + "expression_graph.hpp"],
  [("grad_expr_l/grad_expr_r per operator", AD + "expression.hpp"), ("gradient tree generation", AD + "expression_graph.hpp"), ("lower-triangle assembly", AD + "hessian.hpp")])
P("A05", "Symbolic derivative trees are themselves correct expressions",
  "The derivative expressions returned for use in further formulas evaluate to the exact partial derivatives for the current variable values, and keep doing so after the variables change. They can be composed and differentiated again with exact results.",
  ["inputs", "programs", "histories"], "Operators and compositions within the bound; all real values, two successive points.",
  "Tests compare trees at the point where they were built.", [AD + "gradient.hpp", AD + "jacobian.hpp", AD + "hessian.hpp", AD + "variable_matrix.hpp"],
  [("gradient tree generation", AD + "expression_graph.hpp generate_gradient_tree"), ("get()", AD + "gradient.hpp, jacobian.hpp, hessian.hpp")])
P("A06", "Expression classification never claims less than the truth",
  "An expression classified as constant, linear or quadratic really is of at most that degree in its variables, so derivatives treated as constant on that basis never go stale; sums, products, quotients and functions of simple operands are classified as tightly as their documented rule gives.",
  ["inputs", "programs"], "All operators on operands of every class, and expression trees within the bound; all real values.",
  "Misclassification only shows when the variables move after derivative caching; tests read types of a few formulas.",
  [AD + "expression.hpp", AD + "expression_type.hpp", AD + "jacobian.hpp", AD + "hessian.hpp"],
  [("type() per node", AD + "expression.hpp"), ("caching decisions", AD + "jacobian.hpp, hessian.hpp")])
P("A07", "Evaluation leaves no residue: results depend only on current variable values",
  "Values, gradients, Jacobians and Hessians depend only on the expression and the variables' current values, not on which other expressions sharing the same nodes were evaluated before, in which order, or how many derivative objects exist. Interleaving evaluations of several overlapping objects gives each the same result as evaluating it alone.",
  ["histories", "inputs"], "All interleavings within the bound of value, gradient, Jacobian and Hessian evaluations on overlapping expressions; all real values.",
  "Adjoint and index scratch fields live in shared nodes; stale scratch only shows for particular interleavings.",
  [AD + "expression_graph.hpp", AD + "expression.hpp", AD + "variable.hpp", AD + "jacobian.hpp", AD + "hessian.hpp"],
  [("adjoint/column scratch reset", AD + "expression_graph.hpp, jacobian.hpp"), ("topological order counters", AD + "expression_graph.hpp topological_sort")])

MAT = [AD + "variable_matrix.hpp", AD + "variable_block.hpp"]
P("M01", "Matrix expression arithmetic computes every element as linear algebra defines it",
  "Sums, differences, products, scalings, quotients and transposes of matrices, blocks and scalars, in expression or numeric form and in any mix, have exactly the shape and element values linear algebra defines. The compound forms give the same result as the corresponding plain forms, also when an operand is the matrix itself, its transpose, or one of its own elements.",
  ["inputs", "programs"], "All shapes up to 3x3 and operand-kind mixes within the bound, all aliasing choices listed, all real element values.",
  "Tests use one shape and one set of numbers per operator; aliasing and mixed operand kinds are separate code paths.",
  MAT, [("operators", AD + "variable_matrix.hpp"), ("compound assignment", AD + "variable_matrix.hpp, variable_block.hpp")])
P("M02", "Indexing, slicing and blocks address exactly the elements they name",
  "Every way of selecting part of a matrix (element, block, row, column, segment, slice, nested selections) reads and writes exactly the elements it names and no others, sharing them with the parent; construction from lists, arrays and numeric matrices and iteration visit elements in row order. Assigning through a view changes only the viewed elements.",
  ["inputs", "programs"], "All selections (offsets, sizes, strides, negative indices) of small matrices, nested twice; all element values.",
  "Index arithmetic bugs only show for particular offsets and strides, in particular nested ones; tests sample a few.",
  MAT + [AD + "slice.hpp"], [("offset arithmetic", AD + "variable_block.hpp"), ("views and slices", AD + "variable_matrix.hpp")])
P("M03", "Slices resolve start, stop and step exactly as Python does",
  "For every start, stop, step (each possibly omitted, negative or out of range) and every sequence length, resolving a slice yields the same first index, end and element count as the equivalent Python slice, with every produced index in range; a zero step is rejected.",
  ["inputs"], "All 32-bit start, stop and step values and all non-negative lengths.",
  "Tests check a handful of start/stop/step triples for one length.",
  [AD + "slice.hpp"], [("clamping and length", AD + "slice.hpp adjust"), ("constructors", AD + "slice.hpp")])
P("M04", "The symbolic linear solve returns the exact solution of the system",
  "Solving A X = B symbolically returns expressions X that satisfy A X = B whenever A is invertible and the elimination is defined at the current values, for every number of right-hand-side columns, and they remain solutions when the variables change. Constants and variables may be mixed in both sides.",
  ["inputs", "programs"], "Square systems up to 4x4 with one or two right-hand sides, all real coefficients with non-zero determinant.",
  "Tests solve one fixed system per size; closed forms for 1..4 contain long cofactor expressions whose terms vanish for simple systems.",
  [AD + "variable_matrix.hpp"], [("closed-form inverses", AD + "variable_matrix.hpp solve")])
P("M05", "Block assembly and elementwise maps place every element correctly",
  "Building a matrix from a nested list of blocks, reducing elementwise with a user function, and the zero/one constructors give the shape and element order the layout describes, sharing the given elements rather than copying values.",
  ["inputs", "programs"], "All block layouts within the bound and all element values.",
  "One layout is tested.", [AD + "variable_matrix.hpp"], [("block assembly", AD + "variable_matrix.hpp block"), ("elementwise reduce", AD + "variable_matrix.hpp cwise_reduce")])
P("C01", "A constraint means exactly the relation the user wrote",
  "Comparing expressions, matrices, blocks or numbers with ==, <, <=, > or >= yields one scalar constraint per element pair whose stored expression is zero (equalities) or non-negative (inequalities) exactly when the written relation holds, with scalars compared to every element. Testing a constraint's truth value at the current variable values agrees with the relation, and concatenated constraints and bounds keep all parts in order.",
  ["inputs", "programs"], "Every operator with every operand-kind pair, shapes up to 2x2, all real values.",
  "Tests check truth values at a few points; a flipped sign or missing element for one operand pairing is invisible.",
  [AD + "variable.hpp"], [("make_constraints and comparison operators", AD + "variable.hpp"), ("constraint sets", AD + "variable.hpp EqualityConstraints/InequalityConstraints")])

PB_ = OPT + "problem.hpp"
P("P01", "Solvers get exactly the stated problem and their answer is written back",
  "The cost, constraints, gradient, Jacobians and Hessians that a solve evaluates at any point are exactly those of the stated problem (negated for maximisation), up to the positive scale factors it announces, with constraints and variables in the order they were added. Solving starts from the variables' current values and afterwards the variables hold the solver's final point; solving again after changing the problem uses the changed problem.",
  ["inputs", "programs", "histories"], "Problems with three variables in several layouts, up to two constraints of each kind from a menu of formulas; every evaluation point, multiplier and solver answer.",
  "Tests only look at final solutions, which hide sign and scale errors that cancel or merely slow convergence.",
  [PB_], [("matrix callbacks", PB_ + " solve"), ("write-back", PB_ + " solve")])
P("P02", "Problem classification and solver choice follow the problem's actual content",
  "The reported kinds of the cost and constraints are the most general kind among their parts; a problem with nothing but constants is accepted without iterating and leaves variables untouched; otherwise inequality, equality and unconstrained problems each go to the method that honours all of their constraints, and the method's exit status is returned.",
  ["programs"], "All mixes of cost and constraint kinds within the bound.",
  "Tests cover some mixes through full solves.", [PB_], [("type queries", PB_), ("dispatch", PB_ + " solve")])
P("P03", "User callbacks run in order, with the right lifetime, and can stop the solve",
  "On every iteration all registered callbacks run in the order they were added, normal ones before persistent ones, with the answer each gave available to the solver; clearing removes only normal callbacks. Solver options reach the solver unchanged.",
  ["histories", "programs"], "All sequences of up to four registrations with an optional clear, every answer pattern, two solves, each solver.",
  "Tests register one or two callbacks.", [PB_], [("callback lists", PB_ + " add_callback/solve")])
P("P04", "Bound constraints are detected exactly and conflicting bounds reported",
  "A constraint is treated as a bound exactly when it restricts one variable linearly, the tightest bound on each side is found, and a problem is reported globally infeasible before iterating exactly when some variable's bounds exclude every value. Moving the starting point inside its bounds never violates them and leaves comfortably interior points unchanged.",
  ["inputs", "programs"], "Two or three constraints from a menu of forms over two variables, all real coefficients and variable values; all points and bounds for the projection.",
  "Tests list a few bound sets; conflicts depend on coefficient signs, order and values.",
  [UT + "bounds.hpp", PB_], [("bound detection", UT + "bounds.hpp get_bounds"), ("projection", UT + "bounds.hpp project_onto_bounds")])

IP, SQP, NEW = SOL + "interior_point.hpp", SOL + "sqp.hpp", SOL + "newton.hpp"
P("S01", "Reporting success means the optimality conditions hold at the returned point",
  "Whenever a solver reports success, the point it returns and the multipliers it holds satisfy the first-order optimality conditions of the stated problem (stationarity, feasibility, complementarity, in the problem's own units) to within the requested tolerance.",
  ["inputs", "histories"], "Every answer the problem's functions could give (arbitrary values, gradients, Jacobians, Hessians at every point visited), arbitrary step sizes, within the iteration bound.",
  "Tests check that known problems reach known optima; they cannot show that no problem makes a solver claim success wrongly.",
  [IP, SQP, NEW, UT + "kkt_error.hpp"], [("termination test", "interior_point.hpp, sqp.hpp, newton.hpp"), ("error measure", UT + "kkt_error.hpp")])
P("S02", "Every other exit status is reported exactly when its cause occurred",
  "A stop requested by a callback ends the solve immediately with the corresponding status; exceeding the iteration limit, running out of time, a non-finite starting point, more equality constraints than variables, and diverging iterates are each reported as such, and the iteration limit is never overrun. The returned point is the last accepted one.",
  ["inputs", "histories", "schedules"], "Every answer the problem's functions could give, every callback answer, every clock reading, within the iteration bound.",
  "Each cause is tested by one problem at most; combinations and orders are not.",
  [IP, SQP, NEW, OPT + "solver/exit_status.hpp"], [("exit checks", "interior_point.hpp, sqp.hpp, newton.hpp")])
P("S03", "Interior-point iterates stay strictly interior",
  "At every iteration shown to the user all slack variables and inequality multipliers are strictly positive, steps respect the fraction-to-the-boundary rule, and the barrier parameter never increases nor falls below its floor.",
  ["inputs", "histories"], "All function values, all steps, within the iteration bound.",
  "Positivity is invisible in final answers; its loss shows up as rare divergence.",
  [IP, UT + "fraction_to_the_boundary_rule.hpp"], [("fraction-to-the-boundary rule", UT + "fraction_to_the_boundary_rule.hpp"), ("slack and dual updates", IP)])
P("S04", "The line-search filter never accepts a step that some earlier point dominates",
  "The filter accepts a trial point only if it is finite and acceptable to every remembered point and, when a sufficient decrease of the cost is expected, only with that decrease; remembered points that a new one dominates are dropped, and resetting forgets exactly the history. Points with excessive constraint violation are never accepted. Each solver asks about the current iterate and the trial point just evaluated, and never moves to a point with a non-finite cost or constraint.",
  ["inputs", "histories"], "All sequences of up to three additions and a query, all real costs, violations, step sizes and slopes, including non-finite values; the questions asked by the three solvers over their first two iterations, including corrected steps, steps taken anyway and restoration.",
  "Only exercised through full solves.", [UT + "filter.hpp", SOL + "newton.hpp", SOL + "sqp.hpp", SOL + "interior_point.hpp"], [("acceptance rule", UT + "filter.hpp try_add")])
P("S05", "The reported optimality error is the documented norm in the problem's own units",
  "The optimality error measures stationarity, feasibility and complementarity of the given point exactly as documented for each solver, is zero only at points satisfying all of them, and undoing the problem scaling restores the user's units for every quantity.",
  ["inputs"], "All values of gradients, Jacobians, constraints, slacks, multipliers and scales for dimensions up to two.",
  "Not unit-tested; an omitted term only delays or hastens termination.",
  [UT + "kkt_error.hpp", UT + "problem_scaling.hpp"], [("kkt_error", UT + "kkt_error.hpp"), ("unscaling", "kkt_error.hpp unscaled overloads")])
P("S06", "Automatic scaling bounds gradients without changing the problem",
  "Scale factors are always positive and at most one, bring any cost or constraint row whose gradient is larger than the threshold down to it, and leave smaller ones unscaled; the user-visible solution, multipliers and error do not depend on them.",
  ["inputs"], "All gradient and Jacobian values for dimensions up to three rows.",
  "Scaling is only covered indirectly by solves.", [UT + "problem_scaling.hpp", PB_], [("scale factors", UT + "problem_scaling.hpp")])
P("S07", "Linear solves return the solution of a system with the required inertia",
  "Factorising a Newton-KKT matrix either fails or leaves a system whose inertia matches the problem's dimensions, adding to the diagonal only what was needed (nothing when the matrix already qualifies), and the solve returns the exact solution of that regularised system. After a success with no regularisation the given matrix itself was used.",
  ["inputs", "histories"], "All symmetric matrices of dimension up to two or three with each split of variables and constraints; sparse and dense storage; successive calls.",
  "Tests factorise a few fixed matrices.",
  [UT + "regularized_ldlt.hpp", UT + "inertia.hpp"], [("regularisation loop", UT + "regularized_ldlt.hpp"), ("inertia count", UT + "inertia.hpp")])
P("S08", "Each iteration's step solves the Newton system of the current iterate",
  "The step direction each solver computes satisfies the linearised optimality conditions at the current iterate (with the regularisation in force), including the eliminated slack and multiplier components, and the new iterate is the old one plus one common step length along it.",
  ["inputs", "histories"], "All function values, multipliers and slacks for dimensions one or two; first iterations.",
  "A wrong block or sign still converges on easy problems, only slower.",
  [IP, SQP, NEW, UT + "append_as_triplets.hpp"], [("KKT assembly and right-hand side", "interior_point.hpp, sqp.hpp"), ("slack and multiplier steps", IP)])
P("S09", "Feasibility restoration poses the documented relaxed problem",
  "The problem solved while restoring feasibility minimises the total constraint violation plus a proximity term to the stalled point, with exactly consistent derivatives, starting from a point satisfying its constraints; on success the solve resumes from a strictly interior point, and a stop requested by the user during restoration ends the solve.",
  ["inputs", "histories"], "All stalled points, function values and derivatives for dimensions up to two.",
  "Restoration runs in few tests; inconsistent derivatives there go unnoticed.",
  [UT + "feasibility_restoration.hpp"], [("restoration problem", UT + "feasibility_restoration.hpp")])
P("S10", "Multiplier estimates are the least-squares optimal ones",
  "The multipliers estimated for a point minimise the documented least-squares measure of stationarity and complementarity for that point, for equality-only and mixed problems.",
  ["inputs"], "All gradients, Jacobians and slacks for dimensions up to two.",
  "Not unit-tested.", [UT + "lagrange_multiplier_estimate.hpp"], [("normal equations", UT + "lagrange_multiplier_estimate.hpp")])
P("S11", "Sparse assembly and feasibility tests compute what they claim",
  "Appending sparse blocks or diagonals to a triplet list places every entry at its offset; the norms, finiteness tests and local-infeasibility tests are true exactly under their documented conditions.",
  ["inputs"], "All small patterns and real entries, including non-finite ones.",
  "Exercised only inside full solves.",
  [UT + "append_as_triplets.hpp", UT + "all_finite.hpp", UT + "is_locally_infeasible.hpp", UT + "lp_norm.hpp"], [("triplet assembly", UT + "append_as_triplets.hpp"), ("infeasibility tests", UT + "is_locally_infeasible.hpp")])
P("S12", "Multistart returns the best successful start",
  "Solving from several starting points returns the result of one of them: a successful result whenever any start succeeded, and among those one with the lowest cost.",
  ["inputs", "schedules"], "Up to three starts with every combination of statuses and all real costs.",
  "One multistart problem is tested.", [OPT + "multistart.hpp"], [("result selection", OPT + "multistart.hpp")])
OC = OPT + "ocp.hpp"
P("O01", "Every transcription constrains the trajectory to the stated dynamics",
  "For each transcription method, timestep method and dynamics type, the constraints added to the problem are satisfied exactly by trajectories that follow the stated dynamics under that integration method, with the states, inputs, times and timesteps passed to user functions matching the step they belong to. Initial, final, bound and per-step constraints apply to exactly the steps they name.",
  ["inputs", "programs", "configurations"], "All method combinations, one or two steps, a two-state dynamics with time dependence; all real states, inputs and timesteps.",
  "Tests compare converged trajectories with loose tolerances; a wrong time argument or misplaced step is invisible for time-invariant dynamics.",
  [OC], [("transcriptions", OC)])
P("U01", "Shared expression nodes live exactly as long as they are referenced",
  "A shared object stays alive while any handle refers to it and is destroyed exactly once when the last one goes, whatever sequence of copies, moves, assignments (including self-assignment), swaps, releases and comparisons happens; no count is lost or duplicated.",
  ["histories"], "All sequences of handle operations within the bound, over all initial counts.",
  "Tests run a few fixed sequences.",
  ["include/sleipnir/util/intrusive_shared_ptr.hpp", AD + "expression.hpp"], [("reference counting", "include/sleipnir/util/intrusive_shared_ptr.hpp")])
P("U02", "The pool never hands out overlapping or undersized memory",
  "Every block the pool hands out is large enough for the object and disjoint from every other live block, freed blocks are reused, and destroyed expressions return their memory exactly once.",
  ["histories"], "All sequences of allocations and frees within the bound, all block sizes.",
  "Not unit-tested.", ["include/sleipnir/util/pool.hpp"], [("free list", "include/sleipnir/util/pool.hpp")])
P("U03", "Callable wrappers call their target and scope guards run exactly once",
  "A function reference forwards its arguments to the callable it currently refers to and returns its result, copies refer to the same callable; a scope guard runs its action exactly once when the scope ends unless released or moved from.",
  ["histories", "inputs"], "All operation sequences within the bound, all arguments.",
  "Tests run one or two sequences.",
  ["include/sleipnir/util/function_ref.hpp", "include/sleipnir/util/scope_exit.hpp"], [("type erasure", "include/sleipnir/util/function_ref.hpp"), ("guard", "include/sleipnir/util/scope_exit.hpp")])
P("U04", "Sparsity files record exactly the sign pattern of each matrix added",
  "The sparsity-pattern file of a solve has the documented header followed, for each iteration, by every stored coordinate with the sign of its value, so that reading the file back reproduces the pattern of each matrix.",
  ["inputs", "histories"], "All small patterns and signs, two successive matrices.",
  "Not unit-tested.", ["include/sleipnir/util/spy.hpp"], [("file format", "include/sleipnir/util/spy.hpp")])
P("D01", "Diagnostics report what happened without affecting the result",
  "Turning diagnostics on changes neither the status, the solution nor anything shown to callbacks, and with diagnostics off nothing is printed. What is printed is true: the summary names the configured exit conditions, the actual numbers of variables and constraints and their types, the solver invoked and the exit reason; there is one row per step (and per accepted second-order correction), showing the iteration number and type and the error, cost, infeasibility, complementarity and barrier parameter at the iterate reached, the regularization used and the norms of the step, and, for steps accepted by the line search, the step sizes and number of backtracks; infeasibility explanations appear exactly when infeasibility was found and list exactly the violated constraints with their values.",
  ["configurations", "inputs"], "The three solvers on every problem within the bounds with diagnostics off and on, every exit; all problem shapes within the bounds; all values.",
  "Output is not checked by any test, and tests do not compare runs with and without it.",
  [PB_, "include/sleipnir/util/print_diagnostics.hpp", SOL + "newton.hpp", SOL + "sqp.hpp", SOL + "interior_point.hpp", SOL + "exit_status.hpp"],
  [("printing", "include/sleipnir/util/print_diagnostics.hpp"), ("problem summary", PB_ + " print_problem_analysis()"), ("rows and explanations", SOL + "interior_point.hpp")])
P("B01", "The Python bindings expose the same behaviour as the C++ library",
  "Every operation offered to Python gives the same result as the C++ operation it wraps, for scalars, arrays and matrices in any accepted mix.",
  ["programs", "inputs"], "All bound operations and argument kinds.", "The Python tests are not part of the build here.", ["python/src"], [("bindings", "python/src")])
NA["B01"] = "The bindings are nanobind glue compiled against the CPython runtime; neither nanobind nor the Python headers' runtime can be executed symbolically here, and the module does not build offline."
