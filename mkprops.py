#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["include/sleipnir/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

I = ["inputs"]
p("P01", "Slice resolution matches Python slice semantics for every slice and length",
  "For every slice (any start, stop and step, given or omitted, including negative and extreme values) and every sequence length from 0 to INT_MAX, resolving the slice selects exactly the elements Python's slice selects, in the same order, and reports exactly their count. Every selected position is inside the sequence and no signed overflow occurs while resolving.",
  I, "all 32-bit start/stop/step values and all lengths 0..INT_MAX",
  "slice_test.cpp samples about forty (slice, length) pairs; the state space is 2^128 and the boundary behaviour is at INT_MIN/INT_MAX and at steps larger than the length.",
  ["autodiff/slice.hpp"], [("clamping per sign of step, count by rounded-up division", "Slice::adjust and the Slice constructors")],
  observe=["values of start, stop and the returned length after resolution"])
p("P02", "Shared-node handles keep the reference count equal to the live handles",
  "Every operation on a shared-node handle (construct, copy, move, assign, self-assign, swap, destroy, allocate) changes each node's reference count by exactly the change in the number of handles that point to it. Moving transfers the pointer without changing any count, assignment is safe even when the source is owned by the node being released, equality and truth tests agree with the pointers held, and no operation dereferences a null pointer.",
  ["inputs", "histories"], "all pairs of handles (null, equal, distinct, self) and all operations, hence all histories of operations by induction",
  "intrusive_shared_ptr_test.cpp runs fixed sequences; the invariant must survive every interleaving of copies, moves and assignments including aliasing ones.",
  ["util/intrusive_shared_ptr.hpp", "autodiff/expression.hpp"],
  [("increment before publish / decrement on release, move by exchange", "IntrusiveSharedPtr members")],
  observe=["ref_count of each node, pointer held by each handle"])
p("P03", "Pool never hands out a block that is still in use",
  "For requests of one block size, a pool block returned by an allocation is distinct from every block currently allocated, lies inside a buffer owned by the pool, and does not overlap any other block; releasing a block makes exactly that block available again. The reported number of blocks in use equals the number of outstanding allocations.",
  ["histories"], "all sequences of allocate/deallocate of any length, all pool sizes",
  "No test exercises the pool directly; overlap shows only after particular allocation/free orders and when a chunk is exhausted.",
  ["util/pool.hpp"], [("free list + chunk carving", "PoolResource::allocate/deallocate/add_chunk/blocks_in_use")],
  state=[("free list", "addresses available for reuse", "PoolResource::m_free_list"), ("buffers", "owned storage", "PoolResource::m_buffer")])
p("P04", "Building an expression never changes its mathematical value",
  "For all operands (constants, variables or compound expressions), the expression produced by +, -, *, /, unary +/-, +=, and every elementary function (abs, acos, asin, atan, atan2, cbrt, cos, cosh, erf, exp, hypot, log, log10, max, min, pow, sign, sin, sinh, sqrt, tan, tanh) evaluates to that mathematical function of the operands' values wherever it is defined, whatever simplifications are applied while building it, and for all later values of the variables in it.",
  I, "all operand kinds, all real operand values in the function's domain, all later variable values",
  "Tests evaluate each operator at a handful of points; pruning and constant folding depend on operand kind and special values (0, 1, -1, 2, equal operands) and must be right for every combination.",
  ["autodiff/expression.hpp"],
  [("pruning and constant folding in the friend operators and free functions", "Expression operators, abs..tanh, pow, hypot, atan2"), ("node value()", "*Expression::value")],
  observe=["Variable::value after update"])
p("P05", "An expression's declared class (constant/linear/quadratic/nonlinear) is sound",
  "Whatever operators and functions build an expression, if it is labelled constant its value does not depend on any variable, if labelled linear it is an affine function, and if labelled quadratic a polynomial of degree at most two of the decision variables. A label is never lower than the true class, so nothing computed once for a constant or linear expression can become stale.",
  ["inputs", "programs"], "all expression programs built from the API (by induction on construction)",
  "Tests check the label of a few dozen fixed expressions; solver selection and derivative caching rely on it for every expression a user can write.",
  ["autodiff/expression.hpp", "autodiff/expression_type.hpp"],
  [("type lattice in each operator/function", "Expression operators and function factories"), ("type() per node", "*Expression::type")],
  observe=["Variable::type, Problem::*_type"])
p("P06", "Every elementary operation's partial derivatives are correct",
  "For every operator and elementary function node, the numeric partial derivative with respect to each argument equals the mathematical derivative of the function the node evaluates, at every point where it is differentiable. The symbolic derivative expression built for higher-order differentiation evaluates to the same value as the numeric one at every such point.",
  I, "all real argument values where the function is differentiable, all node classes, all operand kinds for the symbolic form",
  "gradient_test.cpp checks each function at one or two points per branch; a derivative wrong in a sign, quadrant or special case passes there.",
  ["autodiff/expression.hpp"], [("grad_l/grad_r/grad_expr_l/grad_expr_r of each node", "*Expression classes")],
  observe=["Gradient::value, Hessian::value"])
p("P07", "Value updates and gradients visit the whole expression graph in order",
  "For every acyclic expression graph, including ones with shared subexpressions, updating a value evaluates every non-constant reachable node exactly once, after its operands, so the result equals the function of the current variable values; and reverse accumulation gives each node's adjoint as the sum over all paths to the root. The temporary per-node bookkeeping is restored afterwards so that later traversals start clean.",
  ["inputs", "programs", "histories"], "all finite acyclic expression graphs and all variable values",
  "Tests use small trees; correctness on shared subgraphs depends on an edge-counting argument over arbitrary DAGs.",
  ["autodiff/expression_graph.hpp", "autodiff/variable.hpp", "autodiff/gradient.hpp"],
  [("edge counting topological sort; reverse accumulation", "topological_sort, update_values, append_triplets, gradient_tree")],
  state=[("scratch", "incoming edge counter, -1 when idle", "Expression::scratch"), ("adjoint", "accumulated derivative", "Expression::adjoint")])
p("P08", "Jacobian and Hessian values are fresh after any change of variable values",
  "After any sequence of variable value changes and evaluations, the Jacobian and Hessian returned equal the matrices of first and second partial derivatives at the current variable values, with every entry at its own row and column; rows whose derivatives are cached because they are constant are identical to recomputed ones. A symmetric Hessian requested as one triangle contains exactly that triangle.",
  ["inputs", "histories"], "all output/input vectors, all row types, all sequences of evaluations",
  "Tests evaluate each matrix once or twice; staleness needs a later value change, and misplaced entries need particular row-type mixes.",
  ["autodiff/jacobian.hpp", "autodiff/hessian.hpp"],
  [("cached triplets for linear rows, nonlinear rows recomputed", "Jacobian ctor and value()"), ("triangular view", "Hessian::value")])
p("P09", "Constraints are stored as the exact comparison the user wrote",
  "For every comparison of scalars, matrices or views (all broadcast shapes), the resulting constraint list has exactly one entry per element, in order; each equality entry is zero exactly when the two elements are equal, and each inequality entry is nonnegative exactly when the written comparison holds, for <, <=, > and >= alike. Converting a constraint list to a truth value is true exactly when every entry is satisfied, and concatenating lists keeps every constraint.",
  I, "all shapes, all operand kinds (variable, matrix, view, number), all values",
  "constraints_test.cpp checks truth values of specific shapes at specific values; orientation and element pairing must hold for all.",
  ["autodiff/variable.hpp"],
  [("difference form and orientation", "detail::make_constraints, operator==/</<=/>/>=/bounds, EqualityConstraints/InequalityConstraints")],
  observe=["constraint lists, bool conversion"])
p("P10", "Matrix elements, slices and views address exactly the elements they name",
  "For every matrix shape and every in-range element, row, column, block, segment or slice (including slices of slices and negative steps), reading through the view yields, and writing through it changes, exactly the element of the underlying matrix at the corresponding position, and nothing else (assigning one view to an overlapping view at other positions of the same matrix is excluded). View dimensions equal the number of selected rows and columns, transposition swaps indices, and iteration visits the elements in row-major order.",
  I, "all shapes, all in-range indices and slices, nested views",
  "variable_matrix_test.cpp uses a few 3x3 examples; the index arithmetic must be right for all shapes and compositions.",
  ["autodiff/variable_block.hpp", "autodiff/variable_matrix.hpp"],
  [("start/step/length composition; row-major storage", "VariableBlock/VariableMatrix element access, operator[], block, segment, row, col, T")])
p("P11", "Matrix arithmetic computes the textbook element formulas",
  "For all conforming shapes and operand kinds (variable matrices, views, numeric matrices, scalars), sum, difference, negation, scaling, division by a scalar, matrix product, compound assignments, elementwise transform and reduction, block assembly, and the zero/ones/identity/constant constructors produce a matrix of the right shape whose every element is the textbook formula of the operand elements (compound assignment from a view overlapping the destination at other positions is excluded).",
  I, "all conforming shapes, all element values",
  "Tests check a few fixed small matrices; the element formula must hold at every index of every shape.",
  ["autodiff/variable_matrix.hpp", "autodiff/variable_block.hpp"],
  [("element loops", "VariableMatrix operators, cwise_transform, cwise_reduce, block, zero, ones, identity")])
p("P12", "Symbolic linear solve satisfies A X = B exactly for small systems",
  "For every square system of order one to four with nonzero determinant and any right-hand side shape, the symbolic solution X satisfies A X = B identically in the entries of A and B.",
  I, "all real A (order 1-4, nonsingular) and B",
  "Tests check one numeric system per order; a wrong cofactor can cancel at particular values.",
  ["autodiff/variable_matrix.hpp"], [("closed-form adjugate formulas", "slp::solve")])
p("P13", "The line-search filter accepts exactly the steps its rule allows",
  "A trial step is accepted only if its cost and constraint violation are finite, the violation is within the filter's bound, no retained entry dominates it, and it makes sufficient progress (the Armijo decrease when the switching condition holds, otherwise a sufficient decrease of cost or violation relative to the current iterate). When an accepted step augments the filter, exactly the retained entries dominated by the added entry are dropped; a rejected step leaves the filter unchanged, and resetting empties it.",
  ["inputs", "histories"], "all filter contents, all current/trial entries including non-finite values, all step sizes",
  "No unit test covers the filter; its acceptance region must hold for every filter history.",
  ["optimization/solver/util/filter.hpp"], [("acceptance tests and dominance pruning", "Filter::try_add/add/reset, FilterEntry")],
  state=[("filter entries", "retained (cost, violation) pairs", "Filter::m_filter")])
p("P14", "Step-length rule keeps the interior iterates strictly positive and is maximal",
  "For every positive vector, every step and every tau in (0,1], the returned step size is in (0,1], keeps every component at least (1-tau) times its old value, and is the largest step size in (0,1] that does so.",
  I, "all dimensions, all positive vectors, all steps, all tau in (0,1]",
  "No unit test covers it; it must hold for every dimension and component order.",
  ["optimization/solver/util/fraction_to_the_boundary_rule.hpp"], [("running minimum over components", "fraction_to_the_boundary_rule")])
p("P15", "Reported optimality error equals the documented KKT error formula",
  "For every iterate and each problem class (unconstrained, equality-constrained, inequality-constrained), the optimality error is the documented norm of stationarity, primal feasibility and complementarity residuals with the documented scaling; it is zero only where all of these residuals are zero. The unscaled error is the same formula applied to the quantities with problem scaling undone.",
  I, "all dimensions, all gradients, Jacobians, multipliers, slacks and scaling factors",
  "No unit test covers the formula; a missing term shows only on problems where that residual dominates.",
  ["optimization/solver/util/kkt_error.hpp"], [("residual norms and scaling factors", "kkt_error, unscaled_kkt_error")])
p("P16", "Regularized factorization succeeds only with the required inertia",
  "Whenever the regularized factorization reports success, the factored matrix is the input plus the reported regularization (nonnegative on the decision-variable block, nonpositive on the constraint block) and its inertia is exactly the ideal one; otherwise it reports failure. The inertia counts classify every diagonal entry as exactly one of positive, negative or zero.",
  I, "all matrices and all factorization outcomes at each attempt",
  "inertia_test.cpp checks formatting and fixed matrices; the retry loop must be right for every sequence of factorization outcomes.",
  ["optimization/solver/util/regularized_ldlt.hpp", "optimization/solver/util/dense_regularized_ldlt.hpp", "optimization/solver/util/sparse_regularized_ldlt.hpp", "optimization/solver/util/inertia.hpp"],
  [("escalating regularization with inertia check", "*RegularizedLDLT::compute"), ("sign counting", "Inertia")])
p("P17", "Local infeasibility is reported exactly under the documented condition",
  "Equality constraints are reported locally infeasible exactly when there is at least one, the gradient of the squared violation is below its threshold and the violation is above its threshold; inequality constraints likewise using only their violated part. Satisfied constraints are never reported infeasible.",
  I, "all dimensions, Jacobians, constraint values and slacks",
  "Tests reach it only through a few infeasible problems.",
  ["optimization/solver/util/is_locally_infeasible.hpp"], [("stationary-violation tests", "is_equality_locally_infeasible, is_inequality_locally_infeasible")])
p("P18", "Automatic scaling factors bound every starting gradient",
  "For every problem, each scaling factor (cost and each constraint) is in (0,1], multiplies the largest component of its own starting gradient to at most 100, and is exactly 1 when that component is already at most 100; there is one factor per constraint.",
  I, "all gradients and Jacobians of all sizes",
  "Tests reach it only through whole solves, where a wrong factor still converges.",
  ["optimization/solver/util/problem_scaling.hpp", "optimization/solver/util/sparse_inf_norms.hpp"], [("row infinity norms", "sparse_inf_norms"), ("min(1, g_max/norm)", "ProblemScaling constructors")])
p("P19", "Detected variable bounds are the tightest ones the constraints imply",
  "For every list of inequality constraints, the bound pair detected for each decision variable is the tightest implied by the constraints that are affine in that single variable (and infinite when there is none), a conflict is reported exactly when some variable's lower bound exceeds its upper bound and every reported pair is a lower and an upper bound of one variable that cross, and exactly those constraints are marked as bounds. Detecting bounds leaves every variable's value unchanged.",
  I, "all constraint lists, coefficients and variable values",
  "bounds_test.cpp checks a few lists; sign, order and repetition of constraints must not matter.",
  ["optimization/solver/util/bounds.hpp"], [("single-nonzero affine row detection", "get_bounds")])
p("P20", "Initial point projection puts every variable strictly inside its bounds",
  "For every finite starting value and every non-conflicting bound pair (either side possibly infinite), the projected starting value is strictly between the bounds when they differ and equals them when they coincide, and values already far enough inside are unchanged.",
  I, "all starting values and all bound pairs",
  "bounds_test.cpp projects a few vectors.",
  ["optimization/solver/util/bounds.hpp"], [("kappa-based projection", "project_onto_bounds")])
p("P21", "Sparse assembly places every entry of every block exactly once",
  "For every offset and list of vertically stacked sparse blocks, assembling them into triplets yields exactly the blocks' stored entries, each once, in column-major order and at the offset position of its block; diagonal assembly places element i at the i-th diagonal position from the offset. Entries appended earlier are unchanged, and finiteness tests examine every stored entry.",
  I, "all sparse matrices, offsets and block lists",
  "Tests reach it only through whole solves.",
  ["optimization/solver/util/append_as_triplets.hpp", "optimization/solver/util/all_finite.hpp"], [("column-major walk", "append_as_triplets, append_diagonal_as_triplets, all_finite")])
p("P22", "Solvers report success only for points that meet the tolerance",
  "Whichever solver runs, success is returned only when the optimality error evaluated from derivatives and constraint values at the returned point is within the requested tolerance; every other outcome is reported with its own exit status, a user callback requesting a stop always ends the solve with that status, no more than the requested number of iterations is performed (at least one is), and a problem with more equality constraints than variables, or a starting point with non-finite cost, constraint or derivative values, is refused with its own status.",
  ["inputs", "histories"], "all problems, all sequences of iterates, all factorization and line-search outcomes",
  "Tests solve a few dozen problems; stale derivative data or a misplaced check shows only on particular iteration histories.",
  ["optimization/solver/newton.hpp", "optimization/solver/sqp.hpp", "optimization/solver/interior_point.hpp", "optimization/solver/util/feasibility_restoration.hpp", "optimization/solver/util/kkt_error.hpp"],
  [("loop condition on the unscaled KKT error; ordering of exit checks; re-evaluation after each accepted step", "newton, sqp, interior_point")])
p("P23", "Problems are classified, dispatched and reported as the user stated them",
  "The reported cost and constraint classes are the highest class among the registered expressions, maximizing is minimizing the negated cost, every registered constraint reaches the solver, and the solver used is the one for the constraints present; a problem with nothing to solve succeeds without changing variables, and conflicting variable bounds are reported as globally infeasible.",
  ["inputs", "programs"], "all problems built with the API",
  "Tests build a few dozen problems.",
  ["optimization/problem.hpp"], [("type queries, dispatch on constraint presence", "Problem::minimize/maximize/subject_to/*_type/solve")])
p("P24", "Multistart returns the best successful result",
  "For every nonempty list of starting points, if any solve succeeds the result returned is a successful one with the lowest cost among the successful ones; otherwise it is one with the lowest cost. Every starting point is solved exactly once.",
  ["inputs", "schedules"], "all lists of results (any mix of statuses and costs, any order)",
  "multistart_test.cpp has one list with two successful results.",
  ["optimization/multistart.hpp"], [("minimum under a status-first ordering", "multistart")])
p("P25", "Optimal-control transcription encodes the integration scheme it names",
  "For every horizon length and dynamics function, each transcription method constrains (or, for single shooting, defines) every pair of consecutive states by the named scheme: RK4 for explicit ODE transcription and shooting, the discrete map for discrete dynamics, and Hermite-Simpson midpoint collocation, with the step's own time, input and timestep; per-step callbacks run once per step with matching state, input, time and timestep.",
  ["inputs", "programs"], "all horizon lengths, all dynamics functions, all timestep methods",
  "Tests solve four fixed OCPs, where a mis-indexed step or time argument can go unnoticed (time-invariant dynamics).",
  ["optimization/ocp.hpp"], [("per-step constraint loops", "OCP::constrain_*, rk4, for_each_step")])
p("P26", "Scope guards run their action exactly once unless released",
  "For every history of creating, moving and releasing scope guards, the guarded action runs exactly once when the last owning guard ends, and never if it was released.",
  ["histories"], "all histories of construct/move/release/destroy",
  "scope_exit_test.cpp checks two fixed histories.",
  ["util/scope_exit.hpp"], [("active flag transferred on move", "scope_exit")])
p("P27", "Multiplier estimates keep complementarity bounded and sizes consistent",
  "For every iterate with positive slacks and linearly independent equality-constraint gradients, the estimated inequality multipliers are positive and each multiplier times its slack stays within the fixed factor of the barrier parameter, and every estimate has one multiplier per constraint.",
  I, "all Jacobians, gradients, slacks and barrier parameters",
  "Reached only through feasibility restoration in whole solves.",
  ["optimization/solver/util/lagrange_multiplier_estimate.hpp"], [("least-squares solve then clamp", "lagrange_multiplier_estimate")])
p("P28", "The solver converges to a local minimum of well-behaved problems",
  "For every problem satisfying the usual regularity assumptions, the solver reaches a point within tolerance of a local optimum within its iteration limit.",
  I, "all regular problems",
  "Convergence is a property of the iteration in floating point over all problems; tests solve a fixed suite.",
  ["optimization/solver/interior_point.hpp", "optimization/solver/sqp.hpp", "optimization/solver/newton.hpp"], [("line search, filter, barrier updates", "solver loops")])
p("P29", "Matrix exponential of a symbolic matrix is accurate",
  "For every square matrix the symbolic exponential evaluates to the matrix exponential to working precision.",
  I, "all square matrices", "Tests check one or two matrices.",
  ["autodiff/variable_matrix.hpp"], [("Pade approximation", "slp::exp")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
