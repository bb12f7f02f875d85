CLAIMS = {
 "P01": ("z3 (linear/nonlinear integer arithmetic with overflow obligations)",
         "All constructor forms and adjust() proved for all 32-bit ints; clang AST front end and the VC generator are trusted."),
 "P02": ("z3 (quantified ghost count arrays)", "All handle members, helpers and the node counters (including iterative release) proved; operator new/allocator assumed to return fresh storage."),
 "P03": ("z3 (data-structure invariant with ghost block set)", "Proved for requests of one block size; operator new assumed disjoint. Mixed sizes are a recorded known finding."),
 "P04": ("z3 (expression-node heap with ghost denotations)", "Every builder, operator and node value() proved for all operand kinds and real values; make_expression_ptr runs the node's own constructor; libm functions are uninterpreted with ground facts; rounding treated as exact; 0^0 and log(0) of constants lie outside the domain (the existing tests fix them to 0)."),
 "P05": ("z3 (class lattice over ghost polynomial degree)", "Every builder and node type() proved for all operand labels, by induction on construction; the library functions are assumed non-polynomial."),
 "P06": ("sympy (normal form 0 of derivative differences) and z3 (symbolic equals numeric)", "Every node class; value() and grad_*() are executed symbolically from the source and differentiated; points of non-differentiability excluded; rounding treated as exact."),
 "P07": ("z3 (ghost edge numbering and inductive loop invariants over the node heap, kind-based instantiation; induction lemmas by rank and position)", "Proved for all finite acyclic graphs; node methods enter by their contracts (P04, P06); rounding treated as exact; partial correctness."),
 "P08": ("z3 (ghost column/row arrays over the node heap, kind-based instantiation)", "Jacobian/Hessian construction, get() and value() proved for all sizes, all expression kinds and all distinct wrt lists; gradient values enter by P07's contracts; rounding treated as exact."),
 "P09": ("z3 (row-major numbering with inverse, kind-based instantiation; recursive list offsets)",
         "Every comparison operator, constraint constructor, make_constraints overload, list concatenation, bounds() and conversion to bool proved for all shapes and operand kinds instantiated; element access and differences enter by the contracts of P10 and P04; rounding treated as exact."),
 "P10": ("z3 (row-major numbering with inverse, nonlinear integer arithmetic, kind-based instantiation)",
         "Every element access, view constructor, block/segment/row/col/slice (of matrices and of views), iterator, matrix constructor and element-wise assignment proved for all shapes and positions; nested-list constructors are bounded (harness); index arithmetic assumed to fit in int."),
 "P11": ("z3 (element maps with kind-based instantiation; inductive partial sums)",
         "Every instantiated overload of + - * / (matrix, view, const view, Eigen, scalar operands), compound assignment including self-aliasing, transpose, transforms and constructors proved for all shapes; slp::block assembly is bounded (harness); element access enters by P10's contracts; rounding treated as exact."),
 "P12": ("sympy (polynomial identities in the entries of A and B)",
         "solve() executed from the source for orders 1 to 4 with a symbolic number of right-hand sides; A X - B has numerator polynomial 0 and every divisor is a nonzero multiple of det A; matrix operators enter by P11's contracts; rounding treated as exact; orders of five and more (Eigen QR) lie outside the statement."),
 "P13": ("z3 (extended reals)", "Rounding ignored; special values exact; library containers modelled."),
 "P14": ("z3 (loop invariant over reals)", "Machine arithmetic treated as real."),
 "P15": ("z3 (array/uninterpreted-reduction congruence over reals; IEEE specials explicit)", "All formulas of error_estimate/kkt_error proved for all sizes and entries; Eigen operations are assumed contracts (models); rounding treated as exact."),
 "P16": ("z3 (Houdini loop invariants, retry-progress variant)", "compute() of both factorizations, Inertia and the dispatch wrapper proved for all sizes; Eigen LDLT assumed by contract (any status, any diagonal)."),
 "P17": ("z3", "Proved for all sizes; Eigen products and norms modelled; rounding treated as exact."),
 "P18": ("z3 (loop invariants over the sparse traversal)", "Proved for all matrices; Eigen iterators modelled; rounding treated as exact."),
"P21": ("z3 (recursive layout functions, E-matching)", "Every number and shape of blocks proved (exact position of every entry, hence exactly once and in column-major order); Eigen iterators modelled."),
 "P19": ("z3 (loop invariants over bound arrays, E-matching)", "Proved for all constraint lists and coefficients; Variable value/type reads are contracts backed by P05/P07/P08; rounding treated as exact."),
 "P20": ("z3 (loop invariants over extended reals)", "Proved for all vectors, bounds and both constants; rounding treated as exact."),
 "P27": ("z3 (quantified arrays; LDLT solve by contract)", "Proved for all sizes; P21 assembly contracts reused; Eigen LDLT solve assumed exact when it reports success; rounding treated as exact."),
 "P22": ("z3 (loop invariants over uninterpreted linear algebra; IEEE specials explicit)", "newton, sqp, interior_point, feasibility_restoration and kkt_error under contract: whatever the linear algebra, the factorization, the filter and the user's functions return; termination and the diagnostics printed by the scope guard are not covered."),
 "P24": ("z3 (loop invariants)", "std::async/min_element modelled by contract."),
 "P26": ("z3", "The guarded action is an arbitrary callable; proved per member plus a history lemma."),
}
NA = {
 "P28": "Convergence of an interior-point/SQP method is a statement about limits of real analysis (regularity, second-order conditions); no contract on the code within reach of a deductive verifier expresses it, and floating-point rounding makes it false in general.",
 "P29": "Accuracy of the scaling-and-squaring Pade approximation to working precision is a floating-point error-analysis statement over transcendental functions; no available deductive back end decides it.",
}
