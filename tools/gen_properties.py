"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


C = "jaxfg/core/"
S = "jaxfg/solvers/"

prop(
    "C01",
    "Storage layouts partition the storage vector between the variables",
    "For any collection of distinct variables, a storage layout gives every variable one contiguous block whose length is the variable's dimension (its local dimension for a layout of local deltas), and the blocks are pairwise disjoint and together fill the storage vector exactly. Variables of one type are stored next to each other, the recorded start index and count of each type describe exactly that run, and enumerating the variables or the types yields ascending storage positions.",
    ["inputs"],
    "every finite sequence of distinct variables, of any number of types in any order, and any parameter and local dimensions; both kinds of layout",
    "The tests build layouts of at most three variables and never look at the indices themselves; a gap or an overlap needs a particular interleaving of types of different dimensions.",
    [C + "_storage_layout.py"],
    [("bucketing by type, then one running offset", C + "_storage_layout.py: StorageLayout.make")],
    ["StorageLayout.make(...): index_from_variable, index_from_variable_type, count_from_variable_type, dim, get_variables(), get_variable_types()"],
    [("index_from_variable", "start of each variable's block", C + "_storage_layout.py")],
)
prop(
    "C02",
    "Assignments return exactly the value stored for each variable",
    "Assignments built from a dictionary, from a partial dictionary plus defaults, or from defaults alone return, for every variable, exactly the value given for it (its type's default where none was given), both when looked up one by one and when all values of a type are fetched stacked, in the layout's enumeration order. Setting the value of one variable changes the value of that variable only.",
    ["inputs", "histories"],
    "every set of distinct variables of any types and dimensions, every dictionary of values, every sequence of set operations",
    "The tests only ever store defaults, and compare lookups with each other, for at most two variables of a single type.",
    [C + "_variable_assignments.py", C + "_storage_layout.py", C + "_variables.py"],
    [
        ("concatenation of flattened values in layout order", C + "_variable_assignments.py: make_from_partial_dict, make_from_defaults"),
        ("slice lookup and functional slice update", C + "_variable_assignments.py: get_value, get_stacked_value, set_value"),
    ],
    ["VariableAssignments.make_from_dict / make_from_partial_dict / make_from_defaults", "get_value, get_stacked_value, as_dict, set_value"],
    [("storage", "flattened values, block per variable", C + "_variable_assignments.py")],
)
prop(
    "C03",
    "Changing the storage layout preserves every variable's value",
    "Converting assignments, of values or of local deltas, to any other layout of the same variables yields assignments that use the requested layout and map every variable to exactly the same value as before. Converting to the layout they already have changes nothing.",
    ["inputs"],
    "every pair of layouts over the same set of variables, of any types and dimensions, and every storage vector",
    "One test permutes two variables of one scalar type, and looks at solver output only up to tolerance; permutations across types of different dimensions are never exercised.",
    [C + "_variable_assignments.py", C + "_storage_layout.py"],
    [("gather indices written block by block", C + "_variable_assignments.py: update_storage_layout")],
    ["VariableAssignments.update_storage_layout"],
)
prop(
    "C04",
    "Retraction moves each variable by its own local delta and nothing else",
    "Retracting assignments by local deltas gives every variable the value its own type's retraction produces from that variable's old value and that variable's own delta, whatever the order of variables in either layout, and keeps the storage layout of the assignments.",
    ["inputs"],
    "every set of variables of any types, value and local dimensions (which may differ), any two layouts of that set, any values and deltas",
    "Tests retract at most two poses of one type, always with the delta layout in the same order.",
    [C + "_variable_assignments.py"],
    [("per-type batched retraction over re-ordered deltas", C + "_variable_assignments.py: manifold_retract")],
    ["VariableAssignments.manifold_retract"],
)
prop(
    "C05",
    "Graph residual and cost are exactly the factors' own, whatever the stacking",
    "For any collection of factors and any assignments covering their variables, the whitened residual vector of the graph consists of exactly one block per input factor, and that block is the factor's own noise model applied to the factor's own residual at the current values of its own variables, in the factor's variable order. The cost is the sum of squares of that vector, so it does not depend on how factors are grouped, on the order in which factors were given, or on the layout of the assignments.",
    ["inputs", "configurations"],
    "every finite sequence of factors of any classes, arities, parameters, noise models and residual dimensions, over any variables, in any order; every assignment and layout",
    "Tests use at most four factors in two groups with unit noise and check that a solution improves; a factor stacked with the wrong parameters, read at the wrong indices or dropped shows only for particular mixtures of groups.",
    [C + "_stacked_factor_graph.py", C + "_factor_stack.py", C + "_factor_base.py"],
    [
        ("grouping by tree structure and leaf shapes", C + "_stacked_factor_graph.py: StackedFactorGraph.make"),
        ("parameter stacking and value indices", C + "_factor_stack.py: FactorStack.make"),
        ("vectorised residuals", C + "_factor_stack.py: compute_residual_vector; " + C + "_stacked_factor_graph.py: compute_whitened_residual_vector, compute_cost"),
        ("value tuples in the factor's order", C + "_factor_base.py: build_variable_value_tuple, get_variable_values_from_assignments"),
    ],
    ["StackedFactorGraph.make, compute_whitened_residual_vector, compute_cost"],
)
prop(
    "C06",
    "Graph Jacobian puts each factor's whitened block at its own rows and columns",
    "The sparse Jacobian of a graph consists of exactly the entries of each factor's Jacobian blocks, one block per variable of the factor, whitened by that factor's noise model with that factor's own slice of the residual. Each block lies in the rows that the factor occupies in the residual vector and in the columns that its variable occupies in the local storage layout; all other entries are zero and the shape is residual dimension by local storage dimension.",
    ["inputs", "configurations"],
    "every finite sequence of factors of any classes, arities, residual and local dimensions over any variables; every assignment and layout",
    "No test compares Jacobian entries with anything but themselves; wrong rows or columns need several groups of different dimensions, or factors sharing variables in different positions.",
    [C + "_factor_stack.py", C + "_stacked_factor_graph.py"],
    [
        ("coordinates per group and variable", C + "_factor_stack.py: compute_jacobian_coords; " + C + "_stacked_factor_graph.py: make"),
        ("values in the same order", C + "_stacked_factor_graph.py: compute_whitened_residual_jacobian; " + C + "_factor_stack.py: compute_residual_jacobian"),
    ],
    ["StackedFactorGraph.compute_whitened_residual_jacobian"],
    [("jacobian_coords", "row and column of every stored value", C + "_stacked_factor_graph.py")],
)
prop(
    "C07",
    "Default factor Jacobians are derivatives with respect to the local deltas",
    "For a factor that does not supply its own Jacobians, the Jacobian with respect to each of its variables is the derivative of the factor's residual with respect to that variable's flattened value, multiplied by the derivative of that variable's retraction at zero delta. There is one matrix per variable, in the factor's order, of shape residual dimension by local dimension.",
    ["inputs", "programs"],
    "every user-defined differentiable residual, every arity, every value structure (any number of leaves of any shape) and every retraction",
    "One test uses automatic Jacobians, with an identity retraction, and checks only that the solver improves; leaf order and non-trivial retraction Jacobians are not exercised.",
    [C + "_factor_base.py", C + "_variables.py"],
    [("chain rule over concatenated leaves", C + "_factor_base.py: compute_residual_jacobians"), ("retraction derivative", C + "_variables.py: manifold_retract_jacobian")],
    ["FactorBase.compute_residual_jacobians", "VariableBase.manifold_retract_jacobian"],
)
prop(
    "C08",
    "Built-in prior and between factors have the documented residuals and Jacobians",
    "A prior factor's residual is the logarithm of the inverse of the variable's value times its mean, and a between factor's residual is the logarithm of the inverse of the relative transform from a to b times its measurement, for every supported group. Their hand-written Jacobians equal the derivative of that residual with respect to right-perturbations of each variable wherever the residual is zero.",
    ["inputs"],
    "all group elements of SO(2), SE(2), SO(3), SE(3) and all measurements (Jacobians: all those with zero residual)",
    "The tests evaluate the factors near the identity of SE(2) only, and only through the cost going down.",
    ["jaxfg/geometry/_factors.py", "jaxfg/geometry/_lie_variables.py"],
    [("residuals and analytical Jacobians", "jaxfg/geometry/_factors.py: PriorFactor, BetweenFactor"), ("right-plus retraction", "jaxfg/geometry/_lie_variables.py: LieVariableBase")],
    ["PriorFactor / BetweenFactor: make, compute_residual_vector, compute_residual_jacobians"],
)
prop(
    "C09",
    "Sparse matrix operations agree with the matrix the entries describe",
    "A coordinate-format matrix stands for the dense matrix in which entries with the same coordinate are added up; densifying, converting to and from scipy, transposing, and multiplying by a vector all agree with that matrix. The product with a vector has one entry per row, also for rows without entries, and is not rounded to the vector's type.",
    ["inputs"],
    "every shape, every number and order of entries including repeated and missing coordinates, all values, all vectors",
    "The sparse tests use one 20-by-5 pattern per run without repeated coordinates, and never call the dense conversion on its own.",
    ["jaxfg/sparse/_sparse_matrix.py"],
    [("scatter-add products, coordinate swap", "jaxfg/sparse/_sparse_matrix.py: SparseCooMatrix")],
    ["SparseCooMatrix.__matmul__, T, as_dense, as_scipy_coo_matrix, from_scipy_coo_matrix"],
)
prop(
    "C10",
    "Linear solvers solve the documented damped normal equations",
    "Given a Jacobian A, a right-hand side and a damping value, the CHOLMOD solver returns the solution of (A^T A + (damping + 1e-5) I) x = rhs, for every call and not only for the first one made with that solver object. The conjugate gradient solvers solve (A^T A + damping * diag(A^T A)) x = rhs from a zero initial guess, up to their configured tolerance (for the inexact variant: its parameter divided by the iteration number counted from one), with a preconditioner that does not change the solution.",
    ["inputs", "histories"],
    "every full-rank sparse matrix without repeated coordinates, every right-hand side, damping >= 0 and iteration number; any sequence of calls",
    "The tests solve a single random system with zero damping at iteration zero, once per solver.",
    ["jaxfg/sparse/_linear_solve.py", "jaxfg/sparse/_sparse_matrix.py"],
    [
        ("host callback, symbolic analysis cached per solver", "jaxfg/sparse/_linear_solve.py: CholmodSolver"),
        ("matrix-free operator and Jacobi preconditioner", "jaxfg/sparse/_linear_solve.py: _ConjugateGradientSolver"),
    ],
    ["CholmodSolver / ConjugateGradientSolver / InexactStepConjugateGradientSolver .solve_subproblem"],
    [("_cholmod_analyze_cache", "symbolic factorisation per solver object", "jaxfg/sparse/_linear_solve.py")],
)
prop(
    "C11",
    "Gaussian whitening realises the Mahalanobis distance",
    "For a Gaussian noise model built from a covariance, full or diagonal, the squared norm of the whitened residual is the residual's Mahalanobis distance under that covariance, and the model's residual dimension is the size of the covariance. Whitening a Jacobian applies the same linear map to each of its columns.",
    ["inputs"],
    "every dimension, every positive definite covariance (positive diagonal), every residual and Jacobian",
    "All tests but two use the identity covariance, for which a transposed or inverted square root is invisible.",
    ["jaxfg/noises/_gaussians.py"],
    [("square root precision", "jaxfg/noises/_gaussians.py: Gaussian, DiagonalGaussian")],
    ["Gaussian / DiagonalGaussian: make_from_covariance, whiten_residual_vector, whiten_jacobian, get_residual_dim"],
)
prop(
    "C12",
    "Huber noise weights residual and Jacobian by the same Huber weight",
    "With w the residual whitened by the wrapped noise model and d the threshold, the Huber model returns w unchanged when its norm is below d and otherwise w scaled by the square root of d divided by the norm of w. The Jacobian whitened with that residual, as in a graph's linearisation, is the wrapped model's Jacobian scaled by the same weight, so the gradient of the linearised problem is the gradient of the Huber loss.",
    ["inputs"],
    "every wrapped Gaussian noise model, every threshold > 0, every residual (inside, outside and on the threshold) and Jacobian",
    "One test compares errors with and without a single far outlier, by a factor of 100.",
    ["jaxfg/noises/_huber.py", C + "_stacked_factor_graph.py"],
    [("square-root reweighting", "jaxfg/noises/_huber.py: HuberWrapper")],
    ["HuberWrapper.whiten_residual_vector, whiten_jacobian, get_residual_dim; graph Jacobian"],
)
prop(
    "C13",
    "Joint negative log-likelihood adds each factor's distance and log determinant",
    "For a graph whose noise models are Gaussian, full or diagonal in any mixture, the joint negative log-likelihood is the sum over all factors of the squared whitened residual plus the log determinant of that factor's covariance. Asking for constant terms is refused, and other noise models are refused rather than silently mis-counted.",
    ["inputs", "configurations"],
    "every graph over Gaussian and diagonal Gaussian factors, every assignment",
    "Tests only compare two evaluations of the same graph, so the log-determinant terms cancel.",
    [C + "_stacked_factor_graph.py"],
    [("per-stack log determinants", C + "_stacked_factor_graph.py: compute_joint_nll")],
    ["StackedFactorGraph.compute_joint_nll"],
)
prop(
    "C14",
    "Solver state always describes its own assignments, and updates by one step",
    "For all four nonlinear solvers, the initial state and the state after every iteration hold the whitened residual vector and the cost of exactly the assignments they hold, and the iteration count grows by one per iteration. Each iteration linearises the graph at the current assignments, hands the linear solver that Jacobian, the negative gradient, the iteration number and the solver's damping (none, except for Levenberg-Marquardt), and retracts the current assignments by the resulting step; Levenberg-Marquardt and dogleg either take the whole update or keep the old assignments.",
    ["inputs", "histories"],
    "every graph, every assignment, every solver configuration and linear solver, every iteration including ones after rejected steps",
    "The solver tests solve one two-pose graph in which no step is ever rejected, and look at the final cost only.",
    [S + "_gauss_newton_solver.py", S + "_fixed_iteration_gauss_newton_solver.py", S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py"],
    [("state construction", S + "*_solver.py: _initialize_state, _step")],
    ["NonlinearSolverState after each iteration"],
    [("residual_vector, cost, assignments", "must stay in step with each other", S + "_nonlinear_solver_base.py: NonlinearSolverState")],
)
prop(
    "C15",
    "Trust-region solvers accept only good steps and never increase the cost",
    "Levenberg-Marquardt and dogleg accept an update exactly when the ratio of actual to predicted cost change is at least the configured minimum, where the prediction is that of the linearised residual; hence, whenever the minimum is positive and the step lowers the predicted cost, no iteration increases the cost. After an accepted step Levenberg-Marquardt divides its damping by the factor; after a rejected one it multiplies it, limited to the configured range; dogleg halves its radius below a ratio of 0.25, enlarges it to at least three times the step length above 0.75, and keeps it otherwise.",
    ["inputs", "histories"],
    "every graph, assignment, step, solver configuration with positive minimum quality, and every previous damping or radius; all iterations",
    "No test ever sees a rejected step, nor the damping or the radius.",
    [S + "_mixins.py", S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py"],
    [("step quality ratio", S + "_mixins.py: compute_step_quality"), ("damping and radius updates", S + "_levenberg_marquardt_solver.py, " + S + "_dogleg_solver.py: _step")],
    ["solver state after each iteration; final cost"],
    [("lambd, radius", "trust region size", S)],
)
prop(
    "C16",
    "Dogleg steps stay inside the trust region, on the dogleg path",
    "Every step proposed by the dogleg solver has norm at most the current radius. It is the Gauss-Newton step when that lies within the radius; otherwise the steepest-descent step of optimal length cut to the radius when that alone reaches it; otherwise the point at distance exactly the radius on the segment from the steepest-descent point to the Gauss-Newton point.",
    ["inputs"],
    "every Jacobian, gradient and Gauss-Newton step with non-zero gradient curvature, every radius > 0",
    "The dogleg test runs one problem in which the initial radius matters at most once, and only looks at the final cost.",
    [S + "_dogleg_solver.py"],
    [("blending of Gauss-Newton and steepest descent", S + "_dogleg_solver.py: compute_dogleg_step")],
    ["step applied by DoglegSolver in one iteration"],
)
prop(
    "C17",
    "Solvers stop at the iteration limit, and early only when a criterion is met",
    "With an iteration limit of n >= 1 the iterative solvers take at most n steps, and the fixed-iteration solver takes exactly its configured number, unrolled or not. They stop earlier only if the last step satisfies one of the documented criteria (relative cost change, infinity norm of the retracted gradient once enough iterations have passed, step norm relative to the parameter norm), and trust-region solvers only if that step was accepted; when a criterion holds for such a step they do stop.",
    ["inputs", "histories"],
    "every graph, every tolerance and limit, every trajectory of iterates",
    "Tests never count iterations and never configure a tolerance or a limit.",
    [S + "_mixins.py", S + "_nonlinear_solver_base.py", S + "_fixed_iteration_gauss_newton_solver.py", S + "_gauss_newton_solver.py", S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py"],
    [("termination mixin", S + "_mixins.py: check_exceeded_max_iterations, check_convergence"), ("loop", S + "_nonlinear_solver_base.py: solve; " + S + "_fixed_iteration_gauss_newton_solver.py: solve")],
    ["number of iterations taken; done flag"],
    [("done, iterations", "loop control", S + "_nonlinear_solver_base.py: NonlinearSolverState")],
)
prop(
    "C18",
    "Solving respects the caller's storage layout",
    "A solve returns assignments in the storage layout of the initial assignments it was given, for the same variables. The value found for each variable does not depend on the order in which the initial assignments, or the graph's factors, list the variables, for every solver.",
    ["inputs", "configurations"],
    "every graph, every initial assignment in every layout of the graph's variables, all four solvers, both loop modes of the fixed-iteration solver",
    "One test permutes factors and two scalar variables with the Gauss-Newton solver only.",
    [S + "_nonlinear_solver_base.py", S + "_fixed_iteration_gauss_newton_solver.py", C + "_stacked_factor_graph.py", C + "_variable_assignments.py"],
    [("relayout before and after the loop", S + "_nonlinear_solver_base.py: solve"), ("layout-independent steps", S + "_fixed_iteration_gauss_newton_solver.py: solve")],
    ["StackedFactorGraph.solve / NonlinearSolverBase.solve"],
)
prop(
    "C19",
    "Marginal covariances are blocks of the inverse information matrix",
    "For a graph linearised at given assignments, every entry of the recovered covariance equals the corresponding entry of the inverse of A^T A, where A is the whitened Jacobian in local storage order, no matter which entries were requested before or in what order. The marginal of a list of variables consists of the corresponding blocks in the order of the list, and both dense forms equal the full inverse.",
    ["inputs", "histories"],
    "every graph with full-rank Jacobian, every variable list, every sequence of queries on one covariance object",
    "The tests use one or two SE(2) poses, for which the fill-reducing permutation of the factorisation happens to be the identity.",
    ["jaxfg/experimental/_sparse_covariance.py"],
    [("recursive recovery with cache", "jaxfg/experimental/_sparse_covariance.py: __getitem__, _sum_over_col"), ("factorisation in storage order", "jaxfg/experimental/_sparse_covariance.py: make")],
    ["SparseCovariance: make, __getitem__, compute_marginal, as_dense"],
    [("_value_cache", "entries recovered so far", "jaxfg/experimental/_sparse_covariance.py")],
)
prop(
    "C20",
    "Variable types flatten, unflatten and retract consistently",
    "For every concrete variable type the flattened length of a value is the type's parameter dimension, and unflattening a flattened value gives the value back. Without an override the retraction adds the delta to the flattened value, its local dimension is the parameter dimension, and the retraction's Jacobian is its derivative with respect to the delta at zero; Lie group variables default to the identity, use the group's tangent dimension and retract by right-multiplication with the exponential; vector variable types of equal dimension are the same type, with zero default, and each type has one canonical instance.",
    ["inputs", "programs"],
    "every user-defined variable type with any nested value structure, every value and delta; all vector dimensions; the four Lie group types",
    "Tests define one structured variable and use SE(2) poses, and never compare a value with its round trip.",
    [C + "_variables.py", "jaxfg/geometry/_lie_variables.py"],
    [("dimensions and unflattening derived from the default value", C + "_variables.py: VariableBase.__init_subclass__"), ("vector types", C + "_variables.py: RealVectorVariable"), ("Lie variables", "jaxfg/geometry/_lie_variables.py")],
    ["VariableBase subclasses: flatten, unflatten, get_parameter_dim, get_local_parameter_dim, manifold_retract, manifold_retract_jacobian, canonical_instance"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties")
