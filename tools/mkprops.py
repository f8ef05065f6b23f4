#!/usr/bin/env python3
"Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

N, C, T = "gpkit/nomials/", "gpkit/constraints/", "gpkit/tools/"

prop("C01", "Symbolic arithmetic on monomials, posynomials and signomials is exact algebra",
     "Any expression built from variables and plain numbers with +, -, *, /, ** and negation denotes exactly the polynomial obtained by ordinary algebra: like terms are combined, cancelled terms disappear, and every coefficient and exponent has its exact value, whatever order or grouping the operations were applied in. Two such expressions compare equal exactly when they denote the same polynomial, independent of how each was built, and equal expressions hash equal. Computing with an expression never changes the value of its operands.",
     ["inputs", "programs"], "every finite expression tree over every set of scalar variables, int/float/numpy constants and exponents",
     "The unit tests compare about twenty fixed expressions; term merging, cancellation, hash caching and operand aliasing depend on the whole tree of operations.",
     [N+"math.py", N+"map.py", N+"core.py", N+"data.py", "gpkit/small_classes.py", "gpkit/varkey.py"],
     [("Signomial.__add__/__mul__/__truediv__/__pow__/__neg__", N+"math.py"), ("HashVector arithmetic and cached hash", "gpkit/small_classes.py"), ("NomialMap.__add__", N+"map.py")],
     [("hmap", "exponent-vector -> coefficient map of an expression", N+"map.py")])

prop("C02", "Arithmetic is invariant under choice of units and rejects mismatches",
     "An expression over quantities with units denotes the same physical quantity whatever units its variables and constants are declared in, and converting it to other compatible units changes its numbers but not that quantity. Adding or converting quantities whose dimensions differ, or relating them by an inequality, always raises a dimensionality error and never succeeds silently, and they are never equal. This holds regardless of which unit conversions were computed earlier in the same process.",
     ["inputs", "histories"], "every expression tree with unit-carrying variables and constants, every choice of compatible units, and every earlier history of unit operations",
     "Tests use a handful of unit pairs in a fixed order; conversion factors are cached in process-wide tables, so correctness depends on everything computed before.",
     ["gpkit/units.py", N+"map.py", N+"math.py", N+"data.py"],
     [("cached unit division and multiplication", "gpkit/units.py GPkitUnits.of_division/of_product"), ("unit merging on addition", N+"map.py NomialMap.__add__"), ("conversion", N+"map.py NomialMap.to")],
     [("division_cache / multiplication_cache", "process-wide conversion factors", "gpkit/units.py")])

prop("C03", "Substitution equals evaluation for every way of naming the variables",
     "Substituting numbers or quantities for some of an expression's variables yields exactly the expression obtained by replacing those variables algebraically, so substituting in stages, in any order, or all at once agree, and substituting everything gives the numeric value. The result does not depend on whether variables are identified by the variable object, its key, its name, or (for vectors) the whole vector or its elements, and keys for variables that do not occur are ignored. The original expression and the substitution mapping are left unchanged, and arrays of the wrong shape or values of the wrong dimension are rejected.",
     ["inputs"], "every expression, every partition of its variables into substitution stages, every key form, zero, negative, fractional and array values",
     "Tests substitute a few values into small expressions; merging of terms that become alike and key mapping depend on the combination of keys, values and exponents.",
     [N+"map.py", N+"substitution.py", N+"math.py", N+"array.py", "gpkit/keydict.py"],
     [("NomialMap.sub and subinplace", N+"map.py"), ("parse_subs/append_sub", N+"substitution.py")])

prop("C04", "Differentiation and local monomial approximation are mathematically exact",
     "The derivative of an expression with respect to a variable is the exact partial derivative, including its units, for every real exponent. The monomial approximation of a posynomial about a positive point matches its value and all first derivatives there, and for posynomials it never exceeds the posynomial at any positive point.",
     ["inputs"], "every posynomial or signomial, every variable, every positive expansion point and query point",
     "Tests differentiate three expressions and approximate two; exponent 1, negative and fractional exponents, merged terms and extreme points are combinations they do not reach.",
     [N+"map.py", N+"math.py"],
     [("NomialMap.diff", N+"map.py"), ("Signomial.mono_approximation / Posynomial.mono_lower_bound", N+"math.py")])

prop("C05", "Only geometric-programming-valid objects exist unless signomials are enabled",
     "Every expression is classified as monomial, posynomial or signomial exactly by its number of terms and the signs of its coefficients, and outside a signomial-enabled block no arithmetic, construction or (by default) substitution can produce a signomial expression, and no relation a signomial inequality: it raises instead. An inequality whose greater side is a monomial and lesser side a posynomial is always accepted as a GP constraint unless its constants alone make it impossible, and any other inequality only inside such a block. Leaving a block, normally or through an exception, restores the setting that was in force when it was entered, including when blocks are nested.",
     ["programs", "inputs"], "every sequence of operations and nested enabling blocks with normal and exceptional exits",
     "Tests check a few expressions inside or outside one block; nesting, exceptional exits and combinations of operator and operand classes are unbounded.",
     [N+"math.py", "gpkit/globals.py"],
     [("class assignment in Signomial.__init__", N+"math.py"), ("SignomialsEnabled", "gpkit/globals.py"), ("__le__/__ge__/__eq__ dispatch", N+"math.py")],
     [("SignomialsEnabled._true", "process-wide signomial permission", "gpkit/globals.py")])

prop("C06", "Normalised constraints are equivalent to the constraints as written",
     "A GP inequality or monomial equality, after fixing any subset of its variables to constants in any compatible units that leave its greater side positive, is represented to the solver by posynomials at most one that hold at exactly the same positive points as the original relation. A constraint that the constants make always true contributes nothing, one that they make impossible by more than the feasibility tolerance is rejected as infeasible, and the constraint object can be re-normalised with other constants with the same guarantee.",
     ["inputs", "histories"], "every GP-compatible inequality or equality, every subset of fixed variables and values, every sequence of re-normalisations",
     "Tests look at a few fixed constraints; moving constants across, unit conversion and cancellation depend on coefficients, exponents, units and which variables are fixed.",
     [N+"math.py", C+"single_equation.py", C+"set.py"],
     [("PosynomialInequality._gen_unsubbed/_simplify_posy_ineq/as_hmapslt1", N+"math.py"), ("MonomialEquality._gen_unsubbed", N+"math.py"), ("SignomialInequality.as_hmapslt1", N+"math.py")],
     observe=["Model.gp().hmaps"])

prop("C07", "Solving a geometric program returns its global optimum",
     "For every bounded, strictly feasible geometric program, solving returns a point that satisfies every constraint and attains the globally least cost to solver tolerance, whatever units, fixed values, equality constraints and formulation are used. The reported cost equals the cost expression at the reported values with its units, fixed variables are reported at their given values, and reported free and fixed variables together are exactly the model's variables.",
     ["inputs"], "every well-posed geometric program: any number of variables, posynomial inequalities, monomial equalities, units and fixed constants",
     "Tests solve a few dozen hand-made programs with known answers; the compilation into solver matrices depends on the whole structure of the program.",
     [C+"gp.py", C+"prog_factories.py", "gpkit/solvers/cvxopt.py", C+"model.py", "gpkit/solution_array.py"],
     [("GeometricProgram.gen / solve / _compile_result", C+"gp.py"), ("cvxopt interface", "gpkit/solvers/cvxopt.py"), ("parse_subs", N+"substitution.py")])

prop("C08", "Reported sensitivities are the derivatives of the optimal cost",
     "For every solved geometric program with a unique, well-conditioned optimum, the reported sensitivity of each fixed variable is the logarithmic derivative of the optimal cost with respect to that variable's value, and that of every free variable is zero. The reported sensitivity of each constraint is the magnitude of the logarithmic derivative of the optimal cost with respect to uniformly loosening that constraint (once any terms fixed to constants have been moved to its other side), and per-model sensitivities are the sums over what each model contains. This holds wherever constants appear: in the cost, in several constraints, in terms that become alike or constant after substitution, or in equalities.",
     ["inputs"], "every well-posed geometric program and every pattern of constants in it",
     "Tests check a few sensitivities of tiny models; mapping dual variables back through merged, cancelled and constant terms depends on the pattern of fixed variables.",
     [N+"math.py", N+"map.py", C+"gp.py"],
     [("NomialMap.mmap", N+"map.py"), ("sens_from_dual", N+"math.py"), ("_compile_result", C+"gp.py")])

prop("C09", "Unbounded and infeasible programs are reported, never given an answer",
     "A geometric program in which some free variable lacks an upper or lower bound, taking into account bounds transmitted through monomial equalities, is rejected naming exactly the missing (variable, direction) pairs, and no program in which all are present is rejected on that ground. A program with no feasible point, or whose cost can be driven to zero, ends in the corresponding infeasibility error rather than in a returned solution, and those errors leave no output redirection or other process state behind.",
     ["inputs"], "every program structure: any exponent sign pattern, any chain or cycle of equalities, any contradictory or unbounded system",
     "Tests cover a few unbounded and infeasible programs; which bounds propagate depends on the sign pattern of whole chains of equalities.",
     [C+"gp.py", C+"set.py", "gpkit/exceptions.py", "gpkit/solvers/cvxopt.py"],
     [("check_bounds/gen_meq_bounds/fulfill_meq_bounds", C+"gp.py"), ("infeasibility mapping", C+"gp.py GeometricProgram.solve"), ("status mapping", "gpkit/solvers/cvxopt.py")])

prop("C10", "Local signomial solves return feasible, locally consistent optima",
     "When a local solve of a signomial program finishes without a slack or convergence warning, the returned point satisfies every original constraint to tolerance, the reported cost is the original cost there, and re-solving from that point does not improve the cost beyond tolerance. If the program is equivalent to a geometric program the local solve attains that program's global optimum, and the result does not depend on whether the starting point is given by name, key or variable. Each approximating program is conservative: points it allows (without slack) satisfy the original signomial inequalities.",
     ["inputs"], "every signomial program that is bounded and feasible, every starting point and penalty setting",
     "Tests run about fifteen specific signomial programs; in-place updating of the approximating programs depends on how supports change between iterations.",
     [C+"sgp.py", N+"math.py", C+"sigeq.py"],
     [("SequentialGeometricProgram.localsolve/gp", C+"sgp.py"), ("SignomialInequality.as_gpconstr", N+"math.py")])

prop("C11", "Sweeps equal the individual solves they stand for",
     "Solving with swept variables returns, in row-major or documented grid order, exactly the results of solving once for each combination of swept values, with swept, linked, constant and free variables reported at every point. Skipping failures drops exactly the infeasible points and keeps the rest aligned, while without skipping an infeasible point stops the sweep with an error. After the model's sweep helpers return or raise, its substitutions are as they were before.",
     ["inputs", "histories"], "every model with any number of scalar or vector sweeps, any lengths and values, and any pattern of infeasible points",
     "Tests sweep a few grids of feasible points; alignment of results with points under several sweeps, skipping and linked values is combinatorial.",
     [C+"prog_factories.py", C+"model.py", "gpkit/solution_array.py", N+"substitution.py", "gpkit/small_classes.py"],
     [("run_sweep", C+"prog_factories.py"), ("Model.sweep", C+"model.py"), ("DictOfLists", "gpkit/small_classes.py")])

prop("C12", "Autosweep bounds bracket the true optimal cost to the requested tolerance",
     "For every convex one-dimensional trade-off, at every point of the swept interval the lower and upper cost bounds reported by an automatic sweep bracket the true optimal cost and lie within the requested log-tolerance of the interpolated cost. Sampled values of the cost and other expressions agree with true solves at the points actually solved, and afterwards the model's substitutions are as before, whether or not the sweep succeeded.",
     ["inputs"], "every well-posed model, swept variable, interval and tolerance",
     "Tests autosweep two functions; where the interval splits and which bound is returned depends on the curvature of the optimal cost.",
     [T+"autosweep.py", C+"model.py"],
     [("get_tol/recurse_splits/autosweep_1d", T+"autosweep.py"), ("BinarySweepTree.cost_at/posy_at", T+"autosweep.py")])

prop("C13", "Variable-keyed dictionaries behave as maps from variables to values",
     "After any history of setting, updating, deleting, copying and reading, a variable-keyed dictionary returns for every scalar or vector-element variable the last value set for it, exactly, through every admissible key (variable, key, name, qualified name, vector or element), and membership, length and iteration agree with that. Quantities are stored in the key's units, element and whole-vector access are views of the same data, and copies and the caller's own arrays are never changed by later writes.",
     ["histories"], "every sequence of set, update, delete, copy and get with every key form over scalars and vectors of any shape",
     "Tests make a dozen accesses on fresh dictionaries; aliasing, partial vectors and stale name maps only appear in longer histories.",
     ["gpkit/keydict.py"],
     [("KeyDict.__setitem__/__getitem__/__delitem__/update", "gpkit/keydict.py"), ("KeyMap.update_keymap/parse_and_index", "gpkit/keydict.py")],
     [("keymap / _unmapped_keys / owned", "name index, pending keys, copy-on-write ownership", "gpkit/keydict.py")])

prop("C14", "Variables are the same exactly when name, place and units are the same",
     "Two variables are identified with each other exactly when their name, enclosing model instances, vector index and units agree, and every variable created in a model carries the nesting of model names and instance numbers in which it was created. Looking a variable up in a model by name returns exactly the variables with that name, and reports ambiguity or absence as an error. Naming and vectorizing environments restore the surrounding state when left, normally or through an exception.",
     ["programs", "histories"], "every nesting and repetition of models, vectorized blocks and variable declarations, with exceptional exits",
     "Tests build a few nested models; numbering and restoration depend on the history of everything created before in the process.",
     ["gpkit/varkey.py", "gpkit/globals.py", N+"variables.py", C+"model.py", C+"set.py"],
     [("VarKey identity string and hash", "gpkit/varkey.py"), ("NamedVariables/Vectorize", "gpkit/globals.py"), ("variables_byname/_choosevar", C+"set.py")],
     [("NamedVariables.lineage/modelnums, Vectorize.vectorization", "process-wide naming state", "gpkit/globals.py")])

prop("C15", "Composition and vectorization of models do not change the problem",
     "Grouping the same constraints into lists, dictionaries, arrays, constraint sets or nested models yields a model with the same variables, the same set of single constraints and the same optimum. Values given to an enclosing model override those of its parts and declared defaults, later ones overriding earlier, and reach every occurrence of the variable. A model declared in a vectorized block of length n solves to the same values as n separately declared copies.",
     ["programs"], "every way of nesting and grouping a set of constraints, every assignment of substitutions to levels, every vectorization shape",
     "Tests compose a few models; the number of groupings and substitution placements is unbounded.",
     [C+"set.py", C+"costed.py", C+"model.py", C+"array.py", "gpkit/globals.py", N+"variables.py"],
     [("flatiter, ConstraintSet.__init__/_update", C+"set.py"), ("substitution merging", C+"costed.py"), ("Vectorize / ArrayVariable", N+"variables.py")])

prop("C16", "Relaxing and bounding diagnose infeasibility and leave feasible models alone",
     "Relaxing a feasible model's constraints or constants and penalising relaxation returns the original optimum with every relaxation equal to one and no relaxation warnings, and relaxing an infeasible one reports relaxed constraints or constants that, applied by the reported amounts, make the model feasible. Arbitrary bounds leave a bounded model's optimum unchanged without bound warnings and flag exactly the variables held by those bounds otherwise. Debugging a model returns without an internal error and leaves the model itself unchanged.",
     ["inputs"], "every feasible, infeasible or unbounded model, in every constraint grouping, each relaxation style and bound setting",
     "Tests relax four tiny flat models; indexing of relaxation variables and fixed-value bookkeeping depend on nesting, zero values, vectors and units.",
     [C+"relax.py", C+"bounded.py", C+"model.py"],
     [("ConstraintsRelaxedEqually/ConstraintsRelaxed/ConstantsRelaxed", C+"relax.py"), ("Bounded.check_boundaries", C+"bounded.py"), ("Model.debug", C+"model.py")])

prop("C17", "Tight and Loose annotations warn exactly when violated",
     "A constraint annotated as tight produces a warning exactly when its two sides differ at the solution by at least the stated relative tolerance, and one annotated as loose exactly when its sensitivity is at least the stated tolerance, with the values quoted in the warning being the actual ones. Annotations never change the solution, other constraints, or the process's signomial setting.",
     ["inputs"], "every model with any placement and nesting of tight and loose annotations, tolerances and units",
     "Tests check one tight and one loose constraint; thresholds, units and nesting are not varied.",
     [C+"tight.py", C+"loose.py", "gpkit/small_scripts.py"],
     [("Tight.process_result", C+"tight.py"), ("Loose.process_result", C+"loose.py")])

prop("C18", "Saved solutions reload intact and comparisons between solutions are truthful",
     "A solution saved to disk, compressed or not, with or without constraints, and loaded in another process has the same cost, values, sensitivities, units and tables, and saving leaves the solution in memory fully usable. Two solutions are reported almost equal exactly when their variables coincide and every value and sensitivity agrees within the stated tolerances. The textual difference lists exactly the shared variables whose change exceeds the tolerance and the variables present on only one side.",
     ["inputs", "histories"], "every solution: scalar, vector, swept, with units, of GPs and SGPs, and every pair of them",
     "Tests round-trip one or two solutions in the same process; caches and hash values that survive pickling only matter across processes and shapes.",
     ["gpkit/solution_array.py", "gpkit/varkey.py", "gpkit/small_classes.py", T+"autosweep.py"],
     [("save/save_compressed/decompress_file, SolSavingEnvironment", "gpkit/solution_array.py"), ("VarKey.__getstate__/__setstate__", "gpkit/varkey.py"), ("almost_equal/diff", "gpkit/solution_array.py")])

prop("C19", "Tables and exported files show the solution's values and do not alter it",
     "Every result table, summary, CSV and MATLAB export shows for each selected variable its solved value, units and label to the printed precision, every variable it should show appears exactly once, and nothing else does. Producing any of them leaves the solution's data unchanged, so later outputs and queries are unaffected.",
     ["inputs", "histories"], "every solution, every selection of variables and tables and every order of producing outputs",
     "Tests compare a few fixed tables; layout of vectors, filtering and in-place masking depend on shapes, magnitudes and call order.",
     ["gpkit/solution_array.py"],
     [("table/summary/var_table/savecsv/savemat", "gpkit/solution_array.py")])

prop("C20", "Printed expressions and constraints mean what they denote",
     "The text of any expression, constraint or model parses, under ordinary operator precedence, back to the same mathematical object up to printed precision of its numbers. Printing never changes the object and does not depend on what was printed before.",
     ["inputs", "programs"], "every expression tree including sums, products, quotients, powers, negation, vector sums, products and indexing",
     "Tests compare two dozen strings; parenthesisation depends on the nesting of the whole expression tree.",
     ["gpkit/repr_conventions.py", N+"core.py", N+"array.py", C+"single_equation.py"],
     [("parse_ast/parenthesize/strify", "gpkit/repr_conventions.py"), ("str_without", N+"core.py")])

prop("C21", "Docstring-declared variables and bounds are what the model gets",
     "Variables declared in a model's docstring are created with exactly the names, values, units, shapes and labels written there, under the model's naming. If the docstring states which variables are unbounded or bounded by others, creating the model succeeds exactly when the stated unbounded set is what the constraints leave unbounded, and otherwise raises an error naming the discrepancy.",
     ["programs", "inputs"], "every docstring variable declaration and every constraint structure with a stated bound declaration",
     "Tests parse a few docstrings; combinations of optional fields, vectors, units and bound propagation are unbounded.",
     [T+"docstring.py", C+"model.py", C+"set.py"],
     [("parse_variables/expected_unbounded", T+"docstring.py"), ("Model.verify_docstring", C+"model.py"), ("add_meq_bounds", C+"set.py")])

prop("C22", "Array operations act elementwise and reductions are exact",
     "Arithmetic, powers, comparisons, substitution and indexing on arrays of expressions equal the same operation on each element, with numpy's broadcasting rules, for every shape. Sums, products, outer and dot products equal the repeated scalar operation, including zeros, plain numbers, mixed units and non-monomial elements.",
     ["inputs"], "every pair of broadcastable arrays of variables, expressions, numbers and quantities, and every reduction",
     "Tests use vectors of length two or three of plain variables; fast paths for sums and products behave differently with numbers, zeros, signs and units.",
     [N+"array.py", N+"variables.py", C+"array.py"],
     [("NomialArray operators, sum, prod, outer, vectorize", N+"array.py"), ("ArrayVariable", N+"variables.py")])

prop("C23", "Computed (linked and post-solve) variables equal their functions' values",
     "A variable fixed by a function of other constants takes exactly that function's value in every solve and at every sweep point, scalar or vector, and the optimum equals that of the same model with those numbers fixed directly. The sensitivity of each underlying constant is its total sensitivity through all computed variables, by the chain rule, plus its own direct effect, in the total and in the cost breakdown. A variable with a post-solve function is reported at that function's value at the solution.",
     ["inputs"], "every set of linked functions and constants, shared or private, direct or also used elsewhere, in cost and constraints, with units and vectors",
     "Tests link two or three variables; interactions arise when a linked variable and its arguments both occur, in several places at once.",
     [C+"prog_factories.py", C+"gp.py", C+"set.py", N+"variables.py"],
     [("evaluate_linked", C+"prog_factories.py"), ("gradient carry-over in _compile_result", C+"gp.py"), ("evalfn in process_result", C+"set.py")])

prop("C24", "Results do not depend on what was built, solved or printed before",
     "Solving a model gives the same result as solving an identically built fresh model, regardless of any earlier solves, failed solves, substitution changes and restorations, solver options, printing, sweeps, debugging or other models in the same process. Solver options given to one solve never affect a later one, and standard output and global settings are restored even when a solve fails.",
     ["histories"], "every finite history of operations on one or more models in one process",
     "Each test uses fresh models in a short sequence; leftover caches and mutated shared state need particular histories.",
     [C+"gp.py", C+"prog_factories.py", N+"math.py", C+"model.py", C+"sgp.py"],
     [("per-constraint cached dual maps", N+"math.py"), ("solver keyword defaults", C+"gp.py"), ("stdout capture", C+"gp.py")],
     [("pmap/const_mmap/_las/v_ss", "data left on constraint objects between normalisation and result packing", N+"math.py")])

prop("C25", "Every solver back end gets the program as built; its answer is used faithfully",
     "The file, task or matrices handed to each supported solver, or to a user-supplied solver function, describe exactly the model's geometric program, and the solution the solver returns is reported unchanged. A solver may report its duals per monomial or per constraint, with or without the cost entry, with identical results. Failure statuses of the solver become the matching infeasibility errors, and temporary files never outlive the solve.",
     ["inputs", "fault_sequences"], "every geometric program, each back end, each form of dual information and each solver outcome",
     "Only the cvxopt back end runs in the tests; the others' encoders and parsers are never executed here, and fault outcomes are never produced.",
     ["gpkit/solvers/cvxopt.py", "gpkit/solvers/mosek_cli.py", "gpkit/solvers/mosek_conif.py", C+"gp.py"],
     [("write_output_file/optimize", "gpkit/solvers/mosek_cli.py"), ("conic reformulation", "gpkit/solvers/mosek_conif.py"), ("_generate_nula", C+"gp.py")])

prop("C26", "Querying a solution evaluates any expression there, with correct units",
     "Asking a solution for a variable, a vector or any expression returns that object's value at the solution in its own units: one value for a single solve, and one per point, in order, for a sweep. The answer is the same through every admissible way of naming the variable, and expressions containing variables that are not in the solution keep exactly those variables.",
     ["inputs"], "every solution, swept or not, and every variable, vector, array or expression queried",
     "Tests query a handful of variables; units, vectors and sweeps combine with every expression form.",
     ["gpkit/solution_array.py", "gpkit/keydict.py"],
     [("SolutionArray.__call__/subinto", "gpkit/solution_array.py"), ("KeyDict.__call__", "gpkit/keydict.py")])

prop("C27", "Taylor-expansion helpers give the exact truncated series",
     "The helpers for exp(p)-1, sec(p) and tan(p) return, for every posynomial or monomial argument they accept and every number of terms they support, exactly the truncated power series of that function in the argument.",
     ["inputs"], "every argument expression and every supported number of terms",
     "Tests check up to three or four terms of one variable.",
     [T+"tools.py"],
     [("te_exp_minus1/te_secant/te_tangent", T+"tools.py")])

prop("C28", "Plots, diagrams and sliders show the solution's numbers",
     "Plots of sweeps, autosweeps, sweep grids, model comparisons and signomial convergence draw, for each expression asked for (by name, variable or expression, or the cost) and each swept point, the value it has at the optimum there, label the axes with name and units, and leave the model and arguments as they were. Sensitivity (Sankey) diagrams show each constraint's and fixed variable's sensitivity, a model's flow being the sum of its parts', and a variable's the sum over constraints and cost, equal to its sensitivity. Moving an interactive slider re-solves at its value and hands on that solution.",
     ["inputs", "history"], "every model, set of sweeps and way of naming what is drawn; every tree of models; every sequence of slider moves",
     "No test imports the plotting, diagram or widget code.",
     ["gpkit/interactive/plot_sweep.py", "gpkit/interactive/plotting.py", "gpkit/interactive/sankey.py", "gpkit/interactive/widgets.py", "gpkit/solution_array.py", T+"autosweep.py"],
     [("SolutionArray.plot", "gpkit/solution_array.py"), ("SolutionOracle.plot", T+"autosweep.py"), ("plot_1dsweepgrid", "gpkit/interactive/plot_sweep.py"), ("compare/plot_convergence", "gpkit/interactive/plotting.py"), ("Sankey.link/diagram", "gpkit/interactive/sankey.py"), ("modelinteract", "gpkit/interactive/widgets.py")])

prop("C29", "An answer that fails its optimality check is told, and no other is",
     "Whatever a solver hands back as optimal, solving warns if and only if that answer's values violate a constraint or do not give its cost, or its duals do not certify that cost as the optimum (sum, sign, stationarity, dual cost), by more than the tolerance of that solver; the warning names the side (primal or dual) that is wrong. The answer is reported unchanged, and nothing is told when the check of the duals, or all checks, are turned off.",
     ["inputs", "fault_sequences"], "every geometric program and every perturbation, large or small, of any part of its solver's answer",
     "Solvers in tests answer correctly, so no test sees the check refuse, and none says how large an error it may let pass.",
     [C+"gp.py"],
     [("check_solution", C+"gp.py"), ("generate_result/SOLUTION_TOL", C+"gp.py")])

prop("C30", "Sensitivities of a local solution satisfy its optimality conditions",
     "When a local solve of a signomial program converges without a warning, the reported sensitivities are the multipliers of the program as written at the reported point: those of the signomial inequalities and equalities and of the other constraints balance the cost's gradient for every free variable, slack constraints have none, that of each fixed variable is the logarithmic derivative of the optimal cost with respect to it through the cost and every constraint it occurs in, and those of free variables are zero. A model's sensitivity is the sum over its constraints and fixed variables, and nothing the solver added (slack, penalty, approximations) is counted.",
     ["inputs"], "every bounded signomial program, starting point, penalty setting, unit and naming of its variables",
     "Tests check a few sensitivities of geometric programs; those of signomial programs come from approximations that change between iterations.",
     [C+"sgp.py", C+"gp.py", "gpkit/nomials/math.py"],
     [("localsolve/_approximate", C+"sgp.py"), ("sens_from_dual/as_gpconstr", "gpkit/nomials/math.py"), ("_compile_result", C+"gp.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
