"""The properties, and which explorations decide which property.  properties.jsonl and MANIFEST.json
are generated from this file (python3 -m vt.genmeta)."""
from .run import Run

PROPS = {}
NA = {}

INC = "include/cppad/cg/"
PIPE_ASSUME = [
    "inputs range over the finite reals: rounding, overflow, NaN and infinities are outside the claim (results that agree up to relative 1e-13 in folded constants count as equal)",
    "divisors occurring on the explored path are assumed nonzero",
    "transcendental functions are uninterpreted, with the algebraic facts listed in DESIGN.md (parity, special points, sin2+cos2=1, inverse pairs)",
    "clang 18 (-O1) translates C++ and the generated C to LLVM IR faithfully; the engine's instruction semantics and Z3 4.x are trusted, and sampled paths are re-run on the uninstrumented build",
]
UNIT_ASSUME = [
    "machine integers are bit-vectors of their real width; sizes that drive loops are forked over the stated ranges",
    "clang 18 (-O1) translates the code to LLVM IR faithfully; the engine's instruction semantics and Z3 4.x are trusted, and sampled paths are re-run on the uninstrumented build",
]


def prop(pid, title, statement, over, quant, why, files, mech, runs, level, how, bounds, assumptions):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, runs=runs,
                      level=level, how=how, bounds=bounds, assumptions=list(assumptions))


def na(pid, title, statement, over, quant, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason)


TV, MC = "translation_validation", "model_checking"
N = ("-DNDEBUG",)
HOW_PIPE = ("The real library (taping, derivative and sparsity computation, source generation, dynamic library loading, model wrapper) runs inside a symbolic "
            "executor; the C it writes is compiled through the same instrumentation and executed on symbolic reals; every output is compared by Z3 (after a sum-of-monomials "
            "normal form) with CppAD's own interpreted tape on the same symbolic reals.")

prop("C01", "Generated C computes the model's values",
     "For every model function, the compiled zero-order function of the generated library returns for every input the values the original function has. Calling it again, in any order, returns the same values for the same input.",
     ["programs", "inputs", "configurations"], "all model functions over the supported operators, all real inputs",
     "The tests run a handful of fixed functions at one or two points; a wrong operator, operand order or temporary shows only for particular expression shapes and values.",
     [INC + "lang/c/language_c.hpp", INC + "code_handler_impl.hpp", INC + "arithmetic.hpp", INC + "unary.hpp", INC + "model/functor_generic_model.hpp"],
     [("operator printing with precedence", INC + "lang/c/language_c.hpp"), ("evaluation order and temporary assignment", INC + "code_handler_impl.hpp"), ("constant folding", INC + "arithmetic.hpp")],
     [Run("h_pipe.cpp", dict(case="zero", progs="shapes"), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="single"), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="ops", step=4), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="line", steps=2), labels=("zero",), thorough=4000, thorough_opts=dict(steps=3))],
     TV, HOW_PIPE,
     "models: 12 hand-picked shapes, each of 39 operations alone, each of the 39x39 compositions outer(inner(x0,x1),x1), every straight-line program of 2 (thorough 3) steps over {+,-,*,/,CondExpLt} with 2 outputs; up to 5 inputs and 12 outputs; all real input values",
     PIPE_ASSUME)

prop("C02", "Generated Jacobians equal the derivative",
     "For every model function and input, the dense and the sparse Jacobian functions of the generated library return the exact first derivatives, whichever AD mode or reuse option is selected. A position missing from the reported pattern is identically zero, and with user-chosen elements exactly those elements are evaluated.",
     ["programs", "inputs", "configurations"], "all models, inputs, Jacobian modes (forward, reverse, automatic, built from the first-order passes) and element selections",
     "Tests compare a few models at one point with default element choices; errors in colouring, compression or element order only show for certain patterns and requests.",
     [INC + "model/model_c_source_gen_jac.hpp", INC + "model/model_c_source_gen_impl.hpp", INC + "model/functor_generic_model.hpp", INC + "util.hpp"],
     [("sparse Jacobian generation", INC + "model/model_c_source_gen_jac.hpp"), ("sparsity handling", INC + "model/model_c_source_gen_impl.hpp")],
     [Run("h_pipe.cpp", dict(case="jac", progs="shapes"), labels=("jac",)),
      Run("h_pipe.cpp", dict(case="jac", progs="single", custom=0), labels=("jac",)),
      Run("h_pipe.cpp", dict(case="jac", progs="ops", step=4, diag=5, custom=0, modes=2), labels=("jac",), thorough=3000, thorough_opts=dict(diag=0, custom=1, modes=4)),
      Run("h_pipe.cpp", dict(case="jac", progs="line", steps=2, custom=0), labels=("jac",), thorough_only=True, thorough=4000)],
     TV, HOW_PIPE,
     "models as in C01 (quick: shapes, single operations, half of the compositions; thorough: all compositions and 2-step programs); 4 Jacobian modes; element selections: all, diagonal, all but one column (as unordered lists), last row, everything; all real input values",
     PIPE_ASSUME)

prop("C03", "Generated Hessians equal the second derivative",
     "For every model function, input and multiplier vector, the dense and sparse Hessian functions of the generated library return the exact weighted second derivatives, whether generated directly or built from second-order reverse. A position missing from the reported pattern is identically zero for every multiplier, and with user-chosen elements exactly those are evaluated.",
     ["programs", "inputs", "configurations"], "all models, inputs, multipliers, both construction methods and all element selections",
     "Second derivatives are checked by tests at one point with few element selections; symmetric-element handling, multiplier indexing and reuse of first-order code fail only on particular patterns.",
     [INC + "model/model_c_source_gen_hes.hpp", INC + "model/model_c_source_gen_rev2.hpp", INC + "model/functor_generic_model.hpp"],
     [("sparse Hessian generation", INC + "model/model_c_source_gen_hes.hpp"), ("reuse of second-order reverse", INC + "model/model_c_source_gen_hes.hpp")],
     [Run("h_pipe.cpp", dict(case="hes", progs="shapes"), labels=("hes",)),
      Run("h_pipe.cpp", dict(case="hes", progs="single", custom=0), labels=("hes",)),
      Run("h_pipe.cpp", dict(case="hes", progs="ops", step=4, diag=5, custom=0, modes=1), labels=("hes",), thorough=3000, thorough_opts=dict(diag=0, custom=1, modes=2)),
      Run("h_pipe.cpp", dict(case="hes", progs="line", steps=2, custom=0), labels=("hes",), thorough_only=True, thorough=4000)],
     TV, HOW_PIPE + " The reference Hessians come from second-order forward sweeps (polarisation), independent of every reverse mode.",
     "models as in C01; direct and via-reverse-two generation; element selections: all, lower triangle, an unsymmetric unordered list; all real inputs and multipliers",
     PIPE_ASSUME)

prop("C04", "Generated forward/reverse passes equal directional derivatives",
     "For every model function, input and direction, the first-order forward, first-order reverse and second-order reverse functions of the generated library (dense and sparse forms) return the exact directional derivatives, adjoints and Hessian-vector products. Sparse forms given any subset and order of directions equal the dense result for that direction.",
     ["programs", "inputs", "configurations"], "all models, inputs, directions, weights and subsets of sparse directions",
     "Tests use unit directions at one point; index indirection in the sparse forms and zero-skipping branches only show for particular subsets, orders and zero entries.",
     [INC + "model/model_c_source_gen_for1.hpp", INC + "model/model_c_source_gen_rev1.hpp", INC + "model/model_c_source_gen_rev2.hpp", INC + "model/functor_generic_model.hpp"],
     [("sparse forward one", INC + "model/model_c_source_gen_for1.hpp"), ("sparse reverse one", INC + "model/model_c_source_gen_rev1.hpp"), ("sparse reverse two", INC + "model/model_c_source_gen_rev2.hpp")],
     [Run("h_pipe.cpp", dict(case="fr", progs="shapes"), labels=("fr",), thorough_opts=dict(zeros=4)),
      Run("h_pipe.cpp", dict(case="fr", progs="single"), labels=("fr",)),
      Run("h_pipe.cpp", dict(case="fr", progs="ops", step=4, diag=3, zeros=0), labels=("fr",), thorough=3000, thorough_opts=dict(diag=0, zeros=2)),
      Run("h_pipe.cpp", dict(case="fr", progs="line", steps=2), labels=("fr",), thorough_only=True, thorough=4000)],
     TV, HOW_PIPE,
     "models as in C01; the first two entries of each direction/weight may be zero, later ones are nonzero; fixed unordered subsets of sparse directions; all real values otherwise",
     PIPE_ASSUME)

prop("C05", "Sparsity patterns reported by a model are exact",
     "Every Jacobian and Hessian element that can be nonzero is in the reported pattern, and the pattern contains nothing but structurally possible elements, each once. All forms in which a pattern is offered (sets, flags, index lists, per equation, the positions returned with sparse values) agree, and with user-chosen elements the pattern is those elements in the order requested.",
     ["programs", "configurations", "inputs"], "all models, element selections and forms of reporting",
     "Tests compare patterns for a few models; an element that is zero at the test point but not elsewhere, or positions out of order, go unnoticed.",
     [INC + "model/model_c_source_gen_jac.hpp", INC + "model/model_c_source_gen_hes.hpp", INC + "model/model_c_source_gen_impl.hpp", INC + "extra/sparsity.hpp", INC + "model/functor_generic_model.hpp", INC + "custom_position.hpp", INC + "util.hpp"],
     [("Jacobian pattern", INC + "model/model_c_source_gen_jac.hpp"), ("Hessian patterns", INC + "model/model_c_source_gen_hes.hpp"), ("pattern functions of the library", INC + "model/model_c_source_gen_impl.hpp")],
     [Run("h_pipe.cpp", dict(case="spars", progs="shapes"), labels=("spars",)),
      Run("h_pipe.cpp", dict(case="spars", progs="loops"), labels=("spars",)),
      Run("h_pipe.cpp", dict(case="spars", progs="atomic", via=0, custom=0), labels=("spars",), thorough_opts=dict(custom=1)),
      Run("h_pipe.cpp", dict(case="spars", progs="single", custom=0), labels=("spars",), thorough_opts=dict(custom=1)),
      Run("h_pipe.cpp", dict(case="spars", progs="ops", step=4, diag=0, custom=0), labels=("spars",), thorough_only=True, thorough=3000),
      Run("h_pipe.cpp", dict(case="spars", progs="line", steps=2, custom=0), labels=("spars",), thorough_only=True, thorough=4000)],
     TV, "The models are generated and loaded inside the symbolic executor; the reference derivatives are computed on symbolic inputs and Z3 decides that each element outside the reported pattern is zero for every input; the pattern is also compared with the one CppAD derives for the plain function.",
     "12 shapes, 27 loop models, 9 atomic programs (completeness only) and each of 39 operations; no or 3 kinds of requested elements; with and without patterns per equation; all real inputs",
     PIPE_ASSUME)

prop("C06", "Conditional expressions and comparisons select the right value",
     "A conditional expression over generated-code values evaluates, for every operand value, to the branch its comparison selects, whether operands are variables, constants, the same variable or shared subexpressions. Comparisons of code-generation values agree with comparing the numbers they hold and refuse to answer when a value is unknown.",
     ["inputs", "programs"], "all operand values including ties, all five comparisons, all combinations of variables and constants",
     "Tests evaluate each comparison at a few points, rarely at ties, and never with every variable/constant combination.",
     [INC + "cond_exp_op.hpp", INC + "compare.hpp", INC + "ordered.hpp", INC + "identical.hpp", INC + "lang/c/language_c.hpp"],
     [("CondExp construction and folding", INC + "cond_exp_op.hpp"), ("comparisons", INC + "compare.hpp")],
     [Run("h_expr.cpp", dict(case="cond"), labels=("cond",), thorough=3000, thorough_opts=dict(all=1)),
      Run("h_expr.cpp", dict(case="compare"), labels=("end",)),
      Run("h_pipe.cpp", dict(case="zero", progs="shapes", only="cond"), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="shapes", only="cond2"), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="shapes", typical=1), labels=("zero",))],
     TV, "Expressions are built with the real operators on symbolic numbers; the resulting operation graph is evaluated by an independent interpreter (harness/hgraph.hpp) and both the graph value and the recorded value are compared by Z3 with direct evaluation. Two conditional models go through generated C.",
     "every comparison operator with each operand a variable (with or without value), a shared variable, a constant or a special constant; nesting depth 2; all real values",
     PIPE_ASSUME)

prop("C07", "Arithmetic on code-generation values keeps the expression's meaning",
     "Every operator and function applied to code-generation values yields an expression whose value equals the operation on the operands' values, for every operand value, including all constant foldings and special cases with constants. A value recorded alongside an expression is always that expression's value.",
     ["inputs", "programs"], "all operators, operand kinds (variable, constant 0/1/-1/other, same variable) and operand values",
     "Tests exercise each operator at sample values; folding shortcuts (0, 1, -1, identical operands) are special-cased in code and wrong shortcuts appear only for those operand kinds.",
     [INC + "arithmetic.hpp", INC + "arithmetic_assign.hpp", INC + "unary.hpp", INC + "math.hpp", INC + "math_other.hpp", INC + "cg.hpp"],
     [("binary operators and folding", INC + "arithmetic.hpp"), ("compound assignment", INC + "arithmetic_assign.hpp"), ("functions", INC + "math.hpp")],
     [Run("h_expr.cpp", dict(case="arith"), labels=("end",)), Run("h_expr.cpp", dict(case="unary"), labels=("end",))],
     TV, "Expressions are built with the real operators on symbolic numbers; the operation graph is evaluated by an independent interpreter and compared by Z3 with direct evaluation on the same numbers.",
     "all operators, compound assignments and functions; each operand a variable with/without value, an alias, or a symbolic or special constant; expression depth 2; all real values",
     PIPE_ASSUME)

prop("C08", "Re-evaluating an operation graph preserves its value",
     "Evaluating a recorded operation graph with new independent variables (numbers, other code-generation variables, or AD variables) gives for every input the value of the graph at those independents, shared subexpressions included. The source graph is unchanged and the evaluator can be used again with other independents.",
     ["programs", "inputs", "histories"], "all graphs over the supported operations, all target types and all sequences of evaluations",
     "Tests evaluate a few graphs once; reuse of cached results between evaluations and permuted or repeated independents are not sampled.",
     [INC + "evaluator/evaluator.hpp", INC + "evaluator/evaluator_cg.hpp", INC + "evaluator/evaluator_ad.hpp", INC + "evaluator/evaluator_adcg.hpp"],
     [("operation dispatch and result cache", INC + "evaluator/evaluator.hpp")],
     [Run("h_expr.cpp", dict(case="eval", nops=11), labels=("eval",), thorough=3000, thorough_opts=dict(nops=16)),
      Run("h_expr.cpp", dict(case="eval", conds=1), labels=("eval",), thorough=3000, thorough_opts=dict(all=1))],
     TV, "All small graphs are built with the real operators, evaluated by the real evaluators onto CG, AD and AD<CG> targets with symbolic values, and compared by Z3 with an independent graph interpreter at the new independents.",
     "every graph of 2 operations out of 11 (thorough 16) over 2 independents, plus derived shared expressions; 5 evaluation targets; two evaluations per evaluator; all real values",
     PIPE_ASSUME)

prop("C09", "Symbolic solving and substitution satisfy the equation",
     "When the library solves an expression for a variable, the returned expression, put in place of the variable, makes the original expression zero for every value of the other variables, and does not depend on the variable. Substituting an independent replaces it everywhere it is used and undoing restores it; when it cannot solve, it says so consistently and raises an exception.",
     ["programs", "inputs"], "all solvable expressions and all values of the remaining variables",
     "Tests solve a dozen hand-written equations and check one point; sign and operand-order errors depend on the position of each occurrence of the variable.",
     [INC + "solver.hpp", INC + "collect_variable.hpp", INC + "evaluator/evaluator_solve.hpp", INC + "code_handler_impl.hpp", INC + "graph_mod.hpp"],
     [("inversion along the path", INC + "solver.hpp"), ("collection of several occurrences", INC + "collect_variable.hpp")],
     [Run("h_expr.cpp", dict(case="solve", steps=2), labels=("solved", "substituted", "unsolvable"), thorough=3000, thorough_opts=dict(nops=10)),
      Run("h_expr.cpp", dict(case="solve", steps=3, nops=3, vars=2, canon=1, subst=0), labels=("solved", "unsolvable")),
      Run("h_expr.cpp", dict(case="solve", steps=3, nops=4), labels=("solved", "substituted", "unsolvable"), thorough_only=True, thorough=6000)],
     TV, "All small equations are built with the real operators, solved by the real solver, and Z3 decides whether the equation's value at the returned solution is zero for all real values of the other variables (independent graph interpreter).",
     "every expression of 2 operations over {+,-,*,/,neg} (thorough: plus exp, log, sqrt, const-b, ...) and of 3 operations over {+,-} (thorough {+,-,*,/}) in 3 variables, solved for one; substitution with and without removal, and undo; all real values",
     PIPE_ASSUME)

prop("C10", "Atomic functions give exact values and derivatives",
     "A model that calls an atomic function (a user's, a bridge around a CppAD function, or another compiled model) computes the same values and derivatives as the model with that function written in line, for every input, whether the atomic is called from generated code, or a compiled model is used as an atomic in an ordinary CppAD tape.",
     ["programs", "inputs", "configurations"], "all inner and outer functions, inputs, derivative orders and ways of providing the atomic",
     "Tests compare one or two atomics at a point with full dependency patterns; sparsity of the atomic, partial dependency, repeated calls and shared arrays fail only for particular combinations.",
     [INC + "abstract_atomic_fun.hpp", INC + "model/generic_model_external_function_wrapper.hpp", INC + "lang/c/language_c_arrays.hpp", INC + "array_id_compresser.hpp", INC + "model/functor_generic_model.hpp", INC + "atomic_fun_bridge.hpp"],
     [("recording of atomic calls", INC + "abstract_atomic_fun.hpp"), ("arrays passed to atomics", INC + "lang/c/language_c_arrays.hpp"), ("callbacks from generated code", INC + "model/functor_generic_model.hpp")],
     [Run("h_pipe.cpp", dict(case="zero", progs="atomic"), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="jac", progs="atomic", custom=0, modes=2), labels=("jac",), thorough=3000, thorough_opts=dict(custom=1, modes=4)),
      Run("h_pipe.cpp", dict(case="hes", progs="atomic", via=0), labels=("hes",)),
      Run("h_pipe.cpp", dict(case="fr", progs="atomic", via=0, zeros=0), labels=("fr",)),
      *[Run("h_pipe.cpp", dict(case="adfun", progs="atomic", only=k), labels=("adfun",), quick=60) for k in range(6)],
      Run("h_pipe.cpp", dict(case="fr", progs="atomic", zeros=0), labels=("fr", "refused"), thorough_only=True, thorough=3000),
      Run("h_pipe.cpp", dict(case="hes", progs="atomic"), labels=("hes",), thorough_only=True, thorough=3000)],
     TV, HOW_PIPE + " The reference is the same outer function with the inner function written in line. Callbacks from the generated code into the library's atomic machinery run symbolically too.",
     "9 outer/inner pairs (plain, chained, repeated, partly used, constant arguments, outputs also used directly, in a loop); 5 ways of providing the atomic; second order of the generated modes for the tape-based atomic (the others refuse nonzero second-order weights of generated reverse, which is checked to be the documented refusal); all real inputs",
     PIPE_ASSUME)

prop("C11", "Loop detection does not change results",
     "Declaring groups of dependent variables as related (so that repeated equations become loops in the generated code) never changes any value, Jacobian, Hessian, directional derivative or sparsity pattern of the generated library, however irregular the groups are.",
     ["programs", "inputs", "configurations"], "all models, all groupings of dependents, all derivative functions and inputs",
     "Tests compare a set of regular models at a point; missing iterations, variables that are indexed and not indexed at once, shared temporaries and irregular indices reach special-cased code in each derivative generator.",
     [INC + "patterns/dependent_pattern_matcher.hpp", INC + "model/patterns/model_c_source_gen_loops.hpp", INC + "model/patterns/model_c_source_gen_loops_hess.hpp", INC + "model/patterns/model_c_source_gen_loops_jac.hpp", INC + "model/patterns/model_c_source_gen_loops_rev2.hpp", INC + "code_handler_impl.hpp"],
     [("loop detection", INC + "patterns/dependent_pattern_matcher.hpp"), ("Hessian with loops", INC + "model/patterns/model_c_source_gen_loops_hess.hpp"), ("temporaries in if/else branches of loops", INC + "code_handler_impl.hpp")],
     [Run("h_pipe.cpp", dict(case="zero", progs="loops"), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="jac", progs="loops", custom=0), labels=("jac",), thorough=3000, thorough_opts=dict(custom=1)),
      Run("h_pipe.cpp", dict(case="hes", progs="loops"), labels=("hes",)),
      Run("h_pipe.cpp", dict(case="fr", progs="loops", zeros=1), labels=("fr",), thorough_opts=dict(zeros=3))],
     TV, HOW_PIPE + " The model is generated with the groups declared and compared with the tape of the same model without any loop.",
     "27 models with 2-4 iterations and 1-2 equations per iteration: detached, shared temporaries, constant/linear/random/reversed indices, missing equations, wrong candidates, indexed and non-indexed use of the same variable, conditionals, several loops; 4 Jacobian modes, both Hessian methods, element selections as in C02/C03; all real inputs",
     PIPE_ASSUME)

prop("C12", "Index patterns reproduce the index sequence they were built from",
     "A pattern built from any sequence (or map, or two-dimensional map) of indices evaluates back to exactly the indices it was given, both through its own evaluation and through the C expression the source generator writes for it.",
     ["inputs"], "all index sequences and maps", "Tests use linear sequences and a few hand-made sectioned ones; detection heuristics accept wrong patterns only for particular irregular sequences.",
     [INC + "patterns/index/index_pattern_impl.hpp", INC + "patterns/index/linear_index_pattern.hpp", INC + "patterns/index/sectioned_index_pattern.hpp", INC + "patterns/index/plane_2d_index_pattern.hpp", INC + "patterns/index/random_1d_index_pattern.hpp", INC + "lang/c/language_c_index_patterns.hpp"],
     [("pattern detection", INC + "patterns/index/index_pattern_impl.hpp"), ("C text of patterns", INC + "lang/c/language_c_index_patterns.hpp")],
     [Run("h_index.cpp", dict(case="vec", n=8), defs=N, labels=("end", "linear", "sectioned"), thorough=2000, thorough_opts=dict(n=14)),
      Run("h_index.cpp", dict(case="map", n=5, g=2), defs=N, labels=("end", "linear", "sectioned"), thorough=2000, thorough_opts=dict(n=6, g=2)),
      Run("h_index.cpp", dict(case="plane"), defs=N, labels=("end", "plane", "noplane")),
      Run("h_index.cpp", dict(case="plane", nx=3, ny=2), defs=N, labels=("end", "plane", "noplane"), thorough_only=True, thorough=2000),
      Run("h_index.cpp", dict(case="ctext"), defs=N, labels=("clin", "ctable")),
      Run("h_index.cpp", dict(case="ctext2"), defs=N, labels=("cplane", "cmatrix"))],
     MC, "The real detection code runs on symbolic indices (bit-vectors); every branch it takes is forked by Z3 and on each path the pattern's value at every position is compared with the given index; the C text is parsed by an independent expression evaluator on the symbolic parameters.",
     "sequences of 8 (thorough 14) indices, maps of 5 (6) entries with gaps up to 2, 2x2 (3x2) planes; indices in small ranges that make every pattern kind reachable",
     UNIT_ASSUME)

prop("C14", "Splitting generated functions does not change results",
     "Limiting the number of assignments per generated function or the number of operations per assignment never changes any value the generated library computes.",
     ["configurations", "programs", "inputs"], "all limits, models and inputs", "Tests use one or two limits on models whose split points fall between independent statements; values needed across a split are rarely exercised.",
     [INC + "lang/c/language_c.hpp", INC + "code_handler_impl.hpp"],
     [("splitting into local functions", INC + "lang/c/language_c.hpp"), ("operation limits", INC + "code_handler_impl.hpp")],
     [Run("h_pipe.cpp", dict(case="zero", progs="shapes", maxassign=1), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="shapes", maxassign=2), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="shapes", maxops=1), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="zero", progs="shapes", maxops=1, maxassign=3), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="jac", progs="shapes", maxassign=2, maxops=2, custom=0, modes=2), labels=("jac",)),
      Run("h_pipe.cpp", dict(case="hes", progs="shapes", maxassign=2, custom=0, modes=1), labels=("hes",)),
      Run("h_pipe.cpp", dict(case="fr", progs="shapes", maxassign=3, zeros=0), labels=("fr",)),
      Run("h_pipe.cpp", dict(case="zero", progs="loops", maxops=1), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="hes", progs="loops", maxops=1, maxassign=2, custom=0, modes=1), labels=("hes",)),
      Run("h_pipe.cpp", dict(case="zero", progs="atomic", vias=2, maxassign=2), labels=("zero",)),
      Run("h_pipe.cpp", dict(case="jac", progs="atomic", via=1, maxassign=1, maxops=2, custom=0, modes=1), labels=("jac",))] +
     [Run("h_pipe.cpp", dict(case=c, progs=q, maxassign=a, maxops=o, custom=0), labels=(c,), thorough_only=True, thorough=3000)
      for c in ("jac", "hes") for q in ("loops", "shapes") for a, o in ((1, 2), (2, 1), (3, 3))],
     TV, HOW_PIPE,
     "12 model shapes (some configurations also with loops or atomic functions); limits of 1-3 assignments per function, 1-2 operations per assignment and combinations, for values, Jacobians, Hessians and directional passes; all real inputs",
     PIPE_ASSUME)

prop("C16", "Index reduction preserves the solutions of a DAE",
     "Pantelides' and Soares-Secchi's methods keep the original equations and add only exact total time derivatives of them, as few as the structure of the system requires, report the right structural index, accept every structurally regular system and refuse structurally singular ones. Dummy derivatives (with reduction of equations, semi-explicit form and reordering) return as many equations as unknowns, with consistent descriptions, and keep the solutions.",
     ["programs", "configurations", "inputs"], "all DAE systems, choices of method and options, and values of variables and derivatives",
     "Tests reduce half a dozen textbook systems and compare counts of equations; graph algorithms fail for particular incidence structures and the generated derivatives are never evaluated.",
     [INC + "dae_index_reduction/pantelides.hpp", INC + "dae_index_reduction/soares_secchi.hpp", INC + "dae_index_reduction/bipartite_graph.hpp", INC + "dae_index_reduction/dummy_deriv.hpp"],
     [("differentiation of equations", INC + "dae_index_reduction/bipartite_graph.hpp"), ("Pantelides", INC + "dae_index_reduction/pantelides.hpp"), ("Soares-Secchi", INC + "dae_index_reduction/soares_secchi.hpp"), ("dummy derivatives", INC + "dae_index_reduction/dummy_deriv.hpp")],
     [Run("h_dae.cpp", dict(case="known"), labels=("structural", "soares")),
      Run("h_dae.cpp", dict(case="any"), labels=("structural", "singular")),
      Run("h_dae.cpp", dict(case="any", n=3, diffs=2, most=2, forms=0), labels=("structural", "singular")),
      Run("h_dae.cpp", dict(case="dummy"), labels=("dummy", "semi-explicit", "fewer equations")),
      Run("h_dae.cpp", dict(case="anydummy", methods=2), labels=("dummy",)),
      Run("h_dae.cpp", dict(case="anydummy", n=3, diffs=2, most=2, forms=0), labels=("dummy", "block")),
      Run("h_dae.cpp", dict(case="any", n=3, diffs=3, most=2, forms=0), labels=("structural", "singular"), thorough_only=True, thorough=3000),
      Run("h_dae.cpp", dict(case="any", n=3, diffs=1, most=3, forms=0), labels=("structural", "singular"), thorough_only=True, thorough=3000),
      Run("h_dae.cpp", dict(case="any", n=2, time=1), labels=("structural", "singular"), thorough_only=True, thorough=3000),
      Run("h_dae.cpp", dict(case="anydummy", options=1, methods=2), labels=("dummy",), thorough_only=True, thorough=3000)],
     TV, "The real reduction code runs on DAE systems whose incidence (which variables and derivatives occur in each equation, and in which form) is a symbolic choice; every structure within the bounds is explored. On each path the tape of the reduced system is evaluated on symbolic reals and Z3 decides that every added equation equals the k-th total time derivative of its parent (computed by Taylor propagation of the original tape) for all values; offsets are compared with the smallest ones found by exhaustive search.",
     "textbook systems (pendulum variants, linear index-1..3 chains, ODEs); every system of 2 equations in 2 variables with derivatives and two equation forms; systems of 3 equations with at most 2 (thorough 3) variables each and up to 2 (3) differentiated variables; all real values",
     PIPE_ASSUME + ["for the choice of dummy derivatives the numerical Jacobian is evaluated at fixed consistent-size starting values; the claim is for all values at which the selected block is non-singular"])

prop("C19", "Source generated from a code handler is right for all names and histories",
     "Source written directly from a code handler computes the values of the operations recorded, for every choice of variable names, assignment form (plain, accumulating, zeros skipped) and reuse of temporaries, as a function or as statements. Generating again - in another order, with more operations, for fewer results, after evaluating the operations in another handler, or after replacing an independent by an expression - is right as well.",
     ["programs", "configurations", "histories", "inputs"], "all recorded operations, naming and assignment options, sequences of generations and inputs",
     "Tests generate once with one naming scheme; state kept in nodes and in the handler between generations (names, identifiers, use counts) only matters for certain sequences of generations.",
     [INC + "code_handler_impl.hpp", INC + "lang/c/language_c.hpp", INC + "lang/c/lang_c_custom_var_name_gen.hpp", INC + "lang/c/lang_c_default_var_name_gen.hpp", INC + "evaluator/evaluator_cg.hpp"],
     [("naming and reuse of temporaries", INC + "code_handler_impl.hpp"), ("variable names", INC + "lang/c/lang_c_custom_var_name_gen.hpp"), ("assignment printing", INC + "lang/c/language_c.hpp")],
     [Run("h_lang.cpp", dict(case="gen"), labels=("gen",), thorough=4000, thorough_opts=dict(all=1)),
      Run("h_lang.cpp", dict(case="subst"), labels=("subst",), thorough=4000, thorough_opts=dict(all=1))],
     TV, HOW_PIPE,
     "5 operation graphs (thorough 12), 3 naming schemes (default, own prefixes, own names for some variables), 3 assignment forms, reuse of temporaries on/off, function or statements, 5 histories of up to 3 generations; 4 (12) graphs where an independent is replaced by the solution of an equation (constants or expressions; kept, undone or removed) before and between generations; all real input values. Independents are removed before the first generation only. Own names of independent variables are the same in every generation of one handler",
     PIPE_ASSUME)

prop("C20", "A loaded model offers what was requested; its calls are independent",
     "A function of a compiled model is reported available exactly when its generation was requested (in any combination of requests), and then returns correct results. Calls with arrays that do not fit, or to functions that were not generated, are refused with an exception. Results never depend on which calls were made before on the same model.",
     ["configurations", "histories", "inputs"], "all combinations of requested functions, all pairs of calls, all arguments",
     "Tests generate everything and call functions in one order with right sizes; shared buffers of the model wrapper and functions depending on one another are not exercised.",
     [INC + "model/functor_generic_model.hpp", INC + "model/generic_model.hpp", INC + "model/model_c_source_gen_impl.hpp", INC + "model/model_c_source_gen.hpp"],
     [("calls of a loaded model", INC + "model/functor_generic_model.hpp"), ("selection of generated functions", INC + "model/model_c_source_gen_impl.hpp")],
     [Run("h_pipe.cpp", dict(case="api", progs="shapes"), labels=("histories", "sizes")),
      Run("h_pipe.cpp", dict(case="flags", progs="shapes", only="chain"), labels=("flags",), thorough=3000, thorough_opts=dict(all=1)),
      Run("h_pipe.cpp", dict(case="flags", progs="loops", only=1), labels=("flags",), thorough_only=True, thorough=3000),
      Run("h_pipe.cpp", dict(case="api", progs="loops"), labels=("histories", "sizes"), thorough_only=True, thorough=3000)],
     TV, HOW_PIPE + " The requested functions, the calls made and the array sizes are symbolic choices.",
     "12 model shapes, every ordered pair of the 12 kinds of calls followed by the first one again; arrays one too short or one too long; 98 (thorough: all 2^8, with and without reuse) combinations of requested functions for one model; all real inputs",
     PIPE_ASSUME)

prop("C21", "Values of different code handlers cannot be mixed",
     "Any operation combining variables that belong to two different code handlers raises an exception instead of silently building an expression that mixes two programs.",
     ["programs", "inputs"], "all operators, assignments and conditionals, all operand positions",
     "The test suite is built with assertions and exercises only a few operators; in a release build a missing check goes unnoticed.",
     [INC + "arithmetic.hpp", INC + "arithmetic_assign.hpp", INC + "math_other.hpp", INC + "cond_exp_op.hpp"],
     [("handler lookup", INC + "arithmetic.hpp"), ("handler lookup for conditionals", INC + "cond_exp_op.hpp")],
     [Run("h_expr.cpp", dict(case="mixing"), labels=("mixing",))],
     MC, "Every operator/position combination is run symbolically on values of two handlers; on each path the claim is that an exception was raised.",
     "all binary operators, compound assignments, pow and the five conditionals with each operand position taken from the other handler, with and without recorded values",
     PIPE_ASSUME)

na("C13", "LaTeX, MathML and Dot output state the same expressions as the model",
   "The documents written by the LaTeX, MathML and Dot languages for an operation graph denote the values the graph has.",
   ["programs"], "all operation graphs",
   "The tests only check that a file is produced.",
   [INC + "lang/latex/language_latex.hpp", INC + "lang/mathml/language_mathml.hpp", INC + "lang/dot/dot.hpp"],
   [("typesetting of the operation graph", INC + "lang/latex/language_latex.hpp")],
   "The output is a typeset document: deciding what it denotes needs an independent formal semantics of the LaTeX/MathML/Dot text, which does not exist; there is no executable code for a solver to reason about.")

na("C17", "LLVM just-in-time models give the values of the compiled dynamic library",
   "A model compiled in memory by the LLVM/Clang bridge returns the same values, derivatives and sparsity patterns as the dynamic library of the same sources.",
   ["programs", "inputs"], "all models, all real inputs",
   "The tests compare fixed models at one point.",
   [INC + "model/llvm/llvm_model_library.hpp", INC + "model/llvm/llvm_base_model_library_processor.hpp"],
   [("in-memory compilation of the generated sources", INC + "model/llvm/llvm_model_library.hpp")],
   "The repository's LLVM bridge does not support the LLVM version installed here, so the code is not part of the build; the C sources it would compile are the ones decided by C01-C14.")

na("C18", "Rounding of generated code stays close to that of the original function",
   "The values computed by the generated library in floating-point arithmetic differ from the original's only by the rounding of reordered operations.",
   ["programs", "inputs"], "all models, all floating-point inputs",
   "The tests use fixed tolerances at fixed points.",
   [INC + "lang/c/language_c.hpp", INC + "code_handler_impl.hpp"],
   [("order of operations in the generated source, digits of constants", INC + "lang/c/language_c.hpp")],
   "Z3's floating-point theory does not scale to whole generated functions with products and libm calls, and libm has no bit-exact definition to encode; all claims here are over the reals instead.")
