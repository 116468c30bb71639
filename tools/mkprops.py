#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
S="libclingo-lpx/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","Reported assignments satisfy every active linear constraint",
 "For every answer reported, the rational value reported for each theory variable jointly satisfies, in exact arithmetic, every &sum, &diff and &dom constraint whose rule body holds in that answer. Every variable occurring with a non-zero coefficient in such a constraint has a reported value.",
 ["programs","inputs"],"all programs with theory constraints (any coefficients, numbers of variables, constraints and bodies), every answer of each",
 "The tests look only at satisfiability, counts and one objective value on about twenty fixed programs; no test ever reads back an assignment.",
 [S+"solving.cc",S+"tableau.cc",S+"clingo-lpx.cc"],
 [("simplex search for a satisfying assignment",S+"solving.cc:Solver::solve/select_/pivot_/update_"),("restoring bounds and values on backtracking",S+"solving.cc:Solver::undo, Variable::update_lower/update_upper/set_value"),("row elimination",S+"tableau.cc:Tableau::pivot")],
 [("bound trail / assignment trail","what must be restored when a decision level is undone",S+"solving.hh:Solver"),("variable bounds and values","current bounds and current value of each variable",S+"solving.hh:Solver::Variable")],
 ["clingolpx_on_model (__lpx/2 theory symbols)","clingolpx_assignment_*"])
p("C02","Answers are exactly the stable models with a feasible constraint system",
 "With all answers requested and no global objective, the answers reported are exactly those stable models of the program for which the linear constraints whose bodies hold are simultaneously satisfiable over the rationals, each reported exactly once. In particular constraints without variables hold or fail according to their constants, and the search always ends.",
 ["programs","histories"],"all programs, all search histories (decisions, conflicts, backjumps) the ASP solver goes through while enumerating",
 "Tests check around fifteen fixed programs, nearly all without choices, so backtracking through theory states is hardly reached; no test compares the set of answers with a reference.",
 [S+"solving.cc",S+"parsing.cc",S+"tableau.cc"],
 [("conflict clauses from infeasible rows",S+"solving.cc:Solver::select_/update_bound_"),("undo",S+"solving.cc:Solver::undo"),("variable-free constraints decided at initialisation",S+"solving.cc:Solver::prepare")],
 [("bounds","literal to bound map",S+"solving.hh:Solver::bounds_")],
 ["models enumerated by the ASP solver","solve result"])
p("C03","Local objective: optimum, boundedness and assignment are exact",
 "When the program has an objective and it is treated locally, each answer reports the exact optimum of the objective over all assignments satisfying that answer's constraints and flags it bounded, or flags it unbounded exactly when no finite optimum exists. The reported assignment satisfies the constraints and evaluates to the reported objective value.",
 ["programs","inputs"],"all programs with &minimize/&maximize statements, every stable model",
 "Four fixed single-model linear programs are tested for the optimum; none with several models, conditional objective terms, degenerate vertices, or a check of the assignment itself.",
 [S+"solving.cc",S+"parsing.cc"],
 [("primal simplex on the objective row",S+"solving.cc:Solver::optimize"),("objective collection",S+"parsing.cc:parse_theory"),("reporting",S+"clingo-lpx.cc:extend_model")],
 [("objective","objective row, value and boundedness flag",S+"solving.hh:Solver::Objective")],
 ["__lpx_objective/2 theory symbol","clingo-lpx output line 'Optimization:'"])
p("C04","Global objective enumeration ends with a globally optimal answer",
 "With --objective=global and all answers requested, every reported answer is a feasible stable model reported with its own exact optimum, each next bounded objective is at least the previous one plus the step, and once an unbounded answer was reported no bounded one follows. The last answer is optimal over all stable models (short of it by less than the step; unbounded if any stable model is unbounded), and with step zero every globally optimal stable model is reported.",
 ["programs","histories","configurations"],"all programs with objectives, all step values (zero, positive rational, e in strict mode), all search histories",
 "Four fixed programs, one step value each; none checks the intermediate answers or that all optimal stable models are enumerated.",
 [S+"solving.cc",S+"solving.hh",S+"clingo-lpx.cc"],
 [("asserting a better objective as a new bound",S+"solving.cc:Solver::integrate_objective/assert_bound_"),("discarding bounded answers",S+"solving.cc:Solver::discard_bounded"),("best objective state",S+"solving.cc:ObjectiveState")],
 [("objective state","best objective so far, with generation",S+"solving.hh:ObjectiveState")],
 ["models in order of reporting with __lpx_objective/2"])
p("C05","Heuristic and propagation options never change the answers",
 "For a given program, the set of answers, their satisfiability and their optimal objective values are the same for every combination of --select, --store, --propagate-bounds and --propagate-conflicts and for every ASP search configuration. These options only influence how fast answers are found. Likewise, decisions and clauses contributed by other propagators of the same control affect the answers only through the clauses they add.",
 ["configurations","programs"],"all combinations of option values x all programs",
 "Tests fix one option combination (conflict, partial, changed, conflicts on) for every case.",
 [S+"solving.cc",S+"clingo-lpx.cc"],
 [("bound propagation",S+"solving.cc:Solver::propagate_"),("sign heuristic",S+"solving.cc:Solver::adjust"),("stored assignments",S+"solving.cc:Solver::store_sat_assignment"),("binary conflict clauses",S+"solving.cc:Solver::prepare, Bound::conflicts")],
 [("propagation queue","rows whose bounds may have changed",S+"solving.hh:Solver::propagate_queue_")],
 ["models and objective values under each configuration"])
p("C06","Parallel solving reports the same answers as sequential solving",
 "Solving with several threads reports the same set of answers, with assignments satisfying the active constraints and the same local optima, and under a global objective ends with the same globally optimal value, as solving with one thread. Values read through the interface for the reporting thread belong to the model being reported. The threads do not race on the theory's data, also when their number changes between solve calls.",
 ["schedules","programs","configurations"],"all thread counts and thread interleavings x all programs",
 "No test uses more than one thread.",
 [S+"solving.cc",S+"solving.hh",S+"clingo-lpx.cc"],
 [("one solver state per thread",S+"solving.cc:Propagator::init/propagate/check/undo"),("replaying facts into other threads",S+"solving.cc:Propagator::check"),("shared best objective under a lock",S+"solving.cc:ObjectiveState")],
 [("facts","literals fixed on the top level, replayed by each thread",S+"solving.hh:Propagator::facts_")],
 ["models, thread ids and values per model","memory accesses of the threads (ThreadSanitizer)"])
p("C07","Multi-shot solving equals solving the accumulated program",
 "After any sequence of adding and grounding program parts, assigning externals, and solving (repeatedly, with or without assumptions), each solve call reports exactly the answers of the program accumulated so far under the current externals and assumptions: same answer sets, satisfying assignments, and objective equal to the sum of all objective terms added so far. Earlier solve calls leave no trace in later ones.",
 ["histories"],"all finite sequences of add/ground/assign_external/release_external/solve operations",
 "Two fixed sequences of two and three steps, counting models only.",
 [S+"solving.cc",S+"parsing.cc"],
 [("accumulating inequalities and objective over steps",S+"solving.cc:Propagator::init"),("auxiliary variables for conditional elements",S+"parsing.cc:parse_sum_elems"),("facts carried over to the next step",S+"solving.cc:Propagator::propagate/check")],
 [("accumulated inequalities, objective, variables, auxiliary map","kept for the lifetime of the theory",S+"solving.hh:Propagator")],
 ["solve results per step"])
p("C08","Linear expressions evaluate exactly, with arbitrary precision",
 "Every well-formed linear expression over +, -, *, / (with constants), integers, quoted decimals of any length and compound variable names (whose arguments are evaluated arithmetically) in &sum elements and guards means exactly the rational linear form it denotes. Variables that denote the same term after evaluation are the same variable, and different terms are different variables.",
 ["inputs"],"all expressions of the documented term language, of any nesting and size",
 "Six fixed expressions, with small integers and one decimal.",
 [S+"parsing.cc",S+"number_flint.hh",S+"clingo-lpx.cc"],
 [("recursive evaluation of theory terms",S+"parsing.cc:parse_sum_elem/evaluate/as_num/unquote"),("merging coefficients",S+"parsing.cc:simplify")],
 (),
 ["values of variables tied to the expression by an equality"])
p("C09","Ill-formed theory atoms are rejected with an error, never accepted",
 "Products of two variable expressions, division by zero or by a variable expression, missing guards, several or conditional elements in &dom/&diff, non-numeric &dom bounds, numeric &dom variables, constants left over in objectives, and arithmetic over non-numbers inside variable names each make solving fail with an error message. Such a program is never solved as if it meant something else, and rejecting it never ends the process.",
 ["inputs"],"all ill-formed theory atoms at any nesting depth, amid otherwise valid programs",
 "No test contains an ill-formed theory atom.",
 [S+"parsing.cc",S+"clingo-lpx.cc"],
 [("syntax checks",S+"parsing.cc:check_syntax/throw_syntax_error"),("errors turned into C API failures",S+"clingo-lpx.cc:CLINGOLPX_TRY/CATCH")],
 (),
 ["error reported by the solve call"])
p("C10","&dom, &diff and &minimize equal their documented expansions",
 "Replacing a &dom constraint by the two corresponding &sum bounds, a &diff constraint by the &sum constraint over the same difference, or a &minimize statement by the &maximize statement with negated coefficients (and likewise in the other direction) never changes the answers, their satisfiability, or (up to sign) the optimal objective value.",
 ["programs"],"all programs and all choices of occurrences to rewrite",
 "One parsing test touches &minimize; &dom and &diff are not tested at all.",
 [S+"parsing.cc",S+"parsing.hh"],
 [("translation of the shortcuts to inequalities",S+"parsing.cc:parse_theory/parse_diff_elem"),("theory grammar",S+"parsing.hh:THEORY, THEORY_Q")],
 (),
 ["answers and objective values of program and rewritten program"])
p("C11","Conditional elements contribute exactly when their condition holds",
 "A conditional element of a &sum constraint or an objective contributes its term (variables and constants alike) in answers where its condition holds and contributes nothing in answers where it does not, independently for each element, and also when several elements share a condition or a variable.",
 ["programs","inputs"],"all combinations of conditional elements, conditions (conjunctions, negation, derived atoms) and answers",
 "One test program contains conditional elements; it counts three models.",
 [S+"parsing.cc"],
 [("auxiliary variable per (variable, condition)",S+"parsing.cc:parse_sum_elems")],
 [("auxiliary variable map","maps variable and condition to an auxiliary variable",S+"parsing.hh:VarMap")],
 ["answers and values of variables tied to conditional sums"])
p("C12","Strict inequalities are honoured in strict mode",
 "In strict mode the answers are exactly the stable models whose constraint system, with < and > read strictly, is satisfiable over the reals; reported values c + k*e satisfy every active constraint for all sufficiently small positive e, and a reported optimum has the true supremum as its rational part, with a zero e part exactly when that supremum is attained. Programs without strict relations get the same answers and optima with and without strict mode.",
 ["programs","configurations"],"all programs mixing strict and non-strict relations",
 "Seven fixed programs checked for satisfiability only, one knapsack instance in strict mode.",
 [S+"solving.cc",S+"number.hh",S+"parsing.hh",S+"clingo-lpx.cc"],
 [("bounds with infinitesimal part",S+"solving.cc:bound_val/bound_rel"),("numbers with infinitesimal part",S+"number.hh:RationalQ"),("inverting relations",S+"problem.cc:invert")],
 (),
 ["models and values in strict mode"])
p("C13","Every clause the theory adds is implied by the constraints",
 "Every clause the theory hands to the ASP solver, as a conflict, a propagated bound or during initialisation, is a logical consequence: falsifying all its literals (together with what is fixed on the top level) makes the linear constraints these literals activate infeasible, whatever truth values the remaining condition literals have. This holds at every point of every search, for all propagation options.",
 ["histories","configurations"],"every clause added in any search over any program, all propagation options, without global objective",
 "A clause that is too strong only shows when the wrongly excluded part of the search space matters; tests never inspect clauses.",
 [S+"solving.cc"],
 [("conflict explanation",S+"solving.cc:Solver::select_/update_bound_"),("bound propagation reasons",S+"solving.cc:Solver::propagate_"),("binary clauses",S+"solving.cc:Solver::prepare")],
 (),
 ["clingo_propagate_control_add_clause / clingo_propagate_init_add_clause, by interposition in the harness"])
p("C14","Number operations are exact",
 "All arithmetic, comparison, gcd, parsing, printing, negation, swap, copy and move operations on integers, rationals and rationals with an infinitesimal part, in every operand combination (machine integer, integer, rational; lvalue or rvalue; aliased operands), return exactly the mathematical result at any magnitude, in canonical form (parsed fractions once canonicalised), and leave operands that must not change unchanged. Ordering is the lexicographic total order and agrees with equality. This holds for either number backend (FLINT and imath).",
 ["inputs"],"all operand values, including zero, negative numbers, machine-word limits and multi-word numbers, and all operand kinds",
 "About fifteen assertions on numbers below ten.",
 [S+"number.hh",S+"number_flint.hh",S+"number_imath.hh"],
 [("operators",S+"number_flint.hh"),("the other backend",S+"number_imath.hh"),("componentwise operators and lexicographic comparison",S+"number.hh")],
 (),
 ["operator results"])
p("C15","The tableau represents the same linear system after any operations",
 "After any sequence of setting entries and pivoting, the tableau equals the one obtained by exact dense Gauss-Jordan pivoting: entry reads, row traversal and column traversal agree with each other and with the reference, visiting each non-zero entry exactly once and no zero entry, with non-zero row denominators that are in lowest terms with their row after a pivot changed it. Size, emptiness and clearing are consistent with this.",
 ["histories","inputs"],"all sequences of set/pivot/traverse operations, all entry values",
 "One 3x3 pivot and a handful of set/get calls.",
 [S+"tableau.cc",S+"tableau.hh"],
 [("sparse pivoting with lazy column deletion",S+"tableau.cc:Tableau::pivot/simplify_/set"),("traversal",S+"tableau.hh:update_row/update_col")],
 [("rows and columns","sparse rows with common denominator; column index lists with lazy deletion",S+"tableau.hh:Tableau")],
 ["get/update_row/update_col/unsafe_get"])
p("C16","The C interface gives one consistent view of the assignment",
 "While a model is reported, iterating the assignment visits each theory variable of the program exactly once and no auxiliary variable; symbol lookup and index-to-symbol are inverse on them and fail for unknown symbols; and the value obtained by index is the same as the one added to the model. Symbols keep their index over all models, threads and solve calls of a control.",
 ["programs","histories"],"all programs (symbols of any shape), models, threads and multi-shot steps",
 "The C interface has no test at all.",
 [S+"clingo-lpx.cc","libclingo-lpx/clingo-lpx.h",S+"solving.cc"],
 [("index shift and skipping of auxiliary symbols",S+"clingo-lpx.cc:LPXPropagatorFacade::next/has_value/get_value/lookup_symbol"),("model extension",S+"clingo-lpx.cc:LPXPropagatorFacade::extend_model")],
 [("variable index map","symbol to index and back",S+"solving.hh:Propagator::var_map_/var_vec_")],
 ["clingolpx_lookup_symbol/get_symbol/assignment_begin/next/has_value/get_value/on_model"])
p("C17","Configuration by key and by command-line option are equivalent and checked",
 "For every option and value, configuring through the key/value interface accepts exactly the values the command-line option accepts (flags take boolean words) and has the same effect on solving; unknown keys and invalid values are rejected with an error and leave the configuration as it was. An infinitesimal global step without strict mode is rejected by validation.",
 ["configurations","inputs"],"all keys x all value strings, in any sequence",
 "No test calls configure, register_options or validate_options.",
 [S+"clingo-lpx.cc","libclingo-lpx/clingo-lpx.h"],
 [("value parsers",S+"clingo-lpx.cc:parse_bool/parse_select/parse_propagate/parse_store/parse_objective"),("key dispatch",S+"clingo-lpx.cc:clingolpx_configure"),("option registration",S+"clingo-lpx.cc:clingolpx_register_options/validate_options")],
 [("options","theory options and strict flag",S+"clingo-lpx.cc:clingolpx_theory")],
 ["return value, error message, and solving behaviour incl. statistics"])
p("C18","The clingo-lpx program prints what was solved, for text and ASPIF input",
 "The stand-alone program prints, for each answer, its shown atoms, one value per theory variable and the objective line, and these together with the printed verdict and exit code agree with the feasible stable models and optima of the input; the grounded (ASPIF) form of a program gives the same result as its text form, output in JSON tells the same as the textual one, atoms and terms of the program never show up as values whatever their names, and statistics printed on request are those of the search. Invalid input or option values give an error message, no answers and an error exit code; options that do not fit together give an error message and no answers.",
 ["programs","inputs","configurations"],"all input programs, text or ASPIF, and option combinations",
 "The program is not run by any test.",
 ["app/src/main.cc","app/lib/src/app.cc",S+"clingo-lpx.cc"],
 [("model printing","app/src/main.cc:App::print_model"),("program loading","app/lib/src/app.cc:Rewriter"),("option registration",S+"clingo-lpx.cc:clingolpx_register_options")],
 (),
 ["standard output and exit code of clingo-lpx"])
p("C19","The Python package behaves like the native interface",
 "Using the Python theory class (configure, register, rewrite, prepare, on_model, assignment, lookup_symbol, get_value, on_statistics), with callbacks, yielding or asynchronously, and running the package as a program give the same verdicts, answers, variables, optima and errors as the native library (or program) on the same program and configuration, statistics are passed on, scripts run only when enabled, the reported values satisfy the constraints, and the class's functions agree with each other.",
 ["programs","configurations"],"all programs and configurations",
 "The Python module is only compiled, no test imports it.",
 ["libpyclingo-lpx/_clingolpx.c","libpyclingo-lpx/clingolpx/__init__.py","libpyclingo-lpx/clingolpx/__main__.py",S+"clingo-lpx.cc"],
 [("cffi binding","libpyclingo-lpx/_clingolpx.c"),("application","libpyclingo-lpx/clingolpx/__main__.py")],
 (),
 ["clingolpx.ClingoLPXTheory and python -m clingolpx"])
p("C20","Simplex statistics are consistent over threads and solve calls",
 "After each solve call, the step statistics (pivots, bounds propagated) are non-negative whole numbers summed over all threads, and the accumulated statistics equal the sum of the step statistics of all solve calls so far. Bounds are counted as propagated only when bound propagation is enabled.",
 ["histories","configurations"],"all sequences of solve calls, thread counts and options",
 "No test reads statistics.",
 [S+"solving.cc",S+"clingo-lpx.cc"],
 [("statistics export",S+"solving.cc:Propagator::on_statistics")],
 [("statistics","pivots and propagated bounds per thread",S+"solving.hh:Statistics")],
 ["clingolpx_on_statistics (user_step/user_accu)"])
p("C21","Solving and optimising terminate on degenerate problems",
 "Solving, including optimisation, ends for every program, also when the constraints are highly degenerate (many constraints tight at the same point, redundant or duplicated rows, zero right-hand sides, the classic cycling examples). The verdict and optimum are then exact.",
 ["inputs","programs"],"all degenerate linear systems, in any order of variables and constraints",
 "No degenerate system is tested; cycling needs particular pivoting sequences.",
 [S+"solving.cc"],
 [("smallest-index pivoting rule",S+"solving.cc:Solver::select_, Solver::optimize")],
 [("conflict queue","basic variables violating a bound, smallest first",S+"solving.hh:Solver::conflicts_")],
 ["end of the solve call, verdict and objective value"])
p("C22","Answers do not depend on how a program is written down",
 "Reordering rules and elements, injectively renaming variables, scaling a constraint by a non-zero rational (turning the relation around for negative factors), moving terms between element list and guard, splitting coefficients over several terms, giving constraints as instances of rules with variables, and adding redundant implied constraints leave the answers unchanged, and optimal objective values up to the corresponding factor. This also holds for systems with many variables, dense rows and large coefficients.",
 ["programs"],"all programs and all sequences of such rewritings",
 "Each test program exists in one notation.",
 [S+"parsing.cc",S+"solving.cc",S+"tableau.cc"],
 [("normalisation to tableau rows and bounds",S+"parsing.cc:simplify, "+S+"solving.cc:Solver::prepare")],
 (),
 ["answers and objective values of program and rewritten program"])
p("C23","Arbitrary input is solved or rejected without memory errors",
 "For any program text and any sequence of interface calls in the documented order, the library either solves or reports an error through its error-returning interface: no crash, no abnormal process end, no out-of-bounds or uninitialised access, no undefined arithmetic, no leak of the exception through the C interface. Destroying the theory releases it cleanly at any point.",
 ["inputs","histories"],"all program texts (including mutated and deeply nested ones) and call sequences",
 "Tests feed only well-formed programs and run without sanitizers.",
 [S+"parsing.cc",S+"clingo-lpx.cc",S+"solving.cc",S+"number_flint.hh"],
 [("syntax checks",S+"parsing.cc"),("exception barrier",S+"clingo-lpx.cc:CLINGOLPX_TRY/CATCH"),("checked casts",S+"util.hh:safe_cast")],
 (),
 ["process state under AddressSanitizer and UndefinedBehaviorSanitizer"])
p("C24","Clasp's reasoning modes work on the feasible answers",
 "Brave and cautious consequences, projection to shown atoms, one or all optimal answers of weak constraints and minimize statements, and a limited number of models are, for programs with linear constraints, those of the set of feasible stable models: consequences are the union or intersection of exactly the feasible answers, each projection is reported once, the optimum is taken over feasible answers only, and a model limit stops after that many distinct ones, also when the mode changes between solve calls. Each result (intermediate ones included) is reported with the linear assignment and objective of a feasible answer behind it. Domain heuristics do not change results.",
 ["programs","configurations"],"all programs and reasoning modes, under all theory options",
 "No test combines the theory with a reasoning mode other than plain enumeration.",
 [S+"solving.cc",S+"clingo-lpx.cc"],
 [("clauses that stay valid when the solver asks for other models",S+"solving.cc:Solver::check/solve, Propagator::check"),("undo of bounds",S+"solving.cc:Propagator::undo")],
 [("bounds and values per thread","restored on backtracking",S+"solving.hh:Solver")],
 ["models, costs and optimality flags reported with the theory registered"])
p("C25","The simplex state stays consistent throughout every search",
 "After every step of the search (asserting literals, pivoting, propagating, optimising, backtracking, and across interrupted and repeated solve calls), the values of the variables satisfy all rows of the tableau, non-basic variables lie within their bounds, every basic variable outside its bounds is scheduled for repair, and an assignment reported as satisfying, optimal or restored by backtracking satisfies all bounds asserted at that point.",
 ["histories","programs","configurations"],"all search histories: programs, option settings, backtracking orders, threads, interrupted and repeated solve calls",
 "Tests compile these cross checks in but execute them on a few fixed programs under default search settings only.",
 [S+"solving.cc",S+"solving.hh",S+"util.hh"],
 [("incremental update and pivoting",S+"solving.cc:Solver::update_/pivot_/select_/optimize"),("backtracking",S+"solving.cc:Solver::undo/store_sat_assignment"),("bound assertion",S+"solving.cc:Solver::update_bound_")],
 [("assignment and bound trails","values and bounds to restore per decision level",S+"solving.hh:Solver"),("conflict queue","basic variables outside their bounds",S+"solving.hh:Solver::conflicts_")],
 ["the library's cross checks (CLINGOLPX_CROSSCHECK), process state"])
p("C26","Theories of one process are independent and runs are repeatable",
 "Several theory objects, each registered with its own control, can be used in one process at the same time: nested within each other's model callbacks, interleaved operation by operation, or in different threads. Each reports exactly the results it reports when it is used alone, which are those of its own program and options: the same answers in the same order with the same values, objectives and statistics (single-threaded search). Reading an assignment while a model is reported is not affected by what other theories do meanwhile.",
 ["programs","histories","schedules"],"all sets of programs and options and all interleavings of their operations",
 "No test uses two theories at the same time or runs the same program twice and compares.",
 [S+"clingo-lpx.cc",S+"solving.cc",S+"solving.hh",S+"parsing.cc",S+"number_flint.hh"],
 [("state per theory object",S+"clingo-lpx.cc:clingolpx_theory, LPXPropagatorFacade"),("objective state and solvers per propagator",S+"solving.hh:Propagator")],
 [("objective bound","best value of this theory's current solve call",S+"solving.hh:ObjectiveState")],
 ["models, values, objectives, statistics of each theory"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sc)
    print("valid",len(P))
except ImportError: pass
