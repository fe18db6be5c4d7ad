#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that statements stay in one place)."""
import json, os
PR = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    PR.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext},
               "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                           "observe_at": list(observe), "hook_needed": None}})


S = "printemps/solver/"
N = "printemps/neighborhood/"
M = "printemps/model_component/"

P("P01", "Best-so-far solutions only improve and stay self-consistent",
  "At every point of a solve, a recorded best solution (locally penalised, globally penalised, or feasible) is replaced only by a candidate that is strictly better under that record's own criterion, and the feasible record only by a candidate judged feasible. Whenever a record is replaced, its variable values, its score and its objective value are all taken from that same candidate, and every strictly better candidate offered does replace it. A solution is reported as 'feasible found' only after a feasible candidate was recorded.",
  ["histories", "inputs"], "all sequences of candidate solutions offered during any solve",
  "Unit tests of the incumbent holder feed a few hand-made scores; the property ranges over all candidate sequences and over both ways candidates are offered, and no test runs a solver.",
  ["printemps/solution/incumbent_holder.h", S + "tabu_search/core/tabu_search_core_state_manager.h", S + "local_search/core/local_search_core_state_manager.h"],
  [("guarded replacement of the three records", "incumbent_holder.h: try_update_incumbent (2 overloads)"), ("candidates offered", "*_core_state_manager.h: update/setup")],
  [("incumbent solution/score/objective triples", "the three best-so-far records", "incumbent_holder.h")], ["solver result", "incumbent files"])

P("P02", "Search moves never change fixed variables or leave variable bounds",
  "No move that the search may select changes the value of a fixed variable or gives a variable a value outside its lower/upper bound; this includes moves supplied by a user-defined neighborhood. Moves that fail this test are filtered out before selection for every neighborhood type, and applying a move writes only non-fixed variables. Setting a variable's bounds keeps exactly the given bounds and moves its value inside them.",
  ["inputs", "programs", "histories"], "all models, all states of variables, all neighborhood types, all user-supplied moves",
  "Tests check a handful of generated moves per neighborhood on toy models; they never check every generator's filter against every combination of fixed/bound state.",
  [N + "*_move_generator.h", N + "abstract_move_generator.h", N + "move.h", M + "variable.h", "printemps/model/model.h"],
  [("per-neighborhood move filter", N + "*_move_generator.h: setup() updater"), ("bound/fixed predicates", N + "abstract_move_generator.h: has_fixed_variable, has_bound_violation"), ("mutable write", M + "variable.h: set_value_if_mutable; model.h: update(move)")],
  [("availability flag of each candidate move", "1 when the move may be selected", N + "abstract_move_generator.h")], ["variable values in any reported solution"])

P("P03", "Parallel regions are race-free and independent of the thread count",
  "In every parallel loop each iteration writes only data that no other iteration reads or writes, so that the values computed are the same for one thread and for many. No parallel iteration appends to, resizes or otherwise restructures a shared container, and none draws from a shared random engine.",
  ["schedules"], "all thread counts and all interleavings of every parallel region",
  "The unit tests are built without multi-threading, so no interleaving of any parallel region is exercised.",
  ["printemps/model/model.h", N + "*_move_generator.h", S + "tabu_search/core/tabu_search_core.h", S + "local_search/core/local_search_core.h", S + "lagrange_dual/core/*.h", S + "pdlp/core/*.h", "printemps/utility/sparse/*.h"],
  [("work-sharing loops whose iteration i writes only slot i", "every '#pragma omp parallel for'")], [], ["solver result with different thread counts"])

P("P04", "All randomness comes from engines seeded by the options",
  "Every random draw made by the solver comes from a pseudo-random engine that is seeded at the start of each run, before the first draw, from the user's seed option (or, for the inner searches, from a value derived deterministically from the run such as the loop count). No other entropy source - hardware randomness, the C library generator, default-seeded or function-static engines, process or thread identity - is used, and the clock influences nothing but time limits, reports and the number of threads.",
  ["configurations", "histories"], "all option settings and all solver runs",
  "Tests never compare two solver runs, and a hidden entropy source would change nothing a unit test observes.",
  [S + "tabu_search/core/*.h", S + "tabu_search/controller/*.h", S + "local_search/core/*.h", "printemps/utility/random.h", "printemps/utility/q_learning/*.h"],
  [("engine seeding", "m_get_rand_mt.seed(...), m_mt19937.seed(...) sites"), ("option seeds", "printemps/option/*_option.h seed fields")], [], ["sequence of visited solutions", "solver result"])

P("P05", "Every search loop obeys its time, iteration and target limits",
  "Each main loop of the solver (preliminary LP, Lagrange dual, local search, tabu search and the outer tabu-search controller) re-reads the clock and tests its own time limit, the overall time limit (counting time already spent before the loop), its iteration limit and - except in the preliminary LP - the target-objective condition in every iteration, and leaves the loop with the matching termination status as soon as one of them is met. The iteration counter advances in every iteration that does not leave the loop, and a limit that is not met never ends the loop with that status.",
  ["inputs", "configurations", "histories"], "all option settings, all run times, all iterations",
  "No test runs any solver loop; limits are only met in particular time/iteration combinations.",
  [S + "tabu_search/core/tabu_search_core.h", S + "local_search/core/local_search_core.h", S + "lagrange_dual/core/lagrange_dual_core.h", S + "pdlp/core/pdlp_core.h", S + "tabu_search/controller/tabu_search_controller.h"],
  [("terminate-condition helpers called in every loop cycle", "satisfy_*_terminate_condition in each core"), ("time offsets", "controllers: option.*.time_offset")], [], ["termination status", "elapsed time", "iteration counts"])

P("P06", "Every option key sets, exports and prints exactly its own option",
  "For every option, reading an option file that contains its key sets that option and no other, options whose key is absent keep their documented default, and exporting the options writes the option's current value under the same key that is read back. Symbolic mode names are accepted and exported one-to-one.",
  ["inputs", "configurations"], "all option files (any subset of keys)",
  "Option tests compare one hand-written file and the defaults; a key wired to a neighbour's field, dropped from export, or left uninitialised escapes when both sides of the test use the same value.",
  ["printemps/option/*.h", "printemps/option/enumerate/*.h"],
  [("key-to-field reads", "option/*_option.h: setup()"), ("export", "option/*_option.h: to_json()"), ("defaults", "option/*_option.h: initialize()"), ("name maps", "option/enumerate/*.h")], [], ["option values after loading", "status.json options section"])

P("P07", "MPS input is translated faithfully or rejected",
  "For any MPS file, each record is translated to what the format defines: row codes N/L/E/G give the objective and the constraint senses; every (row, value) pair of a column record becomes that column's coefficient in that row or in the objective (only negligible values are dropped); columns between integer markers are integer; every pair of an RHS record becomes the row's right-hand side; a RANGES value R gives an L row the additional side >= rhs-|R|, a G row <= rhs+|R|, an E row the interval [rhs, rhs+|R|] or [rhs-|R|, rhs] by the sign of R; bound codes FR, BV, MI (<= 0), PL (>= 0), LO, LI, UP, UI, FX set exactly the bounds, integrality and fixing they name, integer bounds rounded inward and limited to the supported range; integer columns without bounds are binary and other columns are [0, inf). Unknown row codes, coefficients for unknown rows, bounds for unknown columns and files without ENDATA are rejected with an exception. When the file is turned into a model, every row and column appears with the same name, sense, bounds, fixing, coefficients and right-hand side, the objective is minimised, and files with continuous columns are rejected unless the caller accepts them.",
  ["inputs"], "all MPS files",
  "Tests parse a few fixed files; they do not cover every combination of row sense, bound code, integer marker and range sign.",
  ["printemps/mps/mps.h", "printemps/model/model.h"],
  [("section parser", "mps.h: read_mps"), ("model construction", "model.h: import_mps")], [], ["parsed model", "solver input"])

P("P08", "Constraint and variable classification is exact and consistently accounted",
  "A constraint is given a structural type only if its expression, sense and right-hand side have the shape that defines that type, at most one type at a time, and reclassifying first clears every previous type. Each type's flag, label, list of constraints, counters and report lines refer to that same type and every type is covered everywhere types are enumerated. The model's lists of variables by kind (binary, integer, fixed, mutable, selection, dependent, ...) contain exactly the variables of that kind, so that a constraint disabled or reclassified moves between the lists accordingly.",
  ["inputs", "histories"], "all constraints and all reclassifications",
  "Tests classify examples for each type but do not check that flag, label, list and clear cover each other for every type.",
  [M + "constraint.h", M + "constraint_type_reference.h", M + "constraint_sense.h", "printemps/model/model.h"],
  [("type flags, clear, setter, label", "constraint.h"), ("type lists and counters", "model.h: categorize_constraints, print_number_of_constraints")], [], ["problem-size report", "status.json"])

P("P09", "Each neighborhood is governed by its own option in every phase",
  "Every neighborhood type is set up, switched on, switched off, refreshed, made available again, counted and reported exactly according to its own enabling option and its own moves; no neighborhood's option or moves decide about another neighborhood, and none is skipped in any of these phases.",
  ["configurations", "histories"], "all combinations of neighborhood options and all enable/disable sequences",
  "No test runs the solver's enable/disable sequences; each of the ~17 types would need its own configuration.",
  [N + "neighborhood.h", S + "tabu_search/core/*.h", S + "tabu_search/controller/*.h", "printemps/model/model.h", "printemps/option/neighborhood_option.h"],
  [("sibling blocks per neighborhood", "neighborhood.h, model.h: setup_neighborhood/enable/disable/print")], [], ["which moves are generated", "reports"])

P("P10", "Misuse of the modelling and solving API is rejected before it takes effect",
  "Invalid requests - names containing spaces, more definitions than the supported maximum, reversed bounds, indices or coefficient lists of the wrong number of dimensions or elements, several free dimensions in a product, single-element operations on arrays, assigning a different value to a fixed variable, models without variables or without both objective and constraints, vectors and matrices of mismatched sizes, unreadable files, solving a model twice - always raise an exception, and do so before the model, variable or result is changed by the rejected request. Valid requests are not rejected by these tests.",
  ["inputs", "programs"], "all argument values of the public modelling API",
  "Tests try one bad value per call; siblings and boundary values (exactly the maximum, equal bounds) are not enumerated.",
  ["printemps/model/model.h", M + "*.h", "printemps/multi_array/*.h", "printemps/solver/solver.h", "printemps/helper/*.h"],
  [("guard then throw", "create_*/set_bound/operator=/index checks/file opens")], [], ["exceptions seen by the caller"])

P("P11", "Every move evaluator scores a move by the same rules",
  "For any move, full, single-variable, selection and multi-variable evaluation charge the same quantities: an enabled constraint's excess counts as violation on the sides its sense forbids and is weighted by the penalty coefficient of that side, disabled constraints count nothing, the objective change carries the optimisation sign, and the candidate is feasible exactly when its total violation does not exceed the tolerance. A search that evaluates a move always uses an evaluator valid for that kind of move.",
  ["inputs", "histories"], "all models, states and moves",
  "Tests compare evaluators on a few toy models with one sense and default penalties; the cross product of sense, sign, enabled state and evaluator is never exercised.",
  ["printemps/model/model.h", S + "tabu_search/core/tabu_search_core.h", S + "local_search/core/local_search_core.h", S + "integer_step_size_adjuster.h"],
  [("evaluate, evaluate_single, evaluate_selection, evaluate_multi", "model.h"), ("dispatch", "tabu_search_core.h, local_search_core.h")], [], ["scores", "chosen moves", "incumbent feasibility"])

P("P12", "Constraint violation and model feasibility follow the constraint's sense",
  "A less-or-equal constraint is violated exactly by the positive part of its expression, a greater-or-equal constraint by the positive part of the negated expression, and an equality by the absolute value; a model state is feasible exactly when none of its enabled constraints is violated by the numerical tolerance or more. Full and incremental state updates apply the same rule.",
  ["inputs", "histories"], "all constraints, values and update sequences",
  "Tests sample a few values per sense.",
  [M + "constraint.h", "printemps/model/model.h"],
  [("violation functions per sense", "constraint.h: setup/evaluate_violation/update"), ("model violation and feasibility", "model.h: update, update_feasibility")], [], ["is_feasible, violation in results"])

P("P13", "Presolve reductions only remove what is implied",
  "When presolve tightens a variable's bound from a constraint, the new bound is the one implied by the constraint's sense and the sign of the coefficient, tighter than the old one, and rounded inwards (with a small tolerance) so that no integer value satisfying the constraint is lost. When it disables a constraint, the constraint is satisfied by all remaining values: by its activity bounds, by a bound or value just imposed, or by an identical or dominating constraint that stays enabled. When it fixes a variable, the value lies in the variable's bounds and is forced (singleton equality, equal bounds, membership in a dominated set) or, for a variable in no constraint or interchangeable with a kept one, loses no better objective value. A disabled constraint and a variable that is already fixed are left alone.",
  ["inputs"], "all models given to presolve",
  "Tests presolve a few hand-made constraints; the sense x coefficient-sign x bound-position table is much larger.",
  ["printemps/preprocess/problem_size_reducer.h", M + "expression.h"],
  [("redundancy and singleton rules", "problem_size_reducer.h: remove_redundant_constraint_with_tightening_variable_bound and siblings"), ("activity bounds", "expression.h: lower_bound, upper_bound, fixed_term_value")], [], ["bounds, fixed flags, enabled flags after presolve"])

P("P14", "The returned result describes the returned solution",
  "The solution handed back by a solve is the best feasible solution if one was found and otherwise the best penalised one; its objective (in the user's optimisation direction), violation and feasibility flag are computed from the model evaluated at exactly that solution, and each field of the result, status report and summary output carries the quantity it is named after.",
  ["inputs", "histories", "configurations"], "all solves, minimisation and maximisation, feasible and infeasible",
  "No test runs a solver; a wrong sign, a stale model state or a swapped field shows only in particular outcomes.",
  [S + "solver.h", S + "status.h", S + "result.h", "printemps/model/model.h"],
  [("postprocess", "solver.h: postprocess"), ("status construction", "status.h")], [], ["Result", "status.json"])

P("P15", "Solution and instance exports write each quantity under its own name",
  "Every exported file (named solution as JSON and as .sol, solution archives, JSON and MPS instances) carries each variable, expression, constraint, objective, violation and feasibility value under its own name and covers all of them; the MPS instance gives every row its sense, coefficients and right-hand side and every variable the bounds that read back to its own (including absent ones), with full floating-point precision and the objective negated exactly when maximising. Converting a dense solution to a sparse one, and importing a solution or fixing variables by name, carries each value to the variable of the same name and sets every other variable to zero.",
  ["inputs"], "all solutions and models",
  "Tests check a few conversions on toy models; most writers are never executed by tests.",
  ["printemps/solution/*.h", "printemps/model/model.h", "printemps/helper/*.h"],
  [("writers and converters", "named_solution.h, dense_solution.h, model.h: export_*/convert_*/import_*")], [], ["incumbent.json, incumbent.sol, feasible.json"])

P("P16", "Solution archives stay bounded, ordered and keep the right solutions",
  "A solution archive with a positive maximum size never holds more solutions than that, is sorted by objective in its declared direction after every insertion, takes in every solution offered, merges only solutions with equal variable values, and when full drops its worst (or, if unordered, its oldest) solutions. Setting an archive up empties it and forgets its history; the feasible-solution indication is set only by a feasible solution. The search stages record in the feasible archive exactly the feasible solutions they visit (completed with their dependent values) when the option asks for it, ordered for the optimisation direction.",
  ["histories"], "all insertion sequences and archive sizes",
  "Tests insert a short fixed sequence.",
  ["printemps/solution/solution_archive.h", "printemps/utility/fixed_size_queue.h"],
  [("push", "solution_archive.h: push (2 overloads)")], [], ["feasible solution files", "historical search data"])

P("P17", "Expression and constraint operators follow linear algebra",
  "Adding, subtracting, negating, scaling or dividing expressions, variables and constants yields an expression whose constant and per-variable coefficients are the sum, difference, negation, product or quotient of the operands' constants and coefficients; comparing two operands with <=, == or >= yields a constraint whose expression is left minus right with the corresponding sense; sum and dot over (a slice of) a variable or expression array contain exactly the selected elements with coefficient one or the given coefficient, and reject index or coefficient lists of the wrong length; assigned constraints and the objective keep the expression, sense and direction they were given.",
  ["inputs", "programs"], "all operand kinds and values",
  "Tests cover the operators with a few numbers, mostly positive integers and symmetric operands.",
  [M + "expression.h", M + "expression_binary_operator.h", M + "constraint_binary_operator.h", M + "expression_proxy.h", M + "variable_proxy.h", M + "variable.h"],
  [("operators", "expression.h, expression_binary_operator.h, constraint_binary_operator.h")], [], ["coefficients and constants of a model"])

P("P18", "Command-line flags and auxiliary files control what they name",
  "Each command-line flag of the standalone MPS solver sets exactly the setting it names (from the argument that follows it, where it takes a value), any other argument is the MPS file, and without a flag its setting is empty, off or the documented default. Each auxiliary file (option, initial solution, mutable variables, fixed variables, selection constraints, flippable pairs) is loaded exactly when its flag was given and applied to the part of the model it names: listed variables are fixed to the listed values, with -m all others are fixed at zero, listed constraints become user-defined selections, listed pairs of known variables become two-flip moves, listed variables start from their listed values and all others from zero. Giving both -m and -f, or a file that cannot be opened, is rejected with an exception; every line with enough words is read and values are rounded to the nearest integer. The run mode, the clock and the files written are those asked for.",
  ["inputs", "configurations"], "all argument lists",
  "No test runs the standalone solver.",
  ["printemps/standalone/mps_solver.h", "printemps/helper/auxiliary_file_reader.h", "printemps/model/model.h", "printemps/preprocess/flippable_variable_pair_extractor.h"],
  [("argument parser and solver driver", "printemps/standalone/*.h")], [], ["files read and written", "model setup"])

P("P19", "Optional stages and preprocessing steps run exactly when enabled",
  "A preliminary stage (LP, Lagrange dual, local search) runs exactly when its option enables it, the model is of a kind it supports, the time limit has not been used up and (except for the LP) the target has not been reached; the main search always follows. Each stage that runs receives the model, the user's options (with nothing but the time already spent filled in) and the best solution found so far, and its outcome - result, best solutions, and a dual bound only if it is better and valid - is recorded in the state shared with later stages. Each optional presolve, extraction, selection-mode and initial-value-correction step runs exactly when its own option (and presolve as a whole) asks for it.",
  ["configurations", "histories"], "all option combinations and elapsed times",
  "No test runs the solver pipeline.",
  [S + "solver.h", S + "*/controller/*.h", S + "abstract_solver_controller.h", "printemps/model/model.h", "printemps/preprocess/dependent_variable_extractor.h", "printemps/preprocess/selection_extractor.h"],
  [("stage guards", "solver.h: solve; controllers: run"), ("presolve step guards", "model.h: setup")], [], ["log, status, dual bound"])

P("P20", "Penalty coefficients stay within bounds and move on the violated side",
  "Local penalty coefficients start at the initial coefficient (or its shrunk value), never become negative and are never left above the initial coefficient; tightening is requested only when the reference solution is infeasible, adds a non-negative amount only to coefficients of constraints violated there and only on the side on which they are violated (apart from levelling within a group when the group option is on), relaxing scales by at most the relaxing rate and only the sides that are satisfied, and one update does only one of reset, tighten and relax.",
  ["histories", "inputs"], "all violation patterns and all update sequences",
  "No test runs the penalty controller.",
  [S + "tabu_search/controller/tabu_search_controller.h", S + "tabu_search/controller/tabu_search_controller_state_manager.h", M + "constraint.h", "printemps/model/model.h"],
  [("penalty updates", "tabu_search_controller_state_manager.h: update, tighten/relax/reset_local_penalty_coefficient")], [], ["augmented objectives"])

P("P21", "Tabu moves are chosen only when no non-tabu move is eligible",
  "A move whose variables were changed within the tabu tenure is recognised as tabu (all or any of its variables according to the tabu mode), a tabu move is selected only by the aspiration rule - when it beats the best known solution - or when no non-tabu candidate exists, and after each applied move exactly the variables it changed are stamped with the current iteration (shifted by at most the randomisation width the options ask for). The tenure starts at the option's value (capped by the number of mutable variables), and every tabu search starts with a forgotten tabu list.",
  ["histories", "inputs"], "all search histories",
  "No test runs the tabu search core.",
  [S + "memory.h", S + "tabu_search/core/tabu_search_core.h", S + "tabu_search/core/tabu_search_core_move_evaluator.h"],
  [("memory and move scoring", "memory.h, tabu_search_core_move_evaluator.h, tabu_search_core.h")], [], ["sequence of moves"])

P("P22", "Real-valued quantities are never silently truncated to integers",
  "Coefficients, constants, expression and objective values, violations, penalties, scores, bounds and times computed as real numbers never become integers by an implicit conversion (initialisation, assignment, argument, return value), by a compound assignment, by a library fold with an integer accumulator or by storing them in a container of integers, nor by an explicit conversion unless the value was rounded (floor, ceil, round) first or is integral; a double is never narrowed to float, and a quotient of two integers is never used as a real number. The exceptions are: values that the constant-sum, -difference and -ratio neighborhoods propose for the partner variable, values of dependent variables (integral by P28), parities of integral data, MPS bounds (P07) and counts of search control (iterations, moves, modifications, tenures).",
  ["inputs"], "all real-valued model data",
  "Tests use integer-valued data almost everywhere, where truncation is invisible.",
  ["printemps/**/*.h"], [("conversions", "every real-to-integer conversion, fold and integer quotient in the type-checked program")], [], ["objective, constraint values, violations, starting values"])

P("P23", "Multi-dimensional arrays map each index tuple to its own element",
  "For every array of variables, expressions, constraints or values, an index tuple addresses the element at the row-major position of its shape, every element created knows the proxy and position it was created with, whole-array operations reach every element and single-element accessors the first one, exported values and default names are those of the element at the same position, and accesses with the wrong number of indices are rejected.",
  ["inputs"], "all shapes and index tuples",
  "Tests index small arrays of up to four dimensions at a few points.",
  ["printemps/multi_array/*.h", M + "variable_proxy.h", M + "expression_proxy.h", M + "constraint_proxy.h"],
  [("strides and flattening", "abstract_multi_array.h"), ("element indices", "*_proxy.h setup")], [], ["which element is read or written"])

P("P24", "Maximising an objective behaves exactly as minimising its negation",
  "For every model, solving it as a maximisation makes the same decisions as solving the minimisation of the negated objective: every comparison, bound, score, improvement test, optimality test, target test, dual bound and ordering of stored solutions inside the solver works on the sign-adjusted objective exactly once (never on a mixture of user-sense and internal-sense quantities), and every value shown to the user is given in the user's own sense.",
  ["inputs"], "all models with either optimisation direction",
  "Almost all tests minimise; a quantity with a missing or doubled sign is only visible for particular maximisation models.",
  ["printemps/model/model.h", S + "*", "printemps/preprocess/*"],
  [("sign()", "model.h: sign, is_minimization"), ("objective sign in evaluation", "model.h: evaluate*"), ("sense of reported values", "solver.h, state managers, controllers")],
  [("m_is_minimization", "direction of the objective", "model.h")], ["result objective, dual bound, status, archive order"])

P("P25", "The linear relaxation represents the model",
  "For every model, the linear program exported for the PDLP method is the model's linear relaxation in minimisation, >= form. It has one column per unfixed binary, integer and selection variable (numbered consecutively) with that variable's own bounds, objective coefficient and current value clamped to the bounds, and marks a bound as infinite only when it lies beyond a quarter of the integer range. It has one row per enabled constraint plus one per constraint replaced by a selection, grouped into <=, = and >= with matching index ranges. Row entries are the coefficients of the unfixed variables, right-hand sides come from the constant and the fixed variables, and both are negated exactly for <= rows. The objective offset comes from the constant and the fixed variables, and offset and objective coefficients are negated exactly when maximising. Multipliers of inequality rows are non-negative, those of equalities free. The dual matrix is the transpose of the primal one, matrix products, norms, transposes and scalings follow their definitions, the recorded scalers are exactly those the entries were divided by, and the solution handed back is unscaled by the same scalers.",
  ["inputs"], "all models, senses, fixings and scaling settings",
  "Tests build one small instance; a wrong sign, index range or scaler only shows for particular mixtures of senses, fixed variables and selections.",
  ["printemps/model/model.h", "printemps/linear_programming/*", "printemps/utility/sparse/*", S + "pdlp/*"],
  [("export", "model.h: export_lp_instance"), ("scaling", "linear_programming.h: scaling"), ("matrix operations", "utility/sparse/*.h"), ("unscaling", "solver/pdlp")],
  [("index maps", "variables and constraints to columns and rows", "model.h: export_lp_instance"), ("scalers", "accumulated row and column scaling", "sparse_matrix.h")], ["dual bound and relaxation solution reported by the PDLP method"])

# properties recorded as out of reach of static analysis
P("P26", "Improvability screening leaves out only moves that cannot help",
  "With screening off every eligible move is a candidate; with screening on, a candidate is left out only because it changes no variable marked as improvable in a way the search accepts. A variable is marked objective-improvable exactly when a change inside its bounds lowers the sign-adjusted objective, and feasibility-improvable when a change inside its bounds reduces the violation of an enabled violated constraint; the bound margins these marks rely on always describe the current value and bounds. Marks are cleared and set again from the current state before the moves are refreshed: the objective marks of all variables first and of the changed variables afterwards, the feasibility marks from every violated constraint (in intensive mode, after the first iteration, from the constraints the last move touched). From a feasible solution objective-improvable moves are accepted, from an infeasible one feasibility-improvable moves (in soft mode both). A move of a special neighborhood is put behind all other moves exactly when it improves neither the objective nor the violation of a constraint.",
  ["inputs", "histories"], "all models, solutions, moves, screening modes and iteration histories",
  "A move that is wrongly hidden is just one missing candidate among many; the search still returns a solution and no test notices.",
  ["printemps/model/model.h", "printemps/neighborhood/*", "printemps/model_component/variable.h", "printemps/model_component/expression.h", S + "tabu_search/core/*", S + "local_search/core/*"],
  [("marks", "model.h: update_variable_*_improvabilities, reset_*"), ("screening", "move updaters in neighborhood/*_move_generator.h"), ("refresh", "tabu_search_core.h, local_search_core.h: update_moves")],
  [("improvability marks", "one flag per variable and kind", "variable.h"), ("bound margins", "whether the value can still go down or up", "variable.h: update_margin")], ["candidate moves of each iteration"])

P("P27", "Selection groups and starting values are valid",
  "For every model and selection mode, a constraint is turned into a selection group only if it is an enabled set-partitioning constraint all of whose variables are binary. The groups kept are pairwise disjoint and chosen by the mode: in definition order, by fewer or more variables first, only those sharing no variable with any other candidate, or only those the user marked; mode Off keeps none. Exactly the kept groups' constraints are disabled, each group lists all its variables and, once each, every other constraint they occur in (disabled ones included), and each variable is linked to the model's own copy of its group. Starting values: invalid values of fixed variables, two fixed selected variables in a group, and, with correction off, any invalid value or any group without exactly one selected variable are refused. With correction on each group ends with exactly one variable at 1 (the fixed selected one if there is one, never a variable fixed to 0) and the others at 0, other binary and integer variables are moved to the nearest bound, and valid values and fixed variables are left alone. An imported solution gives each variable its own value and, when it replaces a search state, is verified the same way with correction off; an applied selection move records the newly selected variable.",
  ["inputs", "histories"], "all models, selection modes, starting values, fixings and imported solutions",
  "Tests build a few small groups; overlaps, fixed variables and invalid starting values combine in far more ways, and a wrong group silently loses a constraint.",
  ["printemps/preprocess/selection_extractor.h", "printemps/preprocess/verifier.h", "printemps/model_component/selection.h", "printemps/model/model.h"],
  [("extraction", "selection_extractor.h: extract_*"), ("verification", "verifier.h: verify_and_correct_*"), ("import", "model.h: import_solution")],
  [("selection groups", "variables, row and related constraints of each group", "selection.h"), ("selected variable", "the variable currently at 1", "variable.h: select")], ["starting solution of every search", "rows replaced by selections"])

P("P28", "Dependent variables are defined exactly by the equations they replace",
  "For every model, a variable is made dependent only by an enabled equation with integral coefficients and constant that determines it (one of the eight kinds: exclusive or/nor without set-partitioning variables, inverted, balanced, constant sum, difference and ratio, intermediate), never by two equations, and the dependencies between the accepted equations are recorded completely so that none is accepted whose key variable would depend on itself. Exactly the accepted equations are disabled; each variable is linked to its own equation solved for it (coefficients and constant divided by minus its coefficient, its own term removed), and a row keeps each finite bound of the variable that the definition does not imply. Every occurrence of a dependent variable in the objective, the enabled constraints and the expressions is then replaced by coefficient times definition, on a fresh structure and again until nothing is left to replace. The value of a dependent variable is that of its definition, refreshed after the expressions and before the constraints and the objective.",
  ["inputs"], "all models and preprocessing options",
  "Tests extract one or two variables from small equations; chains, circles, fractional data and bounds combine in far more ways.",
  ["printemps/preprocess/dependent_variable_extractor.h", "printemps/model_component/expression.h", "printemps/model_component/variable.h", "printemps/model/model.h"],
  [("extraction", "dependent_variable_extractor.h: extract"), ("elimination", "dependent_variable_extractor.h: eliminate; model.h: setup"), ("algebra", "expression.h: solve, substitute, erase"), ("refresh", "model.h: update, update_dependent_variables_and_disabled_constraints")],
  [("definitions", "one expression per dependent variable", "variable.h: dependent_expression_ptr")], ["values of dependent variables", "feasible set of the presolved model"])

P("P29", "Every outer loop restarts as the restart rules prescribe",
  "After every tabu search, whatever its result, the outer loop starts the next search from the solution, and changes the penalty coefficients in the direction, that the restart mode prescribes. Simple mode: from the local incumbent, relaxing if the global incumbent was updated, none was updated, the local incumbent is feasible or the objective range has collapsed, otherwise tightening. Smart mode, first case that applies: the global incumbent was updated - from it, relaxing; no incumbent was updated - from the global incumbent with forced modification, relaxing; the local incumbent is not better than the global one - from the global incumbent with forced modification, relaxing or tightening by the local incumbent's feasibility; the local incumbent is feasible - from it, relaxing; the range has collapsed - from the global incumbent with forced modification, relaxing; otherwise tightening, from the local incumbent if no feasible solution is known (with forced modification) or it improves on the last start in objective or violation, else from the last start. When tightening under outer and inner stagnation with the breaker enabled, the coefficients are reset instead and the search goes back to the global incumbent with forced modification. Each search is given exactly that start, its own result (and no other) decides the next restart, and the counts and status flags these rules read are kept up accordingly.",
  ["inputs", "histories"], "all search results, histories and options",
  "Tests run a few loops of small models; most of the cases (stagnation, over-relaxation, collapsed range) never occur in them.",
  [S + "tabu_search/controller/tabu_search_controller_state_manager.h", S + "tabu_search/controller/tabu_search_controller.h", S + "tabu_search/core/tabu_search_core_result.h"],
  [("restart rules", "tabu_search_controller_state_manager.h: update"), ("hand-over", "tabu_search_controller.h: run"), ("result", "tabu_search_core_result.h: setup")],
  [("outer loop state", "one per solve", "tabu_search_controller_state.h")], ["start of every search", "direction of every penalty update"])
P("P30", "Search parameters adapt only as the options allow and reach the next search",
  "Every search parameter starts at its option's value (automatic screening starts as intensive, no initial modification), is changed between searches only when the option for its adaptation is on, and then only within the option's limits: the initial tabu tenure returns to the option's value with a new global incumbent, otherwise moves by at most one and stays between the smaller of the option's value and the number of mutable variables, and that number; initial modifications are made only when forced and no new global incumbent was found, and then at least once; the iteration limit changes only after a search that used it up, scaled by the increase rate and kept between the option's tenure and the option's limit, and the pruning threshold is the option's only at the full limit and 1 otherwise; the relaxing rate is lowered not below its minimum, raised not above its maximum, reverted with a new feasible incumbent or drawn back to the option's value; the screening mode follows the outcome of the last search; special neighborhoods are switched off with a new global incumbent and on after a search that used up the full iteration limit, each only if its option enables it and it has moves; chain moves are cleared with a new global incumbent and reduced to the capacity; a fixed number of threads stays as requested. The next search runs with the user's options in which exactly these parameters (and the elapsed time and the seed) are replaced.",
  ["inputs", "histories"], "all search results, histories and options",
  "Tests check single loops with default options; the combinations of options and outcomes are not sampled.",
  [S + "tabu_search/controller/tabu_search_controller_state_manager.h"],
  [("adaptation", "tabu_search_controller_state_manager.h: update"), ("options of the next search", "tabu_search_controller_state_manager.h: create_option"), ("initial values", "tabu_search_controller_state_manager.h: setup")],
  [("outer loop state", "one per solve", "tabu_search_controller_state.h")], ["options of every search"])

P("P31", "Every search keeps a true account of its progress and reports it",
  "In every step of a tabu, local or Lagrange dual search, whatever the model and the history: the accepted solution's score becomes the current one and the former current one the previous; the incumbents are offered exactly that score once; the set of incumbents updated so far is joined with the status returned (the start itself does not count); the iteration of the last update of each incumbent, the numbers of effective and ineffective updates, the intervals spanned by objective, augmented objectives and (infeasible solutions only) penalty, and whether a feasible solution was found, follow from exactly that score and status; a lack of permissible moves is recorded exactly when no trial move was permissible; every iteration and every evaluated or updated move is counted once. The tabu tenure of a running search starts at the option's value limited by the number of mutable variables, returns to it when the global incumbent improves under a longer one, and otherwise changes by one, within its limits, only after the search has intensified or diversified more often than the thresholds. The Lagrange dual search follows the subgradient by the step size, keeps each multiplier on the side of zero that its constraint's sense asks for, and keeps the best Lagrangian together with its own multipliers and solution. The result handed to the caller is this account: same totals, counts and status, the objective/constraint rate and the performance computed from them.",
  ["inputs", "histories"], "all models, options and histories of moves",
  "Tests check single fields on short runs; the account steers restarts, penalty updates and iteration limits of all later searches.",
  [S + "tabu_search/core/tabu_search_core_state_manager.h", S + "tabu_search/core/tabu_search_core_result.h", S + "tabu_search/core/tabu_search_core.h", S + "local_search/core/local_search_core_state_manager.h", S + "lagrange_dual/core/lagrange_dual_core_state_manager.h", "printemps/utility/range.h"],
  [("step", "*_core_state_manager.h: update, setup"), ("report", "*_core_result.h"), ("intervals", "range.h: update"), ("multipliers", "lagrange_dual_core_state_manager.h: update_dual, bound_dual")],
  [("search state", "one per search", "*_core_state.h")], ["result of every search"])

P("P32", "The LP method's iterates, figures and verdicts follow LP duality",
  "For every linear program and history of steps of the PDLP method: a step moves x against and y along the gradient of the Lagrangian (x - tau/w (c - A'y), y + tau w (b - A(2x' - x))), projects both onto their bounds, and is accepted, both sides together, only when its step size is below the limit given by the weighted move and the interaction. The solutions reported are the averages of the accepted iterates weighted by their step sizes; a restart continues primal and dual from the same kind of candidate. The primal objective is c.x + offset, the reduced costs are c - A'y without the part that meets an infinite bound, and the dual objective is b.y plus each reduced cost times the bound it meets (lower if positive, upper if negative) plus the offset. The primal violation is the norm of b - Ax, counting only the positive part on inequality rows, the dual violation that of c - A'y minus the reduced costs, the gap the distance of the objectives; the relative figures divide by one plus the size of the corresponding data. A run starts from the instance's initial solutions; OPTIMAL is reported exactly when both relative violations and the relative gap are within the tolerance, INFEASIBLE only when the dual is feasible and its objective lies above every value the primal objective (offset included) can take. The vector operations used compute, for every element, what they name.",
  ["inputs", "histories"], "all linear programs, options and step histories",
  "Tests run single small instances; wrong signs or a wrong row range only show on particular row senses, bounds or offsets.",
  [S + "pdlp/core/pdlp_core_state_manager.h", S + "pdlp/core/pdlp_core.h", "printemps/utility/sparse/function.h", "printemps/utility/sparse/vector.h"],
  [("step", "pdlp_core_state_manager.h: update_solution, update_averaged_solution"), ("figures", "pdlp_core_state_manager.h: update_objective, update_violation, update_gap"), ("verdicts", "pdlp_core.h: satisfy_*_terminate_condition"), ("operations", "sparse/function.h, sparse/vector.h: learn")],
  [("PDLP state", "one per run", "pdlp_core_state.h")], ["dual bound and solution handed to the search"])

P("P33", "Structured moves satisfy the relation they are generated for",
  "Every move generated for the structure of a constraint proposes values that satisfy that structure, for all coefficients the structure admits (both signs) and all current values: exclusive-or moves set one of the two variables to 1 and the other to 0, exclusive-nor moves both (trinomial: all three) to the same value, each way round; inverted, balanced, constant-sum, constant-difference and constant-ratio moves step one variable up and down by one from its own value and give the other the value that satisfies the equation (for ratios the variable with unit coefficient follows); aggregation moves do so for both variables, rounded to the nearest integer; precedence moves shift both variables by the same unit; variable-bound moves put the other variable on the constraint's boundary rounded to the feasible side, for either sense and coefficient sign; soft-selection moves give the key variable and one other variable the same value; two-flips exchange the values of a pair; selection moves deselect the selected variable of the group and select their own; binary moves flip. The view of a constraint these moves use pairs each variable with its own coefficient and keeps constant and sense; moves are generated from exactly the enabled constraints without fixed or selection variables, and a three-variable equation counts as exclusive nor only without a constant.",
  ["inputs"], "all constraints of each structure (coefficients of either sign, any constant) and all current values",
  "Tests generate each kind of move once, from one constraint with positive leading coefficients at the initial value.",
  ["printemps/neighborhood/"],
  [("updaters", "neighborhood/*_move_generator.h: setup"), ("view", "neighborhood/abstract_move_generator.h: convert_to_*, extract_effective_constraint_ptrs"), ("classification", "model_component/constraint.h: setup_constraint_type")],
  [("moves", "one list per generator", "neighborhood/abstract_move_generator.h")], ["candidate moves of every search"])

P("N01", "The search finds good or optimal solutions",
  "Given enough time the solver returns a feasible solution whenever one exists, and its objective approaches the optimum.",
  ["inputs"], "all models and time limits", "Depends on the dynamics of the whole search.",
  [S + "solver.h"], [("search", S)])
P("N02", "Incremental scores equal scores computed from scratch",
  "After any sequence of moves the incrementally maintained objective, constraint values and violations equal, up to rounding, the values recomputed from the current solution.",
  ["histories"], "all move sequences", "Numerical equality over unbounded histories.",
  ["printemps/model/model.h"], [("incremental update", "model.h: update(move)")])
P("N03", "A solve returns within the requested wall-clock time",
  "The elapsed wall-clock time of a solve does not exceed the time limit by more than one iteration's work.",
  ["inputs", "schedules"], "all models and machines", "Timing of iterations is not visible in the code.",
  [S + "solver.h"], [("time checks", S + "*/core/*.h")])
P("N04", "Exported instances and JSON documents read back to equal objects",
  "Writing any model, option set or solution to a file and reading it back yields numerically equal contents.",
  ["inputs"], "all contents", "Round-trip equality over number formatting and parsing.",
  ["printemps/utility/json/json.h", "printemps/model/model.h"], [("writers/readers", "json.h, model.h")])
P("N05", "Reported dual bounds are valid bounds on the optimum",
  "Every dual bound reported is a lower (minimisation) or upper (maximisation) bound on the optimal objective value.",
  ["inputs", "histories"], "all models and runs", "Validity is a theorem about the numerical iterates.",
  [S + "lagrange_dual/core/lagrange_dual_core.h", S + "pdlp/core/pdlp_core.h"], [("dual bound update", "lagrange_dual, pdlp cores")])
P("N06", "Solving parity systems preserves the feasible set",
  "Fixing variables by solving a system of parity equations over GF(2) leaves the set of feasible assignments of the original variables unchanged.",
  ["inputs"], "all models", "Semantic equivalence of algebraic transformations over runtime matrices.",
  ["printemps/preprocess/gf2_solver.h"], [("extraction", "preprocess/*.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PR:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(PR))
