#!/usr/bin/env python3
"""Source of /verif/known_findings.json."""
import json, os
O = "printemps::option::ParallelOption::number_of_threads_move_update"
KNOWN = [
    {"property": "P06", "key": "key-name|option %s is read from key(s) ['number_of_threads_move_update;'] instead of 'number_of_threads_move_update'" % O,
     "what": "parallel_option.h reads this option from the misspelt key 'number_of_threads_move_update;', so an option file that sets it has no effect (option_00.json sets 2, the option stays -1). The existing test expects -1, so the repair cannot be made without editing the test."},
    {"property": "P06", "key": "value-from-key|option %s is not set to the value stored under its key" % O, "what": "same defect, seen from the value side"},
]
FIXED = [
    "fixed: property=P08 079d098 constraints with fractional coefficients (x0 + 1.5 x1 - x2 == 0) were classified as soft selection / GF2 because abs() truncated to int",
    "fixed: property=P02 027ffef a selection whose selected variable is fixed produced swap moves that change the fixed variable; the verifier left no variable selected",
    "fixed: property=P12 56cb297 set_bound / re-classification used has_only_binary and max-coefficient flags of an earlier expression (stale attributes)",
    "fixed: property=P11 925b61e a compound local search move altered the same variable twice, so its evaluated score was not the score of the applied move",
    "fixed: property=P11 e2f3d27 user-defined moves carried no related constraints, so the differential evaluation ignored every constraint they touch",
    "fixed: property=P24 93d1afb a maximisation stopped as OPTIMAL at -13 although 13 was attainable: the optimality test compared the internal-sense incumbent with a user-sense dual bound",
    "fixed: property=P24 c5a0bfe maximisation with a negative objective threw 'lower bound bigger than upper bound': online bounding got the internal-sense incumbent",
    "fixed: property=P24 e199d0a update_variable_bounds tightened on the wrong side for maximisation with a dual bound",
    "fixed: property=P24 74a4380 the multiplier term of the Lagrangian had the wrong sign for maximisation, so its dual bound was not a bound",
    "fixed: property=P24 24ff086 the printed violation of the incumbent was multiplied by the objective's sign (negative violations when maximising)",
    "fixed: property=P24 24703d1 Lagrangian coefficients used by the tabu search had the user's sign instead of the internal one",
    "fixed: property=P24 d9b38dc the 'objective improved' flag of a move compared user-sense values, so maximisation treated worsening moves as improving",
    "fixed: property=P25 4d28e9e the exported LP instance ignored the constant of the objective",
    "fixed: property=P25 98e994d the norm of a matrix without columns took the maximum of an empty range (crash on a model without variables or constraints)",
    "fixed: property=P13 9d775f1 an independent variable without objective coefficient was fixed at 0 although 0 was outside its bounds",
    "fixed: property=P13 a89e497 a singleton equality 2x == 3 fixed x at the truncated value 1 and was dropped",
    "fixed: property=P13 bb3fd67 a singleton inequality with a bound of 100000 or more was dropped without being imposed",
    "fixed: property=P13 2797336 a tightened bound was converted to int before the comparison and overflowed",
    "fixed: property=P13 6550ed4 0.1 x <= 0.3 was tightened to x <= 2 (floor of 2.9999999999999996)",
    "fixed: property=P13 c02ce82 an improving variable of a set covering problem was fixed at 0",
    "fixed: property=P13 a586dfa the fixed terms of an expression were accumulated in an int",
    "fixed: property=P16 498c148 SolutionArchive::setup left the feasible-solution indication of the previous use (uninitialised after the five-argument constructor)",
    "fixed: property=P17 4ad3845 assigning an expression-like object (expression proxy, variable) to an expression kept the old constant instead of taking the assigned one",
    "fixed: property=P03 6069541 import_mps looked variables up with operator[] in a map shared by the parallel loop: constraints that name unknown variables made eight threads insert concurrently (crash; one thread ran through)",
    "fixed: property=P15 1d4f30e write_mps wrote no bound line for unbounded variables, so a free or non-negative integer variable read back as binary",
    "fixed: property=P15 9885b45 write_mps wrote coefficients with six digits (7654321.5 became 7654320)",
    "fixed: property=P15 4f546f9 writing a JSON array with a long long element threw bad_any_cast",
    "fixed: property=P26 6c11b08 variables that left the objective kept their objective sensitivity, so moves were scored with the old objective",
    "fixed: property=P10 b7b9204 create_variable(s) with reversed bounds created the variable before raising the exception, which stayed in the model",
    "fixed: property=P07 a752be3 RANGES records gave L and G rows a second side beyond the wrong bound (an infeasible pair) and E rows the wrong interval",
    "fixed: property=P07 a1cda02 MPS bounds beyond the int range were converted with undefined behaviour and fractional bounds of integer columns were truncated instead of rounded inward",
    "fixed: property=P22 e344f44 the verifier summed the violations of candidate selected variables in an int: fractional violations were truncated (the worse candidate could be selected) and large ones overflowed",
    "fixed: property=P28 ddf1081 constant-sum/difference/ratio equations with fractional data (x - 2.5 y == 0 over integers) defined dependent variables by truncation: x=12, y=5 was reported as feasible",
    "fixed: property=P28 0c7efd9 three equations whose key variables depend on each other in a circle (x-2y=1, y-2w=1, w-2x=1) were all turned into definitions: a feasible model was returned as infeasible",
    "fixed: property=P30 c67b784 with automatic parallelization off, the requested number of threads (3) was replaced by omp_get_max_threads() (8) from the second tabu search on",
    "fixed: property=P32 7172e66 the range the primal objective can take left out the objective's offset: min x0+x1+x2+1000 over two >= rows was reported INFEASIBLE at iteration 0",
    "fixed: property=P33 e1675c6 constant-sum and constant-difference integer moves took the constant of the constraint without dividing by its unit coefficient: for -x - y == -5 and -x + y == -5 every generated move violated the constraint by 10",
    "fixed: property=P33 638600b a constant-ratio move for x == 2y stepped y from the value of x (at x=4, y=2 it proposed y=5)",
    "fixed: property=P33 8614201 x + y - 2z == 1 was classified as a trinomial XNOR, whose moves set all three variables equal and always violate it",
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    json.dump({"known": KNOWN, "fixed": FIXED}, open(out, "w"), indent=1)
