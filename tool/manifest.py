#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when checks/c_<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "guarded-effect dataflow over the typed AST (path conditions + stored values)",
    "P02": "guarded-effect dataflow: availability of every generated move implies the fixed/bound predicates; who writes variable values",
    "P05": "guarded-effect dataflow: per loop, the set of exits with their path conditions and status values",
    "P11": "guarded-effect dataflow: symbolic contribution tables per evaluator, sense and side; evaluator dispatch",
    "P12": "guarded-effect dataflow: value tables of violation/feasibility per sense",
    "P14": "dataflow: field-to-source map of result, status, JSON and exported solutions, ordering of model evaluation",
    "P13": "guarded-effect dataflow: every bound change, fixing and removal of the presolve implied by its path condition (case tables over sense, coefficient sign, bounds)",
    "P24": "sense dataflow: every read of objective-like quantities classified user/internal sense, comparisons and stores must agree; symbolic sign tables",
    "P25": "symbolic element-wise reading of every vector and matrix of the exported relaxation, compared with the quantity its index stands for; operation-by-operation definition check of the sparse algebra",
    "P22": "type-level lint over every conversion of the type-checked syntax tree with integrality inference through local definitions",
    "P28": "guarded-effect summaries of extraction, elimination and substitution with propositional implication between their guards; membership and loop-domain analysis; algebraic comparison of written terms",
    "P29": "symbolic summary of the whole outer-loop update (all helpers expanded) as guarded final values over the state before it; propositional decision of every case of the restart rules; value-flow of the start, options and result through the controller loop",
    "P30": "symbolic summary of the whole outer-loop update as guarded final values; case-by-case algebraic comparison with the adaptation rules; field-by-field copy analysis of setup and create_option",
    "P33": "symbolic summaries of every generator's setup and stored updater lambda; the new values as rational functions of coefficients, constant and current values substituted into the constraint and normalised to zero, case by case over coefficient patterns, senses and signs; rounding direction and pairing tables",
    "P32": "abstract interpretation of the state manager over elementwise vector contents (matrix products and sums as linear operators), normalised polynomials compared with the primal-dual formulas, case analysis over bound flags, row ranges and signs; propositional comparison of the verdict conditions",
    "P31": "symbolic summary of every state manager's step (all helpers expanded, object copies kept by value) as guarded final values; algebraic and propositional comparison with the prescribed account, case by case for the tenure; member-to-source map of the results",
    "P27": "guard and membership analysis of selection extraction and its loops; exhaustive case analysis over the sizes of the verifier's filtered variable lists and the correction flag; guard equivalence for clamping and import",
    "P26": "guard analysis of the flag every move updater computes, of every write to the improvability marks and margins, and case analysis of the mark updates preceding each refresh of the moves",
    "P16": "guarded-effect dataflow with container-size versions: insertion, ordering, cut and recording sites",
    "P17": "abstract interpretation of every operator instantiation over formal linear combinations (operands as atoms), term by term",
    "P08": "guarded-effect dataflow: type predicates decided against the defining shape; flag/label/list/counter wiring tables over all 30 types",
    "P03": "effect analysis of every OpenMP region with interprocedural write summaries: each written location is iteration-private or selected by the iteration index; disjoint-block arithmetic on indices; static/engine census below the region",
    "P15": "symbolic dataflow of writers: key-to-quantity tables for JSON documents, line-by-line reconstruction of the MPS and .sol writers with an abstract reader for bounds, copy maps of conversions",
    "P19": "guarded-effect dataflow: stage and step calls with their path conditions against their own options; argument hand-over; dual-bound replacement table",
    "P04": "call-site census of entropy sources; engine ownership and seeding dominance; taint analysis of clock-derived values over all functions",
    "P21": "guarded-effect dataflow: closed form of the tabu test, of the total score and of the selected index; stamp writes and their order",
    "P20": "guarded-effect dataflow: every write of a penalty coefficient with its path condition and value; exclusivity of the update branches",
    "P09": "guarded-effect dataflow: per neighborhood and phase, condition and target tables over all generators",
    "P07": "symbolic evaluation of the parser for one record of each kind: stores under each record's path condition against the format's table; model construction dataflow",
    "P10": "guarded-effect dataflow: every rejection's condition against the request's validity, and no state write before it on any path",
    "P23": "guarded-effect dataflow: row-major index polynomials, element identities at construction, element maps of every whole-array operation",
    "P18": "symbolic evaluation of the argument loop for one argument of each kind; guarded-call tables of the driver, readers and model operations",
    "P06": "AST dataflow: key/field/export/default wiring tables",
}
NOTE = ("Static: clang AST of /repo is lowered to guarded effects (condition, target, value) and every obligation of the rule is decided on them; "
        "covers all inputs for the code shapes seen, assumes the listed aliasing/front-end assumptions; opaque library calls are trusted.")
NA = {
    "N01": "quality of a heuristic search is a property of runtime dynamics on unbounded inputs; no sound static argument in reach bounds it",
    "N02": "numerical equality of incrementally maintained sums over unbounded histories needs relational invariants over runtime sparse data; outside static analysis in reach",
    "N03": "wall-clock duration of one iteration is a runtime quantity not visible in the source",
    "N04": "round-trip equality depends on number formatting/parsing of runtime values; only key/name wiring is static (P06, P15)",
    "N05": "validity of a dual bound is a theorem about floating-point iterates, not a syntactic or dataflow fact",
    "N06": "the correctness of Gaussian elimination over runtime GF(2) matrices is outside dataflow reasoning",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", "c_%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "technique": TECH.get(i, "guarded-effect dataflow over the typed AST"), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "rule not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
