"""P24: maximising f behaves exactly as minimising -f.

Every function that looks at the optimisation direction or at a quantity in the user's objective sense is evaluated twice:
in the world 'minimise' and in the world 'maximise' with every user-sense quantity negated.  Both must produce the same
effects; values stored in (or passed as, or printed as) user-sense quantities must come out negated."""
from common import *
import json

ISMIN = "m_is_minimization"
U_FIELDS = ("printemps::model_component::Objective::m_value", "printemps::solution::SparseSolution::objective", "printemps::solution::DenseSolution::objective",
            "printemps::solution::NamedSolution::m_objective", "printemps::solution::IncumbentHolder::m_dual_bound", "VariableExtention::objective_sensitivity")
I_FIELDS = ("SolutionScore::objective", "SolutionScore::local_augmented_objective", "SolutionScore::global_augmented_objective", "m_local_augmented_incumbent_objective", "m_global_augmented_incumbent_objective",
            "m_feasible_incumbent_objective", "LagrangeDualCoreState::lagrangian", "LagrangeDualCoreState::lagrangian_incumbent", "PrimalDualState::objective", "LagrangeDualCoreResult::lagrangian")
# parameters in the user's sense: function suffix -> positions
U_PARAMS = {"update_dual_bound": (0,), "update_variable_bounds": (0,), "set_objective_sensitivity": (0,)}
# functions whose returned value is in the user's sense
U_RETURN = ("compute_lagrangian", "compute_naive_dual_bound", "objective_sensitivity", "dual_bound")
# functions that define or report the direction itself
SKIP = ("Model::sign", "Model::is_minimization", "Model::minimize", "Model::maximize", "Model::initialize", "(ctor)", "Solver::setup_target_objective", "Objective::value", "Objective::evaluate", "Variable::objective_sensitivity", "ProblemSizeReducer::remove_independent_variable", "Model::export_lp_instance", "Model::update_variable_bounds")
PRINTS = ("to_string", "printf", "print", "print_message", "print_info", "print_warning", "fprintf", "snprintf")


# objective plus penalty stored along with a solution; no decision reads it
INLINE = ("ProblemSizeReducer::remove_independent_variable",)
COMPOSITE = ("SparseSolution::global_augmented_objective", "DenseSolution::global_augmented_objective")


def endswith(n, xs):
    return any(n == x or n.endswith("::" + x) or n.endswith(x) and "::" in x for x in xs)


def is_objective_expr(t):
    return t.op == "fld" and t.a[1].endswith("Objective::m_expression")


def is_user(x):
    if x.op == "usr":
        return False
    if x.op == "fld":
        if any(x.a[1].endswith(u) for u in U_FIELDS):
            return True
        return fname(x) in ("m_constant_value", "m_value") and is_objective_expr(x.a[0])
    if x.op == "get" and x.a[0] == 1 and x.a[1].op == "at":
        c = x.a[1].a[0]
        return fname(c) == "m_sensitivities" and is_objective_expr(c.a[0])
    if x.op == "call":
        n = x.a[0].split("::")
        if n[-1] in U_RETURN:
            return True
        if n[-1] == "evaluate" and x.a[1] is not None and is_objective_expr(x.a[1]):
            return True
        return n[-1] == "evaluate" and len(n) > 1 and n[-2] == "Objective"
    return False


def is_internal(x):
    return x.op == "fld" and endswith(x.a[1], I_FIELDS)




def canon(x):
    """comparisons modulo ties, magnitude modulo sign"""
    if x.op == "lt0":
        p = x.a[0]
        q = sub(ZERO, p)
        return x if show(p) <= show(q) else not_(mk("lt0", q))
    if x.op == "sum":
        b = x.a[2]
        q = neg_deep(b)
        if show(q) < show(b):
            return sub(ZERO, mk("sum", x.a[0], x.a[1], q))
    if x.op == "eq0" and x.a[0].op in ("poly", "ite"):
        # c0 + ite(b, n1, n2) == 0 is a condition on b
        its = [y for y in subterms(x.a[0]) if y.op == "ite" and y.a[1].op == "n" and y.a[2].op == "n"]
        if len(its) == 1:
            r = [rebuild(x.a[0], lambda z, i=i: its[0].a[i] if z is its[0] else z) for i in (1, 2)]
            if all(z.op == "n" for z in r):
                return ite(its[0].a[0], eq(r[0], ZERO), eq(r[1], ZERO))
    if x.op == "ite" and is_boolean(x.a[1]) and is_boolean(x.a[2]):
        return or_(and_(x.a[0], x.a[1]), and_(not_(x.a[0]), x.a[2]))
    return x


def neg_deep(t):
    return ite(t.a[0], neg_deep(t.a[1]), neg_deep(t.a[2])) if t.op == "ite" else sub(ZERO, t)


def world(t, maximise, uparams=()):
    def f(x):
        if x.op == "fld" and fname(x) in (ISMIN, "is_minimization"):
            return FALSE if maximise else TRUE
        if x.op == "enum" and x.a[0].endswith(("SortMode::Descending", "SortMode::Ascending")):
            return mk("enum", "best first" if maximise == x.a[0].endswith("Descending") else "worst first")
        if is_user(x) or x in uparams:
            u = mk("usr", x)
            return sub(ZERO, u) if maximise else u
        return canon(x)
    return rebuild(t, f)


def neg(t):
    return rebuild(sub(ZERO, t), canon)


def relevant(t):
    return any(is_user(x) or (x.op == "fld" and fname(x) in (ISMIN, "is_minimization")) or
               (x.op == "enum" and x.a[0].endswith(("SortMode::Descending", "SortMode::Ascending"))) for x in subterms(t))


def displayed(t, maximise, up):
    """a value shown to the user: objective quantities appear in the user's sense"""
    def f(x):
        return x
    v = world(t, maximise, up)
    if maximise and any(is_user(x) or is_internal(x) for x in subterms(t)):
        # sign-flip every objective-valued leaf of the shown text
        if v.op in ("call", "cat", "ite", "ctor"):
            return flip_inside(t, up)
        return neg(v)
    return v


def flip_inside(t, up):
    if t.op == "ite":
        return ite(world(t.a[0], True, up), displayed(t.a[1], True, up), displayed(t.a[2], True, up))
    if t.op == "cat":
        return mk("cat", *[displayed(x, True, up) if isinstance(x, T) else x for x in t.a])
    if t.op == "call":
        return mk("call", t.a[0], t.a[1], tuple(displayed(x, True, up) if isinstance(x, T) else x for x in t.a[2]))
    return world(t, True, up)


def effect_key(e, maximise, up):
    pc = world(e.pc, maximise, up)
    if pc is FALSE:
        return None
    loops = tuple(world(d, maximise, up) for d in e.loops)
    t = world(e.t, maximise, up) if isinstance(e.t, T) and not (e.t.op == "fld" and is_user(e.t)) else e.t
    if e.kind == "call":
        n = e.v if isinstance(e.v, str) else ""
        last = n.split("::")[-1]
        args = []
        for i, a in enumerate(e.args):
            if not isinstance(a, T):
                args.append(a)
            elif last in PRINTS:
                args.append(displayed(a, maximise, up))
            else:
                v = world(a, maximise, up)
                if maximise and i in U_PARAMS.get(last, ()):
                    v = neg(v)
                args.append(v)
        return ("call", n, t, tuple(args), loops), pc
    v = e.v
    if isinstance(v, T):
        v = world(v, maximise, up)
        if maximise and ((e.kind in ("write", "init") and isinstance(e.t, T) and is_user(e.t)) or (e.kind in ("ret", "return") and endswith(e.fn, U_RETURN))):
            v = neg(v)
    return (e.kind, "", t, v, loops), pc


def check_function(ctx, f):
    E = ctx.run(f, inline=INLINE)
    up = set()
    for i in U_PARAMS.get(f["n"].split("::")[-1], ()):
        up.add(mk("sym", "$%d" % i))
    mn, mx = {}, {}
    hit = False
    for e in E.effects:
        ts = [x for x in [e.pc, e.t, e.v] + list(e.args or ()) + list(e.loops) if isinstance(x, T)]
        if not any(relevant(x) or any(is_internal(y) for y in subterms(x)) for x in ts):
            continue
        if isinstance(e.t, T) and (e.t.op == "lvar" or e.t.op == "fld" and fname(e.t) in (ISMIN, "is_minimization") or e.t.op == "fld" and e.t.a[1].endswith(COMPOSITE)):
            continue
        if e.kind == "call" and isinstance(e.v, str) and (e.v.split("::")[-1] in PRINTS or "JsonObject" in e.v):
            for a in e.args:
                if isinstance(a, T) and any(is_user(x) or is_internal(x) for x in subterms(a)):
                    x, y = displayed(a, False, up), displayed(a, True, up)
                    ctx.ob("user-sense-output", x is y or same_under(x, y, TRUE), ctx.at(f, e), "%s shows %s: not in the user's objective direction for maximisation" % (short(f["n"]), a), sample=show(a)[:200])
            continue
        if e.kind == "call" and any(isinstance(a, T) and a.op == "lam" for a in e.args):
            continue
        hit = True
        for w, d in ((False, mn), (True, mx)):
            r = effect_key(e, w, up)
            if r is None:
                continue
            k, pc = r
            d.setdefault(k, []).append((pc, e))
    if not hit:
        return
    for k in mn:
        if k in mx:
            a, b = or_(*[p for p, _ in mn[k]]), or_(*[p for p, _ in mx[k]])
            ok = a is b or (safe_implies(a, b) and safe_implies(b, a))
            ctx.ob("same-condition", ok, ctx.at(f, mn[k][0][1]), "%s: %s happens under %s when minimising and under %s when maximising" % (short(f["n"]), k[1] or k[2], a, b), sample="%s %s" % (short(f["n"]), k[1] or k[2]))
        else:
            e = mn[k][0][1]
            same = [q for q in mx if q[0] == k[0] and q[1] == k[1] and q[2] is k[2] and q not in mn]
            got = [q for q in same if equal_values(q, k)]
            ctx.ob("same-effect", bool(got), ctx.at(f, e), "%s: minimising gives %s, maximising the negated objective gives %s" % (short(f["n"]), describe(k), describe(same[0]) if same else "no such effect"), sample=short(f["n"]))
    for k in mx:
        if k not in mn and not [q for q in mn if q[0] == k[0] and q[1] == k[1] and q[2] is k[2]]:
            ctx.ob("same-effect", False, ctx.at(f, mx[k][0][1]), "%s: maximising gives %s, minimising no such effect" % (short(f["n"]), describe(k)))


def equal_values(a, b):
    if a[4] != b[4]:
        return False
    xs = a[3] if isinstance(a[3], tuple) else (a[3],)
    ys = b[3] if isinstance(b[3], tuple) else (b[3],)
    return len(xs) == len(ys) and all(x is y or (isinstance(x, T) and isinstance(y, T) and same_under(x, y, TRUE)) for x, y in zip(xs, ys))


def describe(k):
    return "%s %s %s" % (k[1], k[2], k[3]) if k[0] == "call" else "%s := %s" % (k[2], k[3])


def sweep(ctx):
    seen = set()
    for f in ctx.P.fn.values():
        n = f["n"]
        if not n.startswith("printemps::") or endswith(n, SKIP) or "lambda" in n or n.endswith("(ctor)") or n.split("::")[-1] in ("operator=",) or not is_baseline(ctx.P, f):
            continue  # new helpers are judged within their callers
        if n.split("::")[-2] in ("NamedSolution", "SparseSolution", "DenseSolution", "SolutionArchive", "Objective"):
            continue  # plain carriers of user-sense values (P14, P15, P16)
        k = (f["file"], f["l"], n)
        if k in seen:
            continue
        seen.add(k)
        s = json.dumps(f)
        if not any(w in s for w in ("is_minimization", "::sign", "objective", "dual_bound", "lagrangian", "SortMode", "remove_independent_variable")):
            continue
        ctx.section(check_function, f)


def bounds_from_objective(ctx):
    """update_variable_bounds imposes objective <= bound for a primal bound of a minimisation and mirrored otherwise"""
    f = ctx.fn1("Model::update_variable_bounds")
    E = ctx.run(f)
    cs = [e for e in E.effects if e.kind == "call" and callee(e) == "create_instance" and isinstance(e.v, str) and "Constraint" in e.v]
    ctx.need(cs, "constraint on the objective")
    ismin = mk("fld", THIS, [x for e in E.effects for x in subterms(e.pc) if x.op == "fld" and fname(x) == ISMIN][0].a[1]) if any(fname(x) == ISMIN for e in cs for x in subterms(e.pc)) else None
    prim = mk("sym", "$1")
    for e in cs:
        d, sense = e.args[0], show(e.args[1]).split("::")[-1]
        if d.op != "call" or d.a[0].split("::")[-1] != "operator-" or len(d.a[2]) != 2:
            raise Broken("shape of the objective constraint")
        l, r = d.a[2]
        if is_objective_expr(l) and r is mk("sym", "$0"):
            pass
        elif is_objective_expr(r) and l is mk("sym", "$0"):
            sense = {"Less": "Greater", "Greater": "Less"}.get(sense, sense)
        else:
            raise Broken("shape of the objective constraint")
        for m in (True, False):
            for p in (True, False):
                pc = world(rebuild(e.pc, lambda x: (TRUE if p else FALSE) if x is prim else x), not m)
                if pc is FALSE or not safe_sat(pc):
                    continue
                want = "Less" if m == p else "Greater"
                ctx.ob("objective-bound-side", sense == want, ctx.at(f, e), "update_variable_bounds imposes objective %s bound for a %s bound of a %s" % (sense, "primal" if p else "dual", "minimisation" if m else "maximisation"), sample="%s/%s -> %s" % (m, p, sense))


def target(ctx):
    """the user's target is converted to the internal sense exactly once, the default stays"""
    f = ctx.fn1("Solver::setup_target_objective", 0)
    E = ctx.run(f)
    ws = [e for e in writes(E, "target_objective_value")]
    ctx.need(ws, "target conversion")
    old = ws[0].t
    n = 0
    for e in ws:
        if e.v.op == "n" or e.v is ZERO:
            flag = [x for x in subterms(e.pc) if fname(x) == "m_is_defined_objective"]
            ctx.ob("target-sense", bool(flag) and safe_implies(e.pc, not_(flag[0])), ctx.at(f, e), "the target is replaced by %s although an objective is defined" % e.v)
            continue
        a, b = [rebuild(e.v, lambda x, m=m: (TRUE if m else FALSE) if fname(x) == ISMIN else x) for m in (True, False)]
        ctx.ob("target-sense", a is old and b is sub(ZERO, old), ctx.at(f, e), "the target objective becomes %s" % e.v, sample=show(e.v))
        n += 1
    ctx.ob("target-sense", n >= 1, ctx.at(f), "the user's target objective is not converted to the internal sense")
    g = ctx.fn1("Solver::preprocess", 0)
    ctx.ob("target-sense", len(list(calls(ctx.run(g), "Solver::setup_target_objective")) + list(calls(ctx.run(ctx.fn1("Solver::solve", 0)), "Solver::setup_target_objective"))) == 1, ctx.at(g), "the target objective is not converted exactly once")


def sorts(ctx):
    """comparators over objective sensitivities: better variables first in both directions"""
    f = ctx.fn1("ProblemSizeReducer::remove_redundant_set_variables")
    E = ctx.run(f)
    res = {}
    for e in E.effects:
        if e.kind != "call" or callee(e) not in ("sort", "stable_sort") or not any(isinstance(a, T) and a.op == "lam" for a in e.args):
            continue
        lam = [a for a in e.args if isinstance(a, T) and a.op == "lam"][0]
        L = run_stored_lambda(ctx, E, lam, f["file"])
        v = L.ret if hasattr(L, "ret") else L
        if not isinstance(v, T):
            raise Broken("comparator of remove_redundant_set_variables")
        for m in (True, False):
            pc = world(e.pc, not m)
            if pc is not FALSE:
                res.setdefault(m, []).append((e, world(v, not m)))
    if not res:
        raise Broken("order of set variables")
    ok = set(res) == {True, False} and len(res[True]) == len(res[False]) and all(x is y or same_under(x, y, TRUE) for (_, x), (_, y) in zip(res[True], res[False]))
    ctx.ob("same-order", ok, ctx.at(f, res[list(res)[0]][0][0]), "set variables are not ordered best objective first in both directions")


def run(ctx):
    ctx.rule("effects of every objective-handling function are the same in the worlds 'minimise f' and 'maximise -f', user-sense quantities negated")
    sweep(ctx)
    for s in (bounds_from_objective, target, sorts):
        ctx.section(s)
