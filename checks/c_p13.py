"""P13: presolve reductions only remove what is implied."""
from common import *

RED = "ProblemSizeReducer::"
TOL = 1e-3


def sense(t, s):
    return eq(t, mk("enum", "printemps::model_component::ConstraintSense::" + s))


def strip_cast(t):
    while t.op in ("trunc", "cast"):
        t = t.a[0]
    return t


def rnd(t):
    """(name, argument) of a rounding"""
    if t.op in ("floor", "ceil", "round"):
        return t.op, t.a[0]
    if t.op == "call" and t.a[0].split("::")[-1] in ("floor", "ceil", "round", "lround", "llround", "nearbyint", "rint") and t.a[2]:
        n = t.a[0].split("::")[-1]
        return (n if n in ("floor", "ceil") else "round"), t.a[2][0]
    return None, None


def is_num(t):
    return t.op == "n"


def split_shift(t):
    """d + k with constant k"""
    for k in ([x for x in [t] if x.op == "poly"]):
        d = poly_of(k)
        c = 0
        rest = ZERO
        for mono, v in d.items():
            if mono == ():
                c = v
        return sub(t, num(c)), float(c)
    return t, 0.0


def frac(t):
    """numerator, denominator"""
    if t.op == "div":
        return t.a[0], t.a[1]
    if t.op == "poly":
        d = poly_of(t)
        # one common denominator
        ds = [x for x in subterms(t) if x.op == "div"]
        if len(ds) == 1:
            return None
    return t, ONE


def same_frac(t, n, d):
    """is t the quotient n/d?"""
    if t.op == "div":
        a, b = t.a
        return sub(mul(a, d), mul(n, b)) is ZERO
    divs = {x for x in subterms(t) if x.op == "div"}
    if not divs or t.op != "poly":
        return False
    # sum of quotients with the same denominator: multiply out
    den = {x.a[1] for x in divs}
    if len(den) != 1:
        return False
    b = den.pop()
    acc = ZERO
    for mono, v in poly_of(t).items():
        fs = list(mono)
        i = [k for k, x in enumerate(fs) if isinstance(x, T) and x.op == "div"]
        p = num(v)
        if len(i) > 1:
            return False
        for k, x in enumerate(fs):
            p = mul(p, x.a[0] if i and k == i[0] else x)
        if not i:
            p = mul(p, b)
        acc = add(acc, p)
    return sub(mul(acc, d), mul(n, b)) is ZERO


class Side:
    def __init__(self, con, v, c):
        ex = mk("fld", con, "printemps::model_component::Constraint::m_expression")
        self.c, self.v = c, v


def tighten(ctx):
    """bounds imposed and constraints dropped by the activity-based reduction"""
    f = ctx.fn1(RED + "remove_redundant_constraint_with_tightening_variable_bound")
    E = ctx.run(f)
    sb = [e for e in E.effects if e.kind == "call" and callee(e) == "set_bound"]
    fx = [e for e in E.effects if e.kind == "call" and callee(e) == "fix_by"]
    ds = [e for e in writes(E, "m_is_enabled") if e.v is FALSE]
    ctx.need(sb and ds, "bound tightening and constraint removal")
    con = ds[0].t.a[0]
    allt = [x for e in E.effects for q in [e.pc] + list(e.args or ()) if isinstance(q, T) for x in subterms(q)]

    def one(pred, what):
        r = {x for x in allt if pred(x)}
        if len(r) != 1:
            raise Broken(what)
        return r.pop()
    isx = lambda o: o is not None and o.op == "fld" and fname(o) == "m_expression" and o.a[0] is con
    L = one(lambda x: x.op == "call" and x.a[0].endswith("lower_bound") and isx(x.a[1]), "lower bound of the constraint")
    U = one(lambda x: x.op == "call" and x.a[0].endswith("upper_bound") and isx(x.a[1]), "upper bound of the constraint")
    F = one(lambda x: x.op == "call" and x.a[0].endswith("fixed_term_value") and isx(x.a[1]), "fixed part of the constraint")
    C = one(lambda x: x.op == "fld" and fname(x) == "m_constant_value" and isx(x.a[0]), "constant of the constraint")
    S = one(lambda x: x.op == "fld" and fname(x) == "m_sense" and x.a[0] is con, "sense of the constraint")
    is_le, is_ge = mk("fld", con, "printemps::model_component::Constraint::m_is_less_or_equal"), mk("fld", con, "printemps::model_component::Constraint::m_is_greater_or_equal")
    for x in allt:
        if x.op == "fld" and x.a[0] is con:
            if fname(x) == "m_is_less_or_equal":
                is_le = x
            if fname(x) == "m_is_greater_or_equal":
                is_ge = x
    eqs, les, ges = sense(S, "Equal"), sense(S, "Less"), sense(S, "Greater")
    iff = lambda a, b: and_(or_(not_(a), b), or_(not_(b), a))
    base = and_(iff(is_le, or_(eqs, les)), iff(is_ge, or_(eqs, ges)))
    redundant = or_(and_(eqs, eq(L, ZERO), eq(U, ZERO)), and_(les, le(U, ZERO)), and_(ges, le(ZERO, L)))
    imposed = FALSE

    def var_parts(v):
        if v.op != "get" or v.a[0] != 0:
            raise Broken("variable %s" % v)
        X = v.a[1]
        c = mk("get", 1, X)
        lb = mk("fld", v, "printemps::model_component::Variable::m_lower_bound")
        ub = mk("fld", v, "printemps::model_component::Variable::m_upper_bound")
        lbs = {x for x in allt if x.op == "fld" and x.a[0] is v and fname(x) == "m_lower_bound"}
        ubs = {x for x in allt if x.op == "fld" and x.a[0] is v and fname(x) == "m_upper_bound"}
        lb, ub = (lbs.pop() if lbs else lb), (ubs.pop() if ubs else ub)
        facts = TRUE
        if has_field(X, "m_positive_coefficient_mutable_variable_sensitivities"):
            facts = lt(ZERO, c)
        elif has_field(X, "m_negative_coefficient_mutable_variable_sensitivities"):
            facts = le(c, ZERO)
        single = has_field(X, "m_mutable_variable_sensitivities")
        return X, c, lb, ub, facts, single

    one_var = [x for x in allt if x.op == "eq0" and has_field(x, "m_mutable_variable_sensitivities") and "size" in show(x)]

    def value_ok(t, upper, c, lb, ub, pc, single):
        """t bounds the variable from above/below by what the constraint implies under pc; returns the rounding term or None"""
        r = strip_cast(t)
        rn, ra = rnd(r)
        if rn != ("floor" if upper else "ceil"):
            return None, "is not rounded towards the feasible side (%s)" % r
        d, k = split_shift(ra)
        if not (0 < k <= TOL if upper else -TOL <= k < 0):
            return None, "is rounded without (or with a wrong) tolerance for rounding errors: %s" % r
        # constraint side and sign of the coefficient
        pos, neg_ = lt(ZERO, c), lt(c, ZERO)
        n1 = add(sub(ZERO, L), mul(c, lb))   # from  L part <= 0
        n2 = add(sub(ZERO, L), mul(c, ub))
        m1 = add(sub(ZERO, U), mul(c, ub))
        m2 = add(sub(ZERO, U), mul(c, lb))
        s0 = sub(sub(ZERO, F), C)
        cases = ([(n1, and_(or_(les, eqs), pos)), (m2, and_(or_(ges, eqs), neg_))] if upper else
                 [(n2, and_(or_(les, eqs), neg_)), (m1, and_(or_(ges, eqs), pos))])
        if single:
            cases.append((s0, or_(*[q for _, q in cases])))
        ok = [q for nmr, q in cases if same_frac(d, nmr, c)]
        if not ok:
            return None, "is %s, not the bound implied by the constraint" % r
        if not safe_implies(and_(pc, base), or_(*ok)):
            return None, "is imposed on the wrong side for some sense of the constraint or sign of the coefficient"
        return r, ""

    for e in sb:
        v = e.t
        X, c, lb, ub, facts, single = var_parts(v)
        pc = and_(e.pc, facts, not_(eq(c, ZERO)))
        lo, hi = e.args[0], e.args[1]
        n = 0
        for upper, arg, cur in ((False, lo, lb), (True, hi, ub)):
            if arg is cur:
                continue
            n += 1
            r, why = value_ok(arg, upper, c, lb, ub, pc, single)
            side = "upper" if upper else "lower"
            if not ctx.ob("implied-bound", r is not None, ctx.at(f, e), "the new %s bound of a variable %s" % (side, why), sample="%s := %s" % (side, arg)):
                continue
            ctx.ob("only-tightens", safe_implies(e.pc, lt(r, ub) if upper else lt(lb, r)), ctx.at(f, e), "the %s bound is replaced by %s without being tighter" % (side, r), sample=show(r)[:150])
            if single:
                imposed = or_(imposed, and_(e.pc, not_(eqs)))
        ctx.ob("one-side-kept", n <= 1 and (lo is lb or hi is ub), ctx.at(f, e), "set_bound(%s, %s) does not keep the other bound" % (lo, hi))
    for e in fx:
        v = e.t
        X, c, lb, ub, facts, single = var_parts(v)
        r = strip_cast(e.args[0])
        s0 = sub(sub(ZERO, F), C)
        rn, ra = rnd(r)
        okv = rn == "round" and same_frac(ra, s0, c)
        ctx.ob("forced-value", okv, ctx.at(f, e), "the variable of a singleton equality is fixed at %s, not at the (rounded) value forced by the constraint" % e.args[0], sample=show(r)[:150])
        ctx.ob("forced-value-case", safe_implies(e.pc, eqs) and single, ctx.at(f, e), "a variable is fixed by a constraint that is not a singleton equality")
        if okv:
            d = abs_(sub(ra, r))
            ctx.ob("forced-value-integral", implies_split(e.pc, le(d, num(TOL))), ctx.at(f, e), "the variable is fixed although the forced value is not integral")
            ctx.ob("fixed-in-bounds", safe_implies(e.pc, and_(le(lb, r), le(r, ub))), ctx.at(f, e), "the variable is fixed at a value that may lie outside its bounds")
        imposed = or_(imposed, e.pc)
    # a singleton inequality whose bound is not tighter than the variable's is redundant
    slack = FALSE
    for x in set(allt):
        rn, ra = rnd(x)
        if rn in ("floor", "ceil"):
            ps = {y for y in subterms(x) if y.op == "get" and y.a[0] == 1}
            if len(ps) != 1:
                continue
            c = ps.pop()
            v = mk("get", 0, c.a[1])
            X, c, lb, ub, facts, single = var_parts(v)
            if not single:
                continue
            d, k = split_shift(ra)
            if not same_frac(d, sub(sub(ZERO, F), C), c):
                continue
            pos, neg_ = lt(ZERO, c), lt(c, ZERO)
            if rn == "floor":
                slack = or_(slack, and_(or_(and_(les, pos), and_(ges, neg_)), le(ub, x)))
            else:
                slack = or_(slack, and_(or_(and_(les, neg_), and_(ges, pos)), le(x, lb)))
    for e in ds:
        ctx.need(e.t.a[0] is con, "constraint dropped")
        ctx.ob("dropped-constraint-implied", safe_implies(and_(e.pc, base), or_(redundant, imposed, slack)), ctx.at(f, e), "a constraint is dropped although it is neither satisfied by all remaining values nor replaced by a bound or a fixed value", sample=show(e.pc)[:150])
    # the activity bounds are those of the moment the decisions are made
    st = [e for e in E.effects if e.kind == "call" and callee(e) == "setup_mutable_variable_sensitivities" and isx(e.t)]
    first = min(e.seq for e in sb + fx + ds)
    ctx.ob("fresh-sensitivities", any(e.pc is TRUE and e.seq < first for e in st), ctx.at(f), "the mutable sensitivities are not rebuilt before they are used")


def activity(ctx):
    """Expression::lower_bound/upper_bound/fixed_term_value and the mutable/positive/negative parts"""
    for name, upper in (("Expression::lower_bound", False), ("Expression::upper_bound", True)):
        f = ctx.fn1(name, 0)
        E = ctx.run(f)
        sums = {x for x in subterms(E.ret) if x.op == "sum"}
        ctx.need(len(sums) == 1, "sum in " + name)
        s = sums.pop()
        rest = sub(E.ret, s)
        ctx.ob("activity-constant", fname(rest) == "m_constant_value", ctx.at(f), "%s adds %s instead of the constant" % (name, rest))
        body = s.a[2]
        cs = {x for x in subterms(body) if x.op == "get" and x.a[0] == 1}
        ctx.need(len(cs) == 1, "coefficient in " + name)
        c = cs.pop()
        ctx.ob("activity-range", fname(c.a[1].a[0]) == "m_sensitivities", ctx.at(f), "%s does not run over the expression's own terms" % name)
        v = mk("get", 0, c.a[1])
        fl = lambda n: next((x for x in subterms(body) if x.op == "fld" and fname(x) == n and x.a[0] is v), None)
        fixed, lb, ub, val = fl("m_is_fixed"), fl("m_lower_bound"), fl("m_upper_bound"), fl("m_value")
        ctx.need(fixed is not None and lb is not None and ub is not None and val is not None, "terms of " + name)
        a, b = (ub, lb) if upper else (lb, ub)
        want = ite(fixed, mul(c, val), ite(lt(ZERO, c), mul(c, a), mul(c, b)))
        # a zero coefficient contributes nothing either way
        ok = all(same_under(body, want, p) for p in (lt(ZERO, c), lt(c, ZERO)))
        ctx.ob("activity-term", ok, ctx.at(f), "%s: a term contributes %s" % (name, body), sample=show(body)[:200])
    f = ctx.fn1("Expression::fixed_term_value", 0)
    E = ctx.run(f)
    t = E.ret
    ok = t.op == "sum" and t.a[2].op == "ite" and fname(t.a[2].a[0]) == "m_is_fixed" and t.a[2].a[2] is ZERO
    if t.op == "sum":
        cs = {x for x in subterms(t) if x.op == "get" and x.a[0] == 1}
        ctx.need(len(cs) == 1, "coefficient in fixed_term_value")
        c = cs.pop()
        v = mk("get", 0, c.a[1])
        val = next((x for x in subterms(t) if fname(x) == "m_value" and x.a[0] is v), None)
        fixed = next((x for x in subterms(t) if fname(x) == "m_is_fixed" and x.a[0] is v), None)
        ok = val is not None and fixed is not None and same_under(t.a[2], ite(fixed, mul(c, val), ZERO), TRUE) and fname(c.a[1].a[0]) == "m_sensitivities"
    ctx.ob("fixed-part", ok, ctx.at(f), "fixed_term_value is %s, not the (real-valued) sum of the fixed terms" % t, sample=show(t)[:200])
    f = ctx.fn1("Expression::setup_mutable_variable_sensitivities", 0)
    E = ctx.run(f)
    ws = [e for e in writes(E) if e.t.op == "at" and (fname(e.t.a[0]) or "").endswith("mutable_variable_sensitivities")]
    cond = {}
    for e in ws:
        n = fname(e.t.a[0])
        c = e.v
        if c.op != "get" or c.a[0] != 1 or e.t.a[1] is not mk("get", 0, c.a[1]):
            ctx.ob("mutable-part", False, ctx.at(f, e), "%s[%s] := %s" % (n, e.t.a[1], c))
            continue
        cond.setdefault(n, []).append((e.pc, c))
    ctx.need(cond, "mutable sensitivities")
    for n in ("m_mutable_variable_sensitivities", "m_positive_coefficient_mutable_variable_sensitivities", "m_negative_coefficient_mutable_variable_sensitivities"):
        ps = cond.get(n)
        if not ctx.ob("mutable-part", bool(ps), ctx.at(f), "%s is not filled" % n):
            continue
        c = ps[0][1]
        v = mk("get", 0, c.a[1])
        fixed = next((x for p, _ in ps for x in subterms(p) if fname(x) == "m_is_fixed" and x.a[0] is v), None)
        got = or_(*[p for p, _ in ps])
        want = TRUE if fixed is None else not_(fixed)
        sg = {"m_p": lt(ZERO, c), "m_n": lt(c, ZERO)}.get(n[:3], TRUE)
        nz = not_(eq(c, ZERO))
        ok = fixed is not None and safe_equiv(and_(got, nz), and_(want, sg, nz))
        ctx.ob("mutable-part", ok, ctx.at(f), "%s collects the terms with %s" % (n, got), sample="%s: %s" % (n, got))
        cl = [e for e in E.effects if e.kind == "call" and callee(e) == "clear" and fname(e.t) == n and e.pc is TRUE]
        ctx.ob("mutable-part-cleared", bool(cl), ctx.at(f), "%s is not cleared before it is filled" % n)


def independent(ctx):
    """variables in no constraint go to the side that is best for the objective"""
    f = ctx.fn1(RED + "remove_independent_variables")
    E = ctx.run(f, inline=(RED + "remove_independent_variable",))
    fx = [e for e in E.effects if e.kind == "call" and callee(e) == "fix_by"]
    ctx.need(fx, "fixing of independent variables")
    for e in fx:
        v = e.t
        tt = [x for x in subterms(e.pc)] + [x for x in subterms(e.args[0])]
        fl = lambda n: next((x for x in tt if x.op == "fld" and fname(x) == n and is_sub(x, v)), None)
        rel = [x for x in subterms(e.pc) if x.op == "eq0" and has_field(x, "related_constraint_ptrs") and contains(x, lambda y: y is v)]
        ctx.ob("independent", any(safe_implies(e.pc, x) for x in rel), ctx.at(f, e), "a variable is fixed although constraints may contain it")
        fixd = fl("m_is_fixed")
        ctx.ob("user-fixed-kept", fixd is not None and safe_implies(e.pc, not_(fixd)), ctx.at(f, e), "a fixed variable is fixed again")
        lb, ub = mk("fld", v, "printemps::model_component::Variable::m_lower_bound"), mk("fld", v, "printemps::model_component::Variable::m_upper_bound")
        val = e.args[0]
        pc = and_(e.pc, le(lb, ub))
        ctx.ob("fixed-in-bounds", implies_split(pc, and_(le(lb, val), le(val, ub))), ctx.at(f, e), "an independent variable is fixed at %s, which may lie outside its bounds" % val, sample=show(val))
        s = next((x for x in tt if x.op == "fld" and fname(x) == "objective_sensitivity" and contains(x, lambda y: y is v)), None)
        ctx.need(s is not None, "objective sensitivity")
        ismin = next((x for x in tt if fname(x) == "m_is_minimization"), None)
        for m in (TRUE, FALSE):
            w = lambda t: rebuild(t, lambda x: m if x is ismin else x)
            p = w(pc)
            if p is FALSE or not safe_sat(p):
                continue
            sg = s if m is TRUE else sub(ZERO, s)
            small = num(1e-6)
            best = or_(and_(lt(small, sg), eq(val, lb)), and_(lt(sg, sub(ZERO, small)), eq(val, ub)), le(abs_(s), small))
            # the decision threshold of the code may lie anywhere below 1e-6
            ok = implies_split(and_(p, lt(small, sg)), eq(w(val), lb)) and implies_split(and_(p, lt(sg, sub(ZERO, small))), eq(w(val), ub))
            ctx.ob("independent-side", ok, ctx.at(f, e), "an independent variable is fixed at %s when %s" % (val, "minimising" if m is TRUE else "maximising"), sample="%s" % val)


def implicit_fixed(ctx):
    f = ctx.fn1(RED + "remove_implicit_fixed_variables")
    E = ctx.run(f, inline=(RED + "remove_implicit_fixed_variable",))
    fx = [e for e in E.effects if e.kind == "call" and callee(e) == "fix_by"]
    ctx.need(fx, "fixing of implicitly fixed variables")
    for e in fx:
        v = e.t
        lb, ub = mk("fld", v, "printemps::model_component::Variable::m_lower_bound"), mk("fld", v, "printemps::model_component::Variable::m_upper_bound")
        ctx.ob("implicitly-fixed", safe_implies(e.pc, and_(eq(lb, ub), eq(e.args[0], lb))), ctx.at(f, e), "a variable is fixed at %s although its bounds do not force it" % e.args[0], sample=show(e.pc)[:150])
        fixd = mk("fld", v, "printemps::model_component::Variable::m_is_fixed")
        ctx.ob("user-fixed-kept", safe_implies(e.pc, not_(fixd)), ctx.at(f, e), "a fixed variable is fixed again")


def phis(t):
    return {x for x in subterms(t) if x.op == "phi"}


def element(t):
    """c[k] at the root of an access path"""
    while t.op == "fld":
        t = t.a[0]
    return t


def set_variables(ctx):
    f = ctx.fn1(RED + "remove_redundant_set_variables")
    E = ctx.run(f)
    fx = [e for e in E.effects if e.kind == "call" and callee(e) == "fix_by"]
    ctx.need(fx, "fixing of redundant set variables")
    for e in fx:
        v = e.t
        ctx.ob("set-variable-zero", e.args[0] is ZERO, ctx.at(f, e), "a redundant set variable is fixed at %s" % e.args[0])
        eqr = [x for x in subterms(e.pc) if x.op == "eq0" and has_field(x, "related_constraint_ptrs") and contains(x, lambda y: y is v) and safe_implies(e.pc, x)
               and len({element(y) for y in subterms(x) if fname(y) == "related_constraint_ptrs"}) == 2]
        ctx.ob("same-column", bool(eqr), ctx.at(f, e), "a variable is fixed at 0 although no other variable appears in exactly the same constraints", sample="related constraints equal")
        tot = [x for x in subterms(e.pc) if x.op == "eq0" and all(has_field(x, n) for n in ("constraint_ptrs", "set_covering_ptrs", "set_packing_ptrs", "set_partitioning_ptrs")) and safe_implies(e.pc, x)]
        ctx.ob("pure-set-problem", bool(tot), ctx.at(f, e), "the reduction is applied although other kinds of constraints may exist", sample=show(tot[0])[:200] if tot else None)
        cov = [x for x in subterms(e.pc) if x.op == "eq0" and has_field(x, "set_covering_ptrs") and not has_field(x, "set_packing_ptrs")]
        s = next((x for x in subterms(e.pc) if fname(x) == "objective_sensitivity" and contains(x, lambda y: y is v)), None)
        ismin = next((x for x in subterms(e.pc) if fname(x) == "m_is_minimization"), None)
        nocov = cov[0] if cov else FALSE
        # or some constraint of the variable bounds the number of ones from above
        for x in subterms(e.pc):
            if x.op == "exists" and fname(x.a[-1]) == "m_is_less_or_equal" and contains(x.a[-1], lambda y: fname(y) == "related_constraint_ptrs" and contains(y, lambda z: z is v)):
                nocov = or_(nocov, x)
        for m in (TRUE, FALSE):
            p = rebuild(e.pc, lambda x: m if x is ismin else x)
            ok = s is not None and safe_implies(p, or_(nocov, le(ZERO, s if m is TRUE else sub(ZERO, s))))
            ctx.ob("covering-improving-kept", ok, ctx.at(f, e), "a variable of set covering constraints that improves the objective is fixed at 0 when %s" % ("minimising" if m is TRUE else "maximising"))
        # the kept variable is a different, unfixed one
        others = {element(y) for x in eqr for y in subterms(x) if fname(y) == "related_constraint_ptrs"} - {v}
        ctx.ob("kept-variable-free", any(x.op == "not" and fname(x.a[0]) == "m_is_fixed" and x.a[0].a[0] is not v for x in conj(e.pc)) and len(others) == 1, ctx.at(f, e), "the variable that is kept may be fixed")


def set_order(ctx):
    """of interchangeable variables the one with the best objective coefficient is met first, hence kept"""
    f = ctx.fn1(RED + "remove_redundant_set_variables")
    E = ctx.run(f)
    ss = [e for e in E.effects if e.kind == "call" and callee(e) in ("sort", "stable_sort") and len(e.args) == 3]
    ctx.need(ss, "ordering of the variables")
    ismin = next((x for e in E.effects for x in subterms(e.pc) if fname(x) == "m_is_minimization"), None)
    ctx.need(ismin is not None, "objective direction")
    A, B = mk("sym", "first"), mk("sym", "second")
    for m in (TRUE, FALSE):
        act = [e for e in ss if safe_sat(rebuild(e.pc, lambda x: m if x is ismin else x))]
        ctx.need(act, "ordering when %s" % ("minimising" if m is TRUE else "maximising"))
        for e in act:
            L = run_stored_lambda(ctx, E, e.args[2], f["file"], args=[A, B])
            t = rebuild(L.ret, lambda x: m if x is ismin else x)
            fl = lambda v, n: next((x for x in subterms(t) if fname(x) == n and contains(x, lambda y: y is v)), None)
            ha, hb, sa, sb = fl(A, "hash"), fl(B, "hash"), fl(A, "objective_sensitivity"), fl(B, "objective_sensitivity")
            ctx.need(None not in (ha, hb, sa, sb), "comparison of the variables")
            better = lt(sa, sb) if m is TRUE else lt(sb, sa)
            worse = lt(sb, sa) if m is TRUE else lt(sa, sb)
            ok = implies_split(and_(eq(ha, hb), better), t) and implies_split(and_(eq(ha, hb), worse), not_(t))
            ctx.ob("best-kept", ok, ctx.at(f, e), "when %s, the interchangeable variable with the worse objective coefficient may be kept" % ("minimising" if m is TRUE else "maximising"), sample=show(t)[:150])


def duplicates(ctx):
    fs = ctx.fns(RED + "remove_duplicated_constraints")
    for f in fs:
        E = ctx.run(f, opaque=(RED + "remove_duplicated_constraints",))
        for e in writes(E, "m_is_enabled"):
            j = e.t.a[0]
            eqs = [x for x in conj(e.pc) if x.op == "call" and x.a[0].endswith("::equal")]
            pair = None
            for x in eqs:
                a, b = element(x.a[1]), element(x.a[2][0])
                if j in (a, b) and a is not b:
                    pair = b if a is j else a
            ctx.ob("duplicate-equal", pair is not None, ctx.at(f, e), "a constraint is dropped as a duplicate without comparing the expressions", sample="equal()")
            if pair is None:
                continue
            si, sj = [mk("fld", x, "printemps::model_component::Constraint::m_sense") for x in (pair, j)]
            ctx.ob("duplicate-sense", safe_implies(e.pc, eq(si, sj)), ctx.at(f, e), "a constraint is dropped as a duplicate of one with a different sense")
            en = [x for x in conj(e.pc) if fname(x) == "m_is_enabled" and element(x) is not j]
            ctx.ob("duplicate-kept-enabled", bool(en), ctx.at(f, e), "a constraint is dropped as a duplicate of one that may be disabled")
        for e in calls(E, "remove_duplicated_constraints"):
            ctx.count("duplicate-list")
    f = ctx.fn1("Expression::equal")
    E = ctx.run(f)
    o = mk("sym", "$0")
    t = E.ret
    fl = lambda b, n: next((x for x in subterms(t) if x.op == "fld" and fname(x) == n and x.a[0] is b), None)
    for n in ("m_constant_value", "m_sensitivities"):
        a, b = fl(THIS, n), fl(o, n)
        ok = a is not None and b is not None and is_boolean(t) and safe_implies(t, eq(a, b))
        ctx.ob("expressions-equal", ok, ctx.at(f), "Expression::equal can hold although %s differs" % n, sample=n)


def implicit_equalities(ctx):
    f = ctx.fn1(RED + "extract_implicit_equality_constraints")
    E = ctx.run(f)
    ds = [e for e in writes(E, "m_is_enabled") if e.v is FALSE]
    ctx.need(ds, "dropped pairs")
    cr = [e for e in E.effects if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and any("create_instance" in show(a) or "ctor" in show(a) for a in e.args) and has_field(e.args[0], "m_expression")]
    groups = {}
    for e in ds:
        groups.setdefault(e.pc, []).append(e)
    for pc, es in groups.items():
        els = {e.t.a[0] for e in es}
        eqs = [x for x in conj(pc) if x.op == "call" and x.a[0].endswith("::equal")]
        if not ctx.ob("equality-pair", len(els) == 2 and len(eqs) >= 1, ctx.at(f, es[0]), "constraints are dropped without a matching opposite one"):
            continue
        x = eqs[0]
        a, b = x.a[1], x.a[2][0]
        i, j = element(a), element(b)
        S = lambda q: mk("fld", q, "printemps::model_component::Constraint::m_sense")
        els = list(els)
        same = eq(S(els[0]), S(els[1]))
        if {i, j} == set(els):
            ctx.ob("equality-senses", safe_implies(pc, not_(same)), ctx.at(f, es[0]), "two constraints with the same expression are merged into an equality although their senses agree", sample="e <= 0 and e >= 0")
        else:
            inv = i if i.op == "loc" else j
            src = [e for e in E.effects if e.kind == "init" and e.t is inv]
            neg_ = [e for e in src if isinstance(e.v, T) and e.v.op == "call" and e.v.a[0].endswith("operator-") and any(contains(e.v, lambda y: y is q) for q in els)]
            if inv.op == "loc" and not src:
                raise Broken("negated expression")
            ctx.ob("equality-senses", bool(neg_) and safe_implies(pc, same), ctx.at(f, es[0]), "two constraints are merged into an equality although the second is not the negation of the first with the same sense", sample="e <= 0 and -e <= 0")
        for q in els:
            en = any(fname(y) == "m_is_enabled" and (y.a[0] is q or safe_implies(TRUE, TRUE) and element(y).op == "at" and element(y).a[0] is q.a[0]) for y in conj(pc))
            ctx.ob("equality-enabled", en, ctx.at(f, es[0]), "a disabled constraint takes part in an implicit equality")
        tests = [y for y in conj(pc) if fname(y) == "m_is_enabled" or y.op == "not" and fname(y.a[0]) == "m_is_enabled"]
        ctx.ob("equality-enabled", not any(y.op == "not" for y in tests) and len(tests) >= 2, ctx.at(f, es[0]), "two constraints are merged into an equality when only %s, so a disabled one can take part" % str(tests)[:160], key="both")
        got = [e for e in cr if safe_implies(pc, e.pc) and any(contains(e.args[0], lambda y: fname(y) == "m_expression" and y.a[0] is q) for q in els) and "ConstraintSense::Equal" in show(e.args[0])]
        if not got and any(e.kind == "call" and callee(e) in ("emplace_back", "push_back") and e.args and e.args[0].op == "call" and any(x.op == "loc" for x in subterms(e.args[0])) and safe_implies(pc, e.pc) for e in E.effects):
            raise Broken("the added constraint is a computed expression")
        ctx.ob("equality-added", bool(got), ctx.at(f, es[0]), "two constraints are dropped without adding the equality they imply", sample="e == 0")


def set_constraints(ctx):
    f = ctx.fn1(RED + "remove_redundant_set_constraints")
    E = ctx.run(f)
    ds = [e for e in writes(E, "m_is_enabled") if e.v is FALSE]
    fx = [e for e in E.effects if e.kind == "call" and callee(e) == "fix_by"]
    ctx.need(ds, "dropped set constraints")

    def included(pc):
        """index pairs (a, b): every member of set a is a member of set b"""
        for x in conj(pc):
            if x.op == "not" and x.a[0].op == "exists":
                y = x.a[0]
                fs = [z for z in subterms(y) if z.op == "call" and z.a[0].endswith(("::find", "::count"))]
                if len(fs) != 1:
                    continue
                big = fs[0].a[1]
                mem = fs[0].a[2][0]
                if mem.op == "at":
                    yield mem.a[0], big
    for e in ds:
        pr = list(included(e.pc))
        if not pr and not any(x.op in ("exists",) or x.op == "not" and x.a[0].op == "exists" for x in conj(e.pc)):
            if not any("phi" in show(x) or "loopval" in show(x) or "flag" in show(x) for x in conj(e.pc)):
                ctx.ob("set-inclusion", False, ctx.at(f, e), "a set constraint is dropped without an inclusion test")
                continue
        if not pr:
            raise Broken("inclusion test")
        small, big = pr[0]
        idx = e.t.a[0].a[1]
        ok = big.op == "at" and small.op == "at" and big.a[1] is idx and small.a[1] is not idx
        ctx.ob("set-inclusion", ok, ctx.at(f, e), "the constraint with the smaller set of variables is dropped", sample="members of %s in %s" % (small, big))
    for e in fx:
        pr = list(included(e.pc))
        ctx.ob("set-variable-zero", e.args[0] is ZERO, ctx.at(f, e), "a variable outside the smaller set is fixed at %s" % e.args[0])
        if not pr:
            raise Broken("inclusion test")
        small, big = pr[0]
        fs = [x for x in conj(e.pc) if x.op in ("eq0", "eq") and any(z.op == "call" and z.a[0].endswith("::find") and z.a[1] is small and z.a[2][0] is e.t for z in subterms(x))]
        ok = e.t.op == "at" and e.t.a[0] is big and bool(fs)
        ctx.ob("set-difference", ok, ctx.at(f, e), "a variable is fixed at 0 that is not known to be outside the smaller set", sample=show(e.t))
    # only constraints of the two kinds 'exactly one' are considered
    src = [fname(x) for e in E.effects if e.kind in ("init", "call") for a in ([e.v] if isinstance(e.v, T) else []) + list(e.args or ()) if isinstance(a, T) for x in subterms(a)
           if x.op == "fld" and (fname(x) or "").endswith("_ptrs") and "constraint_type_reference" in show(x)]
    ctx.need(src, "constraint lists")
    for n in sorted(set(src)):
        ctx.ob("exactly-one-constraints", n in ("exclusive_or_ptrs", "set_partitioning_ptrs"), ctx.at(f), "constraints of list %s are treated as 'exactly one' constraints" % n, sample=n)


def reduce_loop(ctx):
    """fixed variables are left alone by the loops; disabled constraints are skipped"""
    f = ctx.fn1(RED + "remove_redundant_constraints_with_tightening_variable_bounds")
    E = ctx.run(f)
    cs = list(calls(E, "remove_redundant_constraint_with_tightening_variable_bound"))
    ctx.need(cs, "per-constraint reduction")
    for e in cs:
        en = [x for x in conj(e.pc) if fname(x) == "m_is_enabled" and x.a[0] is e.args[0]]
        ctx.ob("disabled-skipped", bool(en), ctx.at(f, e), "a disabled constraint is used to tighten bounds", sample=show(e.pc)[:150])


def run(ctx):
    ctx.rule("every bound change, fixed value and dropped constraint of the presolve is implied, on every path, by the constraint, its sense, the coefficient's sign and the bounds")
    for s in (tighten, activity, independent, implicit_fixed, set_variables, set_order, duplicates, implicit_equalities, set_constraints, reduce_loop):
        ctx.section(s)
