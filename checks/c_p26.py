"""P26: improvability screening leaves out only moves that cannot help."""
from common import *
import re
from c_p12 import strip_bool
from c_p02 import nonzero_conditions, setup_alterations, vf

MODEL = "printemps::model::Model::"
CON = "printemps::model_component::Constraint::"
EXP = "printemps::model_component::Expression::"
MODE = "printemps::option::improvability_screening_mode::ImprovabilityScreeningMode::"
A_, O_, F_ = mk("sym", "$2"), mk("sym", "$3"), mk("sym", "$4")
HO, HF = mk("sym", "has-objective-improvable"), mk("sym", "has-feasibility-improvable")
AL = "printemps::neighborhood::Move::alterations"


def predicates(ctx):
    """Move::has_*_improvable_variable test every alteration, Variable::is_improvable either mark"""
    al = mk("fld", THIS, AL)
    b = mk("iv", "b1")
    dom = mk("idx", ZERO, size_of(al))
    for n, m in (("has_objective_improvable_variable", "m_is_objective_improvable"), ("has_feasibility_improvable_variable", "m_is_feasibility_improvable")):
        f = ctx.fn1("Move::" + n, 0)
        r = ctx.run(f).ret
        w = exists_(dom, "b1", vf(getn(0, mk("at", al, b)), m))
        ctx.ob("move-predicate", r is not None and safe_equiv(r, w), ctx.at(f), "Move::%s does not ask whether any altered variable is marked: it returns %s" % (n, r), sample="Move::%s = %s" % (n, r))
    f = ctx.fn1("Variable::is_improvable", 0)
    r = ctx.run(f).ret
    ctx.ob("move-predicate", r is not None and safe_equiv(r, or_(vf(THIS, "m_is_objective_improvable"), vf(THIS, "m_is_feasibility_improvable"))), ctx.at(f), "Variable::is_improvable returns %s" % r)
    f = ctx.fn1("Move::related_variable_ptrs_vector", 0)
    E = ctx.run(f)
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back")]
    ok = False
    for e in ps:
        if e.loops and e.loops[-1] is dom and e.args and e.args[0] is getn(0, mk("at", al, mk("iv", len(e.loops) - 1))) and e.pc is TRUE:
            ok = True
    if not ps:
        ok = any(e.kind == "write" and e.t.op == "at" and e.loops and e.loops[-1] is dom and e.pc is TRUE and e.v is getn(0, mk("at", al, mk("iv", len(e.loops) - 1))) for e in E.effects)
        if not ok:
            raise Broken("how the altered variables are collected")
    ctx.ob("altered-variables", ok, ctx.at(f), "the altered variables of a move are not all collected")


def generators(ctx):
    """a move is flagged exactly when it is eligible and covered by what is accepted"""
    gens = ctx.fns("setup", pred=lambda f: f["n"].endswith("MoveGenerator::setup"))
    ctx.need(len(gens) >= 17, "move generators (%d)" % len(gens))
    for f in gens:
        ctx.section(generator, f)


def marks(cond, mv, alts):
    """name the two 'changes an improvable variable' questions about this move"""
    al = mk("fld", mv, AL)
    m = {}
    for x in subterms(cond):
        if x.op == "exists":
            for n, s in (("m_is_objective_improvable", HO), ("m_is_feasibility_improvable", HF)):
                if x.a[0] is mk("idx", ZERO, size_of(al)) and x.a[-1].op == "fld" and x.a[-1].a[1].endswith("::" + n):
                    m[x] = s
        if x.op == "fld" and len(alts) == 1 and x.a[0] is alts[0][0]:
            for n, s in (("m_is_objective_improvable", HO), ("m_is_feasibility_improvable", HF)):
                if x.a[1].endswith("::" + n):
                    m[x] = s
    c = subst(cond, m)
    # single alterations asked about one by one
    hyp = []
    for n, s in (("m_is_objective_improvable", HO), ("m_is_feasibility_improvable", HF)):
        got = {}
        for x in subterms(c):
            if x.op == "fld" and x.a[1].endswith("::" + n) and x.a[0].op == "get" and x.a[0].a[0] == 0 and x.a[0].a[1].op == "at" and x.a[0].a[1].a[0] is al and x.a[0].a[1].a[1].op == "n":
                got[x] = mk("sym", "%s-%s" % (s.a[0], x.a[0].a[1].a[1]))
        c = subst(c, got)
        if got:
            hyp.append(or_(not_(or_(*got.values())), s))
            if len(alts) == len(got) or (len(got) == 2 and not alts):
                hyp.append(or_(not_(s), *got.values()))
    return c, and_(*hyp)


def generator(ctx, f):
    g = f["n"].split("::")[-2]
    want = ("Move::has_fixed_variable", "Move::has_bound_violation", "Move::has_selection_variable", "Move::has_objective_improvable_variable", "Move::has_feasibility_improvable_variable", "Variable::is_improvable")
    pol = lambda h: True if any(suffix(h["n"], w) for w in want) else None
    E = ctx.run(f)
    up = [e for e in order(writes(E, "m_move_updater"))]
    ctx.need(up and all(e.v in E.lams for e in up), g + ": updater lambda")
    al = lambda mv: mk("fld", mv, AL)
    for u in up:
        L = run_stored_lambda(ctx, E, u.v, f["file"], policy=pol)
        fl = lambda t: t is mk("sym", "$1") or (t.op in ("mut", "call") and contains(t, lambda x: x is mk("sym", "$1")))
        conds = nonzero_conditions(L, fl)
        ctx.need(conds, g + ": availability flags")
        alts = setup_alterations(E)
        for s, (cond, e) in conds.items():
            at = ctx.at(f, e)
            mv = mk("at", mk("sym", "$0"), s)
            name = "%s slot %s" % (g, s)
            c, hyp = marks(cond, mv, alts.get(s, []))
            if contains(c, lambda x: x.op == "fld" and x.a[1].endswith("improvable")) :
                raise Broken("%s: how improvability is asked: %s" % (name, str(c)[:200]))
            cov = or_(A_, and_(O_, HO), and_(F_, HF))
            ask = or_(A_, O_, F_)
            ctx.ob("screened", safe_implies(and_(ask, c, hyp), cov), at, "%s: a move that the screening does not accept is kept" % name, sample="%s kept when %s" % (name, str(c)[:200]))
            elig = subst(c, {A_: TRUE})
            ctx.ob("not-hidden", safe_implies(and_(elig, cov, hyp), c), at, "%s: a move that changes an improvable variable is left out" % name)
            b = mk("iv", "b1")
            dom = mk("idx", ZERO, size_of(al(mv)))
            a0, a1 = getn(0, mk("at", al(mv), b)), getn(1, mk("at", al(mv), b))
            ex = lambda body: not_(exists_(dom, "b1", body))
            if g == "IntegerMoveGenerator":
                v = alts.get(s, [(None, None)])[0][0]
                ctx.need(v is not None, name + " variable")
                k = int(subst(s, {mk("iv", 0): ZERO}).a[0])
                val, lo, hi = vf(v, "m_value"), vf(v, "m_lower_bound"), vf(v, "m_upper_bound")
                w = {0: lt(val, hi), 1: lt(lo, val)}.get(k)
                if w is not None:
                    ctx.ob("eligible", safe_implies(w, elig), at, "%s: the unit step is left out although the bound is not reached" % name)
                continue
            if g == "BinaryMoveGenerator":
                ctx.ob("eligible", safe_implies(TRUE, elig), at, "%s: a flip is left out" % name)
                continue
            base = [mk("fld", mv, "printemps::neighborhood::Move::is_available"), ex(vf(a0, "m_is_fixed")), ex(eq(vf(a0, "m_value"), a1)),
                    ex(or_(lt(a1, vf(a0, "m_lower_bound")), lt(vf(a0, "m_upper_bound"), a1)))]
            if g == "SelectionMoveGenerator":
                base.append(not_(eq(getn(0, mk("at", al(mv), ZERO)), getn(0, mk("at", al(mv), num(1))))))
            if g in ("UserDefinedMoveGenerator", "TwoFlipMoveGenerator"):
                hs = ctx.fn1("Move::has_selection_variable", 0)
                base.append(not_(subst(ctx.run(hs).ret, {THIS: mv})))
            if g == "AggregationMoveGenerator" or g == "PrecedenceMoveGenerator" or True:
                ctx.ob("eligible", safe_implies(and_(*base), elig), at, "%s: a move that stays in bounds, changes no fixed variable and changes every value is left out when everything is accepted (%s)" % (name, str(elig)[:200]))


def left(E, loc):
    """value left in loc"""
    v = final_value(E, lambda t: t is loc)
    return loc if v is None else v


def margins(ctx):
    """the margin flags describe the value and bounds a variable is left with"""
    W = {"m_value", "m_lower_bound", "m_upper_bound"}
    fs = [f for f in ctx.P.fn.values() if f["n"].startswith("printemps::model_component::Variable::") and is_baseline(ctx.P, f)]
    n = 0
    for f in fs:
        E = ctx.run(f, inline=("Variable::update_margin",))
        ws = [e for e in E.effects if e.kind == "write" and e.t is not None and e.t.op == "fld" and e.t.a[0] is THIS and e.t.a[1].split("::")[-1] in W]
        if not ws or suffix(f["n"], "Variable::initialize") or f["n"].endswith("(ctor)") or f["n"].split("::")[-1] == "Variable":
            continue
        pc = or_(*[e.pc for e in ws])
        fv = {}
        for k in ("m_value", "m_lower_bound", "m_upper_bound", "m_has_lower_bound_margin", "m_has_upper_bound_margin"):
            fv[k] = left(E, vf(THIS, k))
        n += 1
        nm = short(f["n"])
        dep = suffix(f["n"], "Variable::update")
        for k, w in (("m_has_lower_bound_margin", lt(fv["m_lower_bound"], fv["m_value"])), ("m_has_upper_bound_margin", lt(fv["m_value"], fv["m_upper_bound"]))):
            if dep and fv[k] is vf(THIS, k):
                continue
            ctx.ob("margin", same_under(fv[k], w, pc), ctx.at(f), "%s leaves %s at %s although the value or a bound changes" % (nm, k, fv[k]), sample="%s: %s = %s" % (nm, k, fv[k]))
    ctx.need(n >= 6, "functions that change a variable's value or bounds (%d)" % n)


def objective_marks(ctx):
    fs = ctx.fns("Model::update_variable_objective_improvabilities")
    ctx.need(len(fs) == 2, "objective mark updates")
    for f in fs:
        if not f["p"]:
            E = ctx.run(f)
            cs = [e for e in E.effects if e.kind == "call" and callee(e) == "update_variable_objective_improvabilities"]
            if not cs:
                raise Broken("full objective mark update")
            ctx.ob("objective-all", any(e.pc is TRUE and whole_variables(e.args[0]) for e in cs), ctx.at(f), "the full update of the objective marks covers %s" % ", ".join(str(e.args[0]) for e in cs))
            continue
        E = ctx.run(f)
        p = mk("sym", "$0")
        ws = list(writes(E, "m_is_objective_improvable"))
        v = mk("at", p, mk("iv", 0))
        t = vf(v, "m_is_objective_improvable")
        ok = ws and all(e.loops == (mk("idx", ZERO, size_of(p)),) and e.t is t for e in ws)
        if not ok:
            raise Broken("objective marks per variable")
        r = left(E, t)
        c = mk("fld", mk("fld", v, "printemps::model_component::Variable::m_extension"), "printemps::model_component::VariableExtention::objective_sensitivity")
        if not contains(r if r is not None else ZERO, lambda x: x is c):
            cc = [x for x in subterms(r) if x.op == "fld" and x.a[1].endswith("objective_sensitivity")] if r is not None else []
            if not cc:
                raise Broken("objective sensitivity in the objective marks: %s" % r)
            c = cc[0]
        mn = mk("fld", THIS, MODEL + "m_is_minimization")
        for s, k in ((1, mn), (-1, not_(mn))):
            cs = mul(num(s), c)
            w = or_(and_(lt(ZERO, cs), vf(v, "m_has_lower_bound_margin")), and_(lt(cs, ZERO), vf(v, "m_has_upper_bound_margin")))
            ctx.ob("objective-mark", safe_implies(and_(k, strip_bool(r)), w) and safe_implies(and_(k, w), strip_bool(r)), ctx.at(f, ws[-1]), "when %s a variable is marked objective-improvable when %s" % ("minimising" if s == 1 else "maximising", under(r, k)), sample="marked when %s" % w)


def sensitivities(ctx):
    """the objective coefficients the marks use are the objective's own"""
    f = ctx.fn1("Model::setup_variable_objective_sensitivities", 0)
    E = ctx.run(f)
    ws = order(list(writes(E, "objective_sensitivity")))
    ctx.need(ws, "objective sensitivities")
    s = mk("fld", mk("fld", mk("fld", THIS, MODEL + "m_objective"), "printemps::model_component::Objective::m_expression"), EXP + "m_sensitivities")
    el = mk("at", s, mk("iv", 0))
    put = [e for e in ws if contains(e.t, lambda x: x is getn(0, el))]
    if not put:
        raise Broken("where the objective coefficients go")
    unfixed = not_(vf(getn(0, el), "m_is_fixed"))
    ctx.ob("objective-coefficient", all(e.v is getn(1, el) and e.loops == (mk("idx", ZERO, size_of(s)),) for e in put) and safe_implies(unfixed, or_(*[e.pc for e in put])), ctx.at(f, put[-1]), "a variable's objective coefficient is recorded as %s when %s" % (put[-1].v, put[-1].pc), sample="recorded as %s" % put[-1].v)
    zero = [e for e in ws if e not in put]
    ctx.ob("objective-coefficient", any(e.v is ZERO and e.pc is TRUE and len(e.loops) == 2 and e.seq < put[0].seq for e in zero), ctx.at(f), "coefficients of variables that are not in the objective are not cleared first")


def whole_variables(t):
    return has_field(t, "mutable_variable_ptrs") or has_field(t, "variable_ptrs")


def feasibility_marks(ctx):
    pol = ("set_is_feasibility_improvable_if_has_lower_bound_margin", "set_is_feasibility_improvable_if_has_upper_bound_margin", "set_is_feasibility_improvable_or")
    fs = [f for f in ctx.fns("Model::update_variable_feasibility_improvabilities")]
    ctx.need(len(fs) == 2, "feasibility mark updates")
    for f in fs:
        if not f["p"]:
            cs = [e for e in ctx.run(f).effects if e.kind == "call" and callee(e) == "update_variable_feasibility_improvabilities"]
            if not cs:
                raise Broken("full feasibility mark update")
            ctx.ob("feasibility-all", any(e.pc is TRUE and e.args and (has_field(e.args[0], "enabled_constraint_ptrs") or has_field(e.args[0], "constraint_ptrs") or has_field(e.args[0], "m_current_violative_constraint_ptrs")) for e in cs), ctx.at(f), "the full update of the feasibility marks covers %s" % ", ".join(str(e.args[0]) for e in cs if e.args))
            continue
        E = ctx.run(f, inline=pol)
        p = mk("sym", "$0")
        c = mk("at", p, mk("iv", 0))
        ws = list(writes(E, "m_is_feasibility_improvable"))
        ctx.need(ws, "feasibility marks")
        ex = mk("fld", c, CON + "m_expression")
        viol = mk("fld", c, CON + "m_violation_value")
        val = mk("fld", c, CON + "m_constraint_value")
        feas = ctx.run(ctx.fn1("Constraint::is_feasible", 0)).ret
        feas = subst(feas, {THIS: c})
        on = and_(mk("fld", c, CON + "m_is_enabled"), not_(feas))
        L0 = mk("idx", ZERO, size_of(p))
        for pos in (True, False):
            cont = mk("fld", ex, EXP + "m_%s_coefficient_mutable_variable_ptrs" % ("positive" if pos else "negative"))
            for up in (True, False):
                case = and_(on, lt(ZERO, val) if up else lt(val, ZERO))
                m = "m_has_lower_bound_margin" if pos == up else "m_has_upper_bound_margin"
                got = FALSE
                bad = None
                for e in ws:
                    if e.t.a[0].op != "at" or e.t.a[0].a[0] is not cont or len(e.loops) != 2 or e.loops[0] is not L0 or e.loops[1] is not mk("idx", ZERO, size_of(cont)):
                        if e.t.a[0].op != "at" or not contains(e.t.a[0].a[0], lambda x: x.op == "fld" and x.a[1].endswith("_coefficient_mutable_variable_ptrs")):
                            raise Broken("which variables are marked: %s" % e.t)
                        continue
                    var = e.t.a[0]
                    new = subst(e.v, {e.t: FALSE})
                    for x in list(subterms(new)):
                        if x.op in ("phi", "loopval", "lastval"):
                            raise Broken("accumulated mark")
                    got = or_(got, and_(e.pc, new))
                    keep = subst(e.v, {e.t: TRUE})
                    if not safe_implies(e.pc, keep):
                        bad = e
                inner = mk("at", cont, mk("iv", 1))
                want = vf(inner, m)
                ctx.ob("feasibility-mark", safe_implies(and_(case, want), got) and safe_implies(and_(case, got), want), ctx.at(f), "variables with a %s coefficient in a constraint violated %s are marked when %s" % ("positive" if pos else "negative", "above" if up else "below", under(got, case)), sample="%s coefficient, violated %s: marked when %s" % ("positive" if pos else "negative", "above" if up else "below", m))
                ctx.ob("mark-kept", bad is None, ctx.at(f), "a mark set because of one constraint is taken away because of another")
    # lists by sign
    f = ctx.fn1("Expression::setup_positive_and_negative_coefficient_mutable_variable_ptrs", 0)
    E = ctx.run(f)
    s = mk("fld", THIS, EXP + "m_sensitivities")
    el = mk("at", s, mk("iv", 0))
    for n, w in (("positive", lt(ZERO, getn(1, el))), ("negative", lt(getn(1, el), ZERO))):
        cont = mk("fld", THIS, EXP + "m_%s_coefficient_mutable_variable_ptrs" % n)
        cl = [e for e in E.effects if e.kind == "call" and callee(e) == "clear" and contains(e.t if e.t is not None else ZERO, lambda x: x is cont) or (e.kind == "write" and e.t is cont)]
        ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and e.t is not None and contains(e.t, lambda x: x is cont)]
        if not ps or not all(e.loops == (mk("idx", ZERO, size_of(s)),) and e.args[0] is getn(0, el) for e in ps):
            raise Broken("how the %s-coefficient list is filled" % n)
        got = or_(*[e.pc for e in ps])
        fx = vf(getn(0, el), "m_is_fixed")
        ctx.ob("sign-list", safe_implies(and_(w, not_(fx)), got), ctx.at(f), "an unfixed variable with a %s coefficient is missing from its list (kept when %s)" % (n, got), sample="%s list: %s" % (n, got))
        opp = lt(getn(1, el), ZERO) if n == "positive" else lt(ZERO, getn(1, el))
        ctx.ob("sign-list", safe_implies(got, and_(not_(fx), not_(opp))), ctx.at(f), "the %s-coefficient list takes a variable when %s" % (n, got))
        ctx.ob("sign-list", any(e.pc is TRUE and not e.loops for e in cl), ctx.at(f), "the %s-coefficient list is not emptied before it is filled" % n)


def resets(ctx):
    for nm, fld in (("objective", "m_is_objective_improvable"), ("feasibility", "m_is_feasibility_improvable")):
        for f in ctx.fns("Model::reset_variable_%s_improvabilities" % nm):
            E = ctx.run(f)
            if not f["p"]:
                cs = [e for e in E.effects if e.kind == "call" and callee(e) == "reset_variable_%s_improvabilities" % nm]
                if not cs:
                    raise Broken("full reset")
                ctx.ob("reset", any(e.pc is TRUE and whole_variables(e.args[0]) for e in cs), ctx.at(f), "the full reset of the %s marks covers %s" % (nm, cs[0].args[0]))
                continue
            ws = list(writes(E, fld))
            p = mk("sym", "$0")
            x = mk("at", p, mk("iv", 0))
            ok = False
            for e in ws:
                if e.v is not FALSE:
                    ctx.ob("reset", False, ctx.at(f, e), "a reset of the %s marks writes %s" % (nm, e.v))
                    continue
                if e.t.a[0] is x and e.loops == (mk("idx", ZERO, size_of(p)),) and e.pc is TRUE:
                    ok = True
                s = mk("fld", mk("fld", x, CON + "m_expression"), EXP + "m_sensitivities")
                if len(e.loops) == 2 and e.t.a[0] is getn(0, mk("at", s, mk("iv", 1))) and e.loops[1] is mk("idx", ZERO, size_of(s)) and e.loops[0] is mk("idx", ZERO, size_of(p)) and safe_implies(mk("fld", x, CON + "m_is_enabled"), e.pc):
                    ok = True
            if not ws:
                raise Broken("reset of the %s marks" % nm)
            ctx.ob("reset", ok, ctx.at(f), "a reset of the %s marks does not reach every variable given" % nm, sample="%s reset" % nm)


def cores(ctx):
    for k in ("TabuSearchCore", "LocalSearchCore"):
        ctx.section(core, k)
    ctx.section(start, "TabuSearchCore")


def start(ctx, k):
    """no mark of an earlier search survives into this one"""
    f = ctx.fn1(k + "::run", 0)
    E = ctx.run(f, inline=(k + "::preprocess",))
    # the objective marks of all variables are set in the first iteration; feasibility marks may be set for a part of the constraints
    for q in ("feasibility",):
        rs = [e for e in E.effects if e.kind == "call" and callee(e) == "reset_variable_%s_improvabilities" % q and not e.loops and e.pc is TRUE and (not e.args or whole_variables(e.args[0]))]
        ctx.ob("cleared-at-start", bool(rs), ctx.at(f), "%s: the %s marks of an earlier search are not cleared when the search starts" % (k, q), sample="%s clears the %s marks" % (k, q))


def core(ctx, k):
    """case by case: what is marked and what is asked for when the moves are refreshed"""
    f = ctx.fn1(k + "::update_moves")
    E = ctx.run(f)
    ups = [e for e in E.effects if e.kind == "call" and callee(e) == "update_moves"]
    ctx.need(ups, k + ": refreshing the moves")
    marks = [e for e in order(E.effects) if e.kind == "call" and re.match(r"(reset|update)_variable_(objective|feasibility)_improvabilities$", callee(e))]
    allt = [e.pc for e in ups + marks] + [a for e in ups for a in e.args]
    mode = {x for t in allt for x in subterms(t) if x.op == "fld" and x.a[1].endswith("::improvability_screening_mode")}
    it = {x for t in allt for x in subterms(t) if x.op == "fld" and x.a[1].endswith("State::iteration")}
    fe = {x for t in allt for x in subterms(t) if x.op == "fld" and x.a[1] == MODEL + "m_current_is_feasible"}
    pf = {x for t in allt for x in subterms(t) if x.op == "fld" and x.a[1] == MODEL + "m_previous_is_feasible"}
    ctx.need(len(it) == 1 and len(fe) == 1 and len(mode) <= 1 and len(pf) <= 1, k + ": what the refresh depends on")
    it, fe = it.pop(), fe.pop()
    modes = ["Off", "Soft", "Aggressive", "Intensive"] if mode else ["-"]
    if k == "TabuSearchCore":
        ctx.need(mode, "screening mode")
    mode = mode.pop() if mode else None
    pf = pf.pop() if pf else None
    for m in modes:
        for feas in (True, False):
            for zero in (True, False):
                for prev in (True, False):
                    case = [fe if feas else not_(fe), eq(it, ZERO) if zero else lt(ZERO, it)]
                    if mode is not None:
                        for q in ("Off", "Soft", "Aggressive", "Intensive"):
                            c = eq(mode, mk("enum", MODE + q))
                            case.append(c if q == m else not_(c))
                    if pf is not None:
                        case.append(pf if prev else not_(pf))
                    one(ctx, f, E, k, m, feas, zero, prev, and_(*case), ups, marks)


def active(e, case):
    if not safe_sat(and_(e.pc, case)):
        return False
    if not safe_implies(case, e.pc):
        raise Broken("whether %s happens depends on more than mode, feasibility and iteration: %s" % (callee(e), under(e.pc, case)))
    return True


def one(ctx, f, E, k, m, feas, zero, prev, case, ups, marks):
    nm = "%s, screening %s, %s, %s iteration" % (k, m, "feasible" if feas else "infeasible", "first" if zero else "later")
    u = [e for e in ups if active(e, case)]
    ctx.ob("refreshed", len(u) == 1, ctx.at(f), "%s: the moves are refreshed %d times" % (nm, len(u)))
    if len(u) != 1:
        return
    u = u[0]
    a, o, s = [TRUE if safe_implies(case, x) else FALSE if safe_implies(case, not_(x)) else x for x in u.args[:3]]
    if any(x not in (TRUE, FALSE) for x in (a, o, s)):
        raise Broken("%s: accepted moves (%s, %s, %s)" % (nm, a, o, s))
    a, o, s = a is TRUE, o is TRUE, s is TRUE
    if m == "Off":
        ctx.ob("accepted", a, ctx.at(f, u), "%s: not every move is accepted" % nm)
        return
    if feas:
        ctx.ob("accepted", a or o, ctx.at(f, u), "%s: moves that improve the objective are not accepted" % nm, sample="%s accepts all=%s objective=%s feasibility=%s" % (nm, a, o, s))
        ctx.ob("accepted", not a, ctx.at(f, u), "%s: screening is on but every move is accepted" % nm)
    else:
        ctx.ob("accepted", a or s, ctx.at(f, u), "%s: moves that reduce violation are not accepted" % nm)
        ctx.ob("accepted", not a and (o or m != "Soft"), ctx.at(f, u), "%s: accepts all=%s, objective-improvable=%s" % (nm, a, o))
    M = [e for e in marks if e.seq < u.seq and active(e, case)]
    late = [e for e in marks if e.seq > u.seq and active(e, case)]
    ctx.ob("marked-before", not [e for e in late if callee(e).startswith("reset")], ctx.at(f, u), "%s: marks are reset after the moves were refreshed" % nm)
    uo = [e for e in M if callee(e) == "update_variable_objective_improvabilities"]
    ro = [e for e in M if callee(e) == "reset_variable_objective_improvabilities"]
    okf = lambda e: (not e.args) or whole_variables(e.args[0])
    oka = lambda e: okf(e) or contains(e.args[0], lambda x: x.op == "call" and x.a[0].endswith("related_variable_ptrs_vector") and has_field(x.a[1], "current_move"))
    good = [e for e in uo if (okf(e) if zero or any(okf(r) and r.seq < e.seq for r in ro) else oka(e))]
    good = [e for e in good if not [r for r in ro if r.seq > e.seq]]
    ctx.ob("objective-fresh", bool(good), ctx.at(f, u), "%s: the objective marks of %s are not updated before the moves are screened" % (nm, "all variables" if zero else "the variables just changed"))
    if not s:
        return
    uf = [e for e in M if callee(e) == "update_variable_feasibility_improvabilities"]
    rf = [e for e in M if callee(e) == "reset_variable_feasibility_improvabilities"]
    whole = lambda e: (not e.args) or has_field(e.args[0], "m_current_violative_constraint_ptrs") or has_field(e.args[0], "enabled_constraint_ptrs") or has_field(e.args[0], "constraint_ptrs")
    rel = lambda e: whole(e) or (has_field(e.args[0], "related_constraint_ptrs") and has_field(e.args[0], "current_move"))
    need = rel if m == "Intensive" and not zero else whole
    good = [e for e in uf if need(e) and not [r for r in rf if r.seq > e.seq]]
    ctx.ob("feasibility-fresh", bool(good), ctx.at(f, u), "%s: the feasibility marks are not set from %s before the moves are screened" % (nm, "the constraints just changed" if need is rel else "every violated constraint"))
    full = [r for r in rf if not r.args or whole_variables(r.args[0])]
    part = [r for r in rf if r.args and has_field(r.args[0], "related_constraint_ptrs") and has_field(r.args[0], "current_move")]
    okr = full or (part and not zero and m in ("Aggressive", "Intensive") and not (m == "Aggressive" and prev))
    ctx.ob("feasibility-reset", bool(okr) and all(r.seq < g.seq for g in good[:1] for r in (full or part)[:1]), ctx.at(f, u), "%s: marks of earlier iterations are not cleared before they are set" % nm)


def specials(ctx):
    """a special-neighborhood move that improves neither objective nor feasibility is put behind all others, no other move is"""
    f = ctx.fn1("TabuSearchCore::run")
    E = ctx.run(f)
    L100 = [e for e in E.effects if e.kind in ("write", "lwrite") and e.v is not None and e.loops and contains(e.v, lambda x: x.op in ("n", "poly") and poly_of(x).get((), 0) >= 10 ** 99)]
    L = [e for e in L100]
    if not L:
        raise Broken("the large value that puts special moves last")
    n = 0
    for e in L:
        mvs = {x for x in subterms(e.pc) if x.op == "fld" and x.a[1].endswith("Move::is_special_neighborhood_move")}
        sc = {x for x in subterms(e.pc) if x.op == "fld" and x.a[1].endswith("SolutionScore::is_objective_improvable")}
        sf = {x for x in subterms(e.pc) if x.op == "fld" and x.a[1].endswith("SolutionScore::is_feasibility_improvable")}
        if len(mvs) != 1 or len(sc) != 1 or len(sf) != 1:
            continue
        n += 1
        mv, so, sf = mvs.pop(), sc.pop(), sf.pop()
        ctx.ob("special-last", safe_implies(e.pc, and_(mv, not_(so), not_(sf))), ctx.at(f, e), "a move is put last although it is not special or improves something: %s" % e.pc)
    if not n:
        raise Broken("the condition that puts special moves last")


def improvement(ctx):
    """a score says 'improves feasibility' when the violation of some constraint shrinks"""
    for n in ("Model::evaluate", "Model::evaluate_multi", "Model::evaluate_single", "Model::evaluate_selection"):
        ctx.section(improves, n)


def improves(ctx, n):
    fs = [f for f in ctx.fns(n) if f["p"] and f["p"][0]["t"].endswith("SolutionScore*")]
    ctx.need(len(fs) == 1, n)
    f = fs[0]
    E = ctx.run(f)
    t = [e for e in writes(E, "is_feasibility_improvable")]
    ctx.need(t, n + ": feasibility improvability")
    v = order(t)[-1].v
    if v is TRUE:
        ctx.ob("improves", True, ctx.at(f), "", sample="%s: always" % n)
        return
    ctx.ob("improves", v is not FALSE, ctx.at(f), "%s never reports that a move improves feasibility" % n)
    if n.endswith("selection"):
        return
    body = v
    while body.op == "loopval":
        body = body.a[3]
    if body.op == "exists":
        body = body.a[-1]
    body = subst(body, {x: FALSE for x in subterms(body) if x.op == "phi"})
    cs = {x for x in subterms(body) if x.op == "fld" and x.a[1] == CON + "m_is_enabled"}
    if len(cs) != 1:
        raise Broken("%s: when feasibility improves" % n)
    c = cs.pop().a[0]
    F = lambda k: mk("fld", c, CON + k)
    ev = {x for x in subterms(body) if x.op == "call" and x.a[0].endswith("evaluate")}
    ctx.need(len(ev) == 1, n + ": the constraint's value after the move")
    ev = ev.pop()
    le_, ge_ = F("m_is_less_or_equal"), F("m_is_greater_or_equal")
    tol = div(num(1), num(100000))
    small = {x: FALSE for x in subterms(body) if x.op == "lt0" and contains(x, lambda y: y.op == "abs")}
    body = subst(body, small)
    for side, case, new, old in (("above", and_(le_, not_(ge_)), mk("max", (ZERO, ev)), F("m_positive_part")), ("below", and_(ge_, not_(le_)), mk("max", (ZERO, neg(ev))), F("m_negative_part"))):
        got = under(subst(body, {le_: TRUE if side == "above" else FALSE, ge_: FALSE if side == "above" else TRUE, F("m_is_enabled"): TRUE}), TRUE)
        got = subst(got, {x: x.a[0] for x in subterms(got) if x.op == "ite" and x.a[1] is num(1) and x.a[2] is ZERO})
        atoms = [x for x in subterms(got) if x.op == "lt0"]
        if len(atoms) != 1:
            raise Broken("%s: when feasibility improves on the side %s" % (n, side))
        pl = poly_of(atoms[0].a[0])
        olds = [(m, k) for m, k in pl.items() if m == (old,)]
        evs = [(m, k) for m, k in pl.items() if len(m) == 1 and m[0] is not old and contains(m[0], lambda x: x is ev)]
        ok = safe_sat(got) and not safe_implies(TRUE, got) and len(pl) == 3 and olds and evs and olds[0][1] < 0 and evs[0][1] > 0 and 0 <= pl.get((), 0) and (got is atoms[0] or safe_equiv(got, atoms[0]))
        mx = evs[0][0][0] if evs else None
        if ok and mx.op == "max":
            ar = mx.a[0] if isinstance(mx.a[0], tuple) else mx.a
            ok = any(x is (ev if side == "above" else neg(ev)) for x in ar)
        ctx.ob("improves", bool(ok), ctx.at(f), "%s: a constraint violated %s counts as improved when %s" % (n, side, got), sample="%s: improved %s when %s" % (n, side, got))
        off = subst(body, {F("m_is_enabled"): FALSE})
        ctx.ob("improves", not safe_sat(off), ctx.at(f), "%s: a disabled constraint counts as improved" % n)


def setup(ctx):
    f = ctx.fn1("Model::setup", 2)
    E = ctx.run(f)
    cs = order([e for e in E.effects if e.kind == "call"])
    lists = [e for e in cs if callee(e) == "setup_positive_and_negative_coefficient_mutable_variable_ptrs"]
    ctx.ob("lists-built", any(e.pc is TRUE and not e.loops for e in lists), ctx.at(f), "the sign lists the screening uses are not built when the model is set up")
    last = [e for e in cs if callee(e) in ("eliminate", "extract")]
    if last and lists:
        ctx.ob("lists-built", max(e.seq for e in lists) > max(e.seq for e in last), ctx.at(f), "the sign lists are built before the constraints get their final expressions")
    g = ctx.fn1("Model::setup_positive_and_negative_coefficient_mutable_variable_ptrs", 0)
    G = ctx.run(g)
    ps = mk("fld", THIS, MODEL + "m_constraint_proxies")
    ok = [e for e in G.effects if e.kind == "call" and callee(e) == "setup_positive_and_negative_coefficient_mutable_variable_ptrs" and e.pc is TRUE and len(e.loops) == 2 and e.loops[0] is mk("idx", ZERO, size_of(ps)) and contains(e.t, lambda x: x.op == "fld" and x.a[1].endswith("m_expression"))]
    ctx.ob("lists-built", bool(ok), ctx.at(g), "the sign lists are not built for every constraint")


def run(ctx):
    ctx.rule("the condition under which each move generator flags a move, the writes of the improvability marks and margins with their guards, and, for every screening mode, feasibility and iteration case, the sequence of mark updates before the moves are refreshed")
    ctx.section(predicates)
    ctx.section(generators)
    ctx.section(margins)
    ctx.section(objective_marks)
    ctx.section(sensitivities)
    ctx.section(feasibility_marks)
    ctx.section(resets)
    ctx.section(cores)
    ctx.section(specials)
    ctx.section(improvement)
    ctx.section(setup)
