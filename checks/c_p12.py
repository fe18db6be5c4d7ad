"""P12: violation and feasibility follow the sense."""
from common import *

CON = "printemps::model_component::Constraint::"
EXP = "printemps::model_component::Expression::"
SENSE = "printemps::model_component::ConstraintSense::"
MOD = "printemps::model::Model::"
TOL = num(Fraction(1, 100000))


def C(n, b=THIS):
    return mk("fld", b, CON + n)


def last_under(E, loc, pc):
    """value of loc after E when pc holds (None: undetermined)"""
    v = None
    for e in order(writes(E)):
        if e.t is loc and not e.loops:
            if safe_implies(pc, e.pc):
                v = e.v
            elif safe_sat(and_(pc, e.pc)):
                if e.v is v:
                    continue
                return None
    return v


def sense_is(s, t=None):
    return eq(t if t is not None else C("m_sense"), mk("enum", SENSE + s))


def constraint(ctx):
    f = ctx.fn1("Constraint::setup", 2)
    E = ctx.run(f)
    for s, (l, g) in {"Less": (TRUE, FALSE), "Equal": (TRUE, TRUE), "Greater": (FALSE, TRUE)}.items():
        pc = sense_is(s, mk("sym", "$1"))
        for n, w in (("m_is_less_or_equal", l), ("m_is_greater_or_equal", g)):
            v = last_under(E, C(n), pc)
            ctx.ob("sense-flags", v is not None and resolve(v, pc) is w, ctx.at(f), "constraint of sense %s gets %s = %s" % (s, n, v))
    ctx.ob("setup-stores", last_under(E, C("m_expression"), TRUE) is mk("sym", "$0") and last_under(E, C("m_sense"), TRUE) is mk("sym", "$1") and last_under(E, C("m_is_enabled"), TRUE) is TRUE, ctx.at(f),
           "Constraint::setup does not take over its expression, sense and enabled state")
    # sense flags are written nowhere else
    for g in ctx.P.fn.values():
        if g.get("cls") == CON[:-2] and is_baseline(ctx.P, g) and not g.get("dflt"):
            n = g["n"].split("::")[-1]
            if n in ("setup", "initialize", "(ctor)"):
                continue
            Eg = ctx.run(g)
            for e in writes(Eg):
                if e.t.op == "fld" and e.t.a[0] is THIS and fname(e.t) in ("m_sense", "m_is_less_or_equal", "m_is_greater_or_equal"):
                    ctx.ob("sense-stable", False, ctx.at(g, e), "%s changes %s" % (short(g["n"]), fname(e.t)))
                if fname(e.t) == "m_is_enabled" and e.t.a[0] is THIS:
                    ctx.ob("enabled-writers", n in ("enable", "disable") and e.v is (TRUE if n == "enable" else FALSE), ctx.at(g, e), "%s sets the enabled flag to %s" % (short(g["n"]), e.v))
    for n in ("enable", "disable"):
        g = ctx.fn1("Constraint::" + n, 0)
        Eg = ctx.run(g)
        ws = [e for e in writes(Eg, "m_is_enabled") if e.pc is TRUE]
        ctx.ob("enabled-writers", len(ws) >= 1 and ws[-1].v is (TRUE if n == "enable" else FALSE), ctx.at(g), "%s does not set the enabled flag" % short(g["n"]))
    ex = C("m_expression")
    for f in ctx.fns("Constraint::update", min=2):
        mv = len(f["p"]) == 1
        tag = "update(move)" if mv else "update()"
        E = ctx.run(f)
        cv = last_under(E, C("m_constraint_value"), or_(*[sense_is(s) for s in ("Less", "Equal", "Greater")]))
        ev = [e for e in calls(E, EXP + "evaluate") if e.t is ex]
        wv = [e for e in writes(E) if e.t is mk("fld", ex, EXP + "m_value")]
        if mv:
            ok = cv is not None and cv.op == "call" and cv.a[0].endswith("Expression::evaluate") and cv.a[1] is ex and cv.a[2] == (mk("sym", "$0"),)
            last_read = max([e.seq for e in ev] or [0])
            ok2 = len(wv) == 1 and wv[0].seq > last_read and wv[0].v is cv
            ctx.ob("value-of-move", ok, ctx.at(f), "%s: the constraint value is %s, not the expression evaluated for the move" % (tag, cv))
            ctx.ob("expression-follows", ok2, ctx.at(f), "%s: the expression is not advanced to the value used for the constraint exactly once" % tag)
        else:
            ok = cv is not None and cv.op == "call" and cv.a[0].endswith("Expression::evaluate") and cv.a[1] is ex and (not cv.a[2] or (len(cv.a[2]) == 1 and cv.a[2][0].op == "ctor"))
            full = [e for e in wv if e.v.op == "call" and e.v.a[0].endswith("Expression::evaluate") and not e.v.a[2]]
            ctx.ob("value-full", ok and bool(full) and all(e.seq > full[0].seq for e in ev if e.args), ctx.at(f), "%s: the constraint value is not computed from a full evaluation of the expression" % tag)
        if cv is None:
            continue
        pos, ng = mm("max", cv, ZERO), mm("max", neg(cv), ZERO)
        want = {"Less": (pos, ng), "Equal": (add(pos, ng), ZERO), "Greater": (ng, pos)}
        for s, (viol, marg) in want.items():
            pc = sense_is(s)
            for n, w in (("m_positive_part", pos), ("m_negative_part", ng), ("m_violation_value", viol), ("m_margin_value", marg)):
                v = last_under(E, C(n), pc)
                ctx.ob("by-sense", v is not None and same_under(v, w, pc), ctx.at(f), "%s, sense %s: %s becomes %s" % (tag, s, n[2:], v), sample="%s %s %s := %s" % (tag, s, n, v))
            # a margin may only hide a constraint that no single flip can violate
            hm = [e for e in order(writes(E, "m_has_margin")) if e.t.a[0] is THIS and safe_sat(and_(pc, e.pc))]
            ok = bool(hm) and safe_implies(pc, hm[-1].pc)
            if ok:
                b = strip_bool(hm[-1].v)
                b = under(b, pc)
                ok = implies_split(and_(pc, b), and_(C("m_has_only_binary_variable"), le(sub(C("m_max_abs_coefficient"), num(Fraction(1, 10 ** 9))), marg)))
            ctx.ob("margin-sound", ok, ctx.at(f), "%s, sense %s: the constraint can be treated as having a margin although a single flip may violate it" % (tag, s))
    for n, w in (("constraint_value", "m_constraint_value"), ("violation_value", "m_violation_value"), ("margin_value", "m_margin_value"), ("positive_part", "m_positive_part"),
                 ("negative_part", "m_negative_part"), ("is_enabled", "m_is_enabled"), ("is_less_or_equal", "m_is_less_or_equal"), ("is_greater_or_equal", "m_is_greater_or_equal"),
                 ("has_margin", "m_has_margin"), ("sense", "m_sense")):
        for g in ctx.fns("Constraint::" + n, 0):
            ctx.ob("accessor", ctx.run(g).ret is C(w), ctx.at(g), "Constraint::%s returns another quantity" % n)
    g = ctx.fn1("Constraint::is_evaluation_ignorable", 0)
    r = ctx.run(g).ret
    ctx.ob("ignorable", r is not None and safe_implies(r, or_(not_(C("m_is_enabled")), C("m_has_margin"))), ctx.at(g), "an enabled constraint without margin can be ignored in evaluation")
    g = ctx.fn1("Constraint::is_feasible", 0) if ctx.P.find("Constraint::is_feasible", 0) else None
    if g:
        r = ctx.run(g).ret
        ctx.ob("constraint-feasible", r is not None and safe_implies(r, le(C("m_violation_value"), TOL)) and safe_implies(lt(C("m_violation_value"), TOL), r), ctx.at(g), "Constraint::is_feasible is %s" % r)


def attributes(ctx):
    """the flags the margin shortcut relies on are derived from the current expression"""
    for name, ar in (("Constraint::setup", 2), ("Constraint::setup_constraint_type", 0)):
        f = ctx.fn1(name, ar)
        E = ctx.run(f)
        ws = order(writes(E, "m_has_only_binary_variable"))
        t = [e for e in ws if e.v is TRUE]
        fl = [e for e in ws if e.v is FALSE and e.loops]
        ok = bool(t) and t[0].pc is TRUE and bool(fl)
        if ok:
            e = fl[-1]
            sens = mk("fld", C("m_expression"), EXP + "m_sensitivities") if name != "Constraint::setup" else None
            d = len(e.loops) - 1
            vt = [x for x in subterms(e.pc) if fname(x) == "sense"]
            ok = bool(vt) and has_field(e.loops[d], "m_sensitivities")
            if ok:
                V = "printemps::model_component::VariableSense::"
                sset = vt[0]
                for s in ENUMS.get("printemps::model_component::VariableSense", ()):
                    if s not in (V + "Binary", V + "Selection"):
                        ok = ok and safe_implies(eq(sset, mk("enum", s)), e.pc)
                ok = ok and e.seq > t[0].seq
        ctx.ob("binary-flag", ok, ctx.at(f), "%s does not derive 'only binary variables' from all current variables" % short(f["n"]))
        ws = order(writes(E, "m_max_abs_coefficient"))
        acc = [e for e in ws if e.loops]
        ini = [e for e in ws if not e.loops]
        ok = False
        if acc:
            e = acc[-1]
            d = len(e.loops) - 1
            ok = has_field(e.loops[d], "m_sensitivities") and e.pc is TRUE and e.v.op == "max" and any(x.op == "abs" and x.a[0].op == "get" for x in e.v.a[0]) and bool(ini) and ini[0].v is ZERO
        elif ini:
            ok = contains(ini[-1].v, lambda x: x.op == "maxover" and has_field(x.a[0], "m_sensitivities") and x.a[2].op == "abs")
        ctx.ob("max-coefficient", ok, ctx.at(f), "%s does not derive the largest coefficient from all current coefficients" % short(f["n"]))


def strip_bool(v):
    """boolean reading of v when it was computed with the bitwise operators"""
    if v.op == "not":
        return not_(strip_bool(v.a[0]))
    if v.op in ("eq0", "eq") and len(v.a) == 1 and v.a[0].op == "poly":
        return v
    if v.op == "eq0" and v.a[0].op in ("op&", "op|", "op"):
        return not_(strip_bool(v.a[0]))
    if v.op == "op&" or (v.op == "op" and v.a[0] == "&"):
        return and_(*[strip_bool(x) for x in v.a if isinstance(x, T)])
    if v.op == "op|" or (v.op == "op" and v.a[0] == "|"):
        return or_(*[strip_bool(x) for x in v.a if isinstance(x, T)])
    if v.op == "ite":
        return or_(and_(strip_bool(v.a[0]), strip_bool(v.a[1])), and_(not_(strip_bool(v.a[0])), strip_bool(v.a[2])))
    if v.op == "n":
        return TRUE if v.a[0] != 0 else FALSE
    if v.op in ("eq0",):
        x = v.a[0]
        if contains(x, lambda y: y.op in ("op&", "op|")):
            return not_(strip_bool(x))
    return v


def expression(ctx):
    sens = mk("fld", THIS, EXP + "m_sensitivities")
    fs = {len(f["p"]): f for f in ctx.fns("Expression::evaluate", min=2)}
    E = ctx.run(fs[0])
    a = mk("at", sens, mk("iv", 0))
    want = add(mk("fld", THIS, EXP + "m_constant_value"), mk("sum", mk("idx", ZERO, size_of(sens)), 0, mul(getn(1, a), mk("fld", getn(0, a), "printemps::model_component::Variable::m_value"))))
    ctx.ob("expression-value", E.ret is want, ctx.at(fs[0]), "Expression::evaluate() is %s" % E.ret)
    E = ctx.run(fs[1])
    al = mk("fld", mk("sym", "$0"), "printemps::neighborhood::Move::alterations")
    at = mk("at", al, mk("iv", 0))
    r = E.ret
    ok = False
    if r is not None:
        d = sub(r, mk("fld", THIS, EXP + "m_value"))
        if d.op == "sum" and d.a[0] is mk("idx", ZERO, size_of(al)):
            body = d.a[2]
            cs = [x for x in subterms(body) if x.op == "call" and x.a[0].split("::")[-1] == "at" and has_field(x.a[1], "m_fixed_sensitivities") and x.a[2] == (getn(0, at),)]
            if cs:
                w = mul(cs[0], sub(getn(1, at), mk("fld", getn(0, at), "printemps::model_component::Variable::m_value")))
                ok = sub(body, w) is ZERO
    ctx.ob("expression-move", ok, ctx.at(fs[1]), "Expression::evaluate(move) is %s, not the current value plus every alteration's change times its coefficient" % r)
    for f in ctx.fns("Expression::update", min=2):
        E = ctx.run(f)
        ws = [e for e in writes(E) if fname(e.t) == "m_value" and e.t.a[0] is THIS]
        want = tuple(mk("sym", "$0") for _ in f["p"])
        ok = len(ws) == 1 and ws[0].pc is TRUE and ws[0].v.op == "call" and ws[0].v.a[0].endswith("Expression::evaluate") and ws[0].v.a[1] is THIS and ws[0].v.a[2] == want
        if not ok and len(ws) == 1 and ws[0].pc is TRUE:
            g = fs[len(f["p"])]
            ok = ws[0].v is ctx.run(g).ret
        ctx.ob("expression-update", ok, ctx.at(f), "%s stores %s" % (short(f["n"]), ws[0].v if ws else None))
    OBJ = "printemps::model_component::Objective::"
    for f in ctx.fns("Objective::update", min=2):
        E = ctx.run(f)
        ws = [e for e in writes(E) if e.t is mk("fld", THIS, OBJ + "m_value")]
        want = tuple(mk("sym", "$0") for _ in f["p"])
        we = [e for e in writes(E) if e.t is mk("fld", mk("fld", THIS, OBJ + "m_expression"), EXP + "m_value")]
        ok = len(ws) == 1 and ws[0].v.op == "call" and ws[0].v.a[0].endswith("Expression::evaluate") and ws[0].v.a[2] == want and len(we) == 1 and we[0].v is ws[0].v
        ctx.ob("objective-update", ok, ctx.at(f), "%s stores %s" % (short(f["n"]), ws[0].v if ws else None))


def elem_of(dom, field):
    return has_field(dom, field)


def model(ctx):
    f = ctx.fn1("Model::update", 0)
    E = ctx.run(f)
    cs = [e for e in calls(E, "Constraint::update") if not e.args]
    full = [e for e in cs if e.pc is TRUE and len(e.loops) == 2 and has_field(e.loops[0], "m_constraint_proxies") and has_field(e.t, "m_constraints")]
    full += [e for e in cs if e.pc is TRUE and len(e.loops) == 1 and has_field(e.loops[0], "constraint_ptrs")]
    ctx.ob("updates-all-constraints", bool(full), ctx.at(f), "Model::update() does not update every constraint")
    ob = [e for e in calls(E, "Objective::update") if not e.args]
    ctx.ob("updates-objective", bool(ob) and safe_implies(mk("fld", THIS, MOD + "m_is_defined_objective"), ob[0].pc), ctx.at(f), "Model::update() does not update a defined objective")
    fe = [e for e in calls(E, "Model::update_violative_constraint_ptrs_and_feasibility") if e.pc is TRUE]
    ctx.ob("refreshes-feasibility", bool(fe) and bool(full) and fe[-1].seq > full[-1].seq, ctx.at(f), "Model::update() does not refresh feasibility after the constraints")
    dep = [e for e in calls(E, "Variable::update")]
    dk = {k for e in dep for k in ("dependent_integer_variable_ptrs", "dependent_binary_variable_ptrs") if has_field(e.t, k) and e.pc is TRUE}
    exw = [e for e in writes(E, "m_value") if has_field(e.t, "m_expressions") or has_field(e.t, "m_expression_proxies")]
    ctx.ob("dependents-first", len(dk) == 2 and bool(full) and all(e.seq < full[0].seq for e in dep) and bool(exw) and all(x.seq < min(e.seq for e in dep) for x in exw), ctx.at(f),
           "Model::update() does not bring expressions, then dependent variables, then constraints up to date")
    f = ctx.fn1("Model::update", 1, pred=lambda f: f["p"][0]["t"].endswith("Move"))
    E = ctx.run(f)
    ud = mk("fld", mk("fld", mk("fld", THIS, MOD + "m_neighborhood"), "x"), "y")
    cs = [e for e in calls(E, "Constraint::update") if e.args and e.args[0] is mk("sym", "$0")]
    sv = [e for e in calls(E, "Variable::set_value_if_mutable")]
    rel = [e for e in cs if has_field(e.t, "related_constraint_ptrs")]
    alls = [e for e in cs if has_field(e.t, "m_constraints") or has_field(e.t, "enabled_constraint_ptrs") or has_field(e.t, "constraint_ptrs")]
    en = [x for e in cs for x in subterms(e.pc) if fname(x) == "m_is_enabled" and has_field(x, "m_user_defined")]
    cov = FALSE
    for e in rel:
        cov = or_(cov, and_(e.pc, not_(en[0]) if en else TRUE))
    for e in alls:
        c = C("m_is_enabled", e.t)
        cov = or_(cov, FALSE if not safe_implies(c, or_(e.pc, not_(c))) and not en else (en[0] if en and safe_implies(and_(c, en[0]), e.pc) else (TRUE if safe_implies(c, e.pc) else FALSE)))
    ctx.ob("move-updates-constraints", safe_implies(TRUE, cov), ctx.at(f), "Model::update(move): enabled constraints related to the move are not updated under %s" % not_(cov))
    ob = [e for e in calls(E, "Objective::update") if e.args]
    ctx.ob("move-updates-objective", bool(ob) and safe_implies(mk("fld", THIS, MOD + "m_is_defined_objective"), ob[0].pc), ctx.at(f), "Model::update(move) does not update a defined objective")
    ctx.ob("values-last", bool(sv) and all(e.seq < sv[0].seq for e in cs + ob), ctx.at(f), "Model::update(move) changes variables before the incremental updates that need their old values")
    fe = [e for e in calls(E, "Model::update_violative_constraint_ptrs_and_feasibility") if e.pc is TRUE]
    ctx.ob("refreshes-feasibility", bool(fe) and fe[-1].seq > max(e.seq for e in cs + sv), ctx.at(f), "Model::update(move) does not refresh feasibility after the constraints")
    # feasibility
    f = ctx.fn1("Model::update_violative_constraint_ptrs_and_feasibility", 0)
    E = ctx.run(f)
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and fname(e.t) == "m_current_violative_constraint_ptrs"]
    cl = [e for e in E.effects if e.kind == "call" and callee(e) == "clear" and fname(e.t) == "m_current_violative_constraint_ptrs"]
    ok = len(ps) >= 1 and bool(cl) and cl[0].pc is TRUE and cl[0].seq < ps[0].seq
    if ok:
        cov = FALSE
        for e in ps:
            c = e.args[0]
            v = C("m_violation_value", c)
            allc = has_field(c, "enabled_constraint_ptrs")
            base = TRUE if allc else C("m_is_enabled", c)
            ok = ok and safe_implies(e.pc, base) and safe_implies(e.pc, le(TOL, v)) and safe_implies(and_(base, lt(TOL, v)), e.pc)
            ok = ok and (allc or has_field(c, "constraint_ptrs") or has_field(c, "m_constraints"))
    ctx.ob("violative-list", ok, ctx.at(f), "the list of violated constraints is not the enabled constraints whose violation exceeds the tolerance")
    ws = [e for e in order(writes(E, "m_current_is_feasible"))]
    ok = bool(ws)
    if ok:
        cur = [e for e in ws if e.pc is TRUE and not e.loops]
        ok = bool(cur) and cur[-1] is ws[-1]
        if ok:
            v = cur[-1].v
            empty = eq(size_of(mk("fld", THIS, MOD + "m_current_violative_constraint_ptrs")), ZERO)
            ok = safe_equiv(v, empty) or (v.op in ("not", "and") and contains(v, lambda x: x.op == "exists" and has_field(x, "m_violation_value")))
            ok = ok and cur[-1].seq > max(e.seq for e in ps) if ps else False
    ctx.ob("feasible-flag", ok, ctx.at(f), "the feasibility flag is %s, not 'no violated constraint'" % (ws[-1].v if ws else None))
    for n, w in (("is_feasible", "m_current_is_feasible"), ("previous_is_feasible", "m_previous_is_feasible"), ("current_violative_constraint_ptrs", "m_current_violative_constraint_ptrs")):
        for g in ctx.fns("Model::" + n, 0):
            ctx.ob("accessor", ctx.run(g).ret is mk("fld", THIS, MOD + w), ctx.at(g), "Model::%s returns another quantity" % n)
    for n, w in (("m_previous_is_feasible", "m_current_is_feasible"), ("m_previous_violative_constraint_ptrs", "m_current_violative_constraint_ptrs")):
        pw = [e for e in writes(E, n)]
        ctx.ob("previous-state", len(pw) == 1 and pw[0].v is mk("fld", THIS, MOD + w), ctx.at(f), "%s is not the state before the update" % n)
    f = ctx.fn1("Model::categorize_constraints", 0)
    E = ctx.run(f)
    n = 0
    for e in E.effects:
        if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and fname(e.t) in ("enabled_constraint_ptrs", "disabled_constraint_ptrs", "constraint_ptrs"):
            c = C("m_is_enabled", e.args[0])
            w = {"enabled_constraint_ptrs": c, "disabled_constraint_ptrs": not_(c), "constraint_ptrs": TRUE}[fname(e.t)]
            ctx.ob("enabled-lists", safe_equiv(e.pc, w), ctx.at(f, e), "%s receives constraints under %s" % (fname(e.t), e.pc))
            n += 1
    ctx.need(n >= 3, "enabled/disabled constraint lists")


def run(ctx):
    ctx.rule("per constraint sense, the value stored by Constraint::update (both forms) as violation/positive/negative/margin equals the specified function of the constraint value for every sign; "
             "Model::update (both forms) reaches every enabled constraint before refreshing feasibility; the violated list is exactly the enabled constraints beyond tolerance")
    for s in (constraint, attributes, expression, model):
        ctx.section(s)
    if not ctx.undecided:
        ctx.atleast("by-sense", 24)
