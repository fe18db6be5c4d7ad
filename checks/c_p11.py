"""P11: every move evaluator scores a move by the same rules."""
from common import *

CON = "printemps::model_component::Constraint::"
VAR = "printemps::model_component::Variable::"
EXT = "printemps::model_component::VariableExtention::"
MOD = "printemps::model::Model::"
SC = "printemps::solution::SolutionScore::"
MV = "printemps::neighborhood::Move::"
TOL = num(Fraction(1, 100000))
TINY = num(Fraction(1, 10 ** 10))
MOVE, SCORE, CUR = mk("sym", "$1"), mk("sym", "$0"), mk("sym", "$2")


def F(b, n, c):
    return mk("fld", b, c + n)


def fields(E):
    """final value of every score field"""
    out = {}
    for e in order(writes(E)):
        if e.t.op == "fld" and e.t.a[0] is SCORE:
            n = fname(e.t)
            out[n] = e.v if e.pc is TRUE else ite(e.pc, e.v, out.get(n, e.t))
    return out


def parts(t):
    """t as (list of sum terms with coefficient, rest)"""
    if t.op == "sum":
        return [(1, t)], ZERO
    sums, rest = [], t
    for x in subterms(t):
        if x.op == "sum":
            pass
    if t.op == "poly":
        for k, c in t.a[0]:
            if len(k) == 1 and k[0].op == "sum":
                sums.append((c, k[0]))
    for c, s in sums:
        rest = sub(rest, mul(num(c), s))
    return sums, rest


def unroll(s):
    """nested sum -> (list of (domain, index), body)"""
    doms = []
    while s.op == "sum":
        doms.append((s.a[0], s.a[1]))
        s = s.a[2]
    return doms, s


def find_constraint(body):
    c = []
    for x in subterms(body):
        if x.op == "fld" and x.a[1].startswith(CON):
            if x.a[0] not in c:
                c.append(x.a[0])
    return c


def per_constraint(ctx, f, name, doms, tv, lp, incremental, case):
    """the per-constraint contributions to total violation and local penalty"""
    cs = [c for c in find_constraint(tv) + find_constraint(lp)]
    cs = list(dict.fromkeys(cs))
    if len(cs) != 1:
        raise Broken("%s: contribution mentions %d constraints" % (name, len(cs)))
    c = cs[0]
    en, less, gr, mg = (F(c, n, CON) for n in ("m_is_enabled", "m_is_less_or_equal", "m_is_greater_or_equal", "m_has_margin"))
    val, pos, ng = (F(c, n, CON) for n in ("m_constraint_value", "m_positive_part", "m_negative_part"))
    kl, kg = F(c, "m_local_penalty_coefficient_less", CON), F(c, "m_local_penalty_coefficient_greater", CON)
    # new value
    ev = [x for x in list(subterms(tv)) + list(subterms(lp)) if x.op == "call" and x.a[0].endswith("Expression::evaluate") and x.a[1] is F(c, "m_expression", CON)]
    if case == "expression":
        new = ev[0] if ev else mk("call", EXPEV, F(c, "m_expression", CON), (MOVE,))
        ctx.ob("new-value", all(x.a[2] == (MOVE,) for x in ev) and bool(ev), ctx.at(f), "%s: the constraint is not evaluated for the move" % name)
    else:
        var, newv, coef = case
        new = add(val, mul(coef, sub(newv, F(var, "m_value", VAR))))
    p, n = mm("max", new, ZERO), mm("max", neg(new), ZERO)
    if incremental:
        p, n = sub(p, pos), sub(n, ng)
    moved = or_(lt(TINY, sub(new, val)), lt(TINY, sub(val, new)))
    for l in (TRUE, FALSE):
        for g in (TRUE, FALSE):
            if l is FALSE and g is FALSE:
                continue
            pc = and_(en, less if l is TRUE else not_(less), gr if g is TRUE else not_(gr))
            if incremental and case != "expression":
                pc = and_(pc, not_(mg))
            if incremental and case == "expression":
                pc = and_(pc, moved)
            wt = add(p if l is TRUE else ZERO, n if g is TRUE else ZERO)
            wl = add(mul(p, kl) if l is TRUE else ZERO, mul(n, kg) if g is TRUE else ZERO)
            side = {(True, False): "<=", (False, True): ">=", (True, True): "=="}[(l is TRUE, g is TRUE)]
            ctx.ob("violation-rule", same_under(tv, wt, pc), ctx.at(f), "%s: an enabled %s constraint does not contribute its excess on that side to the total violation" % (name, side),
                   sample="%s %s: %s" % (name, side, show(wt)[:160]))
            ctx.ob("penalty-rule", same_under(lp, wl, pc), ctx.at(f), "%s: an enabled %s constraint's excess is not weighted by the coefficient of that side" % (name, side))
            if incremental and case != "expression":
                # with a margin the contribution is either skipped or the same
                pm = and_(en, mg, less if l is TRUE else not_(less), gr if g is TRUE else not_(gr))
                skip = "evaluate_single" in name
                ctx.ob("margin-rule", same_under(tv, wt, pm) and same_under(lp, wl, pm) or (skip and same_under(tv, ZERO, pm) and same_under(lp, ZERO, pm)), ctx.at(f), "%s: a constraint with margin contributes a different amount" % name)
    ctx.ob("disabled-free", same_under(tv, ZERO, not_(en)) and same_under(lp, ZERO, not_(en)), ctx.at(f), "%s: a disabled constraint contributes" % name)
    return c


EXPEV = "printemps::model_component::Expression::evaluate"


def dom_kind(ctx, f, name, doms, body, c, lo_hi):
    """which constraints the sum ranges over"""
    if len(doms) == 1:
        (d, i), = doms
        if d.op == "idx" and c.op == "at" and c.a[1] is mk("iv", i):
            return "list", c.a[0], d
        if c.op == "get" and c.a[1].op == "at" and fname(c.a[1].a[0]) == "constraint_sensitivities":
            return "sens", c.a[1].a[0], d
    return None, None, None


def full(d, cont):
    return d is mk("idx", ZERO, size_of(cont))


def evaluator(ctx, P, tag, fn):
    fs = [f for f in ctx_fns(ctx, P, fn) if f["p"] and f["p"][0]["t"].endswith("SolutionScore*")]
    if len(fs) != 1:
        raise Broken("%s: %d candidates" % (fn, len(fs)))
    f = fs[0]
    E = ctx.run(f, P=P)
    name = fn.split("::")[-1] + tag
    V = fields(E)
    for n in ("objective", "objective_improvement", "total_violation", "local_penalty", "global_penalty", "local_augmented_objective", "global_augmented_objective", "is_feasible", "is_objective_improvable", "is_feasibility_improvable"):
        ctx.ob("field-set", n in V, ctx.at(f), "%s never sets %s" % (name, n))
    inc = fn != "Model::evaluate"
    tv, lp, ob = V["total_violation"], V["local_penalty"], V["objective"]
    G = F(THIS, "m_global_penalty_coefficient", MOD)
    ctx.ob("derived", same_under(V["global_penalty"], mul(tv, G), TRUE), ctx.at(f), "%s: global penalty is not the total violation times the global coefficient" % name)
    ctx.ob("derived", same_under(V["local_augmented_objective"], add(ob, lp), TRUE), ctx.at(f), "%s: local augmented objective is not objective plus local penalty" % name)
    ctx.ob("derived", same_under(V["global_augmented_objective"], add(ob, mul(tv, G)), TRUE), ctx.at(f), "%s: global augmented objective is not objective plus global penalty" % name)
    fe = V["is_feasible"]
    ctx.ob("feasible-rule", same_under(fe, le(tv, TOL), TRUE), ctx.at(f), "%s: feasibility is %s" % (name, show(fe)[-200:]))
    oi = V["objective_improvement"]
    ctx.ob("derived", same_under(V["is_objective_improvable"], lt(TOL, oi), TRUE), ctx.at(f), "%s: objective improvability is not 'improvement beyond the tolerance'" % name)
    # objective
    OBJ = F(THIS, "m_objective", MOD)
    d = F(THIS, "m_is_defined_objective", MOD)
    mn = F(THIS, "m_is_minimization", MOD)
    cs = [x for x in subterms(ob) if x.op == "call" and x.a[0].endswith("::evaluate") and contains(x.a[1], lambda y: y is OBJ)]
    ctx.ob("objective-move", bool(cs) and all(x.a[2] == (MOVE,) for x in cs), ctx.at(f), "%s: the objective is not evaluated for the move" % name)
    if cs:
        o = cs[0]
        cur = F(OBJ, "m_value", "printemps::model_component::Objective::")
        if tag:
            ctx.ob("objective-rule", same_under(ob, o, d), ctx.at(f), "%s: objective is %s" % (name, ob))
            ctx.ob("objective-rule", same_under(oi, sub(cur, o), d), ctx.at(f), "%s: objective improvement is %s" % (name, oi))
        else:
            for m, s in ((mn, ONE), (not_(mn), num(-1))):
                ctx.ob("objective-rule", same_under(ob, mul(s, o), and_(d, m)), ctx.at(f), "%s: objective does not carry the optimisation sign: %s" % (name, ob))
                ctx.ob("objective-rule", same_under(oi, mul(s, sub(cur, o)), and_(d, m)), ctx.at(f), "%s: objective improvement does not carry the optimisation sign: %s" % (name, oi))
            ctx.ob("objective-rule", same_under(ob, ZERO, not_(d)) and same_under(oi, ZERO, not_(d)), ctx.at(f), "%s: an undefined objective counts" % name)
    # contributions
    init_tv = F(CUR, "total_violation", SC) if inc else ZERO
    init_lp = F(CUR, "local_penalty", SC) if inc else ZERO
    cases = [(TRUE, None)]
    if fn == "Model::evaluate_selection":
        al = F(MOVE, "alterations", MV)
        ix = [[F(F(getn(0, mk("at", al, num(k))), "m_extension", VAR), "related_selection_constraint_ptr_index_" + m, EXT) for m in ("min", "max")] for k in (0, 1)]
        if not (has(tv, ix[0][0]) and has(tv, ix[1][1])):
            raise Broken("selection index fields not found")
        cases = []
        for a in (0, 1):
            for b in (0, 1):
                pc = TRUE
                for k, on in ((0, a), (1, b)):
                    lo, hi = ix[k]
                    pc = and_(pc, and_(le(ZERO, lo), le(lo, hi)) if on else and_(eq(lo, num(-1)), eq(hi, num(-1))))
                cases.append((pc, (a, b, ix)))
    for pc0, sel in cases:
        for pc, t in leaves2(tv, pc0):
            l = resolve(lp, pc)
            st, rt = parts(t)
            sl, rl = parts(l)
            ctx.ob("base-score", same_under(rt, init_tv, pc) and same_under(rl, init_lp, pc), ctx.at(f), "%s: contributions are not added to %s" % (name, "the current score" if inc else "zero"))
            if sel is not None and not st and not sl:
                ctx.ob("selection-cover", not (sel[0] or sel[1]), ctx.at(f), "%s: constraints related to the move are not evaluated" % name)
                continue
            if len(st) != 1 or len(sl) != 1 or st[0][0] != 1 or sl[0][0] != 1:
                raise Broken("%s: contribution is not a single sum" % name)
            doms, b = unroll(st[0][1])
            doms2, b2 = unroll(sl[0][1])
            if [d for d in doms] != [d for d in doms2]:
                ctx.ob("same-domain", False, ctx.at(f), "%s: violation and penalty range over different constraints" % name)
                continue
            cc = find_constraint(b)
            if len(cc) != 1:
                raise Broken("%s: contribution mentions %d constraints" % (name, len(cc)))
            c = cc[0]
            base = c.a[1] if c.op == "get" else c
            if fn == "Model::evaluate":
                ok = len(doms) == 2 and has_field(c, "m_constraint_proxies") and all(d.op == "idx" and d.a[0] is ZERO for d, i in doms) and all(has(c, mk("iv", i)) for d, i in doms)
                ok = ok and fname(doms[0][0].a[1].a[0]) == "m_constraint_proxies" if ok and doms[0][0].a[1].op == "size" else ok
                if not ok and len(doms) == 1 and fname(c.a[0] if c.op == "at" else c) in ("enabled_constraint_ptrs", "constraint_ptrs"):
                    ok = full(doms[0][0], c.a[0])
                ctx.ob("all-constraints", ok, ctx.at(f), "%s does not range over all constraints (%s)" % (name, doms))
                per_constraint(ctx, f, name, doms, b, b2, inc, "expression")
            elif c.op == "get" and base.op == "at" and fname(base.a[0]) == "constraint_sensitivities":
                cont = base.a[0]
                var = cont.a[0].a[0]
                alt = var.a[1] if var.op == "get" else None
                ok = full(doms[-1][0], cont) and c.a[0] == 0 and alt is not None
                al = F(MOVE, "alterations", MV)
                if fn == "Model::evaluate_single":
                    ok = ok and len(doms) == 1 and alt is mk("at", al, ZERO)
                elif fn == "Model::evaluate_selection":
                    ok = ok and len(doms) == 2 and full(doms[0][0], al) and alt is mk("at", al, mk("iv", doms[0][1]))
                    lo0, hi0 = sel[2][0]
                    lo1, hi1 = sel[2][1]
                    sep = (sel[0] and sel[1] and implies_split(pc, or_(lt(hi0, lo1), lt(hi1, lo0)))) or not (sel[0] and sel[1])
                    ctx.ob("selection-separate", sep, ctx.at(f), "%s evaluates the two variables separately although they may share a constraint" % name)
                else:
                    ok = False
                ctx.ob("all-constraints", ok, ctx.at(f), "%s does not range over all constraints of the altered variable(s)" % name)
                if ok:
                    per_constraint(ctx, f, name, doms, b, b2, inc, (var, getn(1, alt), mk("get", 1, base) if False else getn(1, base)))
            elif c.op == "at" and len(doms) == 1:
                d, i = doms[0]
                cont = c.a[0]
                if fn == "Model::evaluate_multi":
                    ctx.ob("all-constraints", full(d, cont) and cont is F(MOVE, "related_constraint_ptrs", MV), ctx.at(f), "%s does not range over all constraints related to the move" % name)
                elif fn == "Model::evaluate_selection":
                    al = F(MOVE, "alterations", MV)
                    selp = [F(F(F(getn(0, mk("at", al, num(k))), "m_extension", VAR), "selection_ptr", EXT), "related_constraint_ptrs", "printemps::model_component::Selection::") for k in (0, 1)]
                    if cont is F(MOVE, "related_constraint_ptrs", MV):
                        ok = full(d, cont)
                    else:
                        ok = cont in selp and d.op == "idx"
                        lo, hi = d.a[0], d.a[1]
                        if full(d, cont):
                            pass
                        else:
                            for k, on in ((0, sel[0]), (1, sel[1])):
                                if on:
                                    ok = ok and implies_split(pc, and_(le(lo, sel[2][k][0]), lt(sel[2][k][1], hi)))
                            ok = ok and (implies_split(pc, le(ZERO, lo)))
                            ok = ok and implies_split(pc, or_(*[lt(hi, add(sel[2][k][1], num(2))) for k in (0, 1)]))
                    ctx.ob("all-constraints", ok, ctx.at(f), "%s does not cover the constraints between the two variables' first and last (%s)" % (name, d))
                else:
                    ctx.ob("all-constraints", False, ctx.at(f), "%s ranges over %s" % (name, cont))
                per_constraint(ctx, f, name, doms, b, b2, inc, "expression")
            else:
                raise Broken("%s: unrecognised domain %s" % (name, doms))


def leaves2(t, pc):
    t = resolve(t, pc)
    if t.op == "ite":
        for c, x in ((t.a[0], t.a[1]), (not_(t.a[0]), t.a[2])):
            p = and_(pc, c)
            if p is not FALSE and not implies_split(p, FALSE):
                yield from leaves2(x, p)
        return
    # an ite over the whole sum may sit inside a polynomial
    for k in (t.a[0] if t.op == "poly" else ()):
        for x in k[0]:
            if x.op == "ite" and contains(x, lambda y: y.op == "sum"):
                for c, y in ((x.a[0], x.a[1]), (not_(x.a[0]), x.a[2])):
                    p = and_(pc, c)
                    if p is not FALSE and not implies_split(p, FALSE):
                        yield from leaves2(subst(t, {x: y}), p)
                return
    yield pc, t


def has(t, x):
    return contains(t, lambda y: y is x)


def ctx_fns(ctx, P, name):
    if P is ctx.P:
        return ctx.fns(name)
    seen, out = set(), []
    for f in P.find(name):
        k = (f["file"], f["l"])
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


# ---------------------------------------------------------------- evaluator selection
CLASSES = ("TabuSearchCore::run", "TabuSearchCore::initial_modification", "LocalSearchCore::run")


def wrapper(ctx):
    n = 0
    for f in ctx.fns("Model::evaluate", min=2):
        if f["p"] and f["p"][0]["t"].endswith("SolutionScore*"):
            continue
        E = ctx.run(f)
        mvp = mk("sym", "$0")
        for e in E.effects:
            if e.kind != "call":
                continue
            if any(e.v == "printemps::model::" + "Model::" + k for k in ("evaluate", "evaluate_single", "evaluate_multi", "evaluate_selection")):
                n += 1
                k = e.v.split("::")[-1]
                ok = len(e.args) >= 2 and e.args[1] is mvp
                if k == "evaluate_single":
                    ok = ok and safe_implies(e.pc, eq(size_of(F(mvp, "alterations", MV)), ONE))
                if k == "evaluate_selection":
                    ok = ok and safe_implies(e.pc, F(mvp, "is_selection_move", MV))
                if k != "evaluate":
                    ok = ok and len(e.args) == 3 and e.args[2] is mk("sym", "$1")
                ctx.ob("evaluator-choice", ok, ctx.at(f, e), "%s uses %s for a move it is not valid for" % (short(f["n"]), k))
    ctx.need(n >= 3, "Model::evaluate wrappers")


def dispatch(ctx):
    """every call of a specialised evaluator is guarded by the move kind it is valid for and starts from the current score"""
    n = 0
    for g in ctx.P.fn.values():
        if not g["n"].startswith("printemps::solver") or not is_baseline(ctx.P, g):
            continue
        if not any(x["n"].startswith("printemps::model::Model::evaluate") for x in direct_calls(g)) and not new_helper_calls(ctx, g):
            continue
        if (g["file"], g["l"]) in dispatch.seen:
            continue
        dispatch.seen.add((g["file"], g["l"]))
        E = ctx.run(g)
        per = {}
        for e in E.effects:
            if e.kind != "call" or not isinstance(e.v, str) or not e.v.startswith("printemps::model::Model::evaluate"):
                continue
            k = e.v.split("::")[-1]
            if len(e.args) < 2:
                continue
            n += 1
            mv = e.args[1]
            per.setdefault((e.args[0], mv), FALSE)
            per[(e.args[0], mv)] = or_(per[(e.args[0], mv)], e.pc)
            uni, sl = F(mv, "is_univariable_move", MV), F(mv, "is_selection_move", MV)
            if k == "evaluate_single":
                ctx.ob("evaluator-choice", safe_implies(e.pc, uni), ctx.at(g, e), "%s evaluates a move as a single-variable move under %s" % (short(g["n"]), show(e.pc)[-160:]))
            elif k == "evaluate_selection":
                ctx.ob("evaluator-choice", safe_implies(e.pc, sl), ctx.at(g, e), "%s evaluates a move as a selection move under %s" % (short(g["n"]), show(e.pc)[-160:]))
            if k != "evaluate" and len(e.args) == 3:
                cur = e.args[2]
                ok = has_field(cur, "current_solution_score") or cur.op == "sym"
                ctx.ob("from-current", ok, ctx.at(g, e), "%s evaluates a move incrementally from %s instead of the current score" % (short(g["n"]), cur))
    ctx.need(n >= 10, "evaluator call sites")


dispatch.seen = set()


def new_helper_calls(ctx, g):
    for x in direct_calls(g):
        h = ctx.P.fn.get(x.get("f"))
        if h is not None and not is_baseline(ctx.P, h) and any(y["n"].startswith("printemps::model::Model::evaluate") for y in direct_calls(h)):
            return True
    return False


# ---------------------------------------------------------------- moves carry what the evaluators need
class MvObj:
    def __init__(self):
        self.alts, self.rel, self.size = [], [], None
        self.uni = self.sel = None
        self.once = True
        self.lastpc = TRUE

    def copy(self):
        m = MvObj()
        m.alts, m.rel, m.size, m.uni, m.sel = list(self.alts), list(self.rel), self.size, self.uni, self.sel
        m.once, m.lastpc = self.once, self.lastpc
        return m


def base_of(t, field):
    if t is not None and t.op == "fld" and t.a[1] == MV + field:
        return t.a[0]
    return None


def generators(ctx):
    n = 0
    for f in ctx.P.fn.values():
        if not f["n"].endswith("MoveGenerator::setup") or not is_baseline(ctx.P, f) or f["n"].split("::")[-2] in ("AbstractMoveGenerator", "ChainMoveGenerator", "UserDefinedMoveGenerator"):
            continue
        if (f["file"], f["l"]) in generators.seen:
            continue
        generators.seen.add((f["file"], f["l"]))
        E = ctx.run(f)
        gname = f["n"].split("::")[-2]
        objs = collections.OrderedDict()

        def ob(b):
            return objs.setdefault(b, MvObj())
        known = True
        for e in order(E.effects):
            if e.kind == "init" and e.v is not None and e.v in objs:
                objs[e.t] = objs[e.v].copy()
            if e.kind == "write":
                for fld_ in ("is_univariable_move", "is_selection_move"):
                    b = base_of(e.t, fld_)
                    if b is not None:
                        setattr(ob(b), "uni" if fld_[3] == "u" else "sel", e.v)
                b = base_of(e.t, "related_constraint_ptrs")
                if b is not None:
                    ob(b).rel = [(e.pc, e.v)]
                b = base_of(e.t, "alterations")
                if b is not None:
                    src = base_of(e.v, "alterations")
                    if src in objs:
                        ob(b).alts = list(objs[src].alts)
                    else:
                        known = False
                if e.v in objs and e.t not in (None,):
                    objs[e.t] = objs[e.v].copy()
            if e.kind == "call":
                b = base_of(e.t, "alterations")
                k = callee(e)
                if b is not None:
                    if k in ("emplace_back", "push_back"):
                        a = e.args
                        v = a[0] if len(a) == 2 else (getn(0, a[0]) if a else None)
                        if len(a) == 1 and a[0].op in ("ctor", "pair", "tuple"):
                            v = getn(0, a[0])
                        ob(b).alts.append((e.pc, v, e.loops))
                    elif k == "resize":
                        ob(b).size = e.args[0]
                    elif k in ("clear", "reserve"):
                        if k == "clear":
                            ob(b).alts = []
                    else:
                        known = False
                b = base_of(e.t, "related_constraint_ptrs")
                if b is not None and k in ("insert", "push_back", "emplace_back"):
                    ob(b).once = False
                    ob(b).lastpc = e.pc
                if k == "sort_and_unique_related_constraint_ptrs" and e.t in objs and safe_implies(ob(e.t).lastpc, e.pc):
                    ob(e.t).once = True
                if b is not None:
                    if k == "insert" and len(e.args) == 3:
                        ob(b).rel.append((e.pc, begin_of(e.args[1])))
                    elif k == "push_back" or k == "emplace_back":
                        v = e.args[0]
                        if v.op == "at":
                            ob(b).rel.append((e.pc, v.a[0]))
                    elif k == "assign" and len(e.args) == 2:
                        ob(b).rel = [(e.pc, begin_of(e.args[0]))]
                    elif k == "clear":
                        ob(b).rel = []
                    elif k == "erase":
                        ob(b).once = len(e.args) == 2 and contains(e.args[0], lambda x: x.op == "call" and x.a[0].split("::")[-1] == "unique")
                    elif k not in ("reserve", "begin", "end", "size", "shrink_to_fit"):
                        known = False
        if not known:
            raise Broken("%s builds its moves in an unrecognised way" % gname)
        cnt = 0
        for b, m in objs.items():
            if not m.alts and m.size is None:
                continue
            cnt += 1
            at = ctx.at(f)
            sel = is_true(m.sel) if m.sel is not None else False
            if m.uni is not None and is_true(m.uni):
                ctx.ob("kind-flag", len(m.alts) == 1 and not m.alts[0][2][len(b_loops(b, m)):] and not sel, at, "%s marks a move with %d alterations as single-variable" % (gname, len(m.alts)))
            if m.size is not None:
                ok = sel and m.size is num(2)
                ctx.ob("kind-flag", ok, at, "%s: selection-style move is not marked as a selection move" % gname)
                r = m.rel[0][1] if m.rel else None
                ctx.ob("related-covered", r is not None and fname(r) == "related_constraint_ptrs" and fname(r.a[0]) == "selection_ptr", at, "%s: a selection move is not related to all constraints of its selection" % gname)
                continue
            if len({r for _, r in m.rel}) > 1:
                ctx.ob("related-once", m.once is True, at, "%s: a constraint that contains several of a move's variables is listed, and charged, more than once" % gname, sample=gname)
            ctx.ob("kind-flag", not sel, at, "%s marks a move of arbitrary variables as a selection move" % gname)
            for pc, v, _ in m.alts:
                cov = FALSE
                for rp, r in m.rel:
                    if r is not None and r is F(F(v, "m_extension", VAR), "related_constraint_ptrs", EXT):
                        cov = or_(cov, rp)
                ctx.ob("related-covered", safe_implies(pc, cov), at, "%s: a move altering %s does not list that variable's constraints" % (gname, v), sample="%s: %s" % (gname, v))
        ctx.need(cnt >= 1, gname + " moves")
        n += 1
    ctx.need(n >= 12, "move generators")
    # user-defined moves
    f = ctx.fn1("UserDefinedMoveGenerator::setup", 0)
    E = ctx.run(f)
    lam = [e for e in writes(E, "m_move_updater")]
    ctx.need(len(lam) == 1, "user-defined updater")
    L = run_stored_lambda(ctx, E, lam[0].v, f["file"])
    ins = [e for e in L.effects if e.kind == "call" and callee(e) in ("insert",) and base_of(e.t, "related_constraint_ptrs") is not None and len(e.args) == 3]
    ok = False
    for e in ins:
        b = base_of(e.t, "related_constraint_ptrs")
        r = begin_of(e.args[1])
        al = F(b, "alterations", MV)
        d = len(e.loops) - 1
        ok = ok or (e.pc is TRUE and e.loops[-1] is mk("idx", ZERO, size_of(al)) and r is F(F(getn(0, mk("at", al, mk("iv", d))), "m_extension", VAR), "related_constraint_ptrs", EXT))
    if ins:
        b = base_of(ins[-1].t, "related_constraint_ptrs")
        un = [e for e in L.effects if e.kind == "call" and callee(e) == "sort_and_unique_related_constraint_ptrs" and e.t is b and e.seq > ins[-1].seq and safe_implies(ins[-1].pc, e.pc)]
        un += [e for e in L.effects if e.kind == "call" and callee(e) == "erase" and base_of(e.t, "related_constraint_ptrs") is b and e.seq > ins[-1].seq]
        ctx.ob("related-once", bool(un), ctx.at(f), "user-defined moves charge a constraint once per altered variable")
    ctx.ob("related-covered", ok, ctx.at(f), "user-defined moves do not list the constraints of the variables they alter")


generators.seen = set()


def b_loops(b, m):
    return m.alts[0][2]


def begin_of(t):
    if t.op == "call" and t.a[0].split("::")[-1] in ("begin", "cbegin"):
        return t.a[1]
    if t.op == "ctor" and len(t.a) > 1 and len(t.a[1]) == 1:
        return begin_of(t.a[1][0])
    return t


def compound(ctx):
    """Move::operator+ keeps both parts' constraints; combined moves are not single-variable"""
    f = ctx.fn1("neighborhood::operator+", 2)
    E = ctx.run(f)
    got = set()
    for e in E.effects:
        if e.kind == "call" and callee(e) == "insert" and len(e.args) == 3 and e.pc is TRUE:
            b = begin_of(e.args[1])
            if base_of(b, "alterations") is mk("sym", "$1"):
                got.add("alterations")
            if base_of(b, "related_constraint_ptrs") is mk("sym", "$1"):
                got.add("related")
    u = [e.v for e in writes(E, "is_univariable_move")]
    un = [e for e in E.effects if e.kind == "call" and (callee(e) == "sort_and_unique_related_constraint_ptrs" or callee(e) == "erase" and base_of(e.t, "related_constraint_ptrs") is not None)]
    ins = [e for e in E.effects if e.kind == "call" and callee(e) == "insert" and base_of(e.t, "related_constraint_ptrs") is not None]
    if ins:
        ctx.ob("related-once", any(e.pc is TRUE and e.seq > max(x.seq for x in ins) for e in un), ctx.at(f), "a combined move charges the constraints its parts share twice")
    g = ctx.fn1("Move::sort_and_unique_related_constraint_ptrs", 0)
    G = ctx.run(g)
    REL = F(THIS, "related_constraint_ptrs", MV)
    so = [e for e in G.effects if e.kind == "call" and callee(e) in ("sort", "stable_sort")]
    er = [e for e in G.effects if e.kind == "call" and callee(e) == "erase" and e.t is REL]
    if so and er:
        ok = so[0].seq < er[-1].seq and er[-1].pc is TRUE and all(x.pc is TRUE for x in so[:1])
        ok = ok and contains(er[-1].args[0], lambda x: x.op == "call" and x.a[0].split("::")[-1] == "unique") and len(er[-1].args) == 2
        ctx.ob("related-once", ok, ctx.at(g), "removing duplicates from a move's constraints does not sort first and erase the rest")
    # chain moves found during the search
    g = ctx.fn1("TabuSearchCore::update_chain_moves", 0)
    G = ctx.run(g)
    for e in calls(G, "ChainMoveGenerator::register_move"):
        dup = [x for x in subterms(e.pc) if x.op == "call" and x.a[0].endswith("has_duplicate_variable")] + [x for x in subterms(e.pc) if x.op == "exists"]
        ctx.ob("compound-distinct", any(safe_implies(e.pc, not_(x)) for x in dup), ctx.at(g, e), "a chain move may be registered that alters a variable twice, so that its score is not that of the applied move")
    g = ctx.fn1("Move::has_duplicate_variable", 0)
    G = ctx.run(g)
    AL = F(THIS, "alterations", MV)
    i, j = mk("iv", 0), mk("iv", 1)
    same = eq(getn(0, mk("at", AL, i)), getn(0, mk("at", AL, j)))
    hit = [e for e in G.effects if e.kind == "ret" and len(e.loops) == 2 and e.v is TRUE]
    if hit:
        e = hit[0]
        full = e.loops[0] in (mk("idx", ZERO, size_of(AL)), mk("idx", ZERO, sub(size_of(AL), ONE))) and e.loops[1] in (mk("idx", add(i, ONE), size_of(AL)), mk("idx", ZERO, i))
        if e.loops[0].op == "idx" and e.loops[1].op == "idx":
            ctx.ob("compound-distinct", full and safe_implies(same, e.pc) and safe_implies(e.pc, same), ctx.at(g, e), "has_duplicate_variable does not compare every pair of altered variables")
    ctx.ob("chain", got == {"alterations", "related"} and u and is_false(u[-1]), ctx.at(f), "combining two moves loses alterations or constraints, or keeps the single-variable mark")
    f = ctx.fn1("LocalSearchCore::run", 0)
    E = ctx.run(f)
    srcs = {"alterations": set(), "related_constraint_ptrs": set()}
    for e in E.effects:
        if e.kind == "call" and callee(e) == "insert" and len(e.args) == 3:
            for k in srcs:
                b = base_of(begin_of(e.args[1]), k)
                if b is not None and base_of(e.t, k) is not None:
                    srcs[k].add((e.t.a[0], b, e.pc))
    ok = bool(srcs["alterations"]) and srcs["alterations"] == srcs["related_constraint_ptrs"]
    ctx.ob("chain", ok, ctx.at(f), "the compound local-search move does not list the constraints of all its parts")
    for t, b, pc in srcs["alterations"]:
        al = F(b, "alterations", MV)
        ok = contains(pc, lambda x: x.op == "exists" and contains(x.a[2], lambda y: y.op == "get" and y.a[0] == 0 and y.a[1].op == "at" and y.a[1].a[0] is al))
        ctx.ob("compound-distinct", ok, ctx.at(f), "a part of the compound local-search move may alter a variable that another part alters already")


def structure(ctx):
    """the tables the incremental evaluators use cover every constraint"""
    INL = ("Variable::register_related_constraint_ptr", "Variable::register_constraint_sensitivity", "Variable::reset_related_constraint_ptrs", "Variable::reset_constraint_sensitivities")
    f = ctx.fn1("Model::setup_variable_related_constraints", 0)
    E = ctx.run(f, inline=INL)
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and fname(e.t) == "related_constraint_ptrs"]
    ok = any(e.pc is TRUE and len(e.loops) == 3 and has_field(e.loops[2], "m_sensitivities") and has_field(e.loops[0], "m_constraint_proxies")
             and has_field(e.args[0], "m_constraints") and not has_field(e.args[0], "m_sensitivities") and contains(e.t, lambda y: y.op == "get" and y.a[0] == 0 and has_field(y, "m_sensitivities")) for e in ps)
    ctx.ob("related-table", ok, ctx.at(f), "not every variable of every constraint gets that constraint registered")
    f = ctx.fn1("Model::setup_variable_constraint_sensitivities", 0)
    E = ctx.run(f, inline=INL)
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and fname(e.t) == "constraint_sensitivities"]
    ok = False
    for e in ps:
        if e.pc is TRUE and len(e.loops) == 3 and has_field(e.loops[2], "m_sensitivities") and has_field(e.loops[0], "m_constraint_proxies"):
            a = e.args if len(e.args) == 2 else (getn(0, e.args[0]), getn(1, e.args[0]))
            s = [x for x in subterms(a[1]) if x.op == "at" and fname(x.a[0]) == "m_sensitivities"]
            ok = ok or (a[1].op == "get" and a[1].a[0] == 1 and bool(s) and a[0] is s[0].a[0].a[0].a[0] and contains(e.t, lambda y: y is getn(0, s[0])))
    ctx.ob("sensitivity-table", ok, ctx.at(f), "not every variable of every constraint gets that constraint's coefficient registered")
    cl = [e for e in E.effects if e.kind == "call" and callee(e) == "clear" and fname(e.t) == "constraint_sensitivities" and e.pc is TRUE and len(e.loops) == 2]
    ctx.ob("sensitivity-table", bool(cl) and ps and cl[0].seq < ps[0].seq, ctx.at(f), "old sensitivities are not cleared first")
    f = ctx.fn1("Variable::setup_related_selection_constraint_ptr_index", 0)
    E = ctx.run(f)
    for n in ("min", "max"):
        ws = [e for e in writes(E, "related_selection_constraint_ptr_index_" + n)]
        ctx.ob("selection-index", len(ws) >= 1 and all(bad_index(e, n) is None for e in ws), ctx.at(f), "the %s index of a selection variable's constraints is not the %s one that contains it" % (n, "first" if n == "min" else "last"))


def bad_index(e, n):
    if len(e.loops) != 1:
        return None
    d = e.loops[0]
    if d.op != "idx":
        return None
    i = mk("iv", 0)
    v = e.v
    # position read must be the position tested
    tested = [x for x in subterms(e.pc) if x.op == "at" and fname(x.a[0]) == "related_constraint_ptrs" and has_field(x.a[0], "selection_ptr")]
    if tested and any(x.a[1] is not v for x in tested):
        return "position"
    return None


def run(ctx):
    ctx.rule("the value stored in every score field by Model::evaluate/evaluate_single/evaluate_selection/evaluate_multi (both build configurations) is compared, per constraint sense, enabled state and sign, with the specified contribution; "
             "domains must cover all (related) constraints; specialised evaluators are only called for moves marked for them; every generator's moves list the constraints of all variables they alter")
    for fn in EVALS:
        ctx.section(evaluator, ctx.P, "", fn)
    A = ctx.alt(["_PRINTEMPS_MPS_SOLVER"])
    for fn in EVALS:
        ctx.section(evaluator, A, " (MPS solver build)", fn)
    for s in (wrapper, dispatch, generators, compound, structure):
        ctx.section(s)
