"""P31: every search keeps a true account of its own progress and hands it to its caller."""
from common import *
import sym as S

T = "printemps::solver::tabu_search::core::"
L = "printemps::solver::local_search::core::"
D = "printemps::solver::lagrange_dual::core::"
HOLDER = "printemps::solution::IncumbentHolderConstant::"


def symb(n):
    return mk("sym", n)


class Rec:
    """terms for the members of a record"""

    def __init__(self, ctx, base, cls):
        ctx.need(cls in ctx.P.records, "class " + cls)
        self.base, self.ctx, self.cls = base, ctx, cls
        self.f = {x["n"].split("::")[-1]: x["n"] for x in ctx.P.records[cls]["fields"]}

    def __call__(self, n, cls=None):
        if n not in self.f:
            raise Broken("member %s of %s" % (n, self.cls))
        t = mk("fld", self.base, self.f[n])
        return Rec(self.ctx, t, cls) if cls else t


def evaluate(ctx, f, cls, opaque=False):
    E = S.Eval(ctx.P, inline=lambda g: (not opaque) if g["n"].startswith("printemps::utility::Range::") else True if g["n"].startswith(cls) else None)
    E.run(f)
    return E


def value(E, t):
    v = final_value(E, lambda x: x is t)
    return t if v is None else v


def const(ctx, n):
    v = const_value(ctx.P, HOLDER + n)
    ctx.need(v is not None and v.op == "n", "constant " + n)
    return v


def bit(s, k):
    return not_(eq(mk("op&", s, k), ZERO))


def expect(ctx, E, f, rule, t, want, text, pc=TRUE, key=None):
    v = value(E, t)
    ok = v is want or same_under(v, want, pc)
    ctx.ob(rule, ok, ctx.at(f), "%s becomes %s instead of %s" % (text, str(under(v, pc))[:260], str(want)[:200]), key=(key or "") + text, sample="%s := %s" % (fname(t), str(want)[:110]))


def status_of(ctx, E, f, st, score, model, rule):
    """the status the incumbent holder reported for the solution just accepted"""
    v = value(E, st("update_status"))
    if v.op != "call" or not str(v.a[0]).endswith("::try_update_incumbent"):
        raise Broken("update status is %s" % str(v)[:200])
    a = v.a[2]
    ctx.ob(rule, len(a) == 2 and a[0] is model and a[1] is score, ctx.at(f), "the incumbents are offered %s instead of the model with the score of the solution just accepted" % str(a)[:200], key="offer")
    calls = [e for e in E.effects if e.kind == "call" and str(e.v).endswith("::try_update_incumbent")]
    ctx.ob(rule, len(calls) == 1 and calls[0].pc is TRUE and not calls[0].loops, ctx.at(f), "the incumbents are not offered the accepted solution exactly once per step", key="once")
    return v


def total(ctx, E, f, st, status, rule):
    t = st("total_update_status")
    v = value(E, t)
    ok = v in (mk("op|", status, t), mk("op|", t, status))
    if not ok and not (v.op.startswith("op") or v is t or v is status or v.op == "n"):
        raise Broken("total update status is %s" % str(v)[:200])
    ctx.ob(rule, ok, ctx.at(f), "the record of which incumbents a search updated becomes %s instead of itself joined with the new status" % str(v)[:260], key="total", sample="total_update_status |= status")


def scores(ctx, E, f, st, new, rule):
    cur = st("current_solution_score")
    expect(ctx, E, f, rule, cur, new, "the current score")
    expect(ctx, E, f, rule, st("previous_solution_score"), cur, "the previous score")


def tabu_step(ctx):
    cls = T + "TabuSearchCoreStateManager"
    f = ctx.fn1("TabuSearchCoreStateManager::update", 5)
    E = evaluate(ctx, f, cls + "::")
    m = Rec(ctx, THIS, cls)
    st = m("m_state", T + "TabuSearchCoreState")
    cur = st("current_solution_score")
    new = mk("at", symb("$4"), symb("$1"))
    sc = lambda t, n: Rec(ctx, t, "printemps::solution::SolutionScore")(n)
    scores(ctx, E, f, st, new, "step")
    expect(ctx, E, f, "step", st("current_move"), symb("$0"), "the current move")
    expect(ctx, E, f, "step", st("previous_move"), st("current_move"), "the previous move")
    status = status_of(ctx, E, f, st, new, m("m_model_ptr"), "status")
    total(ctx, E, f, st, status, "status")
    for what in ("LOCAL_AUGMENTED", "GLOBAL_AUGMENTED", "FEASIBLE"):
        t = st("last_%s_incumbent_update_iteration" % what.lower())
        expect(ctx, E, f, "status", t, ite(bit(status, const(ctx, "STATUS_%s_INCUMBENT_UPDATE" % what)), st("iteration"), t), "the iteration of the last %s incumbent update" % what.lower())
    Lb, Gb = const(ctx, "STATUS_LOCAL_AUGMENTED_INCUMBENT_UPDATE"), const(ctx, "STATUS_GLOBAL_AUGMENTED_INCUMBENT_UPDATE")
    g = "global_augmented_objective"
    n = st("number_of_effective_updates")
    expect(ctx, E, f, "progress", n, ite(and_(bit(status, Lb), lt(sc(new, g), sc(cur, g))), add(n, num(1)), n), "the number of effective updates")
    n = st("number_of_ineffective_updates")
    bad = and_(eq(status, Lb), lt(sc(cur, g), sc(new, g)))
    expect(ctx, E, f, "progress", n, ite(bad, add(n, num(1)), ite(bit(status, Gb), ZERO, n)), "the number of ineffective updates")
    for r, q, c in (("objective_range", "objective", TRUE), ("local_augmented_objective_range", "local_augmented_objective", TRUE),
                    ("global_augmented_objective_range", g, TRUE), ("local_penalty_range", "local_penalty", not_(sc(new, "is_feasible")))):
        rg = st(r, "printemps::utility::Range")
        for k, b in (("min", "m_min"), ("max", "m_max")):
            t = rg(b)
            expect(ctx, E, f, "progress", t, ite(c, mm(k, t, sc(new, q)), t), "the %simum of the %s" % (k, r.replace("_", " ")))
    t = st("is_found_new_feasible_solution")
    v, ref = value(E, t), or_(t, sc(new, "is_feasible"))
    ctx.ob("progress", safe_implies(v, ref) and safe_implies(ref, v), ctx.at(f), "whether a feasible solution was found becomes %s instead of %s" % (str(v)[:200], ref), key="feas", sample="is_found_new_feasible_solution |= is_feasible")
    few(ctx, E, f, st)
    # the tabu tenure while the search runs
    o = Rec(ctx, m("m_option"), "printemps::option::Option")("tabu_search", "printemps::option::TabuSearchOption")
    tt, t0, last, it = st("tabu_tenure"), st("original_tabu_tenure"), st("last_tabu_tenure_updated_iteration"), st("iteration")
    inc, dec = st("intensity_increase_count"), st("intensity_decrease_count")
    now = mk("fld", mk("fld", m("m_global_state_ptr"), Rec(ctx, THIS, "printemps::solver::GlobalState").f["memory"]), Rec(ctx, THIS, "printemps::solver::Memory").f["m_primal_intensity"])
    mut = {x for x in subterms(value(E, tt)) if str(x).endswith("mutable_variable_ptrs.size()")}
    ctx.ob("tenure", len(mut) == 1, ctx.at(f), "the tabu tenure may grow beyond the number of mutable variables", key="mut")
    if len(mut) != 1:
        return
    mut = mut.pop()
    rev = and_(bit(status, Gb), lt(t0, tt))
    due = and_(not_(rev), eq(mk("op%", sub(it, last), add(tt, num(1))), ZERO))
    up, down = and_(due, lt(st("current_primal_intensity"), now)), and_(due, not_(lt(st("current_primal_intensity"), now)))
    grow = and_(up, lt(o("intensity_increase_count_threshold"), add(inc, num(1))))
    shrink = and_(down, lt(o("intensity_decrease_count_threshold"), add(dec, num(1))))
    chg = or_(rev, grow, shrink)
    half = mk("idiv", t0, num(2))
    rows = [
        (tt, ite(rev, t0, ite(grow, mm("min", add(tt, num(1)), mut), ite(shrink, mm("max", sub(tt, num(1)), mm("max", num(1), half)), tt))), "the tabu tenure"),
        (last, ite(chg, it, last), "the iteration of the last tenure change"),
        (inc, ite(or_(rev, down, grow), ZERO, ite(up, add(inc, num(1)), inc)), "the number of rises of the intensity"),
        (dec, ite(or_(rev, up, shrink), ZERO, ite(down, add(dec, num(1)), dec)), "the number of falls of the intensity"),
        (st("current_primal_intensity"), ite(due, now, st("current_primal_intensity")), "the current intensity"),
    ]
    parts = [("the global incumbent improved under a lengthened tenure", rev), ("the intensity rose for the last time needed", grow), ("the intensity rose", and_(up, not_(grow))),
             ("the intensity fell for the last time needed", shrink), ("the intensity fell", and_(down, not_(shrink))), ("the intensity is not due", and_(not_(rev), not_(due)))]
    for name, pc in parts:
        for t, want, text in rows:
            expect(ctx, E, f, "tenure", t, want, "when %s, %s" % (name, text), pc=pc)


def few(ctx, E, f, st):
    """the lack of permissible moves is recorded exactly when no trial move is permissible"""
    t = st("is_few_permissible_neighborhood")
    cnt = st("number_of_permissible_neighborhoods")
    ws = [w for w in writes(E) if w.t is t]
    if not ws:
        raise Broken("is_few_permissible_neighborhood is not set")

    def perm(x):
        return x.op == "fld" and fname(x) == "is_permissible"

    for w in ws:
        if w.v is not TRUE or w.loops:
            raise Broken("is_few_permissible_neighborhood := %s" % str(w.v)[:100])
        ex = [x for x in subterms(w.pc) if x.op == "exists"]
        if ex:
            x = ex[0]
            ok = len(ex) == 1 and safe_implies(w.pc, not_(x)) and perm(x.a[-1]) and whole(x.a[0], symb("$3"))
            rest = w.pc
        elif is_in(w.pc, cnt):
            ok = safe_implies(w.pc, eq(cnt, ZERO))
            zero = [e for e in writes(E) if e.t is cnt and e.v is ZERO and e.seq < w.seq]
            inc = [e for e in writes(E) if e.t is cnt and e.loops and e.seq < w.seq]
            ok = ok and bool(zero) and len(inc) == 1 and inc[0].v is add(cnt, num(1)) and len(inc[0].loops) == 1 and whole(inc[0].loops[0], symb("$3")) and zero[0].seq < inc[0].seq
            if ok:
                el = [x for x in subterms(inc[0].pc) if perm(x)]
                ok = len(el) == 1 and safe_implies(inc[0].pc, el[0]) and safe_implies(and_(zero[0].pc, el[0]), inc[0].pc)
        else:
            raise Broken("condition of is_few_permissible_neighborhood: %s" % str(w.pc)[:200])
        ctx.ob("few-permissible", ok, ctx.at(f, w), "a lack of permissible moves is recorded when %s" % str(w.pc)[:300], key=str(w.line), sample="set iff no trial move is permissible")
    # no case is left out: what remains undecided besides the permissibility covers everything
    conds = []
    for w in ws:
        c = w.pc
        for x in list(subterms(c)):
            if x.op == "exists" or x is eq(cnt, ZERO):
                c = replace(c, x, TRUE if x is eq(cnt, ZERO) else FALSE)
        conds.append(c)
    ctx.ob("few-permissible", safe_implies(TRUE, or_(*conds)), ctx.at(f, ws[0]), "in some iterations a lack of permissible moves is not recorded", key="all")


def whole(dom, c):
    return dom.op == "idx" and dom.a[0] is ZERO and dom.a[1] is size_of(c)


def is_in(t, x):
    return any(y is x for y in subterms(t))


def replace(t, x, v):
    from terms import rebuild
    return rebuild(t, lambda y: v if y is x else y)


def tabu_start(ctx):
    cls = T + "TabuSearchCoreStateManager"
    f = ctx.fn1("TabuSearchCoreStateManager::setup", 3)
    E = evaluate(ctx, f, T + "TabuSearchCoreState")
    st = Rec(ctx, THIS, cls)("m_state", T + "TabuSearchCoreState")
    for n in ("total_update_status", "iteration", "number_of_effective_updates", "number_of_ineffective_updates", "number_of_evaluated_moves", "number_of_updated_moves",
              "elapsed_time_for_move_evaluation", "elapsed_time_for_move_update", "intensity_increase_count", "intensity_decrease_count", "last_tabu_tenure_updated_iteration"):
        v = value(E, st(n))
        ctx.ob("start", v is ZERO or n == "total_update_status" and v is const(ctx, "STATUS_NOT_UPDATED"), ctx.at(f), "a search starts with %s = %s" % (n, str(v)[:150]), key=n, sample="%s := 0" % n)
    for n in ("local_augmented", "global_augmented", "feasible"):
        v = value(E, st("last_%s_incumbent_update_iteration" % n))
        ctx.ob("start", v is num(-1), ctx.at(f), "a search starts with the last %s update at %s instead of none (-1)" % (n, str(v)[:150]), key=n)
    for n in ("is_found_new_feasible_solution", "is_few_permissible_neighborhood"):
        v = value(E, st(n))
        ctx.ob("start", v is FALSE, ctx.at(f), "a search starts with %s = %s" % (n, str(v)[:150]), key=n)
    score = value(E, st("current_solution_score"))
    if not (score.op == "call" and str(score.a[0]).endswith("Model::evaluate")):
        raise Broken("initial score is %s" % str(score)[:200])
    sc = Rec(ctx, score, "printemps::solution::SolutionScore")
    R = evaluate(ctx, f, T + "TabuSearchCoreState", opaque=True)
    expect(ctx, E, f, "start", st("previous_solution_score"), score, "the previous score at the start")
    for r, q, c in (("objective_range", "objective", TRUE), ("local_augmented_objective_range", "local_augmented_objective", TRUE),
                    ("global_augmented_objective_range", "global_augmented_objective", TRUE), ("local_penalty_range", "local_penalty", not_(sc("is_feasible")))):
        cs = [e for e in R.effects if e.kind == "call" and e.t is st(r) and str(e.v).endswith("Range::update")]
        if not cs and is_in(value(E, st(r, "printemps::utility::Range")("m_min")), sc(q)):
            raise Broken("start of the " + r)
        own = [e for e in cs if e.args[0] is sc(q)]
        odd = [e for e in cs if e.args[0] is not sc(q) and any(x.op == "fld" and x.a[0] is score for x in subterms(e.args[0]))]
        ctx.ob("start", bool(own) and not odd and all(not e.loops for e in own) and safe_equiv(or_(*[e.pc for e in own]), c), ctx.at(f, (odd or own or cs or [None])[0]),
               "the %s of a search does not start with the %s of the start%s" % (r.replace("_", " "), q.replace("_", " "), "" if c is TRUE else ", if that is infeasible"), key=r, sample="%s starts at %s" % (r, q))
    mem = mk("fld", mk("fld", symb("$1"), Rec(ctx, THIS, "printemps::solver::GlobalState").f["memory"]), Rec(ctx, THIS, "printemps::solver::Memory").f["m_primal_intensity"])
    expect(ctx, E, f, "start", st("current_primal_intensity"), mem, "the intensity at the start")
    v = value(E, st("tabu_tenure"))
    o = Rec(ctx, symb("$2"), "printemps::option::Option")("tabu_search", "printemps::option::TabuSearchOption")("initial_tabu_tenure")
    ok = v.op == "min" and o in list(v.a[0]) and len(v.a[0]) == 2 and any(str(x).endswith("mutable_variable_ptrs.size()") for x in v.a[0])
    ctx.ob("start", ok, ctx.at(f), "a search starts with tenure %s instead of the option limited by the number of mutable variables" % str(v)[:200], key="tenure")
    expect(ctx, E, f, "start", st("original_tabu_tenure"), v, "the original tenure at the start")


def ranges(ctx):
    """a range is the interval spanned by the values it has seen"""
    rc = "printemps::utility::Range"
    r = Rec(ctx, THIS, rc)
    f = ctx.fn1("utility::Range::update", 1)
    E = evaluate(ctx, f, rc + "::")
    expect(ctx, E, f, "range", r("m_min"), mm("min", r("m_min"), symb("$0")), "the minimum of a range")
    expect(ctx, E, f, "range", r("m_max"), mm("max", r("m_max"), symb("$0")), "the maximum of a range")
    f = ctx.fn1("utility::Range::initialize", 0)
    E = evaluate(ctx, f, rc + "::")
    for n, k in (("m_min", "max"), ("m_max", "lowest")):
        v = value(E, r(n))
        if v.op != "call":
            raise Broken("empty range: %s := %s" % (n, v))
        ctx.ob("range", str(v.a[0]).endswith("numeric_limits::" + k), ctx.at(f), "an empty range starts with %s = %s" % (n, v), key=n, sample="%s := %s" % (n, k))


def statistics(ctx):
    cls = T + "TabuSearchCoreStateManager"
    st = Rec(ctx, THIS, cls)("m_state", T + "TabuSearchCoreState")
    for fn, a, b in (("update_move_update_statistics", "number_of_updated_moves", "elapsed_time_for_move_update"), ("update_move_evaluation_statistics", "number_of_evaluated_moves", "elapsed_time_for_move_evaluation")):
        f = ctx.fn1("TabuSearchCoreStateManager::" + fn, 2)
        E = evaluate(ctx, f, cls + "::")
        expect(ctx, E, f, "statistics", st(a), add(st(a), symb("$0")), "the count kept by " + fn)
        expect(ctx, E, f, "statistics", st(b), add(st(b), symb("$1")), "the time kept by " + fn)
    f = ctx.fn1("TabuSearchCore::run", 0)
    E = ctx.run(f, opaque=("update_move_evaluation_statistics", "update_move_update_statistics", "next_iteration", "TabuSearchCoreStateManager::update", "set_elapsed_time"))
    by = lambda n: [e for e in E.effects if e.kind == "call" and str(e.v).endswith("::" + n)]
    ev, nx, up = by("update_move_evaluation_statistics"), by("next_iteration"), by("TabuSearchCoreStateManager::update")
    if not (ev and nx and up):
        raise Broken("calls of the state manager in TabuSearchCore::run")
    for name, cs in (("counted", nx), ("entered in the statistics", ev)):
        ok = len(cs) == 1 and all(len(c.loops) == 1 for c in cs) and safe_implies(cs[0].pc, or_(*[u.pc for u in up]))
        ctx.ob("statistics", ok, ctx.at(f, cs[0]), "an iteration of the search is not %s exactly once" % name, key=name)
    left = [e for e in E.effects if e.kind in ("break", "ret", "throw", "continue") and len(e.loops) == 1 and e.seq > up[-1].seq and e.seq < nx[-1].seq]
    done = or_(nx[0].pc, *[e.pc for e in left])
    ctx.ob("statistics", safe_implies(or_(*[u.pc for u in up]), done), ctx.at(f, nx[0]), "an iteration may end without being counted", key="all")
    n = ev[0].args[0]
    st2 = mk("fld", mk("fld", THIS, Rec(ctx, THIS, T + "TabuSearchCore").f["m_state_manager"]), Rec(ctx, THIS, cls).f["m_state"])
    ctx.ob("statistics", n is Rec(ctx, st2, T + "TabuSearchCoreState")("number_of_moves"), ctx.at(f, ev[0]), "the number of evaluated moves grows by %s instead of the number of moves of the iteration" % str(n)[:200], key="n")


def tabu_result(ctx):
    f = ctx.fn1("TabuSearchCoreResult::setup", 2)
    E = ctx.run(f, inline=("Range::max_abs", "Range::range", "Range::min", "Range::max"))
    st = Rec(ctx, symb("$0"), T + "TabuSearchCoreState")
    r = Rec(ctx, THIS, T + "TabuSearchCoreResult")
    ob, pen = st("objective_range", "printemps::utility::Range"), st("local_penalty_range", "printemps::utility::Range")
    top = mm("max", num(1), mm("max", mm("max", mk("abs", ob("m_max")), mk("abs", ob("m_min"))), sub(ob("m_max"), ob("m_min"))))
    expect(ctx, E, f, "result", r("objective_constraint_rate"), div(top, mm("max", num(1), pen("m_min"))), "the objective/constraint rate")
    expect(ctx, E, f, "result", r("performance"), div(st("number_of_effective_updates"), st("iteration")), "the performance")
    expect(ctx, E, f, "result", r("option"), symb("$1"), "the option of the result")


def others(ctx):
    for ns, c in ((L, "LocalSearchCore"), (D, "LagrangeDualCore")):
        cls = ns + c + "StateManager"
        ar = 4 if ns is L else 1
        f = ctx.fn1(c + "StateManager::update", ar)
        E = evaluate(ctx, f, cls + "::")
        m = Rec(ctx, THIS, cls)
        st = m("m_state", ns + c + "State")
        new = symb("$3" if ns is L else "$0")
        scores(ctx, E, f, st, new, "step")
        status = status_of(ctx, E, f, st, new, m("m_model_ptr"), "status")
        total(ctx, E, f, st, status, "status")
        if ns is L:
            expect(ctx, E, f, "step", st("current_move"), symb("$0"), "the current move")
            expect(ctx, E, f, "step", st("number_of_performed_moves"), symb("$1"), "the number of performed moves")
            expect(ctx, E, f, "step", st("is_found_improving_solution"), symb("$2"), "whether an improving solution was found")
        g = ctx.fn1(c + "StateManager::setup", 3)
        G = evaluate(ctx, g, ns + c + "State")
        v = value(G, st("total_update_status"))
        ctx.ob("start", v is ZERO or v is const(ctx, "STATUS_NOT_UPDATED"), ctx.at(g), "a search starts with total update status %s" % str(v)[:150], key=c)
        v = value(G, st("iteration"))
        ctx.ob("start", v is ZERO, ctx.at(g), "a search starts with iteration %s" % str(v)[:150], key=c + "it")
        result_ctor(ctx, ns, c)


def result_ctor(ctx, ns, c):
    cs = [f for f in ctx.P.fn.values() if f["n"] == ns + c + "Result::(ctor)" and len(f["p"]) == 2]
    ctx.need(len(cs) == 1, "constructor of %sResult" % c)
    f = cs[0]
    E = ctx.run(f)
    vals = {}
    for e in E.effects:
        if e.kind in ("write", "init") and e.t is not None and e.t.op == "fld" and e.t.a[0] is THIS:
            vals[fname(e.t)] = e.v
    if not vals:
        raise Broken("members set by the constructor of %sResult" % c)
    st = Rec(ctx, symb("$0"), ns + c + "State")
    want = {"total_update_status": "total_update_status", "number_of_iterations": "iteration", "elapsed_time": "elapsed_time", "termination_status": "termination_status"}
    if ns is D:
        want.update(primal="primal_incumbent", dual="dual_incumbent")
    for n, s in want.items():
        v = vals.get(n)
        if v is None:
            raise Broken("%s of %sResult" % (n, c))
        v = strip_copy(v)
        ctx.ob("result", v is st(s), ctx.at(f), "the %s reported is %s instead of the state's %s" % (n, str(v)[:150], s), key=c + n, sample="%s := state.%s" % (n, s))


def strip_copy(v):
    while v.op == "ctor" and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def lagrange(ctx):
    cls = D + "LagrangeDualCoreStateManager"
    f = ctx.fn1("LagrangeDualCoreStateManager::update", 1)
    E = evaluate(ctx, f, cls + "::")
    m = Rec(ctx, THIS, cls)
    st = m("m_state", D + "LagrangeDualCoreState")
    v = value(E, st("lagrangian"))
    cal = [x for x in subterms(v) if x.op == "call" and str(x.a[0]).endswith("::compute_lagrangian")]
    if len(cal) != 1:
        raise Broken("lagrangian is %s" % str(v)[:200])
    sg = ite(Rec(ctx, m("m_model_ptr"), "printemps::model::Model")("m_is_minimization"), num(1), num(-1))
    ctx.ob("lagrangian", same_under(v, mul(cal[0], sg), TRUE) and cal[0].a[2] == (st("dual"),), ctx.at(f), "the lagrangian is taken as %s instead of the model's lagrangian at the current multipliers, in minimisation sense" % str(v)[:200], key="value")
    better = lt(st("lagrangian_incumbent"), v)
    expect(ctx, E, f, "lagrangian", st("lagrangian_incumbent"), ite(better, v, st("lagrangian_incumbent")), "the best lagrangian")
    expect(ctx, E, f, "lagrangian", st("dual_incumbent"), ite(better, st("dual"), st("dual_incumbent")), "the multipliers of the best lagrangian")
    p = value(E, st("primal_incumbent"))
    a, b = under(p, better), under(p, not_(better))
    ctx.ob("lagrangian", a.op == "call" and str(a.a[0]).endswith("::export_dense_solution") and b is st("primal_incumbent"), ctx.at(f), "the solution of the best lagrangian becomes %s" % str(p)[:200], key="primal")
    # ascent step along the constraint values, then projection on the sign the sense asks for
    f = ctx.fn1("LagrangeDualCoreStateManager::update_dual", 0)
    E = evaluate(ctx, f, cls + "::")
    ws = [w for w in writes(E) if is_in(w.t, st("dual")) and w.t.op == "at"]
    if not ws:
        raise Broken("multiplier updates")
    pos = set()
    for w in ws:
        c = [x for x in subterms(w.t) if fname(x) == "flat_index"]
        if len(c) != 1:
            raise Broken("multiplier updated is %s" % str(w.t)[:200])
        con = c[0].a[0].a[0]
        q = [x for x in subterms(w.t) if fname(x) == "proxy_index"]
        ctx.ob("multipliers", len(q) == 1 and q[0].a[0].a[0] is con and w.t.a[1] is c[0], ctx.at(f, w), "the multiplier updated, %s, is not that of one constraint" % str(w.t)[:200], key="own" + str(w.line))
        sense = Rec(ctx, con, "printemps::model_component::Constraint")("m_sense")
        se = lambda n: eq(sense, mk("enum", "printemps::model_component::ConstraintSense::" + n))
        if is_in(w.v, st("step_size")):
            cv = [x for x in subterms(w.v) if fname(x) == "m_constraint_value"]
            ok = len(cv) == 1 and cv[0].a[0] is con and same_under(w.v, add(w.t, mul(st("step_size"), cv[0])), TRUE) and w.pc is TRUE
            ctx.ob("multipliers", ok, ctx.at(f, w), "the step of a multiplier is %s := %s instead of the step size times the constraint's value" % (str(w.t)[:120], str(w.v)[:200]), key="step")
            pos.add("step")
        else:
            k = "Less" if safe_implies(w.pc, se("Less")) else "Greater" if safe_implies(w.pc, se("Greater")) else None
            if k is None:
                raise Broken("projection under %s" % str(w.pc)[:200])
            ref = mm("max" if k == "Less" else "min", w.t, ZERO)
            alt = [e for e in ws if e.seq < w.seq and "step" in pos]
            v2 = w.v
            ok = v2.op == ("max" if k == "Less" else "min") and ZERO in list(v2.a[0]) or v2 is ref
            ctx.ob("multipliers", ok and safe_implies(se(k), w.pc), ctx.at(f, w), "the multiplier of a %s constraint becomes %s instead of being kept on its side of zero" % (k, str(v2)[:200]), key=k, sample="%s: %s" % (k, str(v2)[:80]))
            pos.add(k)
    ctx.ob("multipliers", pos >= {"step", "Less", "Greater"}, ctx.at(f), "multipliers are updated without %s" % ", ".join(sorted({"step", "Less", "Greater"} - pos)), key="parts")


def run(ctx):
    ctx.rule("the state left by each search's state manager, as guarded terms over the state before and its arguments, equals the prescribed account of the step; results copy that account")
    ctx.section(tabu_step)
    ctx.section(tabu_start)
    ctx.section(ranges)
    ctx.section(statistics)
    ctx.section(tabu_result)
    ctx.section(others)
    ctx.section(lagrange)
