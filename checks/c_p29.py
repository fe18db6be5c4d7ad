"""P29: every outer loop restarts from the solution, and with the penalty direction, the restart rules prescribe."""
from common import *

SM = "TabuSearchControllerStateManager::"
KEEP = ("reset_local_penalty_coefficient", "tighten_local_penalty_coefficient", "relax_local_penalty_coefficient", "update_local_penalty_coefficient_range")
HOLDER = "printemps::solution::IncumbentHolderConstant::"


class Names:
    """terms for the fields of the outer loop's state, the options and the incumbents"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.smc = self.cls("::TabuSearchControllerStateManager")
        self.M = self.fld(THIS, self.smc, "m_state")
        self.O = self.fld(THIS, self.smc, "m_option")
        self.model = self.fld(THIS, self.smc, "m_model_ptr")
        g = self.fld(THIS, self.smc, "m_global_state_ptr")
        gc = self.cls("solver::GlobalState")
        self.H = self.fld(g, gc, "incumbent_holder")
        self.mem = self.fld(g, gc, "memory")

    def cls(self, suffix):
        c = [n for n in self.P.records if n.endswith(suffix)]
        self.ctx.need(len(c) == 1, "class " + suffix)
        return c[0]

    def fld(self, base, cls, name):
        for x in self.P.records[cls]["fields"]:
            if x["n"].split("::")[-1] == name:
                return mk("fld", base, x["n"])
        raise Broken("field %s of %s" % (name, cls))

    def s(self, n):
        return self.fld(self.M, self.cls("::TabuSearchControllerState"), n)

    def r(self, n):
        return self.fld(sym("$0"), self.cls("::TabuSearchCoreResult"), n)

    def o(self, path):
        t, c = self.O, "printemps::option::Option"
        a, b = path.split(".")
        t = self.fld(t, c, a)
        rec = {"tabu_search": "TabuSearchOption", "penalty": "PenaltyOption", "restart": "RestartOption", "neighborhood": "NeighborhoodOption", "parallel": "ParallelOption"}[a]
        return self.fld(t, self.cls("option::" + rec), b)

    def h(self, n):
        return self.fld(self.H, self.cls("solution::IncumbentHolder"), n)

    def const(self, n):
        v = const_value(self.P, HOLDER + n)
        self.ctx.need(v is not None and v.op == "n", "constant " + n)
        return v


def sym(n):
    return mk("sym", n)


def summary(ctx):
    f = ctx.fn1(SM + "update", 2)
    import sym as S
    E = S.Eval(ctx.P, inline=lambda g: (not g["n"].endswith(KEEP)) if "TabuSearchControllerStateManager" in g["n"] else None)
    E.run(f)
    return f, E


def state_value(E, t):
    v = final_value(E, lambda x: x is t)
    return t if v is None else v


def bit(x, k):
    return not_(eq(mk("op&", x, k), ZERO))


def enum(n):
    return mk("enum", "printemps::option::" + n)


class Atoms:
    def __init__(self, ctx, N):
        P = ctx.P
        st = N.r("total_update_status")
        self.G = bit(st, N.const("STATUS_GLOBAL_AUGMENTED_INCUMBENT_UPDATE"))
        self.Fi = bit(st, N.const("STATUS_FEASIBLE_INCUMBENT_UPDATE"))
        self.N = eq(st, N.const("STATUS_NOT_UPDATED"))
        go, lo = N.h("m_global_augmented_incumbent_objective"), N.h("m_local_augmented_incumbent_objective")
        tol = const_value(P, "printemps::solver::tabu_search::controller::TabuSearchControllerStateManagerConstant::GAP_TOLERANCE")
        rng = const_value(P, "printemps::solver::tabu_search::controller::TabuSearchControllerStateManagerConstant::RELATIVE_RANGE_THRESHOLD")
        ctx.need(tol is not None and rng is not None, "tolerances of the restart rules")
        self.gap = lt(sub(go, lo), tol)
        self.F = N.fld(N.h("m_local_augmented_incumbent_score"), N.cls("solution::SolutionScore"), "is_feasible")
        self.R = lt(div(N.r("global_augmented_objective_range"), mm("max", num(1), mk("abs", go))), rng)
        self.found = N.h("m_is_found_feasible_solution")
        ds, ss = N.cls("solution::DenseSolution"), N.cls("solution::SparseSolution")
        loc = N.h("m_local_augmented_incumbent_solution")
        cur = N.s("current_solution")
        sg = ite(N.fld(N.model, N.cls("model::Model"), "m_is_minimization"), num(1), num(-1))
        self.io = lt(mul(N.fld(loc, ds, "objective"), sg), mul(N.fld(cur, ss, "objective"), sg))
        self.iv = lt(N.fld(loc, ds, "total_violation"), N.fld(cur, ss, "total_violation"))
        self.simple = eq(N.o("restart.restart_mode"), enum("restart_mode::RestartMode::Simple"))
        self.smart = eq(N.o("restart.restart_mode"), enum("restart_mode::RestartMode::Smart"))
        cnt = ite(self.G, ZERO, add(N.s("iteration_after_global_augmented_incumbent_update"), num(1)))
        self.outer = and_(not_(self.found), le(N.o("penalty.outer_stagnation_threshold"), cnt))
        self.inner = and_(or_(N.s("is_exceeded_initial_penalty_coefficient"), not_(or_(self.io, self.iv))),
                          lt(N.o("penalty.inner_stagnation_threshold"), N.s("iteration_after_relaxation")))
        self.reset = and_(N.o("penalty.is_enabled_inner_stagnation_breaker"), self.outer, self.inner)
        self.cnt = cnt


def cases(A):
    """(name, condition, start, relax?, forced?, tightened-branch?) - the restart rules"""
    imp = or_(A.io, A.iv)
    out = []
    rel = or_(A.G, A.N, A.F, A.R)
    out.append(("Simple mode, progress, feasibility or convergence", and_(A.simple, rel), "local", True, False))
    out.append(("Simple mode, otherwise", and_(A.simple, not_(rel)), "local", False, False))
    s, c = [A.smart], None
    def add_(name, cond, start, relax, forced):
        out.append((name, and_(*s, *cond), start, relax, forced))
    add_("the global incumbent was updated", [A.G], "global", True, False)
    s.append(not_(A.G))
    add_("no incumbent was updated", [A.N], "global", True, True)
    s.append(not_(A.N))
    add_("the local incumbent is not better than the global one and feasible", [A.gap, A.F], "global", True, True)
    add_("the local incumbent is not better than the global one and infeasible", [A.gap, not_(A.F)], "global", False, True)
    s.append(not_(A.gap))
    add_("the local incumbent is better and feasible", [A.F], "local", True, False)
    s.append(not_(A.F))
    add_("the objective range has collapsed", [A.R], "global", True, True)
    s.append(not_(A.R))
    add_("a feasible solution is known and the local incumbent improves on the last start", [A.found, imp], "local", False, False)
    add_("a feasible solution is known and the local incumbent does not improve on the last start", [A.found, not_(imp)], "previous", False, False)
    add_("no feasible solution is known", [not_(A.found)], "local", False, True)
    return out


def restart(ctx):
    N = Names(ctx)
    f, E = summary(ctx)
    A = Atoms(ctx, N)
    val = {k: state_value(E, N.s(v)) for k, v in dict(
        glob="employing_global_solution_flag", local="employing_local_solution_flag", prev="employing_previous_solution_flag",
        relax="is_enabled_penalty_coefficient_relaxing", tight="is_enabled_penalty_coefficient_tightening",
        forced="is_enabled_forcibly_initial_modification", reset="penalty_coefficient_reset_flag", cur="current_solution",
        nglob="employing_global_solution_count_after_relaxation", nloc="employing_local_solution_count_after_relaxation",
        nprev="employing_previous_solution_count_after_relaxation", after="iteration_after_relaxation", nrel="relaxation_count",
        pcur="previous_solution").items()}
    tosp = lambda t: mk("call", "printemps::solution::DenseSolution::to_sparse", t, ())
    want = {"global": N.h("m_global_augmented_incumbent_solution"), "local": N.h("m_local_augmented_incumbent_solution")}

    def flag(k, pc):
        v = val[k]
        if safe_implies(pc, v):
            return True
        if safe_implies(pc, not_(v)):
            return False
        return None

    for name, cond, start, relax, forced in cases(A):
        subs = [(name, cond, start, forced, False)] if relax else [
            (name + ", no reset", and_(cond, not_(A.reset)), start, forced, False),
            (name + ", stagnation", and_(cond, A.reset), "global", True, True)]
        for nm, pc, st, fo, rs in subs:
            if not safe_sat(pc):
                continue
            for k, exp, text in (("relax", relax, "relaxes the penalty coefficients"), ("tight", not relax, "tightens the penalty coefficients"),
                                 ("forced", fo, "asks for initial modifications"), ("reset", rs, "resets the penalty coefficients")):
                got = flag(k, pc)
                ctx.ob("direction", got is exp, ctx.at(f), "when %s, the outer loop %s %s, contrary to the restart rules" %
                       (nm, "does not always settle whether it" if got is None else "" if got else "never", text), key=nm + k,
                       sample="%s: %s=%s" % (nm, k, exp))
            v = under(val["cur"], pc)
            exp = N.s("current_solution") if st == "previous" else tosp(want[st])
            ctx.ob("start", v is exp or (st != "previous" and converted(v, want[st])), ctx.at(f), "when %s, the next search starts from %s instead of the %s solution" % (nm, str(v)[:200], st), key=nm + "start",
                   sample="%s: start from the %s solution" % (nm, st))
            for k, s2 in (("nglob", "global"), ("nloc", "local"), ("nprev", "previous")):
                base = N.s("employing_%s_solution_count_after_relaxation" % s2)
                e2 = ZERO if relax else add(base, num(1)) if s2 == st else base
                ctx.ob("counts", same_under(val[k], e2, pc), ctx.at(f), "when %s, the number of %s restarts after the last relaxation becomes %s" % (nm, s2, str(under(val[k], pc))[:200]), key=nm + k)
            e2 = ZERO if relax else add(N.s("iteration_after_relaxation"), num(1))
            ctx.ob("counts", same_under(val["after"], e2, pc), ctx.at(f), "when %s, the number of loops after the last relaxation becomes %s" % (nm, str(under(val["after"], pc))[:200]), key=nm + "after")
            e2 = add(N.s("relaxation_count"), num(1)) if relax else N.s("relaxation_count")
            ctx.ob("counts", same_under(val["nrel"], e2, pc), ctx.at(f), "when %s, the number of relaxations becomes %s" % (nm, str(under(val["nrel"], pc))[:200]), key=nm + "nrel")
    modes = or_(A.simple, A.smart)
    ctx.ob("previous", same_under(val["pcur"], N.s("current_solution"), modes), ctx.at(f), "the solution kept as the previous start is %s" % str(val["pcur"])[:200])
    # the penalty update requested is the one carried out, on the whole state
    for what, k in (("reset_local_penalty_coefficient", "reset"), ("tighten_local_penalty_coefficient", "tight"), ("relax_local_penalty_coefficient", "relax")):
        cs = [e for e in E.effects if e.kind == "call" and e.v is not None and str(e.v).endswith("::" + what)]
        if not cs:
            raise Broken("%s is not called as such" % what)
        done = or_(*[e.pc for e in cs])
        want_ = and_(modes, val[k]) if k != "tight" else and_(modes, val["tight"], not_(val["reset"]))
        ctx.ob("carried-out", safe_equiv(and_(done, modes), want_) or all(safe_equiv(and_(done, c), and_(want_, c)) for _, c, *_ in cases(A)), ctx.at(f, cs[0]), "%s does not happen exactly when it is asked for" % what)


def converted(v, src):
    return v.op == "call" and v.a[0].endswith("::to_sparse") and v.a[1] is src


def bookkeeping(ctx):
    N = Names(ctx)
    f, E = summary(ctx)
    A = Atoms(ctx, N)
    modes = or_(A.simple, A.smart)
    rows = [
        ("is_global_augmented_incumbent_updated", A.G, "that the global incumbent was updated"),
        ("current_is_feasible_incumbent_updated", A.Fi, "that the feasible incumbent was updated"),
        ("previous_is_feasible_incumbent_updated", N.s("current_is_feasible_incumbent_updated"), "that the feasible incumbent was updated one loop before"),
        ("is_not_updated", A.N, "that no incumbent was updated"),
        ("is_outer_stagnation", A.outer, "outer stagnation"),
        ("is_inner_stagnation", A.inner, "inner stagnation"),
        ("is_improved", or_(A.io, A.iv), "that the local incumbent improves on the last start"),
        ("is_objective_improved", A.io, "that the objective improves on the last start"),
        ("is_feasibility_improved", A.iv, "that the violation improves on the last start"),
    ]
    for n, ref, text in rows:
        v = state_value(E, N.s(n))
        ok = all(safe_implies(and_(modes, c), v if p else not_(v)) for p, c in ((True, ref), (False, not_(ref))))
        ctx.ob("status", ok, ctx.at(f), "the outer loop records %s as %s" % (text, str(v)[:300]), key=n, sample="%s == %s" % (n, str(ref)[:120]))
    nums = [
        ("iteration_after_global_augmented_incumbent_update", A.cnt, "loops since the global incumbent was updated"),
        ("total_number_of_inner_iterations", add(N.s("total_number_of_inner_iterations"), N.r("number_of_iterations")), "inner iterations so far"),
        ("total_number_of_evaluated_moves", add(N.s("total_number_of_evaluated_moves"), N.r("number_of_evaluated_moves")), "evaluated moves so far"),
        ("total_update_status", mk("op|", N.s("total_update_status"), N.r("total_update_status")), "incumbents updated so far"),
        ("tabu_search_result", sym("$0"), "last search's result"),
        ("previous_primal_intensity", N.s("current_primal_intensity"), "previous primal intensity"),
        ("previous_dual_intensity", N.s("current_dual_intensity"), "previous dual intensity"),
        ("current_primal_intensity", N.fld(N.mem, N.cls("solver::Memory"), "m_primal_intensity"), "primal intensity"),
        ("current_dual_intensity", N.fld(N.mem, N.cls("solver::Memory"), "m_dual_intensity"), "dual intensity"),
    ]
    for n, ref, text in nums:
        v = state_value(E, N.s(n))
        alt = mk("op|", N.r("total_update_status"), N.s("total_update_status"))
        ok = same_under(v, ref, modes) or (n == "total_update_status" and same_under(v, alt, modes))
        ctx.ob("bookkeeping", ok, ctx.at(f), "the record of the %s becomes %s instead of %s" % (text, str(v)[:200], str(ref)[:200]), key=n, sample="%s := %s" % (n, str(ref)[:120]))
    v = state_value(E, N.s("global_augmented_incumbent_solution"))
    src = N.h("m_global_augmented_incumbent_solution")
    ctx.ob("bookkeeping", converted(under(v, and_(modes, A.G)), src), ctx.at(f), "after an update of the global incumbent the record of it is %s" % str(v)[:200], key="gs")
    ctx.ob("bookkeeping", under(v, and_(modes, not_(A.G))) is N.s("global_augmented_incumbent_solution") or converted(under(v, and_(modes, not_(A.G))), src), ctx.at(f), "without an update of the global incumbent the record of it becomes %s" % str(v)[:200], key="gs2")


SAME = ("total_update_status", "elapsed_time", "number_of_updated_moves", "number_of_evaluated_moves", "elapsed_time_for_move_evaluation", "elapsed_time_for_move_update",
        "termination_status", "tabu_tenure", "last_local_augmented_incumbent_update_iteration", "last_global_augmented_incumbent_update_iteration",
        "last_feasible_incumbent_update_iteration", "is_few_permissible_neighborhood", "is_found_new_feasible_solution")


def core_result(ctx):
    """the result of one tabu search reports the state that search ended with"""
    f = ctx.fn1("TabuSearchCoreResult::setup", 2)
    E = ctx.run(f)
    sc = [n for n in ctx.P.records if n.endswith("core::TabuSearchCoreState")]
    ctx.need(len(sc) == 1, "TabuSearchCoreState")
    names = {x["n"].split("::")[-1]: x["n"] for x in ctx.P.records[sc[0]]["fields"]}
    want = {n: n for n in SAME}
    want["number_of_iterations"] = "iteration"
    for n, s in want.items():
        ctx.need(s in names, "state field " + s)
        v = final_value(E, lambda t: fname(t) == n and t.a[0] is THIS)
        ref = mk("fld", sym("$0"), names[s])
        ctx.ob("result", v is ref, ctx.at(f), "the %s a tabu search reports is %s, not that of its final state" % (n, str(v)[:200]), key=n, sample="%s := state.%s" % (n, s))
    v = final_value(E, lambda t: fname(t) == "global_augmented_objective_range" and t.a[0] is THIS)
    fl = [x for x in subterms(v) if x.op == "fld" and fname(x) not in ("m_max", "m_min") and x.a[0] is sym("$0")] if v is not None else []
    ok = v is not None and all(fname(x) == "global_augmented_objective_range" for x in fl) and len(set(fl)) == 1
    if ok and v.op == "poly":
        mx = [x for x in subterms(v) if fname(x) == "m_max"]
        mn = [x for x in subterms(v) if fname(x) == "m_min"]
        ok = len(mx) == 1 and len(mn) == 1 and sub(v, sub(mx[0], mn[0])) is ZERO
    ctx.ob("result", ok, ctx.at(f), "the objective range a tabu search reports is %s" % str(v)[:200], key="range")


def hand_over(ctx):
    """the inner search gets the current solution and the adapted options; the update sees that search's result"""
    f = ctx.fn1("TabuSearchController::run", 0)
    E = ctx.run(f)
    core = [e for e in E.effects if e.kind == "call" and str(e.v).endswith("TabuSearchCore::(ctor)") and len(e.args) == 4]
    runs = [e for e in E.effects if e.kind == "call" and str(e.v).endswith("TabuSearchCore::run")]
    ups = [e for e in E.effects if e.kind == "call" and str(e.v).endswith(SM + "update")]
    ctx.need(core and runs, "construction and run of the inner search")
    for c in core:
        a = c.args
        ok = fname(a[2]) == "current_solution" and fname(a[2].a[0]) == "m_state"
        ctx.ob("hand-over", ok, ctx.at(f, c), "the inner search starts from %s, not from the outer loop's current solution" % a[2], key="start")
        o = unloc(E, a[3])
        ok = o.op == "call" and o.a[0].endswith("::create_option")
        ctx.ob("hand-over", ok, ctx.at(f, c), "the inner search runs with %s, not with the adapted options" % str(o)[:200], key="opt")
        for w in writes(E):
            if w.seq < c.seq and w.t is not a[3] and is_sub(w.t, a[3]) and a[3].op == "loc":
                ctx.ob("hand-over", False, ctx.at(f, w), "the adapted options are changed before the inner search: %s := %s" % (w.t, w.v))
    if not ups:
        raise Broken("the state update is not called as such")
    for u in ups:
        src = u.args[0]
        ok = src.op == "fld" and fname(src) == "m_result" and any(r.t is src.a[0] and r.seq < u.seq for r in runs)
        ctx.ob("hand-over", ok, ctx.at(f, u), "the outer loop is updated with %s, not with the result of the search just run" % str(src)[:200], key="res")
    ctx.ob("hand-over", safe_equiv(or_(*[u.pc for u in ups]), or_(*[r.pc for r in runs])), ctx.at(f, ups[0]), "the outer loop is not updated after every inner search", key="upd")
    nx = [e for e in E.effects if e.kind == "call" and str(e.v).endswith(SM + "next_iteration")] + [w for w in writes(E, "iteration") if w.loops]
    ctx.ob("hand-over", bool(nx) and safe_equiv(or_(*[u.pc for u in nx]), or_(*[r.pc for r in runs])), ctx.at(f, nx[0] if nx else None), "the outer loop is not counted after every inner search", key="next")


def run(ctx):
    ctx.rule("the state left by TabuSearchControllerStateManager::update, as guarded terms over the state before and the search result, agrees with the restart rules in every case")
    ctx.section(restart)
    ctx.section(bookkeeping)
    ctx.section(core_result)
    ctx.section(hand_over)
