"""P16: solution archives stay bounded, ordered and keep the right solutions."""
from common import *

AR = "SolutionArchive::"
SM = "printemps::solution::SortMode::"


def mode(t, m):
    return eq(t, mk("enum", SM + m))


def unwrap(t):
    while t.op == "ctor" and "iterator" in t.a[0] and t.a[1]:
        t = t.a[1][0]
    return t


def end_of(t, c, which):
    t = unwrap(t)
    return t.op == "call" and t.a[0].split("::")[-1] in (which, "c" + which) and t.a[1] is c


def offset(t, c):
    """k such that t is c.begin() + k, else None"""
    t = unwrap(t)
    if end_of(t, c, "begin"):
        return ZERO
    if end_of(t, c, "end"):
        return None
    if t.op == "call" and t.a[0].split("::")[-1] in ("operator+", "operator-", "next", "prev"):
        o = t.a[1]
        args = t.a[2]
        if o is None:
            if len(args) != 2:
                return None
            o, x = args
        else:
            x = args[0]
        k = offset(o, c)
        if k is None or unwrap(x).op == "call" and unwrap(x).a[0].endswith(("begin", "end")):
            return None
        return add(k, x) if t.a[0].split("::")[-1] in ("operator+", "next") else sub(k, x)
    return None


def lam_ret(ctx, E, t, f, args):
    return run_stored_lambda(ctx, E, t, f["file"], args=args).ret


def push(ctx):
    fs = ctx.fns(AR + "push", 1)
    vec = [f for f in fs if "vector" in str(f["p"][0].get("t"))]
    one = [f for f in fs if f not in vec]
    ctx.need(len(vec) == 1, "push(solutions)")
    for f in one:
        E = ctx.run(f, opaque=(AR + "push",))
        cs = list(calls(E, "push"))
        ok = len(cs) == 1 and cs[0].pc is TRUE and cs[0].t is THIS and contains(cs[0].args[0], lambda x: x is mk("sym", "$0"))
        if not cs and any(e.kind == "call" and fname(e.t) == "m_solutions" for e in E.effects):
            raise Broken("push(solution)")
        ctx.ob("single-push", ok, ctx.at(f), "pushing one solution does not push exactly that solution")
    f = vec[0]
    E = ctx.run(f, sizes=True)
    S = fld(THIS, "printemps::solution::SolutionArchive::m_solutions")
    cands = {e.t for e in E.effects if e.kind == "call" and fname(e.t) == "m_solutions"}
    ctx.need(len(cands) == 1, "stored solutions")
    S = cands.pop()
    arg = mk("sym", "$0")
    sm = next((x for e in E.effects for x in subterms(e.pc) if fname(x) == "m_sort_mode"), None)
    mx = next((x for e in E.effects for q in [e.pc] + list(e.args or ()) if isinstance(q, T) for x in subterms(q) if fname(x) == "m_max_size"), None)
    ctx.need(sm is not None and mx is not None, "sort mode and maximum size")
    asc, desc = mode(sm, "Ascending"), mode(sm, "Descending")
    mut = [e for e in E.effects if e.kind == "call" and e.t is S]
    ins = [e for e in mut if callee(e) in ("insert", "push_back", "emplace_back", "emplace")]
    # every offered solution is added at the end
    whole = [e for e in ins if callee(e) == "insert" and len(e.args) == 3 and end_of(e.args[0], S, "end") and end_of(e.args[1], arg, "begin") and end_of(e.args[2], arg, "end") and not e.loops]
    each = [e for e in ins if callee(e) in ("push_back", "emplace_back") and len(e.loops) == 1 and e.loops[0] is mk("idx", ZERO, size_of(arg)) and e.args[0].op == "at" and e.args[0].a[0] is arg]
    ok = bool(ins) and len(ins) == len(whole) + len(each) and safe_implies(TRUE, or_(*[e.pc for e in whole + each]))
    ctx.ob("offered-solutions-added", ok and len(ins) == 1, ctx.at(f), "not every offered solution is added exactly once", sample="insert(end, all)")
    last_in = max([e.seq for e in ins], default=-1)
    # order
    A, B = mk("sym", "first"), mk("sym", "second")
    sorts = [e for e in E.effects if e.kind == "call" and callee(e) in ("sort", "stable_sort") and e.args and end_of(e.args[0], S, "begin")]
    trunc = []
    for e in mut:
        if e.seq > last_in and callee(e) in ("resize", "erase", "clear", "pop_back"):
            trunc.append(e)
    for m, g, less in (("Ascending", asc, True), ("Descending", desc, False)):
        act = [e for e in sorts if safe_sat(and_(e.pc, g))]
        cover = bool(act) and safe_implies(g, or_(*[e.pc for e in act])) and all(e.seq > last_in and not e.loops and end_of(e.args[1], S, "end") for e in act)
        ctx.ob("ordered", cover, ctx.at(f), "the archive is not sorted after every insertion when its ordering is %s" % m, sample=m)
        for e in act:
            if len(e.args) < 3:
                raise Broken("comparison of the ordering")
            t = lam_ret(ctx, E, e.args[2], f, [A, B])
            a, b = [next((x for x in subterms(t) if fname(x) == "objective" and x.a[0] is v), None) for v in (A, B)]
            if a is None or b is None:
                ctx.ob("ordering-criterion", False, ctx.at(f, e), "ordering %s does not compare objectives: %s" % (m, t))
                continue
            before = lt(a, b) if less else lt(b, a)
            after = lt(b, a) if less else lt(a, b)
            ctx.ob("ordering-criterion", implies_split(before, t) and implies_split(after, not_(t)) and implies_split(eq(a, b), not_(t)), ctx.at(f, e), "ordering %s sorts by %s" % (m, t), sample="%s: %s" % (m, t))
            later = [x for x in mut if x.seq > e.seq and callee(x) in ("push_back", "insert", "emplace_back")]
            ctx.ob("order-kept", not later, ctx.at(f, e), "solutions are added after sorting")
    off = and_(not_(asc), not_(desc))
    ctx.ob("unordered-kept", not any(safe_sat(and_(e.pc, off)) for e in sorts), ctx.at(f), "an unordered archive is reordered")
    # removals: duplicates and overflow only
    over = FALSE
    for e in trunc:
        c = callee(e)
        if c == "erase" and len(e.args) == 2:
            a, b = unwrap(e.args[0]), e.args[1]
            if a.op == "call" and a.a[0].split("::")[-1] == "unique":
                ok = end_of(b, S, "end") and end_of(a.a[2][0], S, "begin") and end_of(a.a[2][1], S, "end")
                ctx.need(len(a.a[2]) == 3, "comparison of duplicates")
                t = lam_ret(ctx, E, a.a[2][2], f, [A, B])
                va, vb = [next((x for x in subterms(t) if fname(x) == "variables" and x.a[0] is v), None) for v in (A, B)]
                ok = ok and va is not None and vb is not None and implies_split(t, eq(va, vb))
                ctx.ob("only-duplicates-merged", ok, ctx.at(f, e), "solutions with different variable values are merged as duplicates (%s)" % t, sample=show(t))
                continue
            k1 = offset(e.args[0], S)
            k2 = offset(e.args[1], S)
            if k1 is None:
                raise Broken("removed range %s" % e.args[0])
            sz = mk("sizeat", S, e.ep) if e.ep is not None else size_of(S)
            if end_of(e.args[1], S, "end"):
                # keeps the first k1
                ok = k1 is mx
                kept = "first"
            else:
                ctx.need(k2 is not None, "removed range %s" % e.args[1])
                ok = k1 is ZERO and sub(k2, sub(sz, mx)) is ZERO
                kept = "last"
        elif c == "resize":
            sz = mk("sizeat", S, e.ep) if e.ep is not None else size_of(S)
            ok = e.args[0] is mx
            kept = "first"
        else:
            raise Broken("removal by %s" % c)
        ctx.ob("bounded", ok, ctx.at(f, e), "a full archive is not cut to its maximum size", sample="%s to %s" % (c, mx))
        ctx.ob("cut-only-when-full", safe_implies(e.pc, and_(lt(ZERO, mx), lt(mx, sz))), ctx.at(f, e), "solutions are dropped although the archive is not over its maximum size (or the size is not the current one)", sample=show(e.pc)[:200])
        ctx.ob("worst-dropped", safe_implies(e.pc, or_(asc, desc) if kept == "first" else off), ctx.at(f, e), "the %s solutions are kept in an archive for which they are not the best (or newest)" % kept)
        over = or_(over, e.pc)
        sz_used = sz
    ctx.need(over is not FALSE, "cut of a full archive")
    ctx.ob("always-cut-when-full", safe_implies(and_(lt(ZERO, mx), lt(mx, sz_used)), over), ctx.at(f), "a full archive is not always cut")
    cut = [e for e in trunc if callee(e) == "resize" or callee(e) == "erase" and not (unwrap(e.args[0]).op == "call" and unwrap(e.args[0]).a[0].endswith("unique"))]
    for e in cut:
        ctx.ob("sorted-before-cut", all(x.seq < e.seq for x in sorts), ctx.at(f, e), "the archive is cut before it is sorted")


def fields(ctx):
    fs = {"m_max_size", "m_sort_mode", "m_name", "m_number_of_variables", "m_number_of_constraints", "m_has_feasible_solution"}
    for name in ("initialize", "setup"):
        f = ctx.fn1(AR + name)
        E = ctx.run(f)
        for n in sorted(fs):
            w = [e for e in writes(E, n) if e.t.a[0] is THIS and e.pc is TRUE]
            ctx.ob("all-fields-set", bool(w), ctx.at(f), "%s leaves %s as it was" % (name, n), sample=n)
            if n == "m_has_feasible_solution" and w:
                ctx.ob("no-feasible-at-start", is_false(w[-1].v), ctx.at(f, w[-1]), "a new archive claims to have a feasible solution")
        cl = [e for e in E.effects if e.kind == "call" and callee(e) == "clear" and fname(e.t) == "m_solutions" and e.pc is TRUE]
        ctx.ob("starts-empty", bool(cl) or any(fname(e.t) == "m_solutions" for e in writes(E)), ctx.at(f), "%s keeps old solutions" % name)
    f = ctx.fn1(AR + "setup")
    E = ctx.run(f)
    for n, i in (("m_max_size", 0), ("m_sort_mode", 1), ("m_name", 2), ("m_number_of_variables", 3), ("m_number_of_constraints", 4)):
        w = list(writes(E, n))
        ctx.ob("setup-argument", bool(w) and w[-1].v is mk("sym", "$%d" % i), ctx.at(f), "%s is not set from its argument" % n)


def feasible(ctx):
    f = ctx.fn1(AR + "remove_infeasible_solutions")
    E = ctx.run(f)
    rm = [e for e in E.effects if e.kind == "call" and callee(e) == "remove_if"]
    ctx.need(rm, "removal of infeasible solutions")
    A = mk("sym", "solution")
    t = lam_ret(ctx, E, rm[0].args[2], f, [A])
    fe = next((x for x in subterms(t) if fname(x) == "is_feasible" and x.a[0] is A), None)
    ctx.ob("infeasible-removed", fe is not None and safe_equiv(t, not_(fe)), ctx.at(f), "remove_infeasible_solutions removes solutions with %s" % t, sample=show(t))
    for f in ctx.fns(AR + "update_has_feasible_solution"):
        E = ctx.run(f)
        src = mk("sym", "$0") if f["p"] else None
        for e in writes(E, "m_has_feasible_solution"):
            fe = [x for x in subterms(e.pc) if fname(x) == "is_feasible"]
            if is_false(e.v):
                ctx.ob("indication-truthful", not f["p"] and not any(safe_sat(and_(e.pc, x)) for x in fe) and bool(fe), ctx.at(f, e), "the feasible-solution indication is cleared by offered solutions")
                continue
            ok = False
            for x in fe:
                ok = ok or safe_implies(e.pc, x)
            ex = [x for x in conj(e.pc) if x.op == "exists" and fname(x.a[-1]) == "is_feasible"]
            rootok = all((contains(x, lambda y: y is src) if src is not None else has_field(x, "m_solutions")) for x in fe)
            if e.v is not TRUE and not ex and contains(e.v, lambda y: fname(y) == "is_feasible"):
                vs = e.v
                ok = vs.op == "exists" or fname(vs) == "m_has_feasible_solution" or vs.op == "or"
                rootok = True
            ctx.ob("indication-truthful", (ok or bool(ex)) and rootok, ctx.at(f, e), "the feasible-solution indication is set without a feasible solution", sample=show(e.pc)[:120])


def recorders(ctx):
    """what the search stages record"""
    for st in ("TabuSearchCore", "LocalSearchCore", "LagrangeDualCore"):
        f = ctx.fn1(st + "::run", 0)
        E = ctx.run(f)
        ps = [e for e in E.effects if e.kind == "call" and fname(e.t) == "m_feasible_solutions" and callee(e) in ("push_back", "emplace_back", "insert")]
        ctx.need(ps, "recording of feasible solutions in " + st)
        for e in ps:
            fe = [x for x in conj(e.pc) if fname(x) == "is_feasible"]
            ctx.ob("only-feasible-recorded", bool(fe), ctx.at(f, e), "a solution is recorded as feasible without being feasible", sample=st)
            opt = [x for x in conj(e.pc) if fname(x) == "is_enabled_store_feasible_solutions"]
            ctx.ob("recorded-iff-enabled", bool(opt), ctx.at(f, e), "feasible solutions are recorded although the option is off")
            if fe and opt:
                # the model moves that visit a solution in this loop: each is followed by the recording
                us = [x for x in calls(E, "Model::update") if x.loops == e.loops and x.seq < e.seq]
                if us:
                    got = or_(*[x.pc for x in ps if x.loops == e.loops])
                    ok = safe_implies(and_(us[-1].pc, fe[0], opt[0]), got)
                    ctx.ob("every-feasible-recorded", ok, ctx.at(f, e), "%s: a visited feasible solution is not recorded although the option asks for it" % st, sample=st)
            a = e.args[0]
            ex = a.op == "call" and a.a[0].endswith("export_sparse_solution") or a.op == "call" and a.a[0].endswith("to_sparse")
            ctx.ob("current-recorded", ex and has_field(a, "m_model_ptr"), ctx.at(f, e), "the recorded feasible solution is %s, not the model's current one" % a, sample=show(a))
            up = [x for x in E.effects if x.kind == "call" and callee(x) == "update_dependent_variables_and_disabled_constraints" and x.seq < e.seq and safe_implies(e.pc, x.pc) and len(x.loops) == len(e.loops)]
            ctx.ob("recorded-complete", bool(up), ctx.at(f, e), "a solution is recorded before its dependent values were computed")
        inc = [e for e in E.effects if e.kind == "call" and fname(e.t) == "m_incumbent_solutions" and callee(e) in ("push_back", "emplace_back")]
        for e in inc:
            ctx.ob("incumbent-recorded", has_field(e.args[0], "m_global_augmented_incumbent_solution"), ctx.at(f, e), "the recorded incumbent is %s" % e.args[0])
    # hand-over to the archives
    for st in ("TabuSearchController", "LocalSearchController", "LagrangeDualController"):
        for f in ctx.fns(st + "::run"):
            E = ctx.run(f, opaque=("update_feasible_solution_archive", "update_incumbent_solution_archive_and_search_tree"))
            cs = list(calls(E, "update_feasible_solution_archive"))
            ctx.need(cs, "hand-over of feasible solutions in " + st)
            for e in cs:
                opt = [x for x in subterms(e.pc) if fname(x) == "is_enabled_store_feasible_solutions"]
                runs = [x for x in E.effects if x.kind == "call" and callee(x) == "run" and x.seq < e.seq]
                base = runs[-1].pc if runs else TRUE
                ok = bool(opt) and safe_implies(e.pc, opt[0])
                ctx.ob("archived-iff-enabled", ok, ctx.at(f, e), "feasible solutions are archived although the option is off")
                if opt and runs:
                    full = safe_implies(and_(base, opt[0]), e.pc) and not any(x.kind in ("break", "continue", "ret") and runs[-1].seq < x.seq < e.seq and safe_sat(x.pc) for x in E.effects)
                    ctx.ob("always-archived", full, ctx.at(f, e), "feasible solutions of a run are not always archived")
                ctx.ob("archived-source", has_field(e.args[0], "m_feasible_solutions"), ctx.at(f, e), "%s is archived as feasible" % e.args[0], sample=show(e.args[0]))
    f = ctx.fn1("AbstractSolverController::update_feasible_solution_archive")
    E = ctx.run(f)
    ps = list(calls(E, "push"))
    A = mk("sym", "$0")
    ok = len(ps) == 1 and ps[0].args[0] is A and fname(ps[0].t) == "feasible_solution_archive" and safe_implies(not_(eq(size_of(A), ZERO)), ps[0].pc)
    ctx.ob("archived-source", ok, ctx.at(f), "offered feasible solutions are not pushed to the feasible archive")
    f = ctx.fn1("Solver::preprocess")
    E = ctx.run(f)
    ss = [e for e in calls(E, "setup") if fname(e.t) in ("feasible_solution_archive", "incumbent_solution_archive")]
    ss += [e for e in E.effects if e.kind == "write" and has_field(e.t, "feasible_solution_archive")]
    fe = [e for e in ss if e.kind == "call" and fname(e.t) == "feasible_solution_archive"]
    if fe:
        for e in fe:
            ctx.ob("archive-capacity", fname(e.args[0]) == "feasible_solutions_capacity", ctx.at(f, e), "the capacity of the feasible archive is %s" % e.args[0], sample=show(e.args[0]))
            ismin = next((x for x in subterms(e.args[1]) if fname(x) == "m_is_minimization"), None)
            ok = ismin is not None and under(e.args[1], ismin) is mk("enum", SM + "Ascending") and under(e.args[1], not_(ismin)) is mk("enum", SM + "Descending")
            ctx.ob("archive-order", ok, ctx.at(f, e), "the feasible archive is ordered by %s" % e.args[1], sample=show(e.args[1]))
    else:
        w = {fname(e.t): e for e in E.effects if e.kind == "write" and e.t.op == "fld" and fname(e.t.a[0]) == "feasible_solution_archive"}
        ctx.need("m_max_size" in w and "m_sort_mode" in w, "set-up of the feasible archive")
        ctx.ob("archive-capacity", fname(w["m_max_size"].v) == "feasible_solutions_capacity", ctx.at(f, w["m_max_size"]), "the capacity of the feasible archive is %s" % w["m_max_size"].v, sample=show(w["m_max_size"].v))
        v = w["m_sort_mode"].v
        ismin = next((x for x in subterms(v) if fname(x) == "m_is_minimization"), None)
        ok = ismin is not None and under(v, ismin) is mk("enum", SM + "Ascending") and under(v, not_(ismin)) is mk("enum", SM + "Descending")
        ctx.ob("archive-order", ok, ctx.at(f, w["m_sort_mode"]), "the feasible archive is ordered by %s" % v, sample=show(v))


def run(ctx):
    ctx.rule("SolutionArchive::push adds all offered solutions, then sorts by the declared ordering, then cuts to the maximum size keeping the right end; what the stages record and hand over")
    for s in (push, fields, feasible, recorders):
        ctx.section(s)
