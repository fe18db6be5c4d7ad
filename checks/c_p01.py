"""P01: incumbents improve only, and stay self-consistent."""
from common import *

HOLDER = "printemps::solution::IncumbentHolder"
REC = {"local_augmented": ("local_augmented_objective", 1), "global_augmented": ("global_augmented_objective", 2), "feasible": ("objective", 4)}
EPS = Fraction(1, 100000) * Fraction(1000001, 1000000)


def F(n):
    return mk("fld", THIS, HOLDER + "::" + n)


def score(n):
    return mk("fld", mk("sym", "$1"), "printemps::solution::SolutionScore::" + n)


def holder(ctx):
    fs = ctx.fns("IncumbentHolder::try_update_incumbent", 2)
    ctx.need(len(fs) == 2, "two try_update_incumbent overloads")
    for f in fs:
        from_model = f["p"][0]["t"].endswith("Model*")
        tag = "model" if from_model else "solution"
        E = ctx.run(f)
        feas = score("is_feasible")
        combos = {}
        for r, (crit, bit) in REC.items():
            obj = F("m_%s_incumbent_objective" % r)
            better = lt(score(crit), obj)
            clearly = lt(add(score(crit), num(EPS)), obj)
            if r == "feasible":
                better, clearly = and_(better, feas), and_(clearly, feas)
            ws = {}
            for part in ("solution", "score", "objective"):
                ws[part] = order(writes(E, "m_%s_incumbent_%s" % (r, part)))
                at = ctx.at(f, ws[part][0] if ws[part] else None)
                g = or_(*[e.pc for e in ws[part]]) if ws[part] else FALSE
                ctx.ob("improving-only", safe_implies(g, better), at, "%s record (%s) is replaced by a candidate that is not strictly better%s" % (r, part, " and feasible" if r == "feasible" else ""),
                       key="improve|%s|%s|%s" % (tag, r, part), sample="%s/%s guard %s" % (r, part, g))
                ctx.ob("improvement-recorded", safe_implies(clearly, g), at, "%s record (%s) is not replaced by a strictly better candidate" % (r, part), key="recorded|%s|%s|%s" % (tag, r, part))
                for e in ws[part]:
                    v = under(e.v, e.pc)
                    if part == "objective":
                        ok = v is score(crit)
                    elif part == "score":
                        ok = v is mk("sym", "$1")
                    elif from_model:
                        ok = v.op == "call" and v.a[0].endswith("Model::export_dense_solution") and v.a[1] is mk("sym", "$0")
                        ok = ok or (v.op == "sym" and False)
                    else:
                        ok = v is mk("sym", "$0")
                    ctx.ob("same-candidate", ok, ctx.at(f, e), "%s record: %s is taken from %s" % (r, part, v), key="same|%s|%s|%s" % (tag, r, part), sample="%s/%s := %s" % (r, part, v))
            combos[r] = or_(*[e.pc for e in ws["objective"]]) if ws["objective"] else FALSE
        # feasible flag
        fl = order(writes(E, "m_is_found_feasible_solution"))
        ctx.ob("found-flag", bool(fl) and all(e.v is TRUE and safe_implies(e.pc, feas) for e in fl) and safe_implies(feas, or_(*[e.pc for e in fl])), ctx.at(f, fl[0] if fl else None),
               "the feasible-found flag is not set exactly when the candidate is feasible")
        # dependent variables are brought up to date before export
        if from_model:
            ex = [e for e in calls(E, "Model::export_dense_solution")]
            up = [e for e in calls(E, "Model::update_dependent_variables_and_disabled_constraints")]
            for e in ex:
                ctx.ob("export-current", any(u.seq < e.seq and safe_implies(e.pc, u.pc) and u.t is mk("sym", "$0") for u in up), ctx.at(f, e),
                       "the candidate is exported before its dependent variables are brought up to date")
        # returned status
        for bits in range(8):
            pc = TRUE
            for r, (crit, bit) in REC.items():
                pc = and_(pc, combos[r] if bits & bit else not_(combos[r]))
            if not safe_sat(pc):
                continue
            v = under(E.ret, pc) if E.ret is not None else None
            ctx.ob("update-status", v is num(bits), ctx.at(f), "update status is %s when records %s were replaced" % (v, [r for r in REC if bits & REC[r][1]]), key="status|%s" % tag)
    # accessors
    for r in REC:
        for part in ("solution", "score", "objective"):
            g = ctx.fn1("IncumbentHolder::%s_incumbent_%s" % (r, part), 0)
            E = ctx.run(g)
            ctx.ob("accessor", E.ret is F("m_%s_incumbent_%s" % (r, part)), ctx.at(g), "%s returns %s" % (g["n"], E.ret))
    g = ctx.fn1("IncumbentHolder::is_found_feasible_solution", 0)
    ctx.ob("accessor", ctx.run(g).ret is F("m_is_found_feasible_solution"), ctx.at(g), "is_found_feasible_solution returns another quantity")
    # initial state: no record
    g = ctx.fn1("IncumbentHolder::initialize", 0)
    E = ctx.run(g)
    for r in REC:
        ws = order(writes(E, "m_%s_incumbent_objective" % r))
        ok = bool(ws) and ws[-1].pc is TRUE and ws[-1].v.op in ("n", "inf", "g", "call", "lit") and not (ws[-1].v.op == "n" and ws[-1].v.a[0] < 10 ** 30)
        ctx.ob("starts-empty", ok, ctx.at(g), "%s record starts with objective %s" % (r, ws[-1].v if ws else "unset"))
    ws = order(writes(E, "m_is_found_feasible_solution"))
    ctx.ob("starts-empty", bool(ws) and ws[-1].pc is TRUE and is_false(ws[-1].v), ctx.at(g), "the feasible-found flag does not start false")
    # nobody else writes the records
    fields = {HOLDER + "::m_%s_incumbent_%s" % (r, p) for r in REC for p in ("solution", "score", "objective")} | {HOLDER + "::m_is_found_feasible_solution"}
    allowed = {"initialize": fields, "try_update_incumbent": fields, "reset_local_augmented_incumbent": {HOLDER + "::m_local_augmented_incumbent_objective"}}
    for f in ctx.P.fn.values():
        if f.get("cls") != HOLDER or f.get("dflt"):
            continue
        name = f["n"].split("::")[-1]
        if name == "(ctor)" or not is_baseline(ctx.P, f):
            continue
        E = ctx.run(f)
        for e in writes(E):
            if e.t.op == "fld" and e.t.a[1] in fields:
                ctx.ob("writers", e.t.a[1] in allowed.get(name, ()), ctx.at(f, e), "%s overwrites %s without a comparison" % (short(f["n"]), fname(e.t)))
    # resets during a solve
    solve = ctx.fn1("Solver::solve", 0)
    R = reachable(ctx.P, [solve])
    ctx.need(len(R) > 300, "call graph of Solver::solve")
    for f, n in list(callers(ctx.P, "IncumbentHolder::initialize")) + list(callers(ctx.P, "GlobalState::initialize")):
        nm = f["n"]
        ok = f["id"] not in R or nm.endswith("(ctor)")
        ctx.ob("never-reset", ok, ctx.at(f), "%s discards the recorded solutions during a solve" % short(nm))
    for f in ctx.P.fn.values():
        if f["id"] in R:
            for n in walk(f["b"]):
                if n.get("k") in ("asg",) or (n.get("k") == "call" and n.get("op") == "="):
                    lhs = n["a"] if n["k"] == "asg" else (n.get("o") or n["a"][0])
                    if isinstance(lhs, dict) and lhs.get("k") == "m" and lhs.get("f", "").split("::")[-1] in ("incumbent_holder", "m_global_state"):
                        ctx.ob("never-reset", False, ctx.at(f), "%s overwrites the recorded solutions as a whole" % short(f["n"]))


def match_eval(ev, s, m):
    """does evaluation ev compute score location s for move m?  returns guard or None"""
    if len(ev.args) < 2:
        return None
    a, b = ev.args[0], ev.args[1]
    if a is s and b is m:
        return ev.pc
    for i in index_syms(a):
        # a = scores[#d]; s = scores[k]
        if a.op == "at" and s.op == "at" and a.a[0] is s.a[0] and a.a[1] is i:
            mp = {i: s.a[1]}
            if subst(b, mp) is m:
                return subst(ev.pc, mp)
    return None


def listed(t):
    """element k of a brace list"""
    if t.op == "at" and t.a[0].op == "ctor" and t.a[0].a[1] and t.a[0].a[1][0].op == "ilist" and t.a[1].op == "n":
        xs, k = t.a[0].a[1][0].a[0], t.a[1].a[0]
        if 0 <= k < len(xs):
            return xs[int(k)]
    return t


def cores(ctx):
    INL = ("*CoreStateManager::update", "update_solution_score", "update_update_status")
    loops = []
    for c in ("TabuSearchCore", "LocalSearchCore", "LagrangeDualCore"):
        f = ctx.fn1(c + "::run", 0)
        loops.append((c, f))
        # other functions of the search that move the model step by step
        for g in ctx.P.fn.values():
            if g.get("cls", "").endswith("::" + c) and g is not f and is_baseline(ctx.P, g) and not g["n"].endswith("::preprocess") and any(h is g for h, n in callers(ctx.P, "Model::update")):
                loops.append((c, g))
    for c, f in loops:
        E = ctx.run(f, inline=INL)
        U = [e for e in order(calls(E, "Model::update")) if e.loops]
        T = [e for e in order(calls(E, "IncumbentHolder::try_update_incumbent")) if e.loops]
        EV = [e for e in order(e for n in EVALS for e in calls(E, n))]
        ctx.need(U, c + ": model update in the loop")
        for u in U:
            nxt = [t for t in T if t.seq > u.seq and t.loops == u.loops]
            nu = min([x.seq for x in U if x.seq > u.seq] or [10 ** 9])
            ok = any(t.seq < nu and safe_implies(u.pc, t.pc) for t in nxt)
            ctx.ob("every-visited-solution-offered", ok, ctx.at(f, u), "%s: a visited solution is not offered as incumbent" % c)
        for t in T:
            prev = [u for u in U if u.seq < t.seq]
            if not ctx.ob("offered-after-update", bool(prev) and safe_implies(t.pc, prev[-1].pc), ctx.at(f, t), "%s: a candidate is offered although the model was not moved to it" % c):
                continue
            u = prev[-1]
            s = listed(t.args[1])
            mp = t.args[0]
            ctx.ob("offers-own-model", has_field(mp, "m_model_ptr") and has_field(u.t, "m_model_ptr"), ctx.at(f, t), "%s: the candidate is offered from %s" % (c, mp))
            if not u.args:
                ok = s.op == "call" and s.a[0].endswith("Model::evaluate") and any(u.seq < e.seq < t.seq and safe_implies(t.pc, e.pc) for e in EV)
                ctx.ob("score-of-candidate", ok, ctx.at(f, t), "%s: the candidate is offered with score %s, not with the evaluation of the updated model" % (c, s))
                continue
            m = u.args[0]
            cov = FALSE
            last = None
            for e in EV:
                if e.seq < u.seq:
                    g = match_eval(e, s, m)
                    if g is not None:
                        cov = or_(cov, g)
                        last = e
            if last is None and not any(e.args and (e.args[0] is s or s.op == "at" and e.args[0].op == "at" and e.args[0].a[0] is s.a[0]) for e in EV):
                raise Broken("%s: the scores a candidate is offered with are kept in an unrecognised way" % c)
            idx = {x for x in index_syms(cov)}
            ok = safe_implies(t.pc, cov) if not idx else False
            ctx.ob("score-of-candidate", ok, ctx.at(f, t), "%s: the candidate is offered with score %s, which was not evaluated for the applied move" % (c, s), sample="%s scored by %s" % (m, s))
            # the move is not modified between its evaluation and its application
            for e in E.effects:
                if e.kind == "call" and e.seq < u.seq and callee(e) in ("adjust",) and any(a is m for a in e.args or ()):
                    re = [x for x in EV if e.seq < x.seq < u.seq and match_eval(x, s, m) is not None and safe_implies(and_(e.pc, u.pc), x.pc)]
                    ctx.ob("re-evaluated-after-adjust", bool(re), ctx.at(f, e), "%s: the move is adjusted but offered with its score before the adjustment" % c)
        if not f["n"].endswith("::run"):
            continue
        # initial candidate
        g = ctx.fn1(c + "::preprocess", 0)
        Eg = ctx.run(g)
        imp = [e for e in calls(Eg, "Model::import_solution") if e.pc is TRUE]
        upd = [e for e in calls(Eg, "Model::update") if e.pc is TRUE and not e.args]
        st = [e for e in calls(Eg, c + "StateManager::setup") if e.pc is TRUE]
        ok = bool(imp and upd and st) and imp[0].seq < upd[-1].seq < st[0].seq and mentions(imp[0].args[0], "m_initial_solution") and mentions(st[0].args[0], "m_model_ptr")
        ctx.ob("initial-candidate", ok, ctx.at(g), "%s: the initial candidate is scored before the model is moved to the initial solution" % c)
        h = ctx.fn1(c + "StateManager::setup", 3)
        Eh = ctx.run(h)
        tu = list(calls(Eh, "IncumbentHolder::try_update_incumbent"))
        ok = len(tu) >= 1 and all(x.args[0] is mk("sym", "$0") and x.args[1].op == "call" and x.args[1].a[0].endswith("Model::evaluate") and x.args[1].a[1] is mk("sym", "$0") for x in tu)
        ctx.ob("initial-candidate", ok, ctx.at(h), "%s: the initial candidate is not offered with its own score" % c)
    # solver start
    f = ctx.fn1("Solver::preprocess", 0)
    E = ctx.run(f)
    tu = list(calls(E, "IncumbentHolder::try_update_incumbent"))
    up = [e for e in calls(E, "Model::update") if not e.args]
    ex = [e for e in calls(E, "Model::export_dense_solution")]
    ok = len(tu) == 1 and any(u.seq < tu[0].seq and safe_implies(tu[0].pc, u.pc) for u in up)
    if ok:
        a, s = tu[0].args
        ok = contains(a, lambda x: x.op == "call" and x.a[0].endswith("export_dense_solution")) or any(w.t is a and mentions(w.v, "export_dense_solution") for w in E.effects if w.kind in ("write", "init"))
        ok = ok and s.op == "call" and s.a[0].endswith("Model::evaluate") and all(e.seq > max(u.seq for u in up if u.seq < tu[0].seq) for e in ex if e.seq < tu[0].seq)
    ctx.ob("initial-candidate", ok, ctx.at(f), "the solver's start solution is not offered with its own score")
    # all call sites are known
    sites = {g["n"] for g, n in callers(ctx.P, "IncumbentHolder::try_update_incumbent") if is_baseline(ctx.P, g)}
    for s in sites:
        ok = s.endswith("CoreStateManager::setup") or s.endswith("CoreStateManager::update_update_status") or s.endswith("Solver::preprocess") or s.endswith("CoreStateManager::update") or s.endswith("Core::run")
        ctx.ob("known-sites", ok, s, "a candidate is offered outside the search loops, in %s" % short(s))


def run(ctx):
    ctx.rule("guarded-effect analysis of IncumbentHolder (replacement guard implies strict improvement and is implied by it; the three parts of a record come from one candidate), "
             "and of every search loop (each model move is followed by an offer whose score was evaluated for exactly that move)")
    ctx.section(holder)
    ctx.section(cores)
    ctx.atleast("same-candidate", 18)
    ctx.atleast("score-of-candidate", 3)
