"""P21: tabu moves are chosen only by aspiration or for want of a non-tabu candidate."""
from common import *

VAR = "printemps::model_component::Variable::"
CORE = "TabuSearchCore::"
LAST = "m_local_last_update_iteration"
BIG = 1e30


def S(k):
    return mk("sym", "$%d" % k)


def recognition(ctx):
    f = ctx.fn1("TabuSearchCoreMoveEvaluator::compute_permissibility", 2)
    E = ctx.run(f)
    al = [x for e in E.effects for y in (e.pc, e.v) if y is not None for x in subterms(y) if fname(x) == "alterations"]
    last = [x for e in E.effects for y in (e.pc, e.v) if y is not None for x in subterms(y) if fname(x) == LAST]
    ctx.need(al and last, "compute_permissibility no longer compares the last update iteration of the move's variables")
    al = al[0]
    ctx.ob("own-move", al.a[0] is S(0), ctx.at(f), "the tabu test looks at the alterations of %s, not of the move it is given" % al.a[0])
    field = last[0].a[1]
    dom = mk("idx", ZERO, size_of(al))
    dur = S(1)

    def recent(i):
        return lt(dur, mk("fld", getn(0, mk("at", al, i)), field))
    def stale(i):
        return not_(recent(i))
    b = mk("iv", "b1")
    mode = [x for e in E.effects for x in subterms(e.pc) if x.op in ("eq", "eq0") and has_field(x, "tabu_mode")]
    mode += [x for e in E.effects if e.v is not None for x in subterms(e.v) if x.op in ("eq", "eq0") and has_field(x, "tabu_mode")]
    sense = [x for e in E.effects for y in (e.pc, e.v) if y is not None for x in subterms(y) if x.op in ("eq", "eq0") and has_field(x, "sense")]
    ctx.need(mode and sense, "compute_permissibility no longer distinguishes the tabu mode and the move sense")
    all_ = [x for x in mode if "TabuMode::All" in str(x)]
    any_ = [x for x in mode if "TabuMode::Any" in str(x)]
    ctx.need(all_ or any_, "tabu mode test " + str(mode[0]))
    is_all = all_[0] if all_ else not_(any_[0])
    link = TRUE
    if all_ and any_:
        link = not_(and_(all_[0], any_[0]))
        link = and_(link, or_(all_[0], any_[0]))
    sel = [x for x in sense if "MoveSense::Selection" in str(x)]
    if any("MoveSense::" in str(x) for x in sense) and not sel:
        ctx.ob("recognition", False, ctx.at(f), "the tabu test treats moves specially by the sense test %s instead of 'is a selection move'" % sense[0])
        return
    ctx.need(len(set(sense)) == 1 and sel, "move sense test " + str(sense[0]))
    A = and_(is_all, not_(sel[0]))
    EX_R = exists_(dom, "b1", recent(b))
    EX_S = exists_(dom, "b1", stale(b))
    spec = or_(and_(A, EX_S), and_(not_(A), not_(EX_R)))
    rets = [e for e in E.effects if e.kind == "ret"]
    ctx.need(rets, "compute_permissibility returns nothing")
    for e in rets:
        facts = [link]
        for k, d in enumerate(e.loops):
            if d is dom:
                i = mk("iv", k)
                facts += [or_(stale(i), EX_R), or_(recent(i), EX_S)]
        pc = and_(e.pc, *facts)
        v = e.v
        if v.op == "n":
            v = mk("b", bool(v.a[0]))
        t = and_(pc, v)
        u = and_(pc, not_(v))
        known = {x for x in subterms(and_(t, u)) if x.op == "exists"} <= {EX_R, EX_S}
        if not known and not (safe_implies(t, spec) and safe_implies(u, not_(spec))):
            raise Broken("quantified tabu test %s" % v)
        ctx.ob("recognition", safe_implies(t, spec) and safe_implies(u, not_(spec)), ctx.at(f, e),
               "compute_permissibility returns %s when %s: a move is to be permitted exactly if (mode All, not a selection move) some or (otherwise) every changed variable was last updated at or before the duration" % (e.v, e.pc), sample="%s => %s" % (e.pc, e.v))


def evaluator(ctx):
    f = ctx.fn1("TabuSearchCoreMoveEvaluator::evaluate", 4)
    E = ctx.run(f)
    ws = list(order(writes(E, "is_permissible")))
    ctx.need(ws, "the move evaluator does not store permissibility")
    w = ws[-1]
    ctx.ob("stored", w.pc is TRUE, ctx.at(f, w), "permissibility is stored only when %s" % w.pc)
    v = w.v
    ctx.need(v.op == "call" and v.a[0].split("::")[-1] == "compute_permissibility", "permissibility stored as %s" % v)
    ctx.ob("stored", v.a[2][0] is S(1) and v.a[2][1] is S(3) and w.t.a[0] is S(0), ctx.at(f, w),
           "the stored permissibility is %s, not that of the move and duration being evaluated" % v, sample=str(v))


def extremum(t):
    """('min'|'max', container, score field) if t is the position of an extreme element"""
    if t.op == "call" and t.a[0].split("::")[-1] == "distance" and len(t.a[2]) == 2:
        b, m = t.a[2]
        if m.op == "call" and m.a[0].split("::")[-1] in ("min_element", "max_element") and len(m.a[2]) == 2:
            cs = [x.a[1] for x in (b, m.a[2][0], m.a[2][1]) if x.op == "call"]
            if len(cs) == 3 and cs[0] is cs[1] is cs[2]:
                return m.a[0].split("::")[-1][:3], cs[0], None
    if t.op == "call" and t.a[0].split("::")[-1].startswith("argmin_index_"):
        return "min", t.a[2][0], t.a[0].split("argmin_index_")[-1]
    return None


def selection(ctx):
    f = ctx.fn1(CORE + "select_move", 3)
    E = ctx.run(f)
    rets = [e for e in E.effects if e.kind == "ret"]
    TOT, MOV, SOL = S(0), S(1), S(2)
    ctx.need(rets, "select_move returns nothing")
    for e in rets:
        v = e.v
        if v.op == "ite":
            alts = list(leaves(v, e.pc))
        else:
            alts = [(e.pc, v)]
        for pc0, v in alts:
            ctx.need(v.op == "ctor" and len(v.a[1]) == 2, "select_move returns %s" % v)
            idx, asp = v.a[1]
            for pc, x in leaves(idx, pc0):
                ex = extremum(x)
                if ex is None:
                    raise Broken("selected index %s" % x)
                kind, c, score = ex
                if c is TOT:
                    ctx.ob("best-total", kind == "min", ctx.at(f, e), "select_move takes the worst instead of the best total score: %s" % x, sample="%s when %s" % (x, pc))
                    continue
                ctx.ob("best-total", c is SOL and kind == "min", ctx.at(f, e), "select_move takes %s, which is neither the best total score nor the best candidate overall" % x)
                if c is not SOL:
                    continue
                cur = [y for y in subterms(and_(pc, e.pc)) if fname(y) == "m_global_augmented_incumbent_objective"]
                sc = [y for y in subterms(and_(pc, e.pc)) if y.op == "fld" and y.a[0].op == "at" and y.a[0].a[0] is SOL and y.a[0].a[1] is x]
                good = False
                for q in sc:
                    if fname(q) == "global_augmented_objective":
                        for y in cur:
                            if implies_split(and_(pc, e.pc), lt(q, y)):
                                good = True
                ctx.ob("aspiration", good, ctx.at(f, e), "select_move overrides the tabu list with %s when %s, which does not imply that the candidate beats the best known penalised solution" % (x, pc),
                       sample="override when %s" % pc)
                ctx.ob("aspiration-criterion", score in (None, "global_augmented_objective"), ctx.at(f, e), "the aspiration candidate is chosen by %s" % score)
                opt = [y for y in subterms(and_(pc, e.pc)) if fname(y) == "ignore_tabu_if_global_incumbent"]
                ctx.ob("aspiration-option", bool(opt) and safe_implies(and_(pc, e.pc), opt[0]), ctx.at(f, e), "the tabu list is overridden although the aspiration option is off")
    g = [x for x in ctx.P.find("solution::argmin_index_global_augmented_objective")]
    ctx.need(len(g) == 1, "argmin_index_global_augmented_objective")
    g = g[0]
    E = ctx.run(g)
    r = [e for e in E.effects if e.kind == "ret"]
    ctx.need(len(r) == 1, "argmin_index_global_augmented_objective returns at several places")
    v = r[0].v
    if v.op != "loopval":
        ex = extremum(v)
        ctx.need(ex, "argmin value %s" % v)
        ctx.ob("argmin", ex[0] == "min", ctx.at(g, r[0]), "argmin_index_global_augmented_objective returns %s" % v)
        return
    step = [x for x in v.a if hasattr(x, "op") and x.op == "ite"]
    ctx.need(len(step) == 1, "argmin step %s" % v)
    c, x, y = step[0].a[:3]
    ctx.need(x.op == "iv" or y.op == "iv", "argmin step %s" % step[0])
    if y.op == "iv":
        c, x, y = not_(c), y, x
    s = [z for z in subterms(c) if fname(z) == "global_augmented_objective"]
    m = [z for z in subterms(c) if z.op == "phi"]
    ctx.need(s and m, "argmin comparison %s" % c)
    ctx.ob("argmin", c is lt(s[0], m[0]) or c is le(s[0], m[0]), ctx.at(g, r[0]), "argmin_index_global_augmented_objective keeps a candidate when %s" % c, sample=str(c))


def loop(ctx):
    f = ctx.fn1(CORE + "run", 0)
    E = ctx.run(f, inline=("next_iteration",))
    ev = [e for e in calls(E, "evaluate") if "MoveEvaluator" in str(e.v)]
    ctx.need(len(ev) == 1, "the loop evaluates tabu status at %d places" % len(ev))
    ev = ev[0]
    it = [x for x in subterms(ev.args[3]) if fname(x) == "iteration"]
    ten = [x for x in subterms(ev.args[3]) if fname(x) == "tabu_tenure"]
    ctx.ob("tenure", bool(it) and bool(ten) and ev.args[3] is sub(it[0], ten[0]), ctx.at(f, ev),
           "tabu status is judged with duration %s, not with iteration - tabu tenure" % ev.args[3], sample=str(ev.args[3]))
    ms, mv = ev.args[0], ev.args[1]
    ctx.need(ms.op == "at" and mv.op == "at", "evaluated move %s" % mv)
    ctx.ob("same-index", ms.a[1] is mv.a[1], ctx.at(f, ev), "the tabu status of move %s is stored as that of move %s" % (mv.a[1], ms.a[1]))
    dom = ev.loops[-1]
    i = ms.a[1]
    sel = [e for e in calls(E, "select_move")]
    ctx.need(len(sel) == 1, "select_move called at %d places" % len(sel))
    tot, mscores, sscores = sel[0].args
    ctx.ob("same-scores", mscores is ms.a[0], ctx.at(f, sel[0]), "select_move is given %s as the tabu status" % mscores)
    # every candidate evaluated: the loop covers the size of the containers
    sz = {str(e.t): e.args[0] for e in E.effects if e.kind == "call" and callee(e) == "resize"}
    n = sz.get(str(tot))
    if n is not None and dom.op == "idx":
        ctx.ob("all-candidates", dom.a[0] is ZERO and dom.a[1] is n, ctx.at(f, ev), "candidates %s are evaluated, but %s total scores are compared" % (dom, n), sample=str(dom))
    # total score
    ws = [e for e in order(writes(E)) if e.t is not None and e.t.op == "at" and e.t.a[0] is tot and e.seq < sel[0].seq]
    ctx.need(ws, "no total score is written")
    perm = None
    for e in ws:
        ctx.ob("same-index", e.t.a[1] is i and e.loops and e.loops[-1] is dom, ctx.at(f, e), "total score %s written for candidate %s" % (e.t, i))
        for x in subterms(and_(e.pc, TRUE)):
            if fname(x) == "is_permissible":
                perm = x
        for x in subterms(e.v):
            if fname(x) == "is_permissible":
                perm = x
    ctx.ob("tabu-penalised", perm is not None, ctx.at(f, ws[-1]), "the total score does not depend on the tabu status")
    if perm is None:
        return
    ctx.ob("same-index", perm.a[0] is ms, ctx.at(f, ws[-1]), "the total score of candidate %s uses the tabu status %s" % (i, perm))
    v = None
    for e in ws:
        own = [c for c in conj(e.pc) if c not in set(conj(ev.pc))]
        g = and_(*own) if own else TRUE
        v = e.v if g is TRUE else ite(g, e.v, v if v is not None else e.t)
    others = [x for x in split_conds(v) if x is not perm and not (x.op == "not" and x.a[0] is perm)]
    base_t = under(v, not_(perm))
    base_p = under(v, perm)
    n = 0
    # pair the leaves of both by their remaining conditions
    lt_ = list(leaves(base_t, not_(perm)))
    lp_ = list(leaves(base_p, perm))
    for ca, a in lt_:
        for cb, b in lp_:
            ra = subst(ca, {perm: FALSE})
            rb = subst(cb, {perm: TRUE})
            if not safe_sat(and_(ra, rb)):
                continue
            d = sub(a, b)
            if d.op != "n":
                raise Broken("total score of a tabu move differs from that of a non-tabu one by %s" % d)
            n += 1
            ctx.ob("tabu-penalised", float(d.a[0]) >= BIG, ctx.at(f, ws[-1]), "a tabu candidate's total score exceeds that of the same non-tabu candidate only by %s" % d, sample="+%g when tabu" % float(d.a[0]))
    ctx.need(n, "total score %s" % v)
    sp = [x for x in subterms(v) if fname(x) == "is_special_neighborhood_move"]
    for cb, b in lp_:
        c = [float(k) for m, k in poly_of(b).items() if m == ()]
        if c and c[0] >= BIG:
            ctx.ob("no-unfounded-penalty", bool(sp) and safe_implies(cb, sp[0]), ctx.at(f, ws[-1]), "a non-tabu ordinary candidate is penalised like a tabu one when %s" % cb)
    # what is applied and stamped
    up = [e for e in calls(E, "update") if "Model::update" in str(e.v) and e.args and e.seq > sel[0].seq]
    me = [e for e in calls(E, "update_memory") if e.seq > sel[0].seq] + [e for e in calls(E, "update") if "Memory::update" in str(e.v) and e.seq > sel[0].seq]
    ctx.need(len(up) == 1, "the selected move is applied at %d places" % len(up))
    tgt = up[0].args[0]
    idx = [x for x in subterms(tgt) if x.op == "get" and x.a[0] == 0 and x.a[1].op == "call" and x.a[1].a[0].split("::")[-1] == "select_move"]
    ctx.ob("apply-selected", tgt.op == "at" and bool(idx) and tgt.a[1] is idx[0] and tgt.a[0] is mv.a[0], ctx.at(f, up[0]), "the move applied is %s, not the selected candidate" % tgt, sample=str(tgt)[:200])
    ctx.ob("stamp", len(me) == 1 and me[0].args[0] is tgt and safe_equiv(and_(me[0].pc, up[0].pc), up[0].pc), ctx.at(f, me[0] if me else up[0]),
           "the move applied is %s, but %s is entered in the tabu memory" % (tgt, me[0].args[0] if me else "no move"))
    if me:
        nx = [e for e in order(writes(E, "iteration")) if e.seq > sel[0].seq]
        ctx.ob("stamp-iteration", not any(e.seq < me[0].seq for e in nx), ctx.at(f, me[0]), "the iteration counter advances between choosing a move and stamping it")


def stamping(ctx):
    for f in ctx.fns(CORE + "update_memory", 1):
        E = ctx.run(f)
        cs = [e for e in calls(E, "update") if "Memory::update" in str(e.v)]
        ctx.need(len(cs) == 1, "update_memory calls Memory::update %d times" % len(cs))
        e = cs[0]
        ctx.ob("stamp", e.pc is TRUE and e.args[0] is S(0), ctx.at(f, e), "update_memory enters %s into the memory when %s" % (e.args[0], e.pc))
        ctx.ob("stamp-iteration", fname(e.args[1]) == "iteration" and has_field(e.args[1], "m_state"), ctx.at(f, e), "moves are stamped with %s, not with the current iteration" % e.args[1], sample=str(e.args[1]))
        if len(e.args) > 2:
            w = e.args[2]
            inner = w.a[0] if w.op == "trunc" else w
            rate = [x for x in subterms(inner) if fname(x) == "tabu_tenure_randomize_rate"]
            ten = [x for x in subterms(inner) if fname(x) == "tabu_tenure"]
            if w.op != "n":
                ctx.ob("random-width", bool(rate) and bool(ten) and inner is mul(rate[0], ten[0]), ctx.at(f, e), "the stamp is randomised by +-%s, not by the randomize rate times the tenure" % w, sample=str(w))
    n = 0
    for f in ctx.fns("solver::Memory::update"):
        E = ctx.run(f)
        ws = [e for e in writes(E) if fname(e.t) == LAST]
        if not ws:
            for e in calls(E, "update"):
                if "Memory::update" in str(e.v):
                    ctx.ob("stamp", e.pc is TRUE and e.args[0] is S(0) and e.args[1] is S(1), ctx.at(f, e), "Memory::update passes on %s, %s" % (e.args[0], e.args[1]))
                    if len(e.args) > 2:
                        ctx.ob("stamp-iteration", e.args[2] is ZERO, ctx.at(f, e), "an unrandomised stamp is given the width %s" % e.args[2])
                    n += 1
            continue
        ctx.need(len(ws) == 1, "Memory::update stamps at %d places" % len(ws))
        e = ws[0]
        mv, it, w = (S(k) for k in range(3))
        good = len(e.loops) == 1 and e.loops[0].op == "idx" and e.loops[0].a[0] is ZERO and has_field(e.loops[0].a[1], "alterations") and e.pc is TRUE
        own = e.t.a[0].op == "get" and e.t.a[0].a[0] == 0 and e.t.a[0].a[1].op == "at" and fname(e.t.a[0].a[1].a[0]) == "alterations" and e.t.a[0].a[1].a[1].op == "iv"
        ctx.ob("stamp", good and own, ctx.at(f, e), "Memory::update stamps %s over %s when %s, not every variable the move changed" % (e.t, e.loops, e.pc), sample=str(e.t))
        ctx.ob("stamp-iteration", subst(e.v, {w: ZERO}) is it, ctx.at(f, e), "without randomisation a changed variable is stamped with %s, not with the iteration" % subst(e.v, {w: ZERO}), sample=str(e.v))
        d = sub(e.v, it)
        for pc, x in leaves(d, e.pc):
            if x is ZERO:
                continue
            ms = [y for y in subterms(x) if y.op == "op%"]
            ctx.need(len(ms) == 1, "random part of the stamp: %s" % x)
            m = ms[0].a[1] if len(ms[0].a) > 1 else None
            off = sub(x, ms[0])
            # -w <= off and off + m - 1 <= w
            lo = poly_of(add(off, w))
            hi = poly_of(sub(sub(w, off), m))
            ctx.ob("random-width", all(k >= 0 for k in lo.values()) and all(k >= (-1 if mm == () else 0) for mm, k in hi.items()), ctx.at(f, e), "the stamp deviates from the iteration by %s, which leaves +-%s" % (x, w), sample=str(x))
        n += 1
    ctx.need(n, "no Memory::update")


def others(ctx):
    """every other core that applies a move stamps the same move"""
    n = 0
    for name in ("LocalSearchCore::run", "LagrangeDualCore::run"):
        for f in ctx.fns(name, 0):
            E = ctx.run(f)
            ups = [e for e in calls(E, "update") if "Model::update" in str(e.v) and e.args]
            for u in ups:
                me = [e for e in calls(E, "update") if "Memory::update" in str(e.v)] + list(calls(E, "update_memory"))
                ok = [e for e in me if e.seq > u.seq and e.args[0] is u.args[0] and safe_implies(u.pc, e.pc)]
                ctx.ob("stamp", bool(ok), ctx.at(f, u), "%s applies %s without entering it in the memory" % (short(f["n"]), u.args[0]))
                n += 1
    for f in ctx.fns("TabuSearchCore::initial_modification", 0):
        E = ctx.run(f)
        ups = [e for e in calls(E, "update") if "Model::update" in str(e.v) and e.args]
        ctx.need(len(ups) == 1, "initial modification applies moves at %d places" % len(ups))
        u = ups[0]
        me = [e for e in calls(E, "update_memory") if e.seq > u.seq]
        ctx.ob("stamp", len(me) == 1 and me[0].args[0] is u.args[0] and safe_implies(u.pc, me[0].pc), ctx.at(f, u), "the initial modification applies %s but stamps %s" % (u.args[0], me[0].args[0] if me else "nothing"))
        ps = [e for e in calls(E, "push_back") if e.args and e.args[0].op == "at" and fname(e.args[0].a[0]) == "m_move_ptrs"]
        ctx.need(ps, "initial modification collects no candidates")
        for e in ps:
            cp = [x for x in subterms(e.pc) if x.op == "call" and x.a[0].split("::")[-1] == "compute_permissibility"]
            ctx.ob("initial-permissible", bool(cp) and cp[0].a[2][0] is e.args[0] and safe_implies(e.pc, cp[0]), ctx.at(f, e), "the initial modification takes a candidate when %s, without it being non-tabu" % e.pc)


def resets(ctx):
    f = ctx.fn1(CORE + "preprocess", 0)
    E = ctx.run(f)
    rs = list(calls(E, "reset_local_last_update_iterations"))
    im = list(calls(E, "initial_modification"))
    ctx.ob("fresh-memory", len(rs) == 1 and rs[0].pc is TRUE and all(rs[0].seq < e.seq for e in im), ctx.at(f, rs[0] if rs else None), "a tabu search starts without forgetting the stamps of the previous one")
    for f in ctx.fns("Memory::reset_local_last_update_iterations", 0):
        E = ctx.run(f)
        ws = [e for e in writes(E) if fname(e.t) == LAST]
        ctx.need(ws, "reset_local_last_update_iterations writes no stamp")
        for e in ws:
            ctx.ob("fresh-memory", e.pc is TRUE and len(e.loops) == 1 and has_field(e.t, "variable_ptrs") and asnum(e.v) is not None and asnum(e.v) < 0, ctx.at(f, e), "stamps are reset to %s for %s when %s" % (e.v, e.t, e.pc), sample=str(e.v))
    f = ctx.fn1(CORE + "run", 0)
    E = ctx.run(f)
    for e in calls(E, "reset_local_last_update_iterations"):
        ctx.ob("fresh-memory", not e.loops, ctx.at(f, e), "the tabu memory is erased during the search")


def tenure(ctx):
    f = ctx.fn1("TabuSearchCoreStateManager::setup", 3)
    E = ctx.run(f)
    t = {}
    for e in order(writes(E)):
        if fname(e.t) in ("tabu_tenure", "original_tabu_tenure"):
            t[fname(e.t)] = e
    ctx.need(len(t) == 2, "tenure set-up")
    for k, e in t.items():
        v = e.v
        if v.op == "max" or fname(v) == "initial_tabu_tenure" or has_field(v, "mutable_variable_ptrs") and v.op != "min":
            ctx.ob("tenure-start", False, ctx.at(f, e), "%s starts as %s, not as the option's value capped by the number of mutable variables" % (k, v))
            continue
        ctx.need(v.op == "min", "initial tenure %s" % v)
        ok = any(fname(x) == "initial_tabu_tenure" for x in v.a[0]) and e.pc is TRUE
        ctx.ob("tenure-start", ok and all(fname(x) == "initial_tabu_tenure" or has_field(x, "mutable_variable_ptrs") for x in v.a[0]), ctx.at(f, e), "%s starts as %s" % (k, v), sample=str(v))
    f = ctx.fn1("TabuSearchCoreStateManager::update_tabu_tenure", 0)
    E = ctx.run(f)
    ws = list(writes(E, "tabu_tenure"))
    ctx.need(ws, "update_tabu_tenure writes no tenure")
    for e in ws:
        for pc, x in leaves(e.v, e.pc):
            cur = e.t
            if fname(x) == "original_tabu_tenure":
                o = lt(x, cur)
                ctx.ob("tenure-change", implies_split(pc, o), ctx.at(f, e), "the tenure reverts to the original one although it was not longer (%s)" % pc)
            elif x.op == "min":
                ctx.ob("tenure-change", any(y is add(cur, num(1)) for y in x.a[0]) and any(has_field(y, "mutable_variable_ptrs") for y in x.a[0]), ctx.at(f, e), "the tenure is raised to %s" % x, sample=str(x))
            elif x.op == "max":
                ok = any(y is sub(cur, num(1)) for y in x.a[0]) and any(y.op == "n" and y.a[0] >= 1 for y in x.a[0])
                ctx.ob("tenure-change", ok, ctx.at(f, e), "the tenure is lowered to %s" % x, sample=str(x))
            elif x.op in ("poly", "fld"):
                d = sub(x, cur)
                ctx.need(d.op == "n", "tenure %s" % x)
                ctx.ob("tenure-change", d is ZERO or d.a[0] > 0 and any(implies_split(pc, lt(cur, y)) for y in subterms(pc) if has_field(y, "mutable_variable_ptrs")) or d.a[0] == -1 and implies_split(pc, lt(num(1), cur)), ctx.at(f, e), "the tenure becomes %s when %s (no limit)" % (x, pc))
            else:
                raise Broken("tenure %s" % x)


def run(ctx):
    ctx.section(recognition)
    ctx.section(evaluator)
    ctx.section(selection)
    ctx.section(loop)
    ctx.section(stamping)
    ctx.section(others)
    ctx.section(resets)
    ctx.section(tenure)
