"""P02: moves never change fixed variables or leave bounds."""
from common import *

VAR = "printemps::model_component::Variable::"


def vf(v, n):
    return mk("fld", v, VAR + n)


def flag_slots(L, flags_ok):
    """ordered flag writes per slot; inner constant loops are unrolled"""
    W = []
    for e in order(writes(L)):
        if e.t.op == "at" and flags_ok(e.t.a[0]):
            ivs = sorted(index_syms(e.t.a[1]), key=str)
            todo = [(e.t.a[1], e.pc)]
            inner = [d for d in range(len(e.loops)) if d > 0 and any(x.a[0] == d for x in ivs)]
            for d in inner:
                dom = e.loops[d]
                if dom.op == "idx" and dom.a[0].op == "n" and dom.a[1].op == "n" and dom.a[1].a[0] - dom.a[0].a[0] <= 64:
                    todo = [(subst(i, {mk("iv", d): num(k)}), subst(pc, {mk("iv", d): num(k)})) for i, pc in todo
                            for k in range(int(dom.a[0].a[0]), int(dom.a[1].a[0]))]
            for i, pc in todo:
                W.append((i, pc, e))
    return W


def nonzero_conditions(L, flags_ok):
    """slot -> (condition under which its flag is non-zero afterwards)"""
    W = flag_slots(L, flags_ok)
    slots = []
    for i, pc, e in W:
        if i not in slots:
            slots.append(i)
    out = {}
    for s in slots:
        init = mk("sym", "flag-before")
        cond = not_(eq(init, ZERO))
        for i, pc, e in W:
            if i is not s:
                continue
            # tests of the flag itself refer to its current value
            cur = e.t if e.t.a[1] is s else mk("at", e.t.a[0], s)
            pc = subst(pc, {eq(cur, ZERO): not_(cond)})
            depth = 1 if index_syms(s) else 0
            loops = list(e.loops)
            ivd = [x.a[0] for x in index_syms(s) if isinstance(x.a[0], int)]
            own = max(ivd) + 1 if ivd else 0
            for d in range(len(loops) - 1, own - 1, -1):
                if contains(pc, lambda x: x.op == "iv" and x.a[0] == d):
                    pc = exists_(loops[d], d, pc)
            nz = not_(eq(asnum(e.v), ZERO)) if e.v.op != "b" else e.v
            cond = or_(and_(cond, not_(pc)), and_(pc, nz))
        out[s] = (cond, [e for i, pc, e in W if i is s][-1])
    return out


def setup_alterations(E):
    """slot index -> list of (variable term, value term) given in setup; copies between slots are followed"""
    A = {}
    last = {}
    for e in order(x for x in E.effects if x.kind in ("call", "write")):
        if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and e.t is not None and fname(e.t) == "alterations":
            base = e.t.a[0]
            if base.op == "at" and fname(base.a[0]) == "m_moves":
                a = e.args
                if len(a) == 1 and a[0].op in ("ctor", "call", "pair"):
                    a = a[0].a[-1]
                A.setdefault(base.a[1], []).append(tuple(a[:2]) if len(a) >= 2 else (a[0], None))
        elif e.kind == "write" and e.t.op == "at" and fname(e.t.a[0]) == "m_moves" and e.v.op == "at" and fname(e.v.a[0]) == "m_moves":
            A[e.t.a[1]] = list(A.get(e.v.a[1], []))
        elif e.kind == "write" and e.t.op == "get" and e.t.a[1].op == "at" and fname(e.t.a[1].a[0]) == "alterations":
            base = e.t.a[1].a[0].a[0]
            k = e.t.a[1].a[1]
            if base.op == "at" and fname(base.a[0]) == "m_moves" and k.op == "n":
                l = A.setdefault(base.a[1], [])
                while len(l) <= k.a[0]:
                    l.append((None, None))
                v = list(l[int(k.a[0])])
                v[int(e.t.a[0]) if not isinstance(e.t.a[0], T) else int(e.t.a[0].a[0])] = e.v
                l[int(k.a[0])] = tuple(v)
    return A


def updater_values(L):
    """(slot, k) -> [(part, value, pc)] written by the updater"""
    R = {}
    for e in order(writes(L)):
        t = e.t
        if t.op == "get" and t.a[1].op == "at" and fname(t.a[1].a[0]) == "alterations":
            base = t.a[1].a[0].a[0]
            if base.op == "at" and base.a[0] is mk("sym", "$0"):
                part = t.a[0] if not isinstance(t.a[0], T) else int(t.a[0].a[0])
                R.setdefault((base.a[1], t.a[1].a[1]), []).append((int(part), e.v, e.pc, e))
    return R


def drop_div(p, up, g):
    """bound p from above (up) or below, removing integer division by a positive constant of a quantity whose sign g decides"""
    for s in list(subterms(p)):
        if s.op in ("idiv", "div") and s.a[1].op == "n" and s.a[1].a[0] >= 1:
            x = s.a[0]
            c = poly_of(p).get((s,), 0)
            hi = (c > 0) == up
            if safe_implies(g, le(ZERO, x)):
                r = mul(num(Fraction(1) / s.a[1].a[0]), x) if hi else ZERO
            elif safe_implies(g, le(x, ZERO)):
                r = ZERO if hi else mul(num(Fraction(1) / s.a[1].a[0]), x)
            else:
                return None
            return drop_div(subst(p, {s: r}), up, g)
    return p


def nonneg(p, g):
    """does guard g imply p >= 0 (p may contain min/max of linear terms)?"""
    for s in subterms(p):
        if s.op in ("min", "max"):
            c = poly_of(p).get((s,), None)
            if c is None:
                return False
            alts = [subst(p, {s: o}) for o in s.a[0]]
            # p = c*min(..)+r : >=0 iff (c>0: all, c<0: any)
            if (s.op == "min") == (c > 0):
                return all(nonneg(a, g) for a in alts)
            return any(nonneg(a, g) for a in alts)
    q = drop_div(p, False, g)
    if q is None:
        return False
    # the quantities are integers: q >= 0 iff q > -1
    return safe_implies(g, le(ZERO, q)) or (q is p and safe_implies(g, lt(num(-1), q)))


def mutable_source(ctx, v, E, seen):
    """is v an element of a vector that holds only non-fixed variables?"""
    if v.op != "at":
        return False
    c = v.a[0]
    if c.op == "call" and c.a[0].endswith("extract_mutable_variable_ptrs"):
        return True
    if c.op == "loc" or c.op == "sym":
        for e in E.effects:
            if e.kind == "init" and e.t is c and e.v is not None and e.v.op == "call" and e.v.a[0].endswith("extract_mutable_variable_ptrs"):
                return True
        ps = [e for e in E.effects if e.kind == "call" and e.t is c and callee(e) in ("push_back", "emplace_back")]
        if ps and all(safe_implies(e.pc, not_(vf(e.args[0], "m_is_fixed"))) for e in ps):
            return True
    return False


BINARY = {"BinaryMoveGenerator", "SelectionMoveGenerator", "ChainMoveGenerator", "TwoFlipMoveGenerator", "SoftSelectionMoveGenerator", "ExclusiveOrMoveGenerator",
          "ExclusiveNorMoveGenerator", "TrinomialExclusiveNorMoveGenerator"}


def generators(ctx):
    pol = lambda f: True if suffix(f["n"], "Move::has_fixed_variable") or suffix(f["n"], "Move::has_bound_violation") or suffix(f["n"], "Move::has_selection_variable") else None
    ref = {}
    for n in ("has_fixed_variable", "has_selection_variable", "has_bound_violation"):
        f = ctx.fn1("Move::" + n, 0)
        ref[n] = ctx.run(f).ret
    al = mk("fld", THIS, "printemps::neighborhood::Move::alterations")
    b = mk("iv", "b1")
    a0, a1 = getn(0, mk("at", al, b)), getn(1, mk("at", al, b))
    dom = mk("idx", ZERO, size_of(al))
    want = {"has_fixed_variable": exists_(dom, "b1", vf(a0, "m_is_fixed")),
            "has_bound_violation": exists_(dom, "b1", or_(lt(a1, vf(a0, "m_lower_bound")), lt(vf(a0, "m_upper_bound"), a1)))}
    for n, w in want.items():
        f = ctx.fn1("Move::" + n, 0)
        ctx.ob("move-predicate", ref[n] is not None and safe_equiv(ref[n], w), ctx.at(f), "Move::%s does not test every alteration: it returns %s" % (n, ref[n]))
    gens = ctx.fns("setup", pred=lambda f: f["n"].endswith("MoveGenerator::setup"))
    ctx.need(len(gens) >= 17, "move generators (%d)" % len(gens))
    for f in gens:
        g = f["n"].split("::")[-2]
        E = ctx.run(f)
        up = [e for e in order(writes(E, "m_move_updater"))]
        ctx.need(up and all(e.v in E.lams for e in up), g + ": updater lambda")
        for u in up:
            L = run_stored_lambda(ctx, E, u.v, f["file"], policy=pol)
            fl = lambda t: t is mk("sym", "$1") or (t.op in ("mut", "call") and contains(t, lambda x: x is mk("sym", "$1")))
            conds = nonzero_conditions(L, fl)
            ctx.need(conds, g + ": availability flags")
            A = setup_alterations(E)
            U = updater_values(L)
            for s, (cond, e) in conds.items():
                at = ctx.at(f, e)
                mv = mk("at", mk("sym", "$0"), s)
                inst = lambda t: subst(t, {THIS: mv})
                name = "%s slot %s" % (g, s)
                # fixed
                ok = safe_implies(cond, not_(inst(want["has_fixed_variable"])))
                if not ok:
                    alts = A.get(s, [])
                    ok = bool(alts) and all(v is not None and mutable_source(ctx, v, E, ()) for v, _ in alts)
                ctx.ob("fixed-filtered", ok, at, "%s: a move that changes a fixed variable can be marked available" % name, sample="%s available when %s" % (name, cond))
                # user moves and two-flips must not tear selections
                if g in ("UserDefinedMoveGenerator", "TwoFlipMoveGenerator"):
                    ctx.ob("selection-filtered", safe_implies(cond, not_(inst(ref["has_selection_variable"]))), at, "%s: a move that changes a selection variable can be marked available" % name)
                # bounds
                ok = safe_implies(cond, not_(inst(want["has_bound_violation"])))
                if not ok:
                    ok = bounds_by_value(ctx, E, g, s, cond, A, U, mv)
                ctx.ob("bounds-filtered", ok, at, "%s: a move that takes a variable out of its bounds can be marked available" % name)
    # the helper that drops fixed variables
    f = ctx.fn1("extract_mutable_variable_ptrs", 1)
    E = ctx.run(f)
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back", "insert")]
    ctx.ob("mutable-only", bool(ps) and all(callee(e) != "insert" and safe_implies(e.pc, not_(vf(e.args[0], "m_is_fixed"))) for e in ps), ctx.at(f), "extract_mutable_variable_ptrs keeps fixed variables")


def bounds_by_value(ctx, E, g, s, cond, A, U, mv):
    alts = A.get(s, [])
    n = len(alts)
    if n == 0 or not U:
        # targets are fixed in setup (or, for chains, copied from 0/1 moves): 0/1 alterations that differ from the current value
        al = mk("fld", mv, "printemps::neighborhood::Move::alterations")
        b = mk("iv", "b1")
        same = exists_(mk("idx", ZERO, size_of(al)), "b1", eq(vf(getn(0, mk("at", al, b)), "m_value"), getn(1, mk("at", al, b))))
        if U or not safe_implies(cond, not_(same)):
            return False
        given = [e for e in E.effects if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and e.t is not None and fname(e.t) == "alterations"]
        given += [e for e in writes(E) if e.t.op == "get" and e.t.a[1].op == "at" and fname(e.t.a[1].a[0]) == "alterations"]
        if not given:
            return g == "ChainMoveGenerator"
        return all((e.v if e.kind == "write" else e.args[-1]) in (ZERO, ONE) for e in given)
    for k in range(n):
        v, val = alts[k]
        vals = [(x, pc) for part, x, pc, e in U.get((s, num(k)), []) if part == 1]
        vv = [x for part, x, pc, e in U.get((s, num(k)), []) if part == 0]
        if vv:
            v = vv[-1]
        if not vals and val is not None:
            vals = [(val, TRUE)]
        if vals and vals[-1][1] is not TRUE and val is not None and not safe_implies(cond, or_(*[pc for _, pc in vals])):
            vals = [(val, TRUE)] + vals
        for x, pc in vals:
            c = and_(cond, pc)
            if not safe_sat(c):
                continue
            if g in BINARY:
                if x is ZERO or x is ONE or (v is not None and x is sub(ONE, vf(v, "m_value"))):
                    continue
            if v is None:
                return False
            lb, ub, cv = vf(v, "m_lower_bound"), vf(v, "m_upper_bound"), vf(v, "m_value")
            c = and_(c, le(lb, cv), le(cv, ub))
            if not (nonneg(sub(ub, x), c) and nonneg(sub(x, lb), c)):
                return False
    return True


def application(ctx):
    # every value written to a variable while solving goes through the fixed test
    f = ctx.fn1("Variable::set_value_if_mutable", 1)
    E = ctx.run(f)
    ws = order(writes(E, "m_value"))
    fx = vf(THIS, "m_is_fixed")
    ctx.ob("mutable-write", bool(ws) and safe_equiv(or_(*[e.pc for e in ws]), not_(fx)) and all(e.v is mk("sym", "$0") for e in ws), ctx.at(f), "set_value_if_mutable does not write exactly when the variable is not fixed")
    for n in ("set_value", "operator="):
        for f in ctx.fns("Variable::" + n, 1, pred=lambda f: f["p"][0]["t"] == "int"):
            E = ctx.run(f)
            ws = order(writes(E, "m_value"))
            bad = and_(fx, not_(eq(mk("sym", "$0"), vf(THIS, "m_value"))))
            ctx.ob("fixed-assignment-rejected", bool(ws) and all(not safe_sat(and_(e.pc, bad)) for e in ws), ctx.at(f), "%s changes a fixed variable" % short(f["n"]))
    f = ctx.fn1("Model::update", 1, pred=lambda f: f["p"][0]["t"].endswith("Move"))
    E = ctx.run(f)
    al = mk("fld", mk("sym", "$0"), "printemps::neighborhood::Move::alterations")
    n = 0
    for e in calls(E, "Variable::set_value_if_mutable"):
        a = mk("at", al, mk("iv", len(e.loops) - 1))
        ctx.ob("applies-own-alteration", e.t is getn(0, a) and e.args[0] is getn(1, a) and e.pc is TRUE, ctx.at(f, e), "Model::update(move) writes %s into %s" % (e.args[0], e.t))
        n += 1
    ctx.ob("applies-own-alteration", n > 0 and not list(writes(E, "m_value", lambda e: e.t.a[1].startswith(VAR))), ctx.at(f), "Model::update(move) writes variables without the fixed test")
    # no other unguarded writers reachable from the search loops
    roots = [ctx.fn1(c + "::run", 0) for c in ("TabuSearchCore", "LocalSearchCore", "LagrangeDualCore", "TabuSearchController", "LocalSearchController", "LagrangeDualController", "PDLPController")]
    R = reachable(ctx.P, roots)
    allowed = {"Variable::set_value_if_mutable", "Variable::update", "Variable::set_value", "Variable::operator=", "Variable::initialize", "Variable::setup_sense_binary_or_integer"}
    for fid in R:
        f = ctx.P.fn[fid]
        for nd in walk(f["b"]):
            if nd.get("k") == "asg" and isinstance(nd.get("a"), dict) and nd["a"].get("k") == "m" and nd["a"].get("f") in (VAR + "m_value", VAR + "m_is_fixed", VAR + "m_lower_bound", VAR + "m_upper_bound"):
                fld_ = nd["a"]["f"].split("::")[-1]
                for g in owners(ctx.P, f):
                    w = "::".join(g["n"].split("::")[-2:])
                    if fld_ == "m_value":
                        ok = w in allowed or w in ("Variable::set_bound", "Variable::fix_by")
                    elif fld_ == "m_is_fixed":
                        ok = w in ("Variable::fix_by", "Variable::fix")
                    else:
                        ok = w in ("Variable::set_bound",)
                    ok = ok or g["n"].endswith("(ctor)")
                    ctx.ob("search-writers", ok, ctx.at(f), "%s changes %s of a variable during the search" % (short(g["n"]), fld_))
    # candidate list = flagged moves of enabled generators
    f = ctx.fn1("Neighborhood::update_moves")
    E = ctx.run(f)
    n = 0
    for e in writes(E):
        if e.t.op == "at" and fname(e.t.a[0]) == "m_move_ptrs":
            n += 1
            v = e.v
            if v.op == "addr":
                v = v.a[0]
            ok = v.op == "at" and fname(v.a[0]) == "m_moves"
            if ok:
                gen = v.a[0].a[0]
                fl = [x for x in subterms(e.pc) if x.op == "at" and fname(x.a[0]) == "m_flags" and x.a[0].a[0] is gen and x.a[1] is v.a[1]]
                en = [x for x in subterms(e.pc) if x.op == "fld" and fname(x) == "m_is_enabled" and x.a[0] is gen]
                ok = bool(fl and en) and safe_implies(e.pc, not_(eq(fl[0], ZERO))) and safe_implies(e.pc, en[0])
            ctx.ob("only-available-selected", ok, ctx.at(f, e), "a move enters the candidate list although it is not marked available or its neighborhood is off (%s under %s)" % (e.v, e.pc))
    for e in E.effects:
        if e.kind == "call" and e.t is not None and fname(e.t) == "m_move_ptrs" and callee(e) in ("push_back", "emplace_back"):
            n += 1
            v = e.args[0]
            ok = v.op == "at" and fname(v.a[0]) == "m_moves"
            if ok:
                gen = v.a[0].a[0]
                fl = mk("at", mk("fld", gen, v.a[0].a[1].rsplit("::", 1)[0] + "::m_flags"), v.a[1])
                ok = safe_implies(e.pc, not_(eq(fl, ZERO)))
            ctx.ob("only-available-selected", ok, ctx.at(f, e), "a move enters the candidate list although it is not marked available")
    ctx.need(n, "Neighborhood::update_moves candidate list")
    f = ctx.fn1("AbstractMoveGenerator::update_moves")
    E = ctx.run(f)
    cs = [e for e in E.effects if e.kind == "call" and callee(e) == "operator()" and fname(e.t) == "m_move_updater"]
    ok = len(cs) == 1 and fname(cs[0].args[0]) == "m_moves" and fname(cs[0].args[1]) == "m_flags" and list(cs[0].args[2:]) == [mk("sym", "$%d" % i) for i in range(5)] and cs[0].pc is TRUE
    ctx.ob("updater-called", ok, ctx.at(f), "AbstractMoveGenerator::update_moves does not refresh its own moves and flags with its arguments")


def searched(ctx):
    """the move a search applies is one of the moves refreshed in the same iteration"""
    n = 0
    for c in ("TabuSearchCore", "LocalSearchCore"):
        for g in {h["id"] if "id" in h else id(h): h for h, _ in callers(ctx.P, "Model::update") if h.get("cls", "").endswith("::" + c) and is_baseline(ctx.P, h)}.values():
            E = ctx.run(g, inline=(c + "::update_moves",))
            for e in calls(E, "Model::update"):
                if not e.args or not e.loops:
                    continue
                m = e.args[0]
                if m.op == "deref":
                    m = m.a[0]
                if m.op != "at":
                    continue
                cont = m.a[0]
                fresh = [x for x in calls(E, "Neighborhood::update_moves") if x.loops == e.loops and x.seq < e.seq]
                if fname(cont) == "m_move_ptrs":
                    ok = bool(fresh) and safe_implies(e.pc, or_(*[x.pc for x in fresh]))
                elif cont.op == "loc":
                    ps = [x for x in E.effects if x.kind == "call" and x.t is cont and callee(x) in ("push_back", "emplace_back")]
                    if not ps:
                        continue
                    new = [x for x in E.effects if x.loops == e.loops and x.seq < ps[0].seq and (x.kind == "call" and x.t is cont and callee(x) == "clear" or x.kind == "init" and x.t is cont) and safe_implies(e.pc, x.pc)]
                    ok = all(x.args and x.args[0].op == "at" and fname(x.args[0].a[0]) == "m_move_ptrs" for x in ps) and bool(new)
                    ok = ok and any(x.seq < ps[0].seq and safe_implies(e.pc, x.pc) for x in fresh)
                else:
                    continue
                n += 1
                ctx.ob("applied-is-current", ok, ctx.at(g, e), "%s may apply a move that was refreshed (and found legal) in an earlier iteration only" % short(g["n"]), sample="%s applies an element of %s" % (short(g["n"]), show(cont)[-60:]))
    ctx.need(n >= 2, "moves applied by the searches")


def adjuster(ctx):
    f = ctx.fn1("IntegerStepSizeAdjuster::adjust", 2)
    E = ctx.run(f)
    mv = mk("sym", "$0")
    al = mk("fld", mv, "printemps::neighborhood::Move::alterations")
    back = mk("at", al, sub(size_of(al), ONE))
    v, tgt = getn(0, back), getn(1, back)
    lb, ub, cv = vf(v, "m_lower_bound"), vf(v, "m_upper_bound"), vf(v, "m_value")
    tr = [e for e in order(writes(E)) if e.loops and e.t.op == "get"]
    ctx.need(len(tr) >= 2, "trial targets of the step-size search")
    # the doubling search: the next target is tested against both bounds before it is tried
    first = min(tr, key=lambda e: e.seq)
    brk = [e for e in E.effects if e.kind == "break" and e.loops == first.loops]
    rets = [e for e in E.effects if e.kind == "ret" and not e.loops]
    up, dn = lt(cv, tgt), lt(tgt, cv)
    base = and_(le(lb, tgt), le(tgt, ub), le(lb, cv), le(cv, ub))
    left = or_(*[e.pc for e in rets if e.v is None]) if rets else FALSE
    ctx.ob("step-within-bounds", safe_implies(and_(base, up, eq(tgt, ub)), left), ctx.at(f), "the step search starts although the target already is the upper bound")
    ctx.ob("step-within-bounds", safe_implies(and_(base, dn, eq(tgt, lb)), left), ctx.at(f), "the step search starts although the target already is the lower bound")
    # candidate next targets: those phi-free values of `target` at the end of an iteration
    nxt = [x for e in brk for x in subterms(e.pc) if x.op == "lt0"]
    hit_u = hit_l = False
    for e in brk:
        for a in [x for x in subterms(e.pc) if x.op == "lt0" and (contains(x, lambda y: y is ub) or contains(x, lambda y: y is lb)) and contains(x, lambda y: y.op == "phi")]:
            p = a.a[0]
            if contains(p, lambda y: y is ub):
                t = sub(ub, p) if poly_of(p).get((ub,)) == 1 else add(ub, p)
                hit_u = hit_u or safe_implies(e.pc, le(ub, t)) and not safe_sat(and_(*[not_(b.pc) for b in brk], le(ub, t), reduce_pc(first.pc), improving(brk, E)))
            if contains(p, lambda y: y is lb):
                t = sub(lb, p) if poly_of(p).get((lb,)) == 1 else add(lb, p)
                hit_l = hit_l or safe_implies(e.pc, le(t, lb)) and not safe_sat(and_(*[not_(b.pc) for b in brk], le(t, lb), reduce_pc(first.pc), improving(brk, E)))
    ctx.ob("step-within-bounds", hit_u, ctx.at(f, first), "the doubling search tries targets above the upper bound")
    ctx.ob("step-within-bounds", hit_l, ctx.at(f, first), "the doubling search tries targets below the lower bound")
    # the first target tried lies within the bounds: the move's own target is at least one step away and not at the bound
    tv = first.v
    if tv.op == "phi" and tv in E.phiall:
        t0 = E.phiall[tv][0][0]
        for g, d, what in ((up, 1, "above the upper bound"), (dn, -1, "below the lower bound")):
            x = under_all(t0, g)
            a, b = sub(x, cv), sub(x, tgt)
            if a.op == "n":
                ok = 0 <= d * a.a[0] <= 2
            elif b.op == "n":
                ok = 0 <= d * b.a[0] <= 1
            else:
                raise Broken("the first target of the step search is %s" % show(x))
            ctx.ob("step-within-bounds", ok, ctx.at(f, first), "the first target of the step search may lie %s" % what)
    # the search window only holds the variable's bounds, its value and targets that were tried
    trial = {e.v for e in tr}
    win = {x for e in tr if e is not first for x in subterms(e.v) if x.op == "phi"} - trial
    for w in win:
        for init, nv, _ in E.phiall.get(w, ()):
            for c, x in leaves(nv):
                for y in (x.a[0] if x.op in ("max", "min") else (x,)):
                    if y in win or y in trial or y is lb or y is ub or y is cv or y is tgt:
                        continue
                    ok = safe_implies(and_(c, or_(up, dn)), le(y, ub)) and safe_implies(and_(c, or_(up, dn)), le(lb, y))
                    ctx.ob("window-within-bounds", ok, ctx.at(f, tr[-1]), "the window of the step search is extended to %s, which may lie outside the bounds" % show(y)[-120:])
    ctx.ob("window-within-bounds", True, ctx.at(f), "")
    fin = [e for e in writes(E) if e.t is tgt and not e.loops]
    ctx.ob("adjusted-target", len(fin) == 1, ctx.at(f), "the adjusted target is not stored exactly once")
    # what is stored was tried (or is the move's own target)
    if len(fin) == 1:
        seen, todo = set(), [fin[0].v]
        while todo:
            x = todo.pop()
            if x in seen or x in trial or x is tgt:
                continue
            seen.add(x)
            if x.op == "phi" and x in E.phiall:
                for init, nv, _ in E.phiall[x]:
                    todo += [init] + [y for c, y in leaves(nv)]
            elif x.op == "ite":
                todo += [y for c, y in leaves(x)]
            elif x.op in ("loopval", "lastval"):
                todo += [y for y in x.a[1:] if isinstance(y, T) and y.op not in ("whl", "idx")]
            else:
                ctx.need(x.op in ("n", "poly", "get", "fld", "at", "min", "max", "idiv"), "adjusted target (%s) %s" % (x.op, show(x)[-120:]))
                ctx.ob("adjusted-target", False, ctx.at(f, fin[0]), "the adjusted target may be %s, which was not tried" % show(x)[-120:])
        ctx.ob("adjusted-target", True, ctx.at(f, fin[0]), "", key=("adjusted", "tried"))


def under_all(t, g):
    """t with the conditional factors decided under g"""
    for _ in range(8):
        c = next((x for x in subterms(t) if x.op == "ite"), None)
        if c is None:
            return t
        t = subst(t, {c: under(c, g)}) if under(c, g) is not c else t
        if contains(t, lambda x: x is c):
            return t
    return t


def reduce_pc(pc):
    return pc


def improving(brk, E):
    return TRUE


def bounds(ctx):
    """setting bounds keeps them as given and moves the value inside"""
    for f in [f for f in ctx.P.find("Variable::set_bound") if f["n"].startswith(VAR[:-2]) and len(f["p"]) == 2][:1]:
        E = ctx.run(f)
        fin = lambda n: final_value(E, lambda t: t.op == "fld" and t.a[0] is THIS and t.a[1] == VAR + n)
        lo, hi, v = fin("m_lower_bound"), fin("m_upper_bound"), fin("m_value")
        if lo is None or hi is None:
            raise Broken("bounds are not stored")
        lows = [x for x in subterms(lo) if str(x) == "$0"]
        ups = [x for x in subterms(hi) if str(x) == "$1"]
        pc = TRUE
        if not lows or not ups:
            ctx.ob("bounds-kept", False, ctx.at(f), "set_bound stores %s and %s instead of the given bounds" % (str(lo)[:120], str(hi)[:120]))
            continue
        a, b = lows[0], ups[0]
        pc = le(a, b)
        val = mk("fld", THIS, VAR + "m_value")
        ctx.ob("bounds-kept", same_under(lo, a, pc) and same_under(hi, b, pc), ctx.at(f), "set_bound stores %s and %s instead of the given bounds" % (str(lo)[:120], str(hi)[:120]), sample="bounds as given")
        if v is None:
            ctx.ob("value-inside", False, ctx.at(f), "set_bound leaves the value outside the new bounds")
            continue
        for nm, c, w in (("below", lt(val, a), a), ("above", and_(lt(b, val)), b), ("inside", and_(le(a, val), le(val, b)), val)):
            q = and_(pc, c)
            ctx.ob("value-inside", same_under(v, w, q), ctx.at(f), "a value %s the new bounds becomes %s instead of %s" % (nm, str(under(v, q))[:120], w), key=nm, sample="value %s the bounds -> %s" % (nm, w))


def run(ctx):
    ctx.rule("for every move generator: guard under which a move's availability flag is non-zero implies 'no fixed variable' and 'no bound violation' (or the written value is provably in bounds); "
             "candidate list holds only flagged moves; all value writers reachable from the search loops test the fixed flag")
    ctx.section(generators)
    ctx.section(application)
    ctx.section(searched)
    ctx.section(adjuster)
    ctx.section(bounds)
    ctx.atleast("fixed-filtered", 18)
