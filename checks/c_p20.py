"""P20: penalty coefficients stay within bounds and move on the violated side."""
from common import *

CON = "printemps::model_component::Constraint::"
SM = "TabuSearchControllerStateManager::"
OPT = "printemps::option::PenaltyOption::"
SIDES = {"less": ("m_local_penalty_coefficient_less", "m_is_less_or_equal", 1),
         "greater": ("m_local_penalty_coefficient_greater", "m_is_greater_or_equal", -1)}
def has(t, x):
    return any(y is x for y in subterms(t))


GLOB = "m_global_penalty_coefficient"


def side_of(t):
    for s, (c, _, _) in SIDES.items():
        if fname(t) == c:
            return s
    return None


def reference_value(con, pool):
    """terms  <local incumbent>.constraint_value_proxies[proxy.index][con.flat_index] found in pool"""
    out = []
    for p in pool:
        for x in subterms(p):
            if x.op == "at" and has_field(x, "constraint_value_proxies") and not has_field(x.a[0], "m_constraint_value"):
                if fname(x.a[0]) != "constraint_value_proxies" and x not in out:
                    out.append(x)
    return out


def check_reference(ctx, f, e, con, ref):
    """the reference value belongs to the constraint whose coefficient changes, at the local incumbent"""
    proxy = con.a[0].a[0] if con.op == "at" and con.a[0].op == "fld" else None
    ctx.need(proxy is not None, "constraint %s in %s" % (con, short(f["n"])))
    idx = ref.a[1]
    ok = is_sub(idx, con)
    holder = ref.a[0]
    inner = [x for x in subterms(holder) if x.op == "at" and fname(x.a[0]) == "constraint_value_proxies"]
    ok = ok and len(inner) == 1 and fname(inner[0].a[1]) == "m_index" and inner[0].a[1].a[0] is proxy
    ctx.ob("own-value", ok, ctx.at(f, e), "%s judges a constraint by the stored value of another constraint: %s" % (short(f["n"]), ref))
    ctx.ob("reference-solution", has_field(ref, "m_local_augmented_incumbent_solution"), ctx.at(f, e), "%s judges violation at %s, not at the local incumbent" % (short(f["n"]), ref))


def split_change(e):
    """(kind, payload) of a coefficient write: ('add', delta) / ('mul', factor) / ('set', value)"""
    cur = e.t
    p = poly_of(e.v)
    if not has(e.v, cur):
        return "set", e.v
    d = sub(e.v, cur)
    if not has(d, cur):
        return "add", d
    z = subst(e.v, {cur: ZERO})
    o = subst(e.v, {cur: num(1)})
    if z is ZERO and e.v is mul(o, cur):
        return "mul", o
    return "set", e.v


def nonneg(t, facts=()):
    """t >= 0, reading the option rates and counts as non-negative and balance as a share in [0,1]"""
    if t.op == "n":
        return t.a[0] >= 0
    if t.op == "poly":
        # decide separately at balance = 0 and = 1 (t is affine in the balance)
        bal = [x for x in subterms(t) if fname(x) == "penalty_coefficient_updating_balance"]
        if bal:
            return all(nonneg(subst(t, {bal[0]: num(k)}), facts) for k in (0, 1))
        for mono, c in poly_of(t).items():
            if c < 0:
                return False
            for a in mono:
                a = a[0] if isinstance(a, tuple) else a
                if not nonneg(a, facts):
                    return False
        return True
    if t.op == "max":
        return any(nonneg(x, facts) for x in t.a[0])
    if t.op == "min":
        return all(nonneg(x, facts) for x in t.a[0])
    if t.op == "div":
        return nonneg(t.a[0], facts) and nonneg(t.a[1], facts)
    if t.op == "sum":
        return nonneg(t.a[-1], facts)
    if t.op == "ite":
        return nonneg(t.a[1], facts) and nonneg(t.a[2], facts)
    if t.op == "call" and t.a[0].split("::")[-1] == "log":
        x = sub(t.a[2][0], num(1))
        return nonneg(x, facts)
    if t.op == "call" and t.a[0].split("::")[-1] == "sqrt":
        return True
    if t.op == "abs":
        return True
    n = fname(t)
    if n in ("penalty_coefficient_tightening_rate", "penalty_coefficient_relaxing_rate", "m_violation_count", "initial_penalty_coefficient",
             "m_local_penalty_coefficient_less", "m_local_penalty_coefficient_greater", GLOB):
        return True
    if t.op == "at" and has_field(t, "violation_value_proxies"):
        return True
    return False


def tighten(ctx):
    f = ctx.fn1(SM + "tighten_local_penalty_coefficient", 0)
    E = ctx.run(f)
    cap = None
    ws = {s: [] for s in SIDES}
    for e in order(writes(E)):
        s = side_of(e.t)
        if s:
            ws[s].append(e)
    for s, (fld, flag, sg) in SIDES.items():
        ctx.need(ws[s], "tightening writes no coefficient of side " + s)
        kinds = []
        inc = []
        for e in ws[s]:
            con = e.t.a[0]
            k, x = split_change(e)
            fl = mk("fld", con, CON + flag)
            if k == "add":
                kinds.append("add")
                inc.append(e)
                refs = reference_value(con, [e.pc, e.v])
                if not refs and has_field(e.pc, "violation_value_proxies"):
                    oth = mk("fld", con, CON + SIDES["greater" if s == "less" else "less"][1])
                    ctx.ob("raise-violated-side", safe_implies(e.pc, and_(fl, not_(oth))), ctx.at(f, e), "tightening raises the %s-side coefficient when %s, which does not tell on which side the constraint is violated" % (s, e.pc))
                    continue
                ctx.need(refs, "no reference constraint value in the condition of tightening (%s side)" % s)
                for r in refs:
                    check_reference(ctx, f, e, con, r)
                r = refs[0]
                val = r if sg > 0 else neg(r)
                ctx.ob("raise-violated-side", safe_implies(e.pc, fl) and implies_split(e.pc, lt(ZERO, val)), ctx.at(f, e),
                       "tightening raises the %s-side coefficient when %s, which does not imply that the constraint is violated on that side" % (s, e.pc),
                       sample="%s side raised only if %s" % (s, e.pc))
                ctx.ob("raise-not-lower", nonneg(x), ctx.at(f, e), "tightening adds %s, which may be negative" % x)
                # violated by more than the tolerance on that side, and not on the other: must be raised
                must = and_(fl, lt(num(Fraction(2, 10 ** 5)), val))
                mine = or_(*[g.pc for g in ws[s] if split_change(g)[0] == "add"])
                ctx.ob("raise-complete", implies_split(must, mine), ctx.at(f, e), "a constraint violated on the %s side is not always tightened: %s" % (s, e.pc))
            elif k == "set" and has_field(e.v, "initial_penalty_coefficient"):
                kinds.append("cap")
                capt = [x for x in subterms(e.v) if fname(x) == "initial_penalty_coefficient"][0]
                v = e.v
                ctx.ob("cap-value", implies_split(e.pc, le(v, capt)), ctx.at(f, e), "the bound on the %s-side coefficient sets it to %s" % (s, v))
                ctx.ob("cap-complete", implies_split(not_(e.pc), le(e.t, capt)), ctx.at(f, e), "a %s-side coefficient above the initial coefficient is not always cut back: only when %s" % (s, e.pc))
                # nothing else than a cut
                ctx.ob("cap-only-cuts", implies_split(e.pc, or_(le(v, e.t), eq(v, e.t))), ctx.at(f, e), "the bound raises the %s-side coefficient to %s" % (s, v))
            elif k == "set" and any(x.op in ("maxover", "max") for x in subterms(e.v)) and not any(x.op == "loopval" for x in subterms(e.v)):
                kinds.append("group")
                ok = any(fname(x) == "is_enabled_group_penalty_coefficient" for x in conj(e.pc))
                ctx.ob("group-optional", ok, ctx.at(f, e), "coefficients are levelled within a group although the option does not ask for it: %s" % e.pc)
                mo = [x for x in subterms(e.v) if x.op == "maxover"]
                ok = len(mo) == 1 and e.v is mo[0] and all(fname(y) in ("m_local_penalty_coefficient_less", "m_local_penalty_coefficient_greater") for y in
                                                         (mo[0].a[2].a[0] if mo[0].a[2].op == "max" else (mo[0].a[2],)))
                ok = ok and has_field(mo[0].a[0], "m_constraints") and mo[0].a[0].a[0] is ZERO if ok and mo[0].a[0].op == "idx" else ok
                ctx.ob("group-level", ok, ctx.at(f, e), "the group level of the %s-side coefficient is %s, not the largest coefficient of the group" % (s, e.v))
            elif k == "mul":
                ctx.ob("raise-not-lower", False, ctx.at(f, e), "tightening multiplies the %s-side coefficient by %s" % (s, x))
            else:
                raise Broken("write %s := %s in tightening" % (e.t, e.v))
        ctx.ob("tighten-raises", "add" in kinds, ctx.at(f), "tightening never raises the %s-side coefficient" % s)
        ctx.ob("cap-last", kinds and kinds[-1] == "cap", ctx.at(f), "after tightening, the %s-side coefficient is not bounded by the initial coefficient (%s)" % (s, ",".join(kinds)))
        # loops: every constraint of every proxy
        for e in ws[s]:
            ok = len(e.loops) == 2 and has_field(e.loops[0], "m_constraint_proxies") and has_field(e.loops[1], "m_constraints") and all(l.op == "idx" and l.a[0] is ZERO for l in e.loops)
            ok = ok and fname(e.loops[0].a[1]) is None or ok
            if ok:
                ctx.ob("all-constraints", whole(e.loops[0]) and whole(e.loops[1]), ctx.at(f, e), "only part of the constraints is treated: %s" % (e.loops,))
            else:
                raise Broken("loops %s in tightening" % (e.loops,))
    # per-iteration order: within one constraint the cut comes after the raise; the loop nest of the cut is not left before the raise of a later proxy reaches it
    ex = [e for e in order(writes(E, "is_exceeded_initial_penalty_coefficient"))]
    ctx.ob("exceeded-flag", bool(ex) and ex[0].v is FALSE and ex[0].pc is TRUE and not ex[0].loops, ctx.at(f), "the 'exceeded' flag is not cleared before tightening")


def whole(l):
    """the range runs from 0 to the size of a container"""
    return l.op == "idx" and l.a[0] is ZERO and l.a[1].op in ("call", "size", "len") or (l.op == "idx" and l.a[0] is ZERO and str(l.a[1]).endswith("size()"))


def relax(ctx):
    f = ctx.fn1(SM + "relax_local_penalty_coefficient", 0)
    E = ctx.run(f)
    seen = {s: [] for s in SIDES}
    for e in order(writes(E)):
        s = side_of(e.t)
        if not s:
            continue
        fld, flag, sg = SIDES[s]
        con = e.t.a[0]
        k, x = split_change(e)
        if k != "mul":
            if k == "add":
                ctx.ob("relax-scales", nonneg(neg(x)), ctx.at(f, e), "relaxing adds %s to the %s-side coefficient" % (x, s))
                continue
            raise Broken("write %s := %s in relaxing" % (e.t, e.v))
        refs = reference_value(con, [e.pc])
        ctx.need(refs, "no reference constraint value in the condition of relaxing (%s side)" % s)
        for r in refs:
            check_reference(ctx, f, e, con, r)
        r = refs[0]
        val = r if sg > 0 else neg(r)
        ctx.ob("lower-satisfied-side", implies_split(e.pc, lt(val, num(Fraction(2, 10 ** 5)))), ctx.at(f, e),
               "relaxing lowers the %s-side coefficient when %s, which does not imply that the constraint is satisfied on that side" % (s, e.pc), sample="%s side lowered only if %s" % (s, e.pc))
        ctx.ob("lower-own-side", safe_implies(e.pc, mk("fld", con, CON + flag)), ctx.at(f, e), "relaxing lowers the %s-side coefficient of a constraint without that side: %s" % (s, e.pc))
        ctx.ob("lower-complete", implies_split(and_(mk("fld", con, CON + flag), lt(val, ZERO)), e.pc), ctx.at(f, e), "a constraint satisfied on the %s side is not always relaxed: %s" % (s, e.pc))
        rate = [y for y in subterms(x) if fname(y) == "penalty_coefficient_relaxing_rate"]
        ctx.need(rate, "relaxing factor %s" % x)
        for c, v in leaves(x, e.pc):
            ctx.ob("factor-bounded", implies_split(c, le(v, rate[0])), ctx.at(f, e), "relaxing scales the %s-side coefficient by %s, which may exceed the relaxing rate" % (s, v))
            pos = nonneg(v) or (v.op == "min" and all(nonneg(y) or safe_implies(c, lt(ZERO, y)) for y in v.a[0])) or safe_implies(c, le(ZERO, v))
            ctx.ob("factor-nonnegative", pos, ctx.at(f, e), "relaxing scales the %s-side coefficient by %s, which may be negative" % (s, v))
        seen[s].append(e)
        ok = len(e.loops) == 2 and whole(e.loops[0]) and whole(e.loops[1])
        ctx.ob("all-constraints", ok, ctx.at(f, e), "only part of the constraints is treated: %s" % (e.loops,))
    for s in SIDES:
        ctx.ob("relax-lowers", bool(seen[s]), ctx.at(f), "relaxing never lowers the %s-side coefficient" % s)


def rate(ctx):
    """the relaxing rate is only moved between the option's bounds"""
    for f in (ctx.fn1(SM + "update_penalty_coefficient_relaxing_rate", 0),):
        E = ctx.run(f)
        ws = [e for e in order(writes(E, "penalty_coefficient_relaxing_rate"))]
        ctx.need(ws, "no write of the relaxing rate")
        for e in ws:
            o = {fname(x): x for x in subterms(e.v) if fname(x) and fname(x).startswith("penalty_coefficient_relaxing_rate")}
            opt = [x for x in subterms(e.v) if fname(x) == "penalty_coefficient_relaxing_rate" and has_field(x, "m_option")]
            cur = [x for x in subterms(e.v) if fname(x) == "penalty_coefficient_relaxing_rate" and has_field(x, "m_state")]
            at = ctx.at(f, e)
            if opt and e.v is opt[0]:
                ctx.ob("rate-write", True, at, "")
            elif e.v.op == "max":
                ok = any(fname(x) == "penalty_coefficient_relaxing_rate_min" for x in e.v.a[0]) and any(cur and has(x, cur[0]) and "penalty_coefficient_relaxing_rate_decrease_rate" in o for x in e.v.a[0])
                ctx.ob("rate-write", ok, at, "the relaxing rate becomes %s" % e.v)
            elif e.v.op == "min":
                ok = any(fname(x) == "penalty_coefficient_relaxing_rate_max" for x in e.v.a[0])
                ctx.ob("rate-write", ok, at, "the relaxing rate becomes %s" % e.v)
            elif opt and cur:
                # convex step towards the option's rate
                inc = o.get("penalty_coefficient_relaxing_rate_increase_rate")
                ok = inc is not None and e.v is add(cur[0], mul(inc, sub(opt[0], cur[0])))
                ctx.ob("rate-write", ok, at, "the relaxing rate becomes %s" % e.v)
            elif cur:
                ctx.ob("rate-write", e.v is cur[0], at, "the relaxing rate becomes %s without a bound from the options" % e.v)
            else:
                raise Broken("relaxing rate %s" % e.v)
    f = ctx.fn1(SM + "setup")
    E = ctx.run(f)
    for n in ("penalty_coefficient_relaxing_rate", "penalty_coefficient_tightening_rate"):
        ws = [e for e in order(writes(E, n)) if has_field(e.t, "m_state")]
        ok = bool(ws) and fname(ws[-1].v) == n and has_field(ws[-1].v, "penalty")
        ctx.ob("rate-setup", ok, ctx.at(f), "the %s does not start from its option" % n.replace("_", " "))


def initial(ctx):
    """reset and setup: coefficients start at the (possibly shrunk) initial coefficient"""
    f = ctx.fn1("Constraint::reset_local_penalty_coefficient", 0)
    E = ctx.run(f)
    for s, (fld, flag, sg) in SIDES.items():
        ws = [e for e in order(writes(E, fld)) if e.t.a[0] is THIS]
        ctx.ob("reset-value", bool(ws) and ws[-1].pc is TRUE and ws[-1].v is mk("fld", THIS, CON + GLOB), ctx.at(f), "resetting the local coefficient leaves the %s side at %s" % (s, ws and ws[-1].v))
    f = ctx.fn1("Constraint::limit_local_penalty_coefficient", 0)
    E = ctx.run(f)
    g = mk("fld", THIS, CON + GLOB)
    for s, (fld, flag, sg) in SIDES.items():
        for e in [e for e in order(writes(E, fld)) if e.t.a[0] is THIS]:
            ctx.ob("limit", implies_split(e.pc, and_(le(e.v, e.t), le(e.v, g))) and implies_split(not_(e.pc), le(e.t, g)), ctx.at(f, e), "limiting sets the %s-side coefficient to %s" % (s, e.v))
    for n, fld in (("local_penalty_coefficient_less", "m_local_penalty_coefficient_less"), ("local_penalty_coefficient_greater", "m_local_penalty_coefficient_greater"), ("global_penalty_coefficient", GLOB)):
        for h in ctx.fns("Constraint::" + n, 0):
            r = ctx.run(h).ret
            ctx.ob("accessor", r is mk("fld", THIS, CON + fld), ctx.at(h), "Constraint::%s gives access to %s" % (n, r))
    f = ctx.fn1(SM + "reset_local_penalty_coefficient", 0)
    ctx_all_reset(ctx, f)
    f = ctx.fn1("Solver::preprocess", 0)
    ctx_all_reset(ctx, f)
    # model: the global coefficient is the option's, only ever lowered afterwards, and handed to every constraint
    f = ctx.fn1("Model::setup")
    E = ctx.run(f, inline=("Model::set_global_penalty_coefficient", "Model::shrink_global_penalty_coefficient"))
    gl = [e for e in order(writes(E, GLOB)) if e.t.a[0] is THIS]
    per = [e for e in order(writes(E, GLOB)) if e.t.a[0] is not THIS]
    ctx.need(gl and per, "Model::setup does not set global penalty coefficients")
    ctx.ob("global-start", always(E, gl[0]) and not gl[0].loops and fname(gl[0].v) == "initial_penalty_coefficient", ctx.at(f, gl[0]), "the global penalty coefficient starts at %s" % gl[0].v)
    for e in gl[1:]:
        start = gl[0].v
        ctx.ob("global-shrinks", implies_split(e.pc, or_(le(e.v, e.t), le(e.v, start))), ctx.at(f, e), "the global penalty coefficient becomes %s, which may exceed the initial coefficient" % e.v)
    p = per[-1]
    start = gl[0].v
    ok = always(E, p) and len(p.loops) == 2 and whole(p.loops[0]) and whole(p.loops[1]) and p.seq > gl[-1].seq
    fin = start
    for e in gl[1:]:
        fin = ite(e.pc, e.v, fin)
    if fname(p.v) != GLOB:
        for c, v in leaves(p.v):
            ok = ok and implies_split(c, le(v, start)) and same_under(v, under(fin, c), c)
    ctx.ob("global-to-constraints", ok, ctx.at(f, p), "constraints do not receive the model's final global penalty coefficient but %s" % p.v)
    f = ctx.fn1("Solver::preprocess", 0)
    E = ctx.run(f)
    su = [e.seq for e in calls(E, "Model::setup")]
    rs = [e.seq for e in calls(E, "Constraint::reset_local_penalty_coefficient")] + [e.seq for e in writes(E) if side_of(e.t)]
    ctx.ob("reset-after-setup", bool(su) and bool(rs) and min(rs) > max(su), ctx.at(f), "local coefficients are initialised before the model has determined the global coefficient")


def normal(E):
    """condition under which the function is not left by an exception"""
    return and_(*[not_(e.pc) for e in E.effects if e.kind == "throw" and not e.loops])


def always(E, e):
    return e.pc is TRUE or safe_implies(normal(E), e.pc)


def ctx_all_reset(ctx, f):
    E = ctx.run(f)
    rs = list(calls(E, "Constraint::reset_local_penalty_coefficient"))
    if not rs:
        ws = {s: [e for e in writes(E) if side_of(e.t) == s] for s in SIDES}
        for s, w in ws.items():
            ok = len(w) == 1 and always(E, w[0]) and fname(w[0].v) == GLOB and len(w[0].loops) == 2 and all(whole(l) for l in w[0].loops)
            ctx.ob("reset-all", ok, ctx.at(f), "%s does not reset the %s-side coefficient of every constraint" % (short(f["n"]), s))
        return
    ok = any(always(E, e) and len(e.loops) == 2 and all(whole(l) for l in e.loops) for e in rs)
    ctx.ob("reset-all", ok, ctx.at(f), "%s does not reset the coefficients of every constraint" % short(f["n"]))


def flow(ctx):
    f = ctx.fn1(SM + "update", 2)
    E = ctx.run(f)
    r = list(calls(E, SM + "reset_local_penalty_coefficient"))
    t = list(calls(E, SM + "tighten_local_penalty_coefficient"))
    x = list(calls(E, SM + "relax_local_penalty_coefficient"))
    ctx.need(r and t and x, "update does not reset / tighten / relax")
    flg = {}
    for n in ("penalty_coefficient_reset_flag", "is_enabled_penalty_coefficient_tightening", "is_enabled_penalty_coefficient_relaxing"):
        fl = [y for e in r + t + x for y in subterms(e.pc) if fname(y) == n]
        ctx.need(fl, "flag %s not consulted" % n)
        flg[n] = fl[0]
    R, T, X = flg["penalty_coefficient_reset_flag"], flg["is_enabled_penalty_coefficient_tightening"], flg["is_enabled_penalty_coefficient_relaxing"]
    ctx.ob("flow-reset", all(safe_implies(e.pc, R) for e in r), ctx.at(f, r[0]), "coefficients are reset when %s" % r[0].pc)
    ctx.ob("flow-tighten", all(safe_implies(e.pc, T) for e in t), ctx.at(f, t[0]), "coefficients are tightened when %s" % t[0].pc)
    ctx.ob("flow-relax", all(safe_implies(e.pc, X) for e in x), ctx.at(f, x[0]), "coefficients are relaxed when %s" % x[0].pc)
    ctx.ob("flow-exclusive", not any(safe_sat(and_(a.pc, b.pc)) for a, b in [(p, q) for p in r for q in t] + [(p, q) for p in r for q in x] + [(p, q) for p in t for q in x]), ctx.at(f, t[0]),
           "one update both resets, tightens or relaxes the coefficients")
    fm = TRUE
    for e in r + t + x:
        pass
    modes = [y for e in t for y in conj(e.pc) if y not in (T, not_(R), not_(X))]
    for nm, es, cond in (("tighten", t, and_(T, not_(R))), ("relax", x, and_(X, not_(T), not_(R))), ("reset", r, R)):
        base = and_(*[y for y in modes if not (mentions(y, "m_state."))]) if modes else TRUE
        ctx.ob("flow-complete", safe_implies(and_(base, cond), or_(*[e.pc for e in es])), ctx.at(f, es[0]), "a requested %s is not always carried out: %s" % (nm, es[0].pc))
    off = list(calls(E, SM + "turn_flags_off"))
    first = min(e.seq for e in list(calls(E, SM + "update_initial_solution_and_penalty_coefficient_flags_simple")) + list(calls(E, SM + "update_initial_solution_and_penalty_coefficient_flags_smart")))
    if off:
        ctx.ob("flags-cleared", off[0].pc is TRUE and off[0].seq < first, ctx.at(f), "the flags of the previous update are not cleared first")
        g = ctx.fn1(SM + "turn_flags_off", 0)
        Eg = ctx.run(g)
        for n in flg:
            ws = list(writes(Eg, n))
            ctx.ob("flags-cleared", bool(ws) and ws[-1].pc is TRUE and ws[-1].v is FALSE, ctx.at(g), "%s is not cleared before an update" % n)
    last = max(e.seq for e in r + t + x)
    rg = list(calls(E, SM + "update_local_penalty_coefficient_range"))
    if rg:
        ctx.ob("range-after", rg[-1].seq > last, ctx.at(f, rg[-1]), "the reported coefficient range is taken before the coefficients change")
    # tightening is requested only when the reference solution is infeasible
    for n in ("simple", "smart"):
        g = ctx.fn1(SM + "update_initial_solution_and_penalty_coefficient_flags_" + n, 0)
        Eg = ctx.run(g)
        for e in writes(Eg, "is_enabled_penalty_coefficient_tightening"):
            if e.v is FALSE:
                continue
            fe = [y for y in subterms(e.pc) if fname(y) == "is_feasible" and has_field(y, "m_local_augmented_incumbent_score")]
            ctx.ob("tighten-when-infeasible", bool(fe) and safe_implies(e.pc, not_(fe[0])), ctx.at(g, e), "tightening is requested although the local incumbent may be feasible: %s" % e.pc)


def writers(ctx):
    """no other function changes the coefficients"""
    allowed = ("Constraint::initialize", "Constraint::reset_local_penalty_coefficient", "Constraint::limit_local_penalty_coefficient",
               SM + "tighten_local_penalty_coefficient", SM + "relax_local_penalty_coefficient", SM + "reset_local_penalty_coefficient", "Solver::preprocess")
    roots = set()
    for nm in ("local_penalty_coefficient_less", "local_penalty_coefficient_greater"):
        for g, n in callers(ctx.P, nm):
            roots.add(g["id"])
    for g in ctx.P.fn.values():
        if g["id"] not in roots or not is_baseline(ctx.P, g) or g.get("dflt"):
            continue
        if any(suffix(g["n"], a) for a in allowed):
            continue
        n = 0
        try:
            Eg = ctx.run(g)
        except Broken:
            continue
        for e in writes(Eg):
            if side_of(e.t):
                n += 1
                ctx.ob("other-writers", False, ctx.at(g, e), "%s changes a local penalty coefficient" % short(g["n"]))
        ctx.ob("other-writers", n == 0, ctx.at(g), "%s changes a local penalty coefficient" % short(g["n"]))


def run(ctx):
    ctx.rule("tightening adds a non-negative amount to the coefficient of a side only under a condition implying the constraint is violated on that side at the local incumbent, and the last write of each side is bounded by the initial coefficient; "
             "relaxing multiplies by a factor between 0 and the relaxing rate only under a condition implying the side is satisfied; resets use the global coefficient, which starts at the option's value and is only lowered; reset, tighten and relax exclude one another")
    for f in (tighten, relax, rate, initial, flow, writers):
        ctx.section(f)
