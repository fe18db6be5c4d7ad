"""P33: structured moves keep the relation they are generated for."""
from common import *

GEN = "MoveGenerator::setup"
NAME = {"variable_ptr_first": "first", "variable_ptr_second": "second", "variable_ptr_third": "third"}
SENS = {"sensitivity_first": "first", "sensitivity_second": "second", "sensitivity_third": "third"}
HALF = Fraction(1, 2)
S1, S2, C = mk("sym", "a-first"), mk("sym", "a-second"), mk("sym", "constant")
X1, X2 = mk("sym", "x-first"), mk("sym", "x-second")
COEF = {"first": S1, "second": S2}
CUR = {"first": X1, "second": X2}
UNIT_SAME = [(1, 1), (-1, -1)]
UNIT_OPP = [(1, -1), (-1, 1)]
# kind -> (coefficient patterns, constant is zero)
EQUATIONS = {"InvertedIntegers": (UNIT_SAME, True), "BalancedIntegers": (UNIT_OPP, True), "ConstantSumIntegers": (UNIT_SAME, False),
             "ConstantDifferenceIntegers": (UNIT_OPP, False), "ConstantRatioIntegers": (None, True), "Aggregation": (None, False)}


def slot_of(t):
    """(index of the move, number of the alteration, part) addressed by a written location"""
    if t.op == "get" and t.a[1].op == "at" and fname(t.a[1].a[0]) == "alterations":
        k = t.a[1].a[1]
        part = t.a[0] if not isinstance(t.a[0], T) else int(t.a[0].a[0])
        return t.a[1].a[0].a[0], (int(k.a[0]) if k.op == "n" else None), part
    return None


def pair_args(e):
    a = list(e.args)
    if len(a) == 1 and a[0].op in ("ctor", "call", "pair"):
        a = list(a[0].a[-1])
    return tuple(a[:2]) if len(a) >= 2 else None


def setup_cases(E):
    """[(condition, [(variable, value), ...])]: the alterations every move is created with, one entry per created state"""
    ev = [e for e in order(x for x in E.effects if x.kind in ("call", "write", "init"))]
    conds = []
    for e in ev:
        if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and e.t is not None and fname(e.t) == "alterations":
            if e.pc not in conds:
                conds.append(e.pc)
    out = []
    for c in conds:
        if any(o is not c and safe_implies(c, o) and not safe_implies(o, c) for o in conds):
            pass
        state, last = {}, None
        snaps = []

        def snap(base):
            l = state.get(base)
            if l and tuple(l) not in snaps:
                snaps.append(tuple(l))
        for e in ev:
            if not safe_implies(c, e.pc):
                continue
            if e.kind == "call" and e.t is not None and fname(e.t) == "alterations" and callee(e) in ("emplace_back", "push_back"):
                p = pair_args(e)
                if p is None:
                    raise Broken("alteration given as %s" % (e.args,))
                l = state.setdefault(e.t.a[0], [])
                if any(v is p[0] for v, _ in l):
                    snap(e.t.a[0])
                    l = state[e.t.a[0]] = []
                l.append(p)
            elif e.kind == "write":
                s = slot_of(e.t)
                if s is not None and s[0] in state:
                    if s[1] is None or s[2] not in (0, 1) or s[1] >= len(state[s[0]]):
                        raise Broken("alteration written at %s" % e.t)
                    l = state[s[0]]
                    v = list(l[s[1]])
                    v[s[2]] = e.v
                    l[s[1]] = tuple(v)
                elif e.v is not None and e.v in state:
                    snap(e.v)
                    if e.t is not e.v:
                        state[e.t] = list(state[e.v])
            elif e.kind == "init":
                if e.v is not None and e.v in state:
                    snap(e.v)
                    if e.t is not e.v:
                        state[e.t] = list(state[e.v])
            elif e.kind == "call" and callee(e) in ("emplace_back", "push_back"):
                for a in e.args:
                    if a in state:
                        snap(a)
        for b in list(state):
            snap(b)
        out.append((c, snaps))
    return out


def who(v):
    n = fname(v)
    if n in NAME:
        return NAME[n]
    return None


def abstract(t):
    """replace coefficients, constant and current values of the constraint by symbols"""
    m = {}
    for x in subterms(t):
        n = fname(x)
        if n in SENS:
            m[x] = COEF.get(SENS[n], x)
        elif n in ("constant_value", "m_constant_value"):
            m[x] = C
        elif n == "m_value" and who(x.a[0]):
            m[x] = CUR.get(who(x.a[0]), x)
        elif x.op == "at" and fname(x.a[0]) == "m_sensitivities" and who(x.a[1]):
            m[x] = COEF.get(who(x.a[1]), x)
    return subst(t, m)


def rounding(t):
    """(rounding operation, operand)"""
    if t.op in ("floor", "ceil", "round"):
        return t.op, t.a[0]
    if t.op == "call" and t.a[0].split("::")[-1] in ("floor", "ceil", "round", "nearbyint", "rint", "lround", "llround"):
        x = [y for y in t.a[1:] if y is not None]
        x = x[-1]
        if isinstance(x, tuple):
            x = x[0] if len(x) == 1 else None
        if x is None:
            raise Broken("rounding %s" % t)
        return t.a[0].split("::")[-1], x
    return None, None


def rational(t, rounds):
    """(numerator, denominator) of t; rounding operations are removed and recorded"""
    if t.op == "n":
        return t, ONE
    if t.op == "div":
        n, d = rational(t.a[0], rounds)
        p, q = rational(t.a[1], rounds)
        return mul(n, q), mul(d, p)
    if t.op == "trunc":
        # conversion to the integral type of a variable
        return rational(t.a[0], rounds)
    nm, p = rounding(t)
    if nm is not None:
        d = poly_of(p).get((), 0)
        n, q = rational(p, rounds)
        if (nm, d) in (("floor", HALF), ("ceil", -HALF)):
            rounds.append("nearest")
            return sub(n, mul(num(d), q)), q
        rounds.append(nm if nm in ("floor", "ceil") else "nearest")
        return n, q
    P = poly_of(t)
    if list(P) == [(t,)]:
        return t, ONE
    N, D = ZERO, ONE
    for mono, c in P.items():
        n, d = num(c), ONE
        for x in mono:
            p, q = rational(x, rounds)
            n, d = mul(n, p), mul(d, q)
        if d is D:
            N = add(N, n)
        else:
            N, D = add(mul(N, d), mul(n, D)), mul(D, d)
    return N, D


def choices(t, facts):
    """values of a term whose conditions are decided by the facts"""
    for _ in range(40):
        c = next((x for x in subterms(t) if x.op == "ite"), None)
        if c is None:
            return t
        if safe_implies(facts, c.a[0]):
            t = subst(t, {c: c.a[1]})
        elif safe_implies(facts, not_(c.a[0])):
            t = subst(t, {c: c.a[2]})
        else:
            raise Broken("condition %s" % c.a[0])
    raise Broken("conditions of %s" % t)


def local_values(E, case):
    """elements of local vectors filled in setup, under the case condition"""
    m = {}
    for e in order(writes(E)):
        if e.t.op == "at" and e.t.a[0].op == "loc" and safe_implies(case, e.pc):
            m[e.t] = e.v
    return m


def unrolled(e):
    """(location, value, condition) of a write, inner loops with constant bounds unrolled"""
    todo = [(e.t, e.v, e.pc)]
    for d in range(1, len(e.loops)):
        dom = e.loops[d]
        if dom.op == "idx" and dom.a[0].op == "n" and dom.a[1].op == "n" and dom.a[1].a[0] - dom.a[0].a[0] <= 16:
            todo = [tuple(subst(x, {mk("iv", d): num(k)}) for x in t) for t in todo for k in range(int(dom.a[0].a[0]), int(dom.a[1].a[0]))]
        elif any(contains(x, lambda y: y is mk("iv", d)) for t in todo for x in t):
            raise Broken("inner loop over %s" % dom)
    return [t for t in todo if t[2] is not FALSE]


def updates(ctx, f):
    """[(case, slot, {variable: new value}, effect)] for the moves a generator refreshes"""
    g = f["n"].split("::")[-2]
    E = ctx.run(f)
    cases = setup_cases(E)
    ctx.need(cases, g + ": alterations")
    up = [e for e in order(writes(E, "m_move_updater"))]
    ctx.need(len(up) == 1 and up[0].v in E.lams, g + ": updater lambda")
    L = run_stored_lambda(ctx, E, up[0].v, f["file"])
    slots = {}
    for e in order(writes(L)):
        s = slot_of(e.t)
        if s is None:
            continue
        ctx.need(s[0].op == "at" and s[2] in (0, 1), g + ": updated alteration %s" % e.t)
        ctx.need(s[2] == 1, g + ": a refresh replaces a variable")
        for t, v, pc in unrolled(e):
            s = slot_of(t)
            ctx.need(s[1] is not None, g + ": updated alteration %s" % t)
            slots.setdefault(s[0].a[1], []).append((s[1], t, v, pc, e))
    out = []
    for case, snaps in cases:
        ctx.need(len({tuple(v for v, _ in s) for s in snaps}) == 1, g + ": variables of a move")
        vs = [v for v, _ in snaps[0]]
        lv = local_values(E, case)
        for slot, ws in slots.items():
            vals = {}
            eff = None
            for k, target, t, pc, e in ws:
                ctx.need(k < len(vs), g + ": alteration %d" % k)
                mv = target.a[1].a[0]
                t = subst(t, {getn(0, mk("at", mv, num(j))): v for j, v in enumerate(vs)})
                for _ in range(3):
                    t = subst(t, lv)
                t = subst(t, {getn(0, mk("at", mv, num(j))): v for j, v in enumerate(vs)})
                old = vals.get(vs[k])
                if not safe_implies(TRUE, pc):
                    ctx.need(old is not None, g + ": alteration updated only when %s" % pc)
                    t = ite(pc, t, old)
                vals[vs[k]] = t
                eff = e
            out.append((case, slot, vs, vals, eff))
    ctx.need(out, g + ": refreshed moves")
    return out


def step(v, t):
    """+1 / -1 when the new value is the variable's own value changed by one"""
    d = sub(t, CUR[v])
    return int(d.a[0]) if d.op == "n" and d.a[0] in (1, -1) else None


def new_values(ctx, g, vs, vals):
    names = [who(v) for v in vs]
    ctx.need(sorted(str(n) for n in names) == ["first", "second"], g + ": variables %s" % (vs,))
    return {who(v): abstract(vals[v]) for v in vs if v in vals}


def equations(ctx, kind, pats, zero):
    f = ctx.fn1(kind + GEN, 1)
    ups = updates(ctx, f)
    by_case = {}
    for case, slot, vs, vals, e in ups:
        nv = new_values(ctx, kind, vs, vals)
        at = ctx.at(f, e)
        nm = "%s move %s" % (kind, slot)
        if set(nv) != {"first", "second"}:
            ctx.ob("both-changed", False, at, "%s: only %s is given a new value" % (nm, sorted(nv)))
            continue
        ctx.ob("both-changed", True, at, "", key=(kind, slot, "both"))
        for a, b in (pats or [(None, None)]):
            m = {} if a is None else {S1: num(a), S2: num(b)}
            if zero:
                m[C] = ZERO
            rounds = []
            n1, d1 = rational(choices(subst(nv["first"], m), TRUE), rounds)
            n2, d2 = rational(choices(subst(nv["second"], m), TRUE), rounds)
            a1, a2, c = subst(S1, m), subst(S2, m), subst(C, m)
            r = add(add(mul(mul(a1, n1), d2), mul(mul(a2, n2), d1)), mul(c, mul(d1, d2)))
            ctx.ob("equation-kept", r is ZERO, at, "%s: with coefficients (%s, %s) and constant %s the new values %s and %s do not satisfy the equation" % (nm, a1, a2, c, nv["first"], nv["second"]),
                   sample="%s: %s, %s" % (nm, nv["first"], nv["second"]))
            ctx.ob("nearest", all(x == "nearest" for x in rounds), at, "%s: the exact solution is rounded by %s, not to the nearest integer" % (nm, rounds))
        st = {(v, step(v, nv[v])) for v in nv if step(v, nv[v])}
        ctx.ob("unit-step", bool(st), at, "%s: neither variable is changed by one from its own value: %s, %s" % (nm, nv["first"], nv["second"]))
        by_case.setdefault(case, set()).update(st)
    for case, st in by_case.items():
        need = [("first", "second")] if kind == "Aggregation" else []
        both = {v for v in ("first", "second") if {(v, 1), (v, -1)} <= st}
        ok = both >= {"first", "second"} if need else bool(both)
        ctx.ob("both-directions", ok, ctx.at(f), "%s moves do not go up and down: %s" % (kind, sorted(st)))
        if kind == "ConstantRatioIntegers":
            # the variable whose coefficient is one follows, so that its value stays integral
            key = [x for x in subterms(case) if fname(x) == "m_key_variable_ptr"]
            ctx.need(key, "ratio: key variable")
            fst = [x for x in subterms(case) if who(x) == "first"]
            snd = [x for x in subterms(case) if who(x) == "second"]
            isf = bool(fst) and safe_implies(case, eq(fst[0], key[0])) or bool(snd) and safe_implies(case, not_(eq(snd[0], key[0])))
            free = "second" if isf else "first"
            ctx.ob("ratio-free", {(free, 1), (free, -1)} <= st, ctx.at(f), "the variable without unit coefficient is not the one that is stepped when %s" % case)


def precedence(ctx):
    f = ctx.fn1("Precedence" + GEN, 1)
    seen = set()
    for case, slot, vs, vals, e in updates(ctx, f):
        nv = new_values(ctx, "Precedence", vs, vals)
        st = {v: step(v, nv[v]) for v in nv}
        ok = set(st) == {"first", "second"} and st["first"] is not None and st["first"] == st["second"]
        ctx.ob("difference-kept", ok, ctx.at(f, e), "Precedence move %s: the variables become %s and %s, which changes their difference" % (slot, nv.get("first"), nv.get("second")),
               sample="precedence %s: both %s" % (slot, st))
        seen |= {st.get("first")}
    ctx.ob("both-directions", {1, -1} <= seen, ctx.at(f), "Precedence moves do not go up and down")


def variable_bound(ctx):
    f = ctx.fn1("VariableBound" + GEN, 1)
    seen = set()
    ups = updates(ctx, f)
    for case, slot, vs, vals, e in ups:
        nv = new_values(ctx, "VariableBound", vs, vals)
        at = ctx.at(f, e)
        nm = "VariableBound move %s" % slot
        if set(nv) != {"first", "second"}:
            ctx.ob("both-changed", False, at, "%s: only %s is given a new value" % (nm, sorted(nv)))
            continue
        st = [(v, step(v, nv[v])) for v in ("first", "second") if step(v, nv[v])]
        ctx.ob("unit-step", len(st) == 1, at, "%s: no variable is changed by one from its own value: %s, %s" % (nm, nv["first"], nv["second"]))
        if len(st) != 1:
            continue
        seen.add(st[0])
        tgt = "second" if st[0][0] == "first" else "first"
        en = {str(y).split("::")[-1]: y for x in subterms(nv[tgt]) if x.op == "eq" for y in x.a if y.op == "enum" and "ConstraintSense::" in str(y)}
        se = [y for x in subterms(nv[tgt]) if x.op == "eq" for y in x.a if fname(y) == "sense"]
        base = next(iter(en.values()), None)
        if se and base is not None:
            en = {n: mk("enum", str(base.a[0]).rsplit("::", 1)[0] + "::" + n, *base.a[1:]) if n not in en else en[n] for n in ("Less", "Equal", "Greater")}
            sense = lambda n: and_(eq(se[0], en[n]), *[not_(eq(se[0], en[o])) for o in en if o != n])
        else:
            sense = lambda n: TRUE
        for sn in ("Less", "Greater"):
            for pos in (True, False):
                k = COEF[tgt]
                facts = and_(sense(sn), lt(ZERO, k) if pos else lt(k, ZERO))
                rounds = []
                n, d = rational(choices(nv[tgt], facts), rounds)
                o = nv[st[0][0]]
                r = add(add(mul(mul(COEF[st[0][0]], o), d), mul(k, n)), mul(C, d))
                ctx.ob("bound-met", r is ZERO, at, "%s (%s, coefficient %s): the target %s is not where the constraint is tight" % (nm, sn, "positive" if pos else "negative", nv[tgt]))
                down = (sn == "Less") == pos
                ctx.ob("bound-side", rounds == ["floor" if down else "ceil"], at, "%s: for a %s constraint and a %s coefficient the target is rounded by %s, to the infeasible side" %
                       (nm, sn.lower(), "positive" if pos else "negative", rounds), sample="%s %s %s: %s" % (nm, sn, pos, rounds))
    ctx.ob("both-directions", len(seen) == 4, ctx.at(f), "VariableBound moves do not step both variables up and down: %s" % sorted(seen))


def fixed_values(ctx, kind, nargs, want, names, text):
    f = ctx.fn1(kind + GEN, nargs)
    E = ctx.run(f)
    cases = setup_cases(E)
    ctx.need(cases, kind + ": alterations")
    snaps = [s for c, ss in cases for s in ss]
    got = set()
    for s in snaps:
        vs = [v for v, _ in s]
        nm = names(vs)
        ctx.need(nm is not None, "%s: variables %s" % (kind, vs))
        vals = [x for _, x in s]
        ctx.need(all(x is not None and x.op == "n" for x in vals), "%s: values %s" % (kind, vals))
        tup = tuple(int(x.a[0]) for _, x in sorted(zip(nm, vals), key=lambda p: p[0]))
        got.add(tup)
        ctx.ob("pattern", tup in want, ctx.at(f), "%s: a move sets its variables to %s, which is not %s" % (kind, tup, text), key=(kind, tup), sample="%s %s" % (kind, tup))
    for w in want:
        ctx.ob("pattern-covered", w in got, ctx.at(f), "%s: no move sets the variables to %s" % (kind, w))
    # a refresh leaves the values alone
    for u in order(writes(E, "m_move_updater")):
        ctx.need(u.v in E.lams, kind + ": updater lambda")
        L = run_stored_lambda(ctx, E, u.v, f["file"])
        ws = [e for e in writes(L) if slot_of(e.t) is not None]
        ctx.ob("refresh-keeps", not ws, ctx.at(f, ws[0]) if ws else ctx.at(f), "%s: a refresh rewrites the values of a move" % kind)


def by_field(n):
    def names(vs):
        w = [who(v) for v in vs]
        o = ["first", "second", "third"]
        return [o.index(x) for x in w] if len(vs) == n and None not in w and len(set(w)) == n else None
    return names


def flip_names(vs):
    o = []
    for v in vs:
        if v.op != "get":
            return None
        p = v.a[0] if not isinstance(v.a[0], T) else int(v.a[0].a[0])
        o.append(int(p))
    return o if sorted(o) == [0, 1] and vs[0].a[1] is vs[1].a[1] else None


def soft_names(vs):
    if len(vs) != 2:
        return None
    k = [fname(v) == "m_key_variable_ptr" for v in vs]
    if sorted(k) != [False, True]:
        return None
    return [1 if x else 0 for x in k]


def soft_domain(ctx):
    """a soft selection pairs the key variable with every other variable of the constraint"""
    f = ctx.fn1("SoftSelection" + GEN, 1)
    E = ctx.run(f)
    es = [e for e in E.effects if e.kind == "call" and e.t is not None and fname(e.t) == "alterations" and callee(e) in ("emplace_back", "push_back")]
    ctx.need(es, "soft selection: alterations")
    for e in es:
        ctx.need(len(e.loops) == 2, "soft selection: loops")
        v = pair_args(e)
        ctx.need(v is not None, "soft selection: pair")
        S = [x for x in subterms(e.loops[1]) if fname(x) == "m_sensitivities"]
        ctx.need(S and e.loops[1] is mk("idx", ZERO, size_of(S[0])), "soft selection: loop over the variables")
        own = getn(0, mk("at", S[0], mk("iv", 1)))
        k = [x for x in subterms(e.pc) if fname(x) == "m_key_variable_ptr"]
        ctx.ob("soft-others", bool(k) and safe_equiv(e.pc, not_(eq(own, k[0]))), ctx.at(f, e), "soft selection moves are created when %s" % e.pc)


def conversion(ctx, n):
    """the binomial/trinomial view pairs every variable with its own coefficient and keeps constant and sense"""
    nm = {2: "binomial", 3: "trinomial"}[n]
    f = ctx.fn1("convert_to_%s_constraints" % nm, 1)
    E = ctx.run(f)
    ps = [e for e in calls(E, "push_back")] + [e for e in calls(E, "emplace_back")]
    ps = [e for e in ps if len(e.loops) == 1]
    ctx.need(len(ps) == 1, nm + ": results")
    p = ps[0]
    base = p.args[0]
    vals = {}
    for e in order(writes(E)):
        if e.t.op == "fld" and e.t.a[0] is base:
            ctx.need(safe_implies(p.pc, e.pc), nm + ": conditional field")
            vals[fname(e.t)] = e.v
    parts = ["first", "second", "third"][:n]
    need = ["variable_ptr_" + x for x in parts] + ["sensitivity_" + x for x in parts] + ["constant_value", "sense"]
    for x in need:
        ctx.ob("view-complete", x in vals, ctx.at(f, p), "the %s view of a constraint lacks its %s" % (nm, x))
    if any(x not in vals for x in need):
        return
    el = mk("at", mk("sym", "$0"), mk("iv", 0))
    ctx.ob("view-constant", fname(vals["constant_value"]) == "m_constant_value" and contains(vals["constant_value"], lambda x: x is el), ctx.at(f, p), "the %s view takes %s for the constant" % (nm, vals["constant_value"]))
    ctx.ob("view-sense", fname(vals["sense"]) == "m_sense" and vals["sense"].a[0] is el, ctx.at(f, p), "the %s view takes %s for the sense" % (nm, vals["sense"]))
    conds = []
    for x in need[:2 * n]:
        for y in subterms(vals[x]):
            if y.op == "ite" and y.a[0] not in conds:
                conds.append(y.a[0])
            elif y.op in ("min", "max") and len(y.a[0]) == 2:
                c = lt(y.a[0][0], y.a[0][1])
                if c not in conds:
                    conds.append(c)
    ctx.need(len(conds) <= 3, nm + ": orderings")
    for bits in range(1 << len(conds)):
        facts = and_(*[c if bits >> i & 1 else not_(c) for i, c in enumerate(conds)])
        if not safe_sat(facts):
            continue

        def val(x):
            t = vals[x]
            for _ in range(6):
                y = next((z for z in subterms(t) if z.op in ("min", "max") and len(z.a[0]) == 2), None)
                if y is None:
                    break
                a, b = y.a[0]
                if safe_implies(facts, le(a, b)):
                    t = subst(t, {y: a if y.op == "min" else b})
                elif safe_implies(facts, le(b, a)):
                    t = subst(t, {y: b if y.op == "min" else a})
                else:
                    raise Broken("order of %s and %s" % (a, b))
            return choices(t, facts)
        idx = []
        for x in parts:
            v, s = val("variable_ptr_" + x), val("sensitivity_" + x)
            ok = v.op == "at" and s.op == "at" and v.a[1] is s.a[1] and v.a[0].op == "get" and s.a[0].op == "get" and v.a[0].a[1] is s.a[0].a[1]
            if v.op == "get" and s.op == "get":
                ok = v.a[1] is s.a[1]
                k = v.a[1]
            elif ok:
                k = v.a[1]
            elif v.op in ("at", "get") and s.op in ("at", "get"):
                k = (v, s)
            else:
                raise Broken("%s: %s with %s" % (nm, v, s))
            ctx.ob("view-pairs", ok, ctx.at(f, p), "the %s view pairs variable %s with coefficient %s" % (nm, v, s), sample="%s with %s" % (v, s))
            idx.append(k)
        ctx.ob("view-distinct", len(set(map(str, idx))) == n, ctx.at(f, p), "the %s view uses a term of the constraint twice" % nm)


def selection(ctx):
    """a selection move deselects the selected variable of the group and selects its own"""
    f = ctx.fn1("Selection" + GEN, 1)
    E = ctx.run(f)
    up = [e for e in order(writes(E, "m_move_updater"))]
    ctx.need(len(up) == 1 and up[0].v in E.lams, "selection: updater lambda")
    L = run_stored_lambda(ctx, E, up[0].v, f["file"])
    vals, vars_ = {}, {}
    for X in (E, L):
        for e in order(x for x in X.effects if x.kind in ("write", "call")):
            if e.kind == "call":
                ctx.need(not (callee(e) in ("emplace_back", "push_back") and e.t is not None and fname(e.t) == "alterations"), "selection: alterations are appended")
                continue
            s = slot_of(e.t)
            if s is None:
                continue
            ctx.need(s[1] is not None and s[2] in (0, 1) and e.pc is TRUE, "selection: alteration %s" % e.t)
            (vals if s[2] == 1 else vars_)[s[1]] = (e.v, e)
    ctx.need(set(vals) == set(vars_) == {0, 1}, "selection: alterations")
    sel = [k for k, (v, e) in vars_.items() if fname(v) == "selected_variable_ptr"]
    ctx.need(len(sel) == 1, "selection: selected variable")
    k = sel[0]
    ctx.ob("selection-exchange", vals[k][0] is ZERO and vals[1 - k][0] is ONE, ctx.at(f, vals[k][1]), "a selection move sets the selected variable to %s and the new one to %s" % (vals[k][0], vals[1 - k][0]))
    own = vars_[1 - k][0]
    ctx.ob("selection-own-group", contains(vars_[k][0], lambda x: x is own), ctx.at(f, vars_[k][1]), "the variable deselected belongs to the group of another variable: %s" % vars_[k][0])


def binary(ctx):
    f = ctx.fn1("Binary" + GEN, 1)
    E = ctx.run(f)
    cases = setup_cases(E)
    ctx.need(len(cases) == 1 and len(cases[0][1]) == 1 and len(cases[0][1][0]) == 1, "binary: alterations")
    v = cases[0][1][0][0][0]
    up = [e for e in order(writes(E, "m_move_updater"))]
    ctx.need(len(up) == 1 and up[0].v in E.lams, "binary: updater lambda")
    L = run_stored_lambda(ctx, E, up[0].v, f["file"])
    ws = [e for e in order(writes(L)) if slot_of(e.t) is not None]
    ctx.need(ws, "binary: refreshed values")
    for e in ws:
        mv = e.t.a[1].a[0]
        t = subst(e.v, {getn(0, mk("at", mv, ZERO)): v})
        cur = [x for x in subterms(t) if fname(x) == "m_value"]
        ctx.need(cur, "binary: value %s" % t)
        ctx.ob("flip", cur[0].a[0] is v and (t is sub(ONE, cur[0]) or safe_equiv(eq(t, ONE), eq(cur[0], ZERO))), ctx.at(f, e), "a flip of a binary variable sets it to %s" % t)


def effective(ctx):
    """structured moves are generated from every enabled constraint without fixed or selection variables"""
    f = ctx.fn1("extract_effective_constraint_ptrs", 1)
    E = ctx.run(f)
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and len(e.loops) == 1]
    ctx.need(len(ps) == 1 and len(ps[0].args) == 1, "effective constraints")
    e = ps[0]
    el = mk("at", mk("sym", "$0"), mk("iv", 0))
    ctx.need(e.args[0] is el, "effective constraints: %s" % (e.args,))
    en = [x for x in subterms(e.pc) if fname(x) == "m_is_enabled"]
    S = [x for x in subterms(e.pc) if fname(x) == "m_sensitivities"]
    ctx.ob("effective-enabled", bool(en) and safe_implies(e.pc, en[0]), ctx.at(f, e), "moves are generated for a disabled constraint: kept when %s" % e.pc)
    ctx.need(S, "effective constraints: variables")
    b = mk("iv", "b1")
    v = getn(0, mk("at", S[0], b))
    fx = [x for x in subterms(e.pc) if fname(x) == "m_is_fixed"]
    sl = [x for x in subterms(e.pc) if x.op == "eq" and any(y.op == "enum" and str(y).endswith("VariableSense::Selection") for y in x.a)]
    ctx.ob("effective-fixed", bool(fx), ctx.at(f, e), "moves are generated for constraints with fixed variables")
    ctx.ob("effective-selection", bool(sl), ctx.at(f, e), "moves are generated for constraints with selection variables")
    if fx and sl and en:
        def at_b(x):
            return subst(x, {y: b for y in subterms(x) if y.op == "iv" and y is not mk("iv", 0)})
        bad = exists_(mk("idx", ZERO, size_of(S[0])), "b1", or_(at_b(fx[0]), at_b(sl[0])))
        ctx.ob("effective-exact", safe_equiv(e.pc, and_(en[0], not_(bad))), ctx.at(f, e), "a constraint is kept for move generation when %s" % e.pc, sample="kept iff %s" % e.pc)


def trinomial_constant(ctx):
    f = ctx.fn1("Constraint::setup_constraint_type", 0)
    E = ctx.run(f)
    ws = [e for e in writes(E, "m_is_trinomial_exclusive_nor") if e.v is TRUE]
    ctx.need(ws, "trinomial classification")
    K = [x for e in writes(E) if e.v is TRUE for x in subterms(e.pc) if fname(x) == "m_constant_value"]
    ctx.need(K, "constant in the classifier")
    for e in ws:
        ctx.ob("trinomial-homogeneous", safe_implies(e.pc, eq(K[0], ZERO)), ctx.at(f, e), "a three-variable equation with a constant is classified as a trinomial exclusive NOR, so its moves violate it")


def run(ctx):
    ctx.section(conversion, 2)
    ctx.section(conversion, 3)
    for k, (p, z) in EQUATIONS.items():
        ctx.section(equations, k, p, z)
    ctx.section(precedence)
    ctx.section(variable_bound)
    ctx.section(fixed_values, "ExclusiveOr", 1, {(0, 1), (1, 0)}, by_field(2), "one of the two")
    ctx.section(fixed_values, "ExclusiveNor", 1, {(0, 0), (1, 1)}, by_field(2), "both equal")
    ctx.section(fixed_values, "TrinomialExclusiveNor", 1, {(0, 0, 0), (1, 1, 1)}, by_field(3), "all equal")
    ctx.section(fixed_values, "SoftSelection", 1, {(0, 0), (1, 1)}, soft_names, "both equal")
    ctx.section(fixed_values, "TwoFlip", 1, {(0, 1), (1, 0)}, flip_names, "an exchange")
    ctx.section(soft_domain)
    ctx.section(trinomial_constant)
    ctx.section(selection)
    ctx.section(binary)
    ctx.section(effective)
