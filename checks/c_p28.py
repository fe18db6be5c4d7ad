"""P28: dependent variables are defined exactly by the equations they replace.

extract() is summarised as guarded effects: what makes a row a definition, what is recorded for it and which bound rows are added.
eliminate(), the loop that runs both, the algebra of solve()/substitute() and the order in which values are refreshed are decided the
same way."""
from common import *
from c_p27 import by_name, listof, memberships, member, whole

CON = "printemps::model_component::Constraint::"
VAR = "printemps::model_component::Variable::"
EXT = "printemps::model_component::VariableExtention::"
EXP = "printemps::model_component::Expression::"
PUSH = ("push_back", "emplace_back")
SOUND = {"exclusive_or_ptrs", "exclusive_nor_ptrs", "inverted_integers_ptrs", "balanced_integers_ptrs", "constant_sum_integers_ptrs", "constant_difference_integers_ptrs", "constant_ratio_integers_ptrs", "intermediate_ptrs"}
TWO = ("exclusive_or_ptrs", "exclusive_nor_ptrs")


def last(n):
    return str(n).split("::")[-1]


def flag(t):
    """loc(flags)[i] read as a condition -> the element"""
    if t.op == "call" and t.a[0] in ("(conv)",) or t.op == "call" and last(t.a[0]) in ("(conv)", "operator bool"):
        return t.a[1]
    return t if t.op == "at" else None


class X:
    def __init__(s, ctx):
        s.ctx = ctx
        s.f = ctx.fn1("DependentVariableExtractor::extract", 2)
        s.E = E = ctx.run(s.f)
        ds = [e for e in writes(E) if by_name(e.t, "m_is_enabled") and is_false(e.v)]
        ctx.need(ds, "where a row becomes a definition")
        if len(ds) != 1 or not ds[0].loops:
            raise Broken("%d places where a row becomes a definition" % len(ds))
        s.d = d = ds[0]
        s.c = d.t.a[0]
        s.L = listof(d.loops[-1])
        if s.c.op != "at" or s.L is None or s.c.a[0] is not s.L or s.L.op != "loc":
            raise Broken("the candidate examined")
        s.key = mk("fld", s.c, CON + "m_key_variable_ptr")
        s.pc = d.pc
        s.iv = s.c.a[1]

    def closed(s):
        """the guard of the definition with the flags of earlier passes over the candidates resolved"""
        p = s.pc
        for t in list(subterms(s.pc)):
            el = flag(t)
            if el is None or el.op != "at" or el.a[0].op != "loc" or el.a[1] is not s.iv:
                continue
            F = el.a[0]
            ws = [e for e in writes(s.E) if e.t.op == "at" and e.t.a[0] is F]
            if not ws or not all(is_false(e.v) for e in ws):
                continue
            for e in ws:
                if e.t is el and e.loops and e.loops[0] is s.d.loops[0] and len(e.loops) == 1 and e.seq < s.d.seq:
                    p = and_(p, not_(e.pc))
        return p


def acceptance(ctx):
    """which rows become definitions"""
    x = X(ctx)
    E, f = x.E, x.f
    whole(ctx, f, E, x.d.loops, "candidate rows")
    en = mk("fld", x.c, CON + "m_is_enabled")
    ctx.ob("accepted-rows", safe_implies(x.pc, en), ctx.at(f, x.d), "a disabled row can become the definition of a variable", sample="row accepted when %s" % str(x.pc)[:200])
    p = x.closed()
    it = mk("fld", x.c, CON + "m_is_integer")
    ok = safe_implies(p, it)
    src = [e for e in E.effects if e.kind == "call" and e.t is x.L and callee(e) in PUSH + ("insert",)]
    if not src:
        raise Broken("where the candidates come from")
    for e in src:
        if callee(e) == "insert":
            a = [y for y in e.args if y.op == "call" and last(y.a[0]) in ("begin", "end", "cbegin", "cend")]
            S = {y.a[1] for y in a if y.a[1] is not x.L}
            if len(S) != 1:
                raise Broken("inserted candidates: %s" % (e.args,))
            S = S.pop()
            good = False
        else:
            v = e.args[0]
            if v.op != "at":
                raise Broken("candidate %s" % v)
            S = v.a[0]
            if not e.loops or listof(e.loops[-1]) is not S:
                raise Broken("candidate loop")
            good = safe_implies(e.pc, mk("fld", v, CON + "m_is_integer"))
        nm = last(S.a[1]) if S.op == "fld" else str(S)
        ctx.ob("candidate-kinds", nm in SOUND, ctx.at(f, e), "rows of kind %s do not determine their key variable, yet they are candidates for definitions" % nm, key="candidate-kinds|" + nm, sample="candidates: %s" % nm)
        ctx.ob("integral-definitions", ok or good or nm in TWO + ("inverted_integers_ptrs", "balanced_integers_ptrs", "intermediate_ptrs"), ctx.at(f, e), "a %s row with fractional data can define an integer variable" % nm, key="integral-definitions|" + nm)
        if nm in TWO and callee(e) != "insert":
            v = e.args[0]
            se = mk("fld", mk("fld", v, CON + "m_expression"), EXP + "m_sensitivities")
            ex = [s for s in subterms(memberships(e.pc)) if s.op == "exists"]
            sets = [y.a[1] for s in ex for y in subterms(s) if y.op == "call" and y.a[0] == "is-in"]
            if not sets:
                ctx.ob("set-variables", False, ctx.at(f, e), "a %s row is used although its variables may belong to a set-partitioning row" % nm)
                continue
            Q = sets[0]
            b = ex[0].a[1]
            want = not_(exists_(mk("idx", ZERO, size_of(se)), b, member(Q, getn(0, mk("at", se, mk("iv", b))))))
            ctx.ob("set-variables", safe_implies(memberships(e.pc), want), ctx.at(f, e), "a %s row is used although one of its variables belongs to a set-partitioning row: %s" % (nm, str(e.pc)[:200]), key="set-variables|" + nm)
            fill = [y for y in E.effects if y.kind == "call" and y.t is Q and callee(y) in ("insert", "emplace") and len(y.loops) == 2]
            okf = False
            for y in fill:
                a = listof(y.loops[0])
                if a is None or not by_name(a, "set_partitioning_ptrs"):
                    continue
                r = mk("at", a, mk("iv", 0))
                s2 = mk("fld", mk("fld", r, CON + "m_expression"), EXP + "m_sensitivities")
                okf = okf or (y.pc is TRUE and listof(y.loops[1]) is s2 and y.args[0] is getn(0, mk("at", s2, mk("iv", 1))))
                whole(ctx, f, E, y.loops, "set-partitioning rows")
            if fill:
                ctx.ob("set-variables", okf, ctx.at(f, fill[0]), "the variables of set-partitioning rows are not all collected")
    # the dependency relation between candidates
    ad = [e for e in writes(E) if len(e.loops) == 2 and listof(e.loops[0]) is x.L and listof(e.loops[1]) is x.L and e.t.op == "at" and e.v is mk("n", e.v.a[0]) and e.v is not ZERO]
    if ad:
        e = ad[0]
        i, j = mk("iv", 0), mk("iv", 1)
        ri, rj = e.t.a[1], e.t.a[0].a[1] if e.t.a[0].op == "at" else None
        ki = mk("fld", mk("at", x.L, i), CON + "m_key_variable_ptr")
        kj = mk("fld", mk("at", x.L, j), CON + "m_key_variable_ptr")
        si, sj = (mk("fld", mk("fld", mk("at", x.L, t), CON + "m_expression"), EXP + "m_sensitivities") for t in (i, j))
        if {ri, rj} != {i, j}:
            raise Broken("dependency relation")
        pc = memberships(e.pc)
        base = and_(*[y for y in ([pc] if pc.op != "and" else pc.a[0]) if not contains(y, lambda z: z.op == "iv")])
        opts = [(member(sj, ki)), (member(si, kj))]
        ok2 = any(safe_implies(and_(base, not_(eq(i, j)), m), pc) for m in opts)
        ctx.ob("no-circles", ok2, ctx.at(f, e), "the dependency of one definition on another's key variable is not recorded: only when %s" % str(pc)[:200], sample="dependency when %s" % str(pc)[:160])
        M = e.t.a[0].a[0]
        fl = [w for w in writes(E) if is_false(w.v) and w.loops and w.loops[0] is x.d.loops[0] and contains(w.pc, lambda z: z is M) and w.t.op == "at" and w.t.a[0].op == "loc"]
        ctx.ob("no-circles", bool(fl), ctx.at(f, e), "the recorded dependencies never exclude a row")
    else:
        raise Broken("dependency relation")


def definition(ctx):
    """what is recorded for a definition"""
    x = X(ctx)
    E, f, pc = x.E, x.f, x.pc
    inl = [e for e in E.effects if e.kind == "call" and callee(e) in PUSH and e.t.op == "loc" and e.loops == x.d.loops and e.seq > 0]
    dp = [e for e in inl if e.args[0] is x.key]
    sx = [e for e in inl if e.args[0].op == "call" and last(e.args[0].a[0]) == "solve"]
    if not dp and not sx:
        raise Broken("what is recorded for a definition")
    ctx.ob("definition", len(dp) == 1 and safe_equiv(dp[0].pc, pc), ctx.at(f, (dp or sx)[0]), "the key variable of a row is recorded as dependent when %s, while the row is dropped when %s" % (str(dp[0].pc)[:150] if dp else "never", str(pc)[:150]), sample="%s defined by its row" % x.key)
    if not sx:
        raise Broken("the expression of a definition")
    e = sx[0]
    s = e.args[0]
    ctx.ob("definition", len(sx) == 1 and safe_equiv(e.pc, pc) and s.a[1] is mk("fld", x.c, CON + "m_expression") and s.a[2] and s.a[2][0] is x.key, ctx.at(f, e), "the definition of a dependent variable is %s, not its row solved for it" % s)
    D, S = dp[0].t if dp else None, e.t
    for V in (D, S):
        oth = [y for y in E.effects if y.kind == "call" and y.t is V and callee(y) in ("clear", "pop_back", "erase", "insert", "resize", "assign") ]
        ctx.ob("definition", not oth, ctx.at(f, oth[0]) if oth else ctx.at(f), "recorded definitions are altered")
    # bound rows
    elast = [y for y in subterms(mk("tuple", *[a for c in inl for a in c.args])) if y.op == "at" and y.a[0] is S] if inl else []
    for side, other, bad in (("lower", "Greater", lambda lb, v: lt(v, lb)), ("upper", "Less", lambda ub, v: lt(ub, v))):
        bnd = mk("fld", x.key, VAR + "m_%s_bound" % side)
        rows = [y for y in inl if y.t not in (D, S) and contains(mk("tuple", *y.args), lambda z: z is bnd)]
        if not rows:
            ctx.ob("bound-rows", False, ctx.at(f, x.d), "no row keeps the %s bound of a dependent variable" % side, key="bound-rows|" + side)
            continue
        ok = False
        for r in rows:
            a = r.args[0]
            if a.op != "call" or last(a.a[0]) != "create_instance" or len(a.a[2]) != 2:
                raise Broken("bound row %s" % str(a)[:100])
            g, sense = a.a[2]
            sn = last(sense.a[0]) if sense.op == "enum" else str(sense)
            if g.op != "call" or last(g.a[0]) != "operator-" or len(g.a[2]) != 2:
                raise Broken("bound row %s" % str(g)[:100])
            p, q = g.a[2]
            good = (sn == other and q is bnd) or (sn == ("Less" if other == "Greater" else "Greater") and p is bnd)
            exp = p if q is bnd else q
            if not (exp.op == "at" and exp.a[0] is S or exp is e.args[0]):
                good = False
            ctx.ob("bound-rows", good, ctx.at(f, r), "the row kept for the %s bound is %s %s 0" % (side, str(g)[-120:], sn), key="bound-rows|%s|form" % side, sample="%s bound row: %s" % (side, sn))
            if not good:
                continue
            inf = mk("n", -1073741823 if side == "lower" else 1073741823)
            vals = [y for y in subterms(r.pc) if y.op == "call" and last(y.a[0]) == "%s_bound" % side]
            need = [and_(pc, not_(eq(bnd, inf)))]
            if vals:
                need = [and_(need[0], bad(bnd, vals[0]))]
                if not (vals[0].a[1] is exp or vals[0].a[1].op == "at" and vals[0].a[1].a[0] is S):
                    need = [pc]
            ok = ok or any(safe_implies(n, r.pc) for n in need)
        ctx.ob("bound-rows", ok, ctx.at(f, rows[0]), "the %s bound of a dependent variable is lost in some case: its row is added only when %s" % (side, str(rows[0].pc)[-300:]), key="bound-rows|%s|when" % side)
    # linking
    sd = [y for y in E.effects if y.kind == "call" and callee(y) == "set_dependent_expression_ptr"]
    ctx.need(sd, "linking of variables and definitions")
    y = sd[0]
    ok = len(sd) == 1 and len(y.loops) == 1 and y.t.op == "at" and y.t.a[0] is D and listof(y.loops[0]) in (D, S)
    ctx.ob("linking", ok, ctx.at(f, y), "not every dependent variable is linked to its definition: %s over %s" % (y.t, y.loops))
    if ok:
        whole(ctx, f, E, y.loops, "dependent variables")
        cell = y.args[0]
        w = [z for z in E.effects if z.kind in ("write", "call") and z.t is cell and (z.kind == "write" or callee(z) == "operator=") and z.seq < y.seq]
        if not w:
            ctx.ob("linking", False, ctx.at(f, y), "a dependent variable is linked to an expression that was not set: %s" % str(cell)[-120:])
        else:
            v = w[-1].v if w[-1].kind == "write" else w[-1].args[0]
            ctx.ob("linking", v is mk("at", S, y.t.a[1]) and safe_implies(y.pc, w[-1].pc), ctx.at(f, w[-1]), "dependent variable %s is linked to definition %s" % (y.t, v), sample="variable i <-> definition i")
        alt = [z for z in writes(E) if by_name(z.t, "dependent_expression_ptr") and z.loops == y.loops]
        for z in alt:
            ctx.ob("linking", z.t.a[0].a[0] is y.t and z.v is mk("at", S, y.t.a[1]), ctx.at(f, z), "an existing definition is replaced by %s" % z.v)
        g = or_(y.pc, *[z.pc for z in alt])
        rest = not_(eq(size_of(S), ZERO))
        ctx.ob("linking", safe_implies(and_(rest, not_(eq(size_of(x.L), ZERO))), g), ctx.at(f, y), "a definition is left unlinked in some case")
    # added rows
    cc = [z for z in E.effects if z.kind == "call" and callee(z) == "create_constraints"]
    C = {r.t for r in inl if r.t not in (D, S) and r.t.op == "loc" and any(contains(a, lambda q: q.op == "call" and last(q.a[0]) == "create_instance") for a in r.args)}
    for c in C:
        st = [z for z in E.effects if z.loops and listof(z.loops[-1]) is c and (z.kind == "call" and callee(z) == "operator=" or z.kind == "write" and not by_name(z.t, "name"))]
        if not st:
            ctx.ob("bound-rows", False, ctx.at(f), "the bound rows are not added to the model", key="bound-rows|added")
            continue
        z = st[0]
        v = z.v if z.kind == "write" else z.args[0]
        i = mk("iv", len(z.loops) - 1)
        idx = [q for q in subterms(z.t) if q is i]
        ok = v is mk("at", c, i) and bool(idx) and contains(z.t, lambda q: q.op == "call" and last(q.a[0]) == "create_constraints" and size_of(c) in q.a[2])
        ctx.ob("bound-rows", ok and safe_implies(and_(not_(eq(size_of(c), ZERO)), not_(eq(size_of(x.L), ZERO))), z.pc), ctx.at(f, z), "bound row %s is stored as %s" % (v, str(z.t)[-120:]), key="bound-rows|added")
        whole(ctx, f, E, z.loops, "bound rows")
    # the caller learns that something was extracted
    r = [z for z in E.effects if z.kind == "ret" and z.v is not None and z.seq > x.d.seq]
    ctx.need(r, "result")
    for z in r:
        sums = [q for q in subterms(z.v) if q.op == "sum"]
        ok = any(counts(q, x.d) for q in sums) or any(q is size_of(V) for q in (z.v,) for V in (D, S))
        if not sums and not ok:
            if z.v.op == "n":
                ctx.ob("reported", False, ctx.at(f, z), "extracted definitions are reported as %s" % z.v)
                continue
            raise Broken("result %s" % str(z.v)[:100])
        ctx.ob("reported", ok, ctx.at(f, z), "extracted definitions are not counted: %s" % str(z.v)[:200])


def counts(q, e):
    """does the sum q count every occurrence of effect e?"""
    t = q
    for l in e.loops:
        if t.op != "sum" or t.a[0] is not l:
            return False
        t = t.a[2]
        while t.op == "ite" and any(s.op == "sum" for s in subterms(t)) and len(e.loops) > 1:
            t = under(t, e.pc)
            break
    v = under(t, e.pc)
    return v.op == "n" and v is not ZERO


def elimination(ctx):
    """every occurrence of a dependent variable is replaced"""
    f = ctx.fn1("DependentVariableExtractor::eliminate", 1)
    E = ctx.run(f)
    sub = [e for e in E.effects if e.kind == "call" and callee(e) == "substitute"]
    ctx.need(sub, "substitution")
    where = {}
    ret = [z for z in E.effects if z.kind == "ret" and z.v is not None]
    for e in sub:
        if len(e.args) != 2 or not e.loops:
            raise Broken("substitution")
        v = e.args[0]
        ctx.ob("elimination", e.args[1] is mk("fld", mk("fld", v, VAR + "m_extension"), EXT + "dependent_expression_ptr") or by_name(e.args[1], "dependent_expression_ptr") and contains(e.args[1], lambda z: z is v), ctx.at(f, e), "%s is replaced by %s" % (v, e.args[1]), sample="substitute(%s)" % v)
        if v.op != "at":
            raise Broken("variable substituted")
        V = v.a[0]
        if listof(e.loops[0]) is not V or v.a[1] is not mk("iv", 0):
            raise Broken("variables substituted: %s" % e.loops[0])
        whole(ctx, f, E, e.loops, "occurrences")
        if V.op == "loc":
            srcs = [y for y in E.effects if y.kind == "call" and y.t is V and callee(y) in PUSH + ("insert",)]
            for k in ("dependent_binary_variable_ptrs", "dependent_integer_variable_ptrs"):
                h = [y for y in srcs if contains(mk("tuple", *y.args), lambda z: by_name(z, k))]
                ctx.ob("elimination", any(y.pc is TRUE for y in h), ctx.at(f, e), "%s are not eliminated" % k, key="elimination|" + k)
        pc = memberships(e.pc)
        tgt = e.t
        if contains(tgt, lambda z: by_name(z, "m_objective")):
            k, need = "objective", member(mk("fld", tgt, EXP + "m_sensitivities"), v)
        elif contains(tgt, lambda z: by_name(z, "m_expression_proxies")):
            k, need = "expressions", member(mk("fld", tgt, EXP + "m_sensitivities"), v)
            ok = len(e.loops) == 3 and by_name(listof(e.loops[1]) or ZERO, "m_expression_proxies") and listof(e.loops[2]) is not None
            ctx.ob("elimination", ok, ctx.at(f, e), "dependent variables are not eliminated from every expression", key="elimination|expr-all")
        elif by_name(tgt, "m_expression") and tgt.a[0].op == "at":
            k, need = "constraints", mk("fld", tgt.a[0], CON + "m_is_enabled")
            Lc = tgt.a[0].a[0]
            ok = len(e.loops) == 2 and listof(e.loops[1]) is Lc and by_name(Lc, "related_constraint_ptrs") and contains(Lc, lambda z: z is v)
            if not ok and not by_name(Lc, "related_constraint_ptrs"):
                raise Broken("rows substituted: %s" % Lc)
            ctx.ob("elimination", ok, ctx.at(f, e), "dependent variables are not eliminated from every row they occur in", key="elimination|rows-all")
            need = and_(need, *[m for m in subterms(pc) if m.op == "call" and m.a[0] == "is-in"])
        else:
            raise Broken("substitution target %s" % tgt)
        where.setdefault(k, []).append(e)
        ctx.ob("elimination", safe_implies(need, pc), ctx.at(f, e), "%s: a dependent variable is left in place unless %s" % (k, str(pc)[:200]), key="elimination|%s|when" % k)
        for z in ret:
            sums = [q for q in subterms(z.v) if q.op == "sum"]
            if not sums and z.v.op != "n":
                raise Broken("result of the elimination")
            ctx.ob("reported", any(counts(q, e) for q in sums), ctx.at(f, z), "a substitution in %s is not reported, so dependent variables introduced by it stay" % k, key="reported|" + k)
    for k in ("objective", "constraints", "expressions"):
        ctx.ob("elimination", k in where, ctx.at(f), "dependent variables are never eliminated from %s" % k, key="elimination|has|" + k)


def driver(ctx):
    """extraction and elimination are repeated until nothing is left, on a fresh structure"""
    f = ctx.fn1("Model::setup", 2)
    E = ctx.run(f, opaque=("DependentVariableExtractor::extract", "DependentVariableExtractor::eliminate", "Model::setup_structure"))
    ex = [e for e in E.effects if e.kind == "call" and e.v.endswith("DependentVariableExtractor::extract")]
    el = [e for e in E.effects if e.kind == "call" and e.v.endswith("DependentVariableExtractor::eliminate")]
    ss = [e for e in E.effects if e.kind == "call" and e.v.endswith("Model::setup_structure")]
    ctx.need(ex, "extraction in the setup")
    if not el:
        ctx.ob("until-none", False, ctx.at(f, ex[0]), "dependent variables are never eliminated")
        return
    if len(el) != 1 or len(ex) != 1 or len(el[0].loops) < 1:
        raise Broken("shape of the extraction loop")
    e = el[0]
    res = [y for z in E.effects for y in subterms(z.pc) if y.op == "call" and last(y.a[0]) == "eliminate"]
    rex = [y for z in E.effects for y in subterms(z.pc) if y.op == "call" and last(y.a[0]) == "extract"]
    outs = [z for z in E.effects if z.kind in ("break", "loopexit", "ret") and z.loops == e.loops]
    if len(e.loops) <= len(ex[0].loops) and e.loops == ex[0].loops:
        ctx.ob("until-none", False, ctx.at(f, e), "the elimination runs only once per extraction: variables introduced by it stay")
        return
    if not outs or not res:
        raise Broken("end of the elimination loop")
    for z in outs:
        ctx.ob("until-none", safe_implies(z.pc, eq(res[0], ZERO)), ctx.at(f, z), "the elimination stops although variables were replaced in the last round (%s)" % str(z.pc)[-200:])
    pre = [z for z in ss if z.loops == e.loops and z.seq < e.seq and safe_implies(e.pc, z.pc)]
    if not pre:
        # the structure may be refreshed before the loop and at the end of each round
        a = [z for z in ss if len(z.loops) < len(e.loops) and z.loops == e.loops[:len(z.loops)] and ex[0].seq < z.seq < e.seq]
        b = [z for z in ss if z.loops == e.loops and z.seq > e.seq]
        ctx.ob("until-none", bool(a and b), ctx.at(f, e), "dependent variables are eliminated from an outdated structure")
    else:
        ctx.ob("until-none", True, ctx.at(f, e), "fresh structure")
    if rex:
        ctx.ob("until-none", safe_implies(and_(ex[0].pc, not_(eq(rex[0], ZERO))), e.pc), ctx.at(f, e), "extracted variables are not always eliminated: only when %s" % str(e.pc)[-200:])
    post = [z for z in ss if z.seq > e.seq and z.loops == ex[0].loops]
    ctx.ob("until-none", any(z.seq > e.seq and (len(z.loops) == 0 and z.pc is TRUE) for z in ss), ctx.at(f), "the structure is not refreshed after the elimination")


def algebra(ctx):
    f = ctx.fn1("Expression::solve", 1)
    E = ctx.run(f, opaque=("Expression::erase",))
    r = E.ret
    if r is None or r.op != "loc":
        raise Broken("solved expression")
    v = mk("sym", "$0")
    co = mk("at", mk("fld", THIS, EXP + "m_sensitivities"), v)
    ini = [e for e in E.effects if e.kind == "init" and e.t is r]
    src = ini[-1].v if ini else None
    okc = src is not None and (src.op == "call" and last(src.a[0]) in ("create_instance", "copy") and (src.a[1] is THIS or mk("fld", THIS, EXP + "m_sensitivities") in src.a[2] and mk("fld", THIS, EXP + "m_constant_value") in src.a[2]) or src is THIS or src.op == "ctor" and src.a[1] and src.a[1][0] is THIS)
    rs = mk("fld", r, EXP + "m_sensitivities")
    rc = mk("fld", r, EXP + "m_constant_value")
    oth = [e for e in E.effects if e.kind == "call" and e.t is r and callee(e) not in ("erase", "set_name")]
    if oth or not okc:
        raise Broken("how the expression is solved")
    er = [e for e in E.effects if e.kind == "call" and callee(e) == "erase" and e.t in (r, rs) and e.args and e.args[0] is v and e.pc is TRUE]
    ctx.ob("solve", bool(er), ctx.at(f), "the solved expression still contains the variable")
    ws = [e for e in writes(E) if contains(e.t, lambda z: z is rs) and e.loops]
    cs = [e for e in writes(E) if e.t is rc]
    k = div(num(-1), co)
    okw = okk = False
    for e in ws:
        okw = okw or listof(e.loops[-1]) is rs and len(e.loops) == 1 and e.pc is TRUE and ratio(e, co)
        whole(ctx, f, E, e.loops, "coefficients")
    for e in cs:
        okk = okk or e.pc is TRUE and any(ratio(e, co, o) for o in (e.t, mk("fld", src, EXP + "m_constant_value"), mk("fld", THIS, EXP + "m_constant_value")))
    ctx.ob("solve", len(ws) == 1 and okw, ctx.at(f, ws[0]) if ws else ctx.at(f), "coefficients of the solved expression are %s, not -a/a_key" % (ws[0].v if ws else "unchanged"), key="solve|coefficients", sample="coefficient %s" % (ws[0].v if ws else None))
    ctx.ob("solve", len(cs) == 1 and okk, ctx.at(f, cs[0]) if cs else ctx.at(f), "the constant of the solved expression is %s, not -b/a_key" % (cs[0].v if cs else "unchanged"), key="solve|constant")
    g = ctx.fn1("Expression::erase", 1)
    G = ctx.run(g)
    ers = [e for e in G.effects if e.kind == "call" and callee(e) == "erase" and by_name(e.t, "m_sensitivities")]
    ctx.need(ers, "removal of a term")
    ctx.ob("solve", any(e.pc is TRUE and e.args[0] is v for e in ers), ctx.at(g, ers[0]), "the term of a variable is removed only when %s" % ers[0].pc, key="solve|erase")
    f = ctx.fn1("Expression::substitute", 2)
    E = ctx.run(f, opaque=("Expression::operator+=", "operator*"))
    se = mk("fld", THIS, EXP + "m_sensitivities")
    co = mk("at", se, v)
    add = [e for e in E.effects if e.kind == "call" and callee(e) in ("operator+=", "operator-=")]
    er = [e for e in E.effects if e.kind == "call" and callee(e) == "erase" and (e.t is se or e.t is THIS)]
    if len(add) != 1:
        raise Broken("how an expression is substituted")
    e = add[0]
    a = e.args[0]
    if a is mk("sym", "$1"):
        ctx.ob("substitute", False, ctx.at(f, e), "the definition is added without the coefficient of the variable")
        return
    if a.op != "call" or last(a.a[0]) != "operator*" or len(a.a[2]) + (a.a[1] is not None) != 2:
        raise Broken("substituted term")
    ops = set(([a.a[1]] if a.a[1] is not None else []) + list(a.a[2]))
    cl = {co, mk("call", "at", se, (v,))}
    okm = mk("sym", "$1") in ops and any(o in cl or o.op == "call" and last(o.a[0]) == "at" and o.a[1] is se for o in ops)
    ctx.ob("substitute", callee(e) == "operator+=" and e.t is THIS and e.pc is TRUE and okm, ctx.at(f, e), "substituting adds %s" % a, sample="substitute adds %s" % a)
    ctx.ob("substitute", len(er) == 1 and er[0].pc is TRUE and er[0].args[0] is v, ctx.at(f), "the substituted variable stays in the expression")
    if er:
        ctx.ob("substitute", er[0].seq > e.seq, ctx.at(f, er[0]), "the variable is removed before its coefficient is used")


def ratio(e, co, old=None):
    """is the value written the old one times -1/co ?"""
    old = e.t if old is None else old
    want = mul(mul(num(-1), div(num(1), co)), old)
    alt = div(mul(num(-1), old), co)
    alt2 = mul(num(-1), div(old, co))
    alt3 = mul(old, div(num(-1), co))
    return any(e.v is w or same_under(e.v, w, TRUE) for w in (want, alt, alt2, alt3)) or same_under(mul(e.v, co), mul(num(-1), old), TRUE)


def values(ctx):
    """dependent variables take the value of their definition, before anything that uses them is refreshed"""
    f = ctx.fn1("model_component::Variable::update", 0)
    E = ctx.run(f, opaque=("Expression::value",), inline=())
    w = [e for e in writes(E) if by_name(e.t, "m_value")]
    ctx.need(w, "value of a dependent variable")
    dep = [y for y in subterms(w[-1].v) if by_name(y, "dependent_expression_ptr")]
    ok = w[-1].pc is TRUE and bool(dep) and all(y.op in ("call", "fld", "trunc", "sym", "this", "cast", "f2i") for y in subterms(w[-1].v)) and (contains(w[-1].v, lambda z: by_name(z, "m_value") and contains(z, lambda q: q is dep[0])) or contains(w[-1].v, lambda z: z.op == "call" and last(z.a[0]) == "value"))
    ctx.ob("values", ok, ctx.at(f, w[-1]), "a dependent variable takes the value %s" % w[-1].v, sample="value := %s" % w[-1].v)
    f = ctx.fn1("model_component::Variable::set_dependent_expression_ptr", 1)
    E = ctx.run(f)
    w = [e for e in writes(E) if by_name(e.t, "dependent_expression_ptr")]
    ctx.ob("values", bool(w) and w[-1].v is mk("sym", "$0") and w[-1].pc is TRUE, ctx.at(f), "a variable is not linked to the expression given")
    sw = [e for e in writes(E) if by_name(e.t, "sense")]
    for b in ("Binary", "Integer"):
        es = [e for e in sw if e.v.op == "enum" and last(e.v.a[0]) == "Dependent" + b]
        ctx.ob("values", bool(es) and all(any(last(y.a[0]) == b for y in subterms(e.pc) if y.op == "enum") for e in es), ctx.at(f), "a %s variable is not marked as dependent" % b.lower(), key="values|sense|" + b)
        for e in es:
            sense = e.t
            bb = next((y for y in subterms(e.pc) if y.op == "enum" and last(y.a[0]) == b), None)
            if bb is not None:
                ctx.ob("values", safe_equiv(e.pc, eq(sense, bb)) or safe_implies(eq(sense, bb), e.pc) and safe_implies(e.pc, eq(sense, bb)) or safe_implies(e.pc, eq(sense, bb)), ctx.at(f, e), "a variable is marked Dependent%s when %s" % (b, e.pc), key="values|sense2|" + b)
    for nm, ar in (("Model::update", 0), ("Model::update_dependent_variables_and_disabled_constraints", 0)):
        f = ctx.fn1(nm, ar)
        E = ctx.run(f, opaque=("Expression::update", "Variable::update", "Constraint::update", "Objective::update"))
        ex = [e for e in E.effects if (e.kind == "call" and callee(e) == "update" and contains(e.t, lambda z: by_name(z, "m_expression_proxies"))) or (e.kind == "write" and by_name(e.t, "m_value") and contains(e.t, lambda z: by_name(z, "m_expression_proxies")))]
        ctx.need(ex, "refresh of the expressions")
        e = ex[-1]
        ctx.ob("refresh", e.pc is TRUE and len(e.loops) == 2 and by_name(listof(e.loops[0]) or ZERO, "m_expression_proxies") and listof(e.loops[1]) is not None, ctx.at(f, e), "%s: not every expression is refreshed" % nm, key="refresh|expr|" + nm, sample="%s: %s" % (nm, e.loops))
        whole(ctx, f, E, e.loops, "expressions")
        last_dep = 0
        for k in ("dependent_integer_variable_ptrs", "dependent_binary_variable_ptrs"):
            vs = [y for y in E.effects if y.kind == "call" and callee(y) == "update" and contains(y.t, lambda z: by_name(z, k))]
            ok = len(vs) >= 1 and all(y.pc is TRUE and len(y.loops) == 1 and by_name(listof(y.loops[0]) or ZERO, k) and y.seq > e.seq for y in vs)
            ctx.ob("refresh", ok, ctx.at(f, vs[0]) if vs else ctx.at(f), "%s: %s are not all refreshed after the expressions" % (nm, k), key="refresh|%s|%s" % (k, nm))
            for y in vs:
                whole(ctx, f, E, y.loops, k)
                last_dep = max(last_dep, y.seq)
        late = [y for y in E.effects if y.kind == "call" and callee(y) in ("update",) and contains(y.t, lambda z: by_name(z, "m_constraint_proxies") or by_name(z, "disabled_constraint_ptrs") or by_name(z, "m_objective"))]
        ctx.need(late, "refresh of the constraints")
        ctx.ob("refresh", all(y.seq > last_dep for y in late), ctx.at(f, late[0]), "%s: constraints or the objective are refreshed before the dependent variables" % nm, key="refresh|order|" + nm)


def run(ctx):
    ctx.rule("accepted-rows / candidate-kinds / integral-definitions / set-variables / no-circles: which rows define a variable")
    ctx.rule("definition / bound-rows / linking / reported: what is recorded for a definition")
    ctx.rule("elimination / until-none: every occurrence is replaced, round after round")
    ctx.rule("solve / substitute / values / refresh: the algebra and the values of definitions")
    for s in (acceptance, definition, elimination, driver, algebra, values):
        ctx.section(s)
