"""P27: selection groups and starting values are valid."""
from common import *
from itertools import product

SEL = "printemps::model_component::Selection::"
BIN = mk("enum", "printemps::model_component::VariableSense::Binary")


def fld(t, n):
    return mk("fld", t, n)


def by_name(t, n):
    """is t the member n of something?"""
    return t is not None and t.op == "fld" and t.a[1].split("::")[-1] == n


def is_list(t, n):
    return t.op == "idx" and t.a[0] is ZERO and t.a[1].op == "call" and t.a[1].a[0].endswith("size")


def listof(dom):
    """the container a loop domain runs over from end to end, or None"""
    if dom.op != "idx" or dom.a[0] is not ZERO:
        return None
    for x in subterms(dom.a[1]):
        if size_of_arg(x) is not None and size_of(size_of_arg(x)) is dom.a[1]:
            return size_of_arg(x)
    return None


def size_of_arg(x):
    if x.op == "call" and str(x.a[0]).split("::")[-1] == "size":
        return x.a[1]
    if x.op == "size":
        return x.a[0]
    return None


def member(L, x):
    return mk("call", "is-in", L, (x,))


def memberships(c):
    """rewrite the different ways of asking whether x is in L"""
    m = {}
    for s in subterms(c):
        if s.op == "eq0":
            cl = [y for y in subterms(s) if y.op == "call"]
            fi = [y for y in cl if str(y.a[0]).split("::")[-1] == "find"]
            en = [y for y in cl if str(y.a[0]).split("::")[-1] in ("end", "cend")]
            for y in fi:
                L, x = (y.a[1], y.a[2][0]) if len(y.a[2]) == 1 else (y.a[2][0].a[1], y.a[2][2]) if len(y.a[2]) == 3 and y.a[2][0].op == "call" and str(y.a[2][0].a[0]).split("::")[-1] in ("begin", "cbegin") else (None, None)
                if L is None:
                    continue
                if len(y.a[2]) == 3 and not (y.a[2][1].op == "call" and y.a[2][1].a[1] is L and str(y.a[2][1].a[0]).split("::")[-1] in ("end", "cend")):
                    continue
                for z in en:
                    if z.a[1] is L and eq(y, z) is s:
                        m[s] = not_(member(L, x))
            ct = [y for y in cl if str(y.a[0]).split("::")[-1] == "count"]
            for y in ct:
                if eq(y, ZERO) is s and len(y.a[2]) == 1:
                    m[s] = not_(member(y.a[1], y.a[2][0]))
        if s.op == "call" and str(s.a[0]).split("::")[-1] in ("contains",) and len(s.a[2]) == 1:
            m[s] = member(s.a[1], s.a[2][0])
        if s.op == "lt0":
            for y in subterms(s):
                if y.op == "call" and str(y.a[0]).split("::")[-1] == "count" and len(y.a[2]) == 1 and lt(ZERO, y) is s:
                    m[s] = member(y.a[1], y.a[2][0])
    return subst(c, m) if m else c


def whole(ctx, f, E, loops, what):
    """no loop of the nest is left early"""
    bs = [e for e in E.effects if e.kind in ("break", "ret") and e.loops and any(e.loops == tuple(loops[:k]) for k in range(1, len(loops) + 1))]
    ctx.ob("all-examined", not bs, ctx.at(f, bs[0]) if bs else ctx.at(f), "%s: the loop is left early" % what)


def raw(ctx):
    """only enabled set-partitioning rows over binary variables are candidates, each with all its variables"""
    f = ctx.fn1("SelectionExtractor::extract_raw_selections", 0)
    E = ctx.run(f)
    r = E.ret
    ctx.need(r is not None and r.op == "loc", "returned list of candidates")
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and e.t is r]
    ctx.need(ps, "candidates are collected")
    for e in ps:
        ctx.need(e.loops, "candidate loop")
        whole(ctx, f, E, e.loops, "candidate rows")
        L = listof(e.loops[0])
        ctx.ob("candidates", L is not None and by_name(L, "set_partitioning_ptrs"), ctx.at(f, e), "selection candidates are not all the set-partitioning rows: they come from %s" % e.loops[0], sample="candidates: %s" % L)
        if L is None:
            continue
        c = mk("at", L, mk("iv", 0))
        se = mk("fld", mk("fld", c, "printemps::model_component::Constraint::m_expression"), "printemps::model_component::Expression::m_sensitivities")
        b = mk("iv", "b1")
        sense = mk("fld", mk("fld", getn(0, mk("at", se, b)), "printemps::model_component::Variable::m_extension"), "printemps::model_component::VariableExtention::sense")
        want = [x for x in subterms(e.pc) if x.op == "fld" and x.a[1].endswith("::sense")]
        ctx.need(want, "the sense of a candidate's variables is consulted") if False else None
        en = [x for x in subterms(e.pc) if x.op == "fld" and x.a[1].endswith("::m_is_enabled")]
        enf = mk("fld", c, "printemps::model_component::Constraint::m_is_enabled")
        nb = [x for x in subterms(e.pc) if x.op == "exists"]
        sn = want[0].a[1] if want else "printemps::model_component::VariableExtention::sense"
        sense = mk("fld", mk("fld", getn(0, mk("at", se, b)), "printemps::model_component::Variable::m_extension"), sn)
        be = next((x for y in subterms(e.pc) for x in ([y] if y.op == "enum" and y.a[0].endswith("VariableSense::Binary") else [])), BIN)
        allbin = not_(exists_(mk("idx", ZERO, size_of(se)), "b1", not_(eq(sense, be))))
        ctx.ob("candidate-rule", safe_equiv(e.pc, and_(enf, allbin)), ctx.at(f, e), "a row becomes a selection candidate when %s, not exactly when it is enabled and all its variables are binary" % str(e.pc)[:300], sample="candidate when %s" % str(e.pc)[:200])
        a = e.args[0] if e.args else None
        ok = a is not None and (a.op == "ctor" and a.a[0].endswith("Selection") and len(a.a[1]) == 1 and a.a[1][0] is c)
        if not ok and a is not None and a.op == "loc":
            ini = [x for x in E.effects if x.kind == "init" and x.t is a]
            ok = bool(ini) and ini[-1].v is not None and ini[-1].v.op == "ctor" and len(ini[-1].v.a[1]) == 1 and ini[-1].v.a[1][0] is c
            if not ok and (not ini or ini[-1].v.op != "ctor" or not ini[-1].v.a[1]):
                ok = any(x.kind == "call" and callee(x) == "setup" and x.t is a and x.args and x.args[0] is c and x.seq < e.seq for x in E.effects)
        if not ok and a is c and callee(e) == "emplace_back":
            ok = True
        ctx.ob("candidate-row", ok, ctx.at(f, e), "the candidate pushed is not built from the row examined: %s" % a)
    for nm, ar in (("Selection::setup", 1),):
        g = ctx.fn1(nm, ar)
        E = ctx.run(g)
        cp = final_value(E, lambda t: t is mk("fld", THIS, SEL + "constraint_ptr"))
        ctx.ob("candidate-row", cp is mk("sym", "$0"), ctx.at(g), "the group remembers %s as its row" % cp)
        ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and by_name(e.t, "variable_ptrs")]
        if not ps:
            raise Broken("how a group collects its variables")
        e = ps[0]
        L = listof(e.loops[-1]) if e.loops else None
        ok = len(ps) == 1 and e.pc is TRUE and L is not None and by_name(L, "m_sensitivities") and contains(L, lambda x: x is mk("sym", "$0") or x is mk("fld", THIS, SEL + "constraint_ptr")) and e.args[0] is getn(0, mk("at", L, mk("iv", len(e.loops) - 1)))
        ctx.ob("group-variables", ok, ctx.at(g, e), "a group does not hold every variable of its row")
        cl = [x for x in E.effects if (x.kind == "call" and callee(x) in ("initialize", "clear") and x.pc is TRUE and x.seq < e.seq)]
        ctx.ob("group-variables", bool(cl), ctx.at(g), "a group set up again keeps its old variables")
    g = [h for h in ctx.P.fn.values() if h["n"].endswith("model_component::Selection::(ctor)") and len(h["p"]) == 1 and "Constraint" in h["p"][0]["t"]]
    for h in g:
        E = ctx.run(h)
        ok = any(e.kind == "call" and callee(e) == "setup" and e.args and e.args[0] is mk("sym", "$0") and e.pc is TRUE for e in E.effects) or any(e.kind == "write" and by_name(e.t, "constraint_ptr") for e in E.effects)
        ctx.ob("group-variables", ok, ctx.at(h), "a group built from a row is not set up with it")


MODES = (("extract_by_defined_order", None), ("extract_by_number_of_variables_order", "size"), ("extract_by_independent", "independent"), ("extract_by_user_defined", "user"))


def chosen(ctx):
    for n, k in MODES:
        ctx.section(choose, n, k)


def choose(ctx, n, kind):
    f = ctx.fn1("SelectionExtractor::" + n)
    E = ctx.run(f)
    at = ctx.at(f)
    ss = [e for e in E.effects if e.kind == "call" and callee(e) == "set_selections"]
    ctx.need(ss, n + ": groups handed to the model")
    e = ss[-1]
    ctx.ob("handed", len(ss) == 1 and e.pc is TRUE, ctx.at(f, e), "%s does not always hand the groups to the model" % n)
    S = e.args[0]
    ms = [x for x in writes(E) if by_name(x.t, "m_selections")]
    if by_name(S, "m_selections") and ms:
        S = ms[-1].v
    ctx.need(S.op == "loc", n + ": list of groups: %s" % S)
    ctx.ob("handed", bool(ms) and ms[-1].v is S and ms[-1].pc is TRUE or not ms and True, at, "%s reports other groups than those chosen" % n)
    R = [x.t for x in E.effects if x.kind == "init" and x.v is not None and x.v.op == "call" and str(x.v.a[0]).endswith("extract_raw_selections")]
    if not R:
        R = list(set(y for x in E.effects for d in x.loops for y in subterms(d) if y.op == "call" and str(y.a[0]).endswith("extract_raw_selections")))
    ctx.need(len(R) == 1, n + ": candidates")
    R = R[0]
    ps = [x for x in E.effects if x.kind == "call" and callee(x) in ("push_back", "emplace_back") and x.t is S]
    ctx.need(ps, n + ": groups are collected")
    ctx.ob("one-pass", len(ps) == 1, at, "%s collects groups in several places" % n) if False else None
    ctx.need(len(ps) == 1, n + ": one place collects groups")
    p = ps[0]
    ctx.need(p.loops and p.loops[0] is mk("idx", ZERO, size_of(R)) and len(p.loops) == 1, n + ": goes over all the candidates: %s" % str(p.loops)[:200])
    whole(ctx, f, E, p.loops, n)
    X = mk("at", R, mk("iv", 0))
    ctx.ob("chosen-group", p.args[0] is X, ctx.at(f, p), "%s keeps %s instead of the candidate examined" % (n, p.args[0]))
    vp = mk("fld", X, SEL + "variable_ptrs")
    c = memberships(p.pc)
    Ls = set(y.a[1] for y in subterms(c) if y.op == "call" and y.a[0] == "is-in")
    b1, b2 = mk("iv", "b1"), mk("iv", "b2")
    uf = mk("fld", mk("fld", X, SEL + "constraint_ptr"), "printemps::model_component::Constraint::m_is_user_defined_selection")
    us = [y for y in subterms(c) if y.op == "fld" and y.a[1].endswith("user_defined_selection")]
    if us:
        uf = mk("fld", mk("fld", X, SEL + "constraint_ptr"), us[0].a[1]) if us[0].a[0] is mk("fld", X, SEL + "constraint_ptr") else us[0]
    extra = uf if kind == "user" else TRUE
    d = mk("idx", ZERO, size_of(vp))
    if kind == "independent":
        o = mk("fld", mk("at", R, b1), SEL + "variable_ptrs")
        ok = False
        for q in (exists_(d, "b2", exists_(mk("idx", ZERO, size_of(R)), "b1", and_(not_(eq(mk("iv", 0), b1)), member(o, mk("at", vp, b2))))),
                  exists_(mk("idx", ZERO, size_of(R)), "b1", exists_(d, "b2", and_(not_(eq(mk("iv", 0), b1)), member(o, mk("at", vp, b2))))),
                  exists_(mk("idx", ZERO, size_of(R)), "b1", and_(not_(eq(mk("iv", 0), b1)), exists_(d, "b2", member(o, mk("at", vp, b2)))))):
            ok = ok or safe_equiv(c, not_(q))
        known(c, [R], n, ok)
        ctx.ob("disjoint", ok, ctx.at(f, p), "%s keeps a group when %s, not exactly when it shares no variable with any other candidate" % (n, str(c)[:400]), sample="%s keeps a group when %s" % (n, str(c)[:240]))
    else:
        if len(Ls) > 1:
            raise Broken(n + ": several lists of used variables")
        L = next(iter(Ls)) if Ls else None
        if L is None:
            marks = [y for y in subterms(c) if y.op not in ("b",)]
            if any(y.op in ("loc", "call", "mut") and y is not R for y in marks):
                raise Broken(n + ": how used variables are recognised")
            ctx.ob("disjoint", False, ctx.at(f, p), "%s keeps a group without asking whether its variables are already used" % n)
            return
        want = and_(extra, not_(exists_(d, "b1", member(L, mk("at", vp, b1)))))
        ok = safe_equiv(c, want)
        known(c, [R, L], n, ok)
        ctx.ob("disjoint", ok, ctx.at(f, p), "%s keeps a group when %s, not exactly when %snone of its variables is used by a group kept before" % (n, str(c)[:400], "it is marked by the user and " if kind == "user" else ""), sample="%s keeps a group when %s" % (n, str(c)[:240]))
        # the used variables grow with every kept group and are never forgotten
        ini = [x for x in E.effects if x.kind == "init" and x.t is L]
        ctx.need(ini and ini[0].v is not None and ini[0].v.op == "ctor" and not ini[0].loops, n + ": list of used variables starts empty")
        grow = []
        for x in E.effects:
            if x.kind == "call" and x.t is L:
                k = callee(x)
                if k in ("begin", "end", "cbegin", "cend", "size", "find", "reserve", "count", "empty"):
                    continue
                if k in ("push_back", "emplace_back", "insert", "emplace"):
                    grow.append(x)
                else:
                    ctx.ob("used-kept", False, ctx.at(f, x), "%s changes the list of used variables by %s" % (n, k))
        full = False
        for x in grow:
            a = x.args
            rng = len(a) >= 2 and a[-2].op == "call" and str(a[-2].a[0]).endswith("begin") and a[-2].a[1] is vp and a[-1].op == "call" and str(a[-1].a[0]).endswith("end") and a[-1].a[1] is vp
            if rng and x.loops == p.loops and safe_equiv(memberships(x.pc), c):
                full = True
            if a and a[-1] is mk("at", vp, mk("iv", 1)) and len(x.loops) == 2 and x.loops[1] is d and safe_equiv(memberships(x.pc), c):
                full = True
        if not full and any(contains(x.args[-1], lambda y: y.op == "loc" and y is not R and y is not L) for x in grow if x.args):
            raise Broken(n + ": how used variables are recorded")
        ctx.ob("used-kept", full, ctx.at(f, p), "%s does not record all the variables of a group it keeps" % n)
    # order
    so = [x for x in E.effects if x.kind == "call" and callee(x) in ("stable_sort", "sort", "reverse", "shuffle", "partial_sort") and x.args and contains(x.args[0], lambda y: y is R)]
    if kind == "size":
        for x in so:
            if len(x.args) < 3 or x.args[2] not in E.lams:
                raise Broken(n + ": comparator")
        for small in (True, False):
            act = [x for x in so if subst(x.pc, {mk("sym", "$0"): TRUE if small else FALSE}) is not FALSE]
            ctx.need(all(subst(x.pc, {mk("sym", "$0"): TRUE if small else FALSE}) is TRUE for x in act), n + ": sorted under the order flag")
            ctx.ob("order", len(act) == 1 and act[0].seq < p.seq, at, "%s does not sort the candidates" % n)
            for x in act:
                Lm = run_stored_lambda(ctx, E, x.args[2], f["file"])
                s0, s1 = size_of(mk("fld", mk("sym", "$0"), SEL + "variable_ptrs")), size_of(mk("fld", mk("sym", "$1"), SEL + "variable_ptrs"))
                r = Lm.ret
                if r is not None and contains(r, lambda y: y.op == "loc"):
                    r2 = r
                w = lt(s0, s1) if small else lt(s1, s0)
                rr = Lm.ret
                ok = rr is not None and safe_equiv(rr, w)
                if not ok and rr is not None and contains(rr, lambda y: y.op == "ite"):
                    ok = safe_equiv(subst(rr, {mk("sym", "$0"): TRUE}), w)
                ctx.ob("order", ok, ctx.at(f, x), "%s puts a before b when %s" % (n, rr), sample="%s(%s): a before b when %s" % (n, small, rr))
    else:
        ctx.ob("order", not so, at, "%s reorders the candidates" % n)
    # every chosen row is disabled, and knows the constraints it touches
    d2 = mk("idx", ZERO, size_of(S))
    Y = mk("at", S, mk("iv", 0))
    dis = [x for x in writes(E) if by_name(x.t, "m_is_enabled")] + [x for x in E.effects if x.kind == "call" and callee(x) in ("disable", "enable")]
    tgt = lambda x: x.t.a[0] if x.kind == "write" else x.t
    good = []
    for x in dis:
        off = (x.kind == "write" and x.v is FALSE) or (x.kind == "call" and callee(x) == "disable")
        ok = off and ((x.loops == (d2,) and x.pc is TRUE and tgt(x) is mk("fld", Y, SEL + "constraint_ptr")) or (x.loops == p.loops and safe_equiv(memberships(x.pc), c) and tgt(x) is mk("fld", X, SEL + "constraint_ptr")))
        good.append(ok)
        if not ok and contains(tgt(x), lambda y: y.op == "loc" and y not in (S, R)):
            raise Broken(n + ": which rows are disabled")
    ctx.ob("row-disabled", any(good) and all(good), at, "%s does not disable exactly the rows of the chosen groups" % n)
    rel = [x for x in E.effects if x.kind == "call" and callee(x) == "setup_related_constraint_ptrs"]
    ok = any((x.loops == (d2,) and x.t is Y and x.pc is TRUE and x.seq < e.seq) or (x.t is X and x.loops == p.loops and safe_equiv(memberships(x.pc), c) and x.seq < p.seq) for x in rel)
    ctx.ob("related", ok, at, "%s hands over groups whose related constraints are not set up" % n)


def known(c, allowed, n, ok):
    """an unfamiliar condition is not judged"""
    if ok:
        return
    for y in subterms(c):
        if y.op == "loc" and y not in allowed:
            raise Broken(n + ": condition over " + str(y))
        if y.op == "call" and y.a[0] != "is-in" and str(y.a[0]).split("::")[-1] != "size":
            raise Broken(n + ": condition over " + str(y)[:100])
        if y.op in ("phi", "loopval", "lastval", "mut"):
            raise Broken(n + ": condition over " + str(y)[:100])


def dispatch(ctx):
    f = ctx.fn1("SelectionExtractor::extract", 2)
    E = ctx.run(f)
    M = {"Defined": ("extract_by_defined_order", None), "Smaller": ("extract_by_number_of_variables_order", TRUE), "Larger": ("extract_by_number_of_variables_order", FALSE),
         "Independent": ("extract_by_independent", None), "UserDefined": ("extract_by_user_defined", None), "Off": (None, None)}
    cs = [e for e in E.effects if e.kind == "call" and callee(e).startswith("extract_by")]
    ctx.need(cs, "mode dispatch")
    en = {}
    for e in E.effects:
        for y in subterms(e.pc):
            if y.op == "enum" and "selection_mode" in y.a[0]:
                en[y.a[0].split("::")[-1]] = y
    for m, (g, flag) in M.items():
        if m not in en:
            if m == "Off":
                continue
            ctx.ob("mode", False, ctx.at(f), "selection mode %s is not handled" % m)
            continue
        got = []
        for e in cs:
            c = subst(e.pc, {mk("sym", "$0"): en[m]})
            if safe_sat(c):
                ctx.need(c is TRUE or safe_implies(TRUE, c), "mode dispatch condition %s" % c)
                got.append((callee(e), subst(e.args[0], {mk("sym", "$0"): en[m]}) if len(e.args) > 1 else None))
        ctx.ob("mode", got == ([(g, flag)] if g else []), ctx.at(f), "selection mode %s runs %s" % (m, got), sample="%s -> %s" % (m, got))


def links(ctx):
    """variables point at the model's own copy of their group, and the group at the selected variable"""
    f = ctx.fn1("Model::set_selections", 1)
    E = ctx.run(f)
    M = mk("fld", THIS, "printemps::model::Model::m_selections")
    w = [x for x in writes(E) if x.t is M]
    ctx.ob("linked", len(w) == 1 and w[0].v is mk("sym", "$0") and w[0].pc is TRUE, ctx.at(f), "the model does not keep the groups it is given")
    cs = [e for e in E.effects if e.kind == "call" and callee(e) == "set_selection_ptr"]
    ctx.need(cs, "variables are linked to their group")
    Y = mk("at", M, mk("iv", 0))
    whole(ctx, f, E, cs[0].loops, "linked variables")
    vp = mk("fld", Y, SEL + "variable_ptrs")
    ok = any(e.loops == (mk("idx", ZERO, size_of(M)), mk("idx", ZERO, size_of(vp))) and e.pc is TRUE and e.t is mk("at", vp, mk("iv", 1)) and e.args[0] is Y and (not w or e.seq > w[0].seq) for e in cs)
    ctx.ob("linked", ok, ctx.at(f, cs[0]), "not every variable of every group is linked to the model's copy of its own group: %s linked to %s over %s" % (cs[0].t, cs[0].args[0], cs[0].loops))
    g = ctx.fn1("Variable::set_selection_ptr", 1)
    E = ctx.run(g)
    v = final_value(E, lambda t: by_name(t, "selection_ptr"))
    s = final_value(E, lambda t: by_name(t, "sense"))
    ctx.ob("linked", v is mk("sym", "$0") and s is not None and s.op == "enum" and s.a[0].endswith("::Selection"), ctx.at(g), "a variable linked to a group: group %s, kind %s" % (v, s))
    g = ctx.fn1("Variable::select", 0)
    E = ctx.run(g)
    w = [x for x in writes(E)]
    ok = len(w) == 1 and by_name(w[0].t, "selected_variable_ptr") and by_name(w[0].t.a[0], "selection_ptr") and w[0].pc is TRUE and (w[0].v is THIS or (w[0].v.op == "fld" and w[0].v.a[0] is THIS))
    ctx.ob("linked", ok, ctx.at(g), "select() writes %s" % [(str(x.t), str(x.v)) for x in w])


def related(ctx):
    """a group knows every constraint its variables occur in, other than its own row, exactly once"""
    f = ctx.fn1("Selection::setup_related_constraint_ptrs", 0)
    E = ctx.run(f)
    RC = mk("fld", THIS, SEL + "related_constraint_ptrs")
    VP = mk("fld", THIS, SEL + "variable_ptrs")
    ps = [e for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and e.t is RC]
    ctx.need(len(ps) == 1, "one place collects related constraints")
    e = ps[0]
    at = ctx.at(f, e)
    cl = [x for x in E.effects if x.kind == "call" and callee(x) == "clear" and x.t is RC and x.pc is TRUE and x.seq < e.seq]
    ctx.ob("related-list", bool(cl), at, "related constraints of an earlier set-up are kept")
    ctx.need(len(e.loops) == 2, "related constraints loop")
    whole(ctx, f, E, e.loops, "related constraints")
    L = listof(e.loops[1])
    src = L
    if L is not None and L.op == "loc":
        ini = [x for x in E.effects if x.kind == "init" and x.t is L]
        ctx.need(ini, "list of a variable's constraints")
        src = ini[-1].v
    ok = e.loops[0] is mk("idx", ZERO, size_of(VP)) and src is not None and by_name(src, "related_constraint_ptrs") and contains(src, lambda y: y is mk("at", VP, mk("iv", 0)))
    if not ok and (src is None or src.op in ("loc", "call")):
        raise Broken("related constraints loop: %s" % str(e.loops)[:200])
    ctx.ob("related-list", ok, at, "related constraints are not collected from all the constraints of all the variables of the group: %s" % str(e.loops)[:300])
    x = mk("at", L, mk("iv", 1))
    ctx.ob("related-list", e.args[0] is x, at, "collects %s" % e.args[0])
    c = memberships(e.pc)
    Ls = [y.a[1] for y in subterms(c) if y.op == "call" and y.a[0] == "is-in"]
    I = Ls[0] if Ls else None
    # insert(x).second
    if I is None:
        for y in subterms(c):
            if y.op == "get" and y.a[0] == 1 and y.a[1].op == "call" and str(y.a[1].a[0]).endswith("insert"):
                I = y.a[1].a[1]
                c = subst(c, {y: not_(member(I, x))})
                break
    own = mk("fld", THIS, SEL + "constraint_ptr")
    if I is None:
        if any(y.op in ("loc", "call", "mut") and y is not L for y in subterms(c)):
            raise Broken("how repeated constraints are recognised: %s" % str(c)[:200])
        ctx.ob("related-list", False, at, "constraints shared by several variables are collected more than once")
        return
    w = and_(not_(eq(x, own)), not_(member(I, x)))
    ok = safe_equiv(c, w)
    if not ok and any(y.op in ("phi", "loopval") for y in subterms(c)):
        raise Broken("which related constraints are collected: %s" % str(c)[:200])
    ctx.ob("related-list", ok, at, "a constraint is collected when %s, not exactly when it is not the group's own row and not collected before (disabled ones included)" % str(c)[:300], sample="related constraint collected when %s" % str(c)[:200])
    if I is not RC:
        ins = [y for y in E.effects if y.kind == "call" and callee(y) in ("insert", "emplace", "push_back") and y.t is I]
        ini = [y for y in E.effects if y.kind == "init" and y.t is I]
        ok = len(ins) == 1 and ins[0].args[0] is x and ins[0].loops == e.loops and (safe_equiv(memberships(ins[0].pc), w) or safe_implies(w, memberships(ins[0].pc))) and bool(ini) and not ini[0].loops
        ctx.ob("related-list", ok, at, "collected constraints are not remembered across the group's variables")


# ---------------------------------------------------------------- starting values
CELLS = [(v, fx) for v in (1, 0, 2, -1) for fx in (False, True)]


def sel_values(ctx):
    f = ctx.fn1("Verifier::verify_and_correct_selection_variables_initial_values", 2)
    E = ctx.run(f, opaque=("Variable::set_value_if_mutable", "Variable::select"))
    at = ctx.at(f)
    sets = [e for e in E.effects if e.kind == "call" and e.v.endswith("Variable::set_value_if_mutable")]
    other = [e for e in writes(E) if by_name(e.t, "m_value")] + [e for e in E.effects if e.kind == "call" and e.v.endswith(("Variable::operator=", "Variable::fix_by", "Variable::set_value"))]
    ctx.ob("fixed-kept", not other, at, "a starting value is changed without regard to fixed variables: %s" % [str(e.t) for e in other])
    ctx.need(sets, "starting values of groups are corrected")
    sels = [e for e in E.effects if e.kind == "call" and e.v.endswith("Variable::select")]
    ths = [e for e in E.effects if e.kind == "throw"]
    M = None
    for e in sets + ths:
        ctx.need(e.loops, "group loop")
        L = listof(e.loops[0])
        ctx.ob("every-group", L is not None and by_name(L, "m_selections"), ctx.at(f, e), "groups examined: %s" % e.loops[0])
        M = L if M is None else M
    whole(ctx, f, E, sets[0].loops[:1], "groups")
    G = mk("at", M, mk("iv", 0))
    vp = mk("fld", G, SEL + "variable_ptrs")
    D0, D = mk("idx", ZERO, size_of(M)), mk("idx", ZERO, size_of(vp))
    V = mk("at", vp, mk("iv", 1))
    val = mk("fld", V, "printemps::model_component::Variable::m_value")
    fix = mk("fld", V, "printemps::model_component::Variable::m_is_fixed")
    cellsub = lambda t, v, fx: subst(t, {val: num(v), fix: TRUE if fx else FALSE})
    # lists of variables
    lists = {}
    for e in E.effects:
        if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and e.t is not None and e.t.op == "loc" and e.args and e.args[0] is V:
            ctx.need(e.loops == (D0, D), "list of a group's variables: loops")
            s = lists.setdefault(e.t, {"cells": set(), "at": e})
            for cc in CELLS:
                r = cellsub(e.pc, *cc)
                ctx.need(r in (TRUE, FALSE), "list of a group's variables: %s" % str(r)[:150])
                if r is TRUE:
                    if cc in s["cells"]:
                        raise Broken("listed twice")
                    s["cells"].add(cc)
    lists[vp] = {"cells": set(CELLS)}
    for l in lists:
        if l is not vp:
            ini = [e for e in E.effects if e.kind == "init" and e.t is l]
            ctx.need(ini, "list")
            fresh = ini[-1].loops == (D0,) or any(e.kind == "call" and callee(e) == "clear" and e.t is l and e.loops == (D0,) and e.pc is TRUE for e in E.effects)
            ctx.ob("every-group", fresh, ctx.at(f, ini[-1]), "variables of the group before are still listed")
    C = mk("sym", "$0")

    def ch(t):
        """what a chosen variable can be: (list, kind)"""
        if t.op == "at" and t.a[0] in lists and t.a[1] is ZERO:
            return ("first", t.a[0])
        if t.op == "loopval":
            L = listof(t.a[0])
            if L in lists:
                el = mk("at", L, mk("iv", t.a[1]))
                return ("best", L, t, el)
        if t.op == "ite":
            return None
        return None

    def chosen_cells(t):
        k = ch(t)
        if k is None:
            return None
        if k[0] == "first":
            return set(lists[k[1]]["cells"])
        L, el, new, phi = k[1], k[3], t.a[3], t.a[2]
        lv = leaves(new)
        if not all(x is el or x is phi for x in lv):
            raise Broken("how the selected variable is chosen: %s" % [str(x)[:80] for x in lv])
        out = set()
        v2, f2 = mk("fld", el, "printemps::model_component::Variable::m_value"), mk("fld", el, "printemps::model_component::Variable::m_is_fixed")
        for cc in lists[L]["cells"]:
            r = subst(new, {v2: num(cc[0]), f2: TRUE if cc[1] else FALSE})
            if any(x is el for x in leaves(r)):
                out.add(cc)
        return out
    nulls = {}
    for e in sets + ths + sels:
        for y in subterms(e.pc):
            if y.op in ("eq0", "eq") and contains(y, lambda z: z.op == "loopval"):
                nulls[y] = mk("sym", "none-chosen-%d" % len(nulls))
    combos = {}
    for z in product((0, 1, 2), (0, 1, 2), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1)):
        n = {(1, False): z[0], (1, True): z[1], (0, False): z[2], (0, True): z[3], (2, False): z[4], (2, True): z[5], (-1, False): z[6], (-1, True): z[7]}
        k = tuple(sum(n[c] for c in lists[l]["cells"]) for l in lists)
        combos.setdefault((k, z[0] + z[1], z[1], z[4] + z[5] + z[6] + z[7], z[5] + z[7]), n)
    # a list that is never filled is empty
    empty = {y: ZERO for e in ths for y in subterms(e.pc) if str(y) == "ctor(std::vector, ()).size()"}
    bad = {}
    seen = set()
    for (k, ns, nfs, ni, nfi), n in combos.items():
        sz = {size_of(l): num(q) for l, q in zip(lists, k)}
        for corr in (True, False):
            m = dict(empty)
            m.update(sz)
            m[C] = TRUE if corr else FALSE
            m2 = dict(m)
            m2.update(nulls)

            def cond(e, m2=m2):
                return subst(subst(e.pc, nulls), m2)
            want = nfi > 0 or nfs > 1 or (not corr and (ni > 0 or ns != 1))
            T = [(e, cond(e)) for e in ths]
            thr = [e for e, c in T if c is TRUE]
            may = [(e, c) for e, c in T if c is not TRUE and c is not FALSE]
            for e, c in may:
                atoms = [y for y in subterms(c) if y.op in ("eq0", "lt0", "eq", "sym", "fld", "exists")]
                if not all(y.op == "sym" and y in nulls.values() for y in atoms):
                    raise Broken("refusal condition %s" % str(c)[:200])
            desc = "with %d selected (%d fixed) and %d invalid (%d fixed) variables and correction %s" % (ns, nfs, ni, nfi, "on" if corr else "off")
            if want:
                if not thr:
                    bad.setdefault(("refuse", "a group %s is accepted" % desc), at)
                continue
            if thr:
                bad.setdefault(("refuse", "a group %s is refused" % desc), ctx.at(f, thr[0]))
                continue
            act = [(e, cond(e)) for e in sets if cond(e) is not FALSE]
            ones = [(e, c) for e, c in act if e.args[0] is num(1)]
            zeros = [(e, c) for e, c in act if e.args[0] is ZERO]
            if len(ones) + len(zeros) != len(act):
                bad.setdefault(("values", "a group %s gets the values %s" % (desc, sorted(set(str(e.args[0]) for e, c in act)))), ctx.at(f, act[0][0]))
                continue
            # who is selected
            W = set(e.t for e, c in ones)
            if len(W) > 1:
                bad.setdefault(("one-selected", "several variables of a group %s are set to 1" % desc), at)
                continue
            who = next(iter(W)) if W else None
            if ns == 1:
                cells = set([(1, False), (1, True)])
            elif ns == 0:
                cells = set([(0, False), (2, False), (-1, False)])
            else:
                cells = set([(1, True)]) if nfs == 1 else set([(1, False), (1, True)])
            present = set(c for c in n if n[c])
            if who is None:
                if ns != 1:
                    bad.setdefault(("one-selected", "no variable of a group %s is set to 1" % desc), at)
                    continue
            else:
                cc = chosen_cells(who)
                if cc is None:
                    raise Broken("selected variable %s" % str(who)[:150])
                if not (cc & present) <= cells:
                    bad.setdefault(("one-selected", "of a group %s, one of %s (value, fixed) can be chosen" % (desc, sorted(cc & present - cells))), ctx.at(f, ones[0][0]))
                for e, c in ones:
                    if c is not TRUE and not all(y.op != "fld" for y in subterms(c)):
                        raise Broken("when the selected variable is set: %s" % c)
            # who is set to 0
            done = set()
            for e, c in zeros:
                L = listof(e.loops[-1]) if len(e.loops) == 2 else None
                if L not in lists or e.t is not mk("at", L, mk("iv", 1)):
                    raise Broken("variable set to 0: %s" % e.t)
                v2, f2 = mk("fld", e.t, "printemps::model_component::Variable::m_value"), mk("fld", e.t, "printemps::model_component::Variable::m_is_fixed")
                isw = eq(e.t, who) if who is not None else None
                for q in lists[L]["cells"] & present:
                    r = subst(c, {v2: num(q[0]), f2: TRUE if q[1] else FALSE})
                    nn = [y for y in nulls.values()]
                    r = subst(r, {y: FALSE for y in nn})
                    if q[0] == 0:
                        continue
                    if q[0] != 1:
                        if r is TRUE or (isw is not None and r is not_(isw) and False):
                            done.add(q)
                        elif r is not FALSE and not (isw is not None and r is not_(isw)):
                            raise Broken("when an invalid value is corrected: %s" % r)
                    else:
                        if ns == 1 and (r is TRUE or isw is None and r is not FALSE):
                            bad.setdefault(("valid-kept", "the only selected variable of a group %s can be set to 0" % desc), ctx.at(f, e))
                        elif isw is not None and r is not_(isw):
                            done.add(q)
                        elif r is TRUE and who is not None:
                            # set to 0 first, to 1 afterwards
                            if all(o.seq > e.seq for o, c2 in ones):
                                done.add(q)
                            else:
                                bad.setdefault(("one-selected", "the selected variable of a group %s is set to 0 after 1" % desc), ctx.at(f, e))
                        elif r is not FALSE:
                            raise Broken("when a second selected variable is corrected: %s" % str(r)[:200])
                if who is not None and any(q[0] != 1 for q in lists[L]["cells"]) and any(o.seq < e.seq for o, c2 in ones) and ns == 0 and (lists[L]["cells"] & chosen_cells(who) & present):
                    bad.setdefault(("one-selected", "the selected variable of a group %s can be set to 0 after 1" % desc), ctx.at(f, e))
            need = set(q for q in present if q[0] not in (0, 1))
            if ns > 1:
                need |= set(q for q in present if q[0] == 1 and not (q == (1, True)) and not (n[q] == 1 and q in cells and nfs == 0 and False))
            if ns > 1 and nfs == 1:
                need.discard((1, True))
            if not need <= done:
                bad.setdefault(("values", "variables (value, fixed) %s of a group %s are not corrected to 0" % (sorted(need - done), desc)), at)
            sc = [e for e in sels if cond(e) is not FALSE]
            if ns == 1:
                ok = any((chosen_cells(e.t) or set()) & present <= cells and chosen_cells(e.t) for e in sc)
                if not ok:
                    bad.setdefault(("selected-known", "the group %s does not learn its selected variable" % desc), at)
            for e in sc:
                if who is not None and e.t is not who:
                    c0 = chosen_cells(e.t)
                    if not (ns == 1 and c0 and (c0 & present) <= cells):
                        bad.setdefault(("selected-known", "the group %s takes another variable as selected than the one set to 1" % desc), ctx.at(f, e))
            seen.add((k, corr))
    rules = ("refuse", "values", "one-selected", "valid-kept", "selected-known")
    by = {}
    for (r, msg), a in bad.items():
        by.setdefault(r, []).append((msg, a))
    for r in rules:
        ctx.ob(r, r not in by, by[r][0][1] if r in by else at, by[r][0][0] if r in by else "", sample="%s: held for %d cases of list sizes and correction flag" % (r, len(seen)))
    ctx.count("starting-value cases", len(combos) * 2)


def leaves(t):
    if t.op == "ite":
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


def clamp(ctx, n, lname, valid):
    f = ctx.fn1("Verifier::" + n, 2)
    E = ctx.run(f, opaque=("Variable::set_value_if_mutable",))
    at = ctx.at(f)
    sets = [e for e in E.effects if e.kind == "call" and e.v.endswith("Variable::set_value_if_mutable")]
    other = [e for e in writes(E) if by_name(e.t, "m_value")] + [e for e in E.effects if e.kind == "call" and e.v.endswith(("Variable::operator=", "Variable::fix_by", "Variable::set_value"))]
    ctx.ob("fixed-kept", not other, at, "%s changes a value without regard to fixed variables" % n)
    ths = [e for e in E.effects if e.kind == "throw"]
    ctx.need(sets and ths, n + ": corrections and refusals")
    L = None
    for e in sets + ths:
        ctx.need(len(e.loops) == 1, n + ": loop")
        l = listof(e.loops[0])
        ctx.ob("every-variable", l is not None and by_name(l, lname), ctx.at(f, e), "%s examines %s" % (n, e.loops[0]))
        L = l
    if L is None:
        return
    whole(ctx, f, E, sets[0].loops, n)
    V = mk("at", L, mk("iv", 0))
    g = lambda k: mk("fld", V, "printemps::model_component::Variable::" + k)
    v, lo, hi, fx = g("m_value"), g("m_lower_bound"), g("m_upper_bound"), g("m_is_fixed")
    C = mk("sym", "$0")
    inv = not_(valid(v, lo, hi))
    tc = or_(*[e.pc for e in ths])
    w = and_(inv, or_(fx, not_(C)))
    ctx.ob("refuse", safe_equiv(tc, w), at, "%s refuses a value when %s, not exactly when it is invalid and fixed or correction is off" % (n, str(tc)[:300]), sample="%s refuses when %s" % (n, str(tc)[:200]))
    sc = or_(*[e.pc for e in sets])
    w = and_(inv, not_(fx), C)
    ctx.ob("valid-kept", safe_equiv(sc, w), at, "%s corrects a value when %s, not exactly when it is invalid" % (n, str(sc)[:300]), sample="%s corrects when %s" % (n, str(sc)[:200]))
    for e in sets:
        ctx.ob("clamped", e.t is V, ctx.at(f, e), "%s corrects %s" % (n, e.t))
        x = e.args[0]
        below, above = lt(v, lo), lt(hi, v)
        hyp = and_(e.pc, w, le(lo, hi))
        ctx.ob("clamped", same_under(x, lo, and_(hyp, below)), ctx.at(f, e), "%s corrects a value below the lower bound to %s" % (n, x), sample="%s corrects to %s" % (n, str(x)[:160]))
        ctx.ob("clamped", same_under(x, hi, and_(hyp, above, not_(below))), ctx.at(f, e), "%s corrects a value above the upper bound to %s" % (n, x))


def singles(ctx):
    ctx.section(clamp, "verify_and_correct_binary_variables_initial_values", "binary_variable_ptrs", lambda v, lo, hi: or_(eq(v, ZERO), eq(v, num(1))))
    ctx.section(clamp, "verify_and_correct_integer_variables_initial_values", "integer_variable_ptrs", lambda v, lo, hi: and_(le(lo, v), le(v, hi)))


VER = ("verify_and_correct_selection_variables_initial_values", "verify_and_correct_binary_variables_initial_values", "verify_and_correct_integer_variables_initial_values")


def imports(ctx):
    """an imported solution gives each variable its own value and is verified without correction"""
    for f in ctx.fns("Model::import_solution", 1):
        E = ctx.run(f, opaque=("Variable::set_value_if_mutable", "Variable::operator="))
        at = ctx.at(f)
        pt = f["p"][0]["t"]
        sets = [e for e in E.effects if e.kind == "call" and e.v.endswith(("Variable::set_value_if_mutable", "Variable::operator="))]
        ctx.need(sets, "imported values are set")
        e0 = sets[0]
        ctx.need(len(e0.loops) == 2, "import loop")
        whole(ctx, f, E, e0.loops, "imported values")
        pr = listof(e0.loops[0])
        ctx.ob("import", pr is not None and by_name(pr, "m_variable_proxies"), at, "an imported solution is applied to %s" % e0.loops[0])
        X = e0.t
        L = listof(e0.loops[1])
        ctx.ob("import", L is not None and X is mk("at", L, mk("iv", 1)) and contains(L, lambda y: y is mk("at", pr, mk("iv", 0))) and all(e.t is X and e.loops == e0.loops for e in sets), at, "an imported solution is not applied to every variable: %s over %s" % (X, str(e0.loops)[:200]))
        if "Dense" in pt:
            v = e0.args[0]
            idx = [y.a[1] for y in subterms(v) if y.op == "at" and not contains(y.a[1], lambda z: z.op == "at" and z.a[0] is not L and False)]
            p_i, f_i = mk("fld", mk("fld", X, "printemps::model_component::Variable::m_extension"), "x"), None
            names = [y.a[1] for y in subterms(v) if y.op == "at" and contains(y, lambda z: z is mk("sym", "$0"))]
            last = [i.a[1].split("::")[-1] if i.op == "fld" and contains(i, lambda z: z is X) else str(i) for i in names]
            pos = v.op == "at" and contains(v, lambda z: z is mk("sym", "$0")) and sorted(last) in (["flat_index", "proxy_index"], sorted(["#0", "#1"]))
            if pos:
                pos = (v.a[1].op == "fld" and v.a[1].a[1].endswith("flat_index")) or v.a[1] is mk("iv", 1)
            ctx.ob("import", len(sets) == 1 and e0.pc is TRUE and pos, at, "a variable gets %s" % v, sample="import: %s" % v)
        else:
            cover = or_(*[memberships(e.pc) for e in sets])
            ctx.ob("import", safe_implies(TRUE, cover), at, "a variable keeps its old value when a solution is imported")
            mems = [y for y in subterms(cover) if y.op == "call" and y.a[0] == "is-in"] or [y for e in sets for y in subterms(memberships(e.pc)) if y.op == "call" and y.a[0] == "is-in"]
            if not mems:
                raise Broken("how an imported value is looked up")
            mm_ = mems[0]
            nm = [z for z in subterms(mm_.a[2][0]) if z.op == "fld"]
            ctx.ob("import", by_name(mm_.a[2][0], "name") and contains(mm_.a[2][0], lambda z: z is X), at, "looks up %s" % mm_.a[2][0])
            got, left = None, None
            for e in order(sets):
                pcm = memberships(e.pc)
                if safe_sat(and_(pcm, mm_)):
                    got = e.args[0]
                if safe_sat(and_(pcm, not_(mm_))):
                    left = e.args[0]
            strip = lambda t: t
            inval = got is not None and (got is mk("at", mm_.a[1], mm_.a[2][0]) or (got.op == "get" and got.a[0] == 1 and contains(got, lambda z: z is mm_.a[1])) or (got.op == "ite"))
            ctx.ob("import", inval, at, "a variable of the solution gets %s" % got, sample="import: %s" % got)
            ctx.ob("import", left is ZERO or (left is not None and left.op == "ite"), at, "a variable the solution does not mention gets %s" % left)
            if "unordered_map" in pt:
                continue
        last_set = max(e.seq for e in sets)
        for v in VER:
            cs = [e for e in E.effects if e.kind == "call" and callee(e) == v]
            ctx.ob("import-verified", any(e.pc is TRUE and not e.loops and e.seq > last_set and e.args[0] is FALSE for e in cs), at, "an imported solution is not verified by %s with correction off" % v)
    f = ctx.fn1("Model::setup", 2) if len(ctx.fns("Model::setup", 2)) == 1 else ctx.fn1("Model::setup")
    E = ctx.run(f)
    at = ctx.at(f)
    st = [e.seq for e in E.effects if e.kind == "call" and callee(e) in ("setup_structure", "extract")]
    for v in VER:
        cs = [e for e in E.effects if e.kind == "call" and callee(e) == v]
        ok = len(cs) >= 1 and any(e.pc is TRUE and by_name(e.args[0], "is_enabled_initial_value_correction") and (not st or e.seq > max(st)) for e in cs)
        ctx.ob("setup-verified", ok, at, "the starting values are not verified by %s after the structure is final" % v, sample="%s(%s)" % (v, cs[0].args[0] if cs else None))


def moves(ctx):
    """a selection move tells the group its newly selected variable"""
    f = [g for g in ctx.fns("Model::update", 1) if "Move" in g["p"][0]["t"]]
    ctx.need(len(f) == 1, "Model::update(move)")
    f = f[0]
    E = ctx.run(f, opaque=("Variable::set_value_if_mutable", "Variable::select"))
    cs = [e for e in E.effects if e.kind == "call" and e.v.endswith("Variable::select")]
    ctx.ob("move-selects", bool(cs), ctx.at(f), "an applied selection move does not tell the group its newly selected variable")
    al = mk("fld", mk("sym", "$0"), "printemps::neighborhood::Move::alterations")
    for e in cs:
        second = e.t is getn(0, mk("at", al, num(1))) and not e.loops
        loop = len(e.loops) == 1 and listof(e.loops[0]) is al and e.t is getn(0, mk("at", al, mk("iv", 0)))
        sns = [y for y in subterms(e.pc) if y.op == "enum" and y.a[0].endswith("MoveSense::Selection")]
        ctx.need(second or loop, "which variable a move selects: %s" % e.t) if contains(e.t, lambda y: y.op in ("loc", "phi", "loopval")) else None
        one = loop and safe_implies(e.pc, eq(getn(1, mk("at", al, mk("iv", 0))), num(1)))
        ctx.ob("move-selects", second or one, ctx.at(f, e), "an applied selection move selects %s" % e.t)
        sn = mk("fld", mk("sym", "$0"), "printemps::neighborhood::Move::sense")
        en = sns[0] if sns else mk("enum", "printemps::neighborhood::MoveSense::Selection")
        ctx.ob("move-selects", safe_equiv(e.pc, eq(sn, en)) or one, ctx.at(f, e), "the newly selected variable is recorded when %s" % e.pc)


def run(ctx):
    ctx.rule("the extractor keeps only enabled set-partitioning rows over binary variables, pairwise disjoint, in the mode's order, disables exactly their rows, and links variables and groups to each other")
    ctx.rule("starting-value verification is decided by case analysis over how many variables of a group are selected, invalid and fixed: it refuses what it must, corrects to exactly one selected variable, and touches no valid or fixed value")
    for s in (raw, chosen, dispatch, links, related, sel_values, singles, imports, moves):
        ctx.section(s)
