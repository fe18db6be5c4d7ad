"""P08: constraint and variable classification is exclusive and consistently accounted."""
from common import *
import re

CON = "printemps::model_component::Constraint::"
LABEL = {"exclusive_or": "exclusiveor", "gf2": "gf2"}


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def universe(ctx):
    f = ctx.fn1("ConstraintTypeReference::initialize", 0)
    E = ctx.run(f)
    types = []
    for e in calls(E, "clear"):
        n = fname(e.t)
        if n and n.endswith("_ptrs"):
            ctx.ob("list-cleared", e.pc is TRUE and not e.loops, ctx.at(f, e), "%s is cleared only when %s" % (n, e.pc))
            types.append(n[:-5])
    rec = ctx.P.records.get("printemps::model_component::ConstraintTypeReference") or {"fields": []}
    fields = [x["n"].split("::")[-1] for x in rec["fields"]]
    ctx.need(len(types) >= 20, "only %d constraint types are initialised" % len(types))
    for n in fields:
        if n.endswith("_ptrs"):
            ctx.ob("list-cleared", n[:-5] in types, ctx.at(f), "the list %s keeps its old contents when the classification is reset" % n)
    return types


def flags_of(ctx, types):
    """clear_constraint_type resets every flag and the key variable"""
    f = ctx.fn1(CON + "clear_constraint_type", 0)
    E = ctx.run(f)
    cleared = {fname(e.t): e for e in writes(E)}
    for t in types:
        e = cleared.get("m_is_" + t)
        ctx.ob("flag-cleared", e is not None and e.pc is TRUE and is_false(e.v), ctx.at(f, e), "clearing the constraint type leaves the type '%s' set" % t, sample="m_is_%s := false" % t)
    e = cleared.get("m_key_variable_ptr")
    ctx.ob("flag-cleared", e is not None and e.pc is TRUE, ctx.at(f, e), "clearing the constraint type keeps the old key variable")
    return {"m_is_" + t for t in types}


def classifier(ctx, types, flags):
    f = ctx.fn1(CON + "setup_constraint_type", 0)
    E = ctx.run(f, opaque=("clear_constraint_type", "setup_expression_attributes"))
    ws = [e for e in order(writes(E)) if fname(e.t) in flags]
    trues = [e for e in ws if is_true(e.v)]
    cl = list(calls(E, "clear_constraint_type"))
    at = list(calls(E, "setup_expression_attributes"))
    first = min(e.seq for e in trues)
    ctx.ob("cleared-first", bool(cl) and cl[0].pc is TRUE and cl[0].seq < first and not any(c.seq > first for c in cl), ctx.at(f, cl[0] if cl else None), "a constraint is reclassified without clearing its previous type")
    if at:
        ctx.ob("fresh-attributes", at[0].pc is TRUE and at[0].seq < first, ctx.at(f, at[0]), "the classification uses attributes computed for an earlier state of the constraint")
    for t in types:
        ctx.ob("type-assigned", any(fname(e.t) == "m_is_" + t for e in trues), ctx.at(f), "no constraint is ever classified as '%s'" % t)
    # exclusive
    for i, a in enumerate(trues):
        for b in trues[i + 1:]:
            if fname(a.t) == fname(b.t):
                continue
            p = and_(a.pc, b.pc)
            ctx.ob("exclusive", p is FALSE or not safe_sat(p), ctx.at(f, b), "one constraint can be classified both as '%s' (line %s) and as '%s'" % (fname(a.t)[5:], a.line, fname(b.t)[5:]),
                   sample="%s and %s exclude each other" % (fname(a.t)[5:], fname(b.t)[5:]))
    rest = not_(or_(*[e.pc for e in trues]))
    try:
        ctx.ob("total", not safe_sat(rest), ctx.at(f), "a constraint can be left without any type")
    except Broken:
        ctx.count("totality not decided (guard too large)")
    shapes(ctx, f, E, trues)


def sense_atoms(pool, word, enumname):
    out = {}
    for t in pool:
        for x in subterms(t):
            if x.op in ("eq", "eq0") and has_field(x, word):
                for y in subterms(x):
                    if y.op == "enum" and enumname in str(y):
                        out.setdefault((str(y).split("::")[-1], str([z for z in x.a if z is not y and hasattr(z, "op")])), x)
    return out


def shapes(ctx, f, E, trues):
    pool = [e.pc for e in trues]
    sens = {}
    for t in pool:
        for x in subterms(t):
            if x.op == "eq" and any(y.op == "enum" and "ConstraintSense::" in str(y) for y in x.a):
                en = [y for y in x.a if y.op == "enum"][0]
                sens[str(en).split("::")[-1]] = x
    ctx.need({"Less", "Equal", "Greater"} <= set(sens), "sense tests of the classifier: %s" % sorted(sens))
    L, Q, G = sens["Less"], sens["Equal"], sens["Greater"]
    dis = and_(or_(L, Q, G), not_(and_(L, Q)), not_(and_(L, G)), not_(and_(Q, G)))
    S = [x for t in pool for x in subterms(t) if fname(x) == "m_sensitivities"]
    K = [x for t in pool for x in subterms(t) if fname(x) == "m_constant_value"]
    ctx.need(S and K, "the classifier no longer looks at coefficients and constant")
    S, K = S[0], K[0]
    n = size_of(S)
    dom = mk("idx", ZERO, n)
    # local copies of the coefficients / variables
    cs, vs = [], []
    for e in calls(E, "push_back"):
        if e.args and e.args[0].op == "get" and e.args[0].a[1].op == "at" and e.args[0].a[1].a[0] is S and len(e.loops) == 1 and e.loops[0] is dom:
            own = [c for c in conj(e.pc) if contains(c, lambda x: x.op == "iv" and x.a[0] == 0)]
            if not own:
                (vs if e.args[0].a[0] == 0 else cs).append(e.t)

    def sz(k):
        return eq(n, num(k))

    def have(name):
        return [e for e in trues if fname(e.t) == "m_is_" + name]

    def must(name, cond, text):
        for e in have(name):
            ctx.ob("shape", safe_implies(and_(e.pc, dis), cond), ctx.at(f, e), "a constraint is classified as '%s' without %s" % (name, text), sample="%s needs %s" % (name, text))
    must("singleton", sz(1), "having exactly one variable")
    two = ["exclusive_or", "exclusive_nor", "inverted_integers", "balanced_integers", "constant_sum_integers", "constant_difference_integers", "constant_ratio_integers", "aggregation"]
    for t in two:
        must(t, and_(sz(2), Q), "being an equation of two variables")
    for t in ("precedence", "variable_bound"):
        must(t, and_(sz(2), not_(Q)), "being an inequality of two variables")
    must("trinomial_exclusive_nor", and_(sz(3), Q), "being an equation of three variables")
    bc = [x for t in pool for x in subterms(t) if fname(x) == "m_has_only_binary_coefficient"]
    bv = [x for t in pool for x in subterms(t) if fname(x) == "m_has_only_binary_variable"]
    ctx.need(bc and bv, "the classifier no longer uses m_has_only_binary_coefficient / _variable")
    B = and_(bc[0], bv[0])
    for t, s, k in (("set_partitioning", Q, eq(K, num(-1))), ("set_packing", L, eq(K, num(-1))), ("set_covering", G, eq(K, num(-1))),
                    ("cardinality", Q, le(K, num(-2))), ("invariant_knapsack", L, le(K, num(-2))), ("multiple_covering", G, le(K, num(-2)))):
        must(t, and_(B, s, k), "unit coefficients, binary variables and the sense and right-hand side of that type")
    for t in ("binary_flow", "integer_flow", "soft_selection", "intermediate", "equation_knapsack", "gf2"):
        must(t, Q, "being an equation")
    for t in ("min_max", "max_min"):
        must(t, not_(Q), "being an inequality")
    b1 = mk("iv", "b1")
    co = mk("get", 1, mk("at", S, b1))
    NEG = exists_(dom, "b1", lt(co, ZERO))
    POS = exists_(dom, "b1", lt(ZERO, co))
    for t in ("bin_packing", "knapsack", "integer_knapsack"):
        if have(t) and contains(have(t)[0].pc, lambda x: x is NEG or x is POS):
            must(t, or_(and_(L, not_(NEG)), and_(G, not_(POS))), "being a <= with non-negative or a >= with non-positive coefficients")
    if len(set(cs)) and all(x.op == "loc" for x in cs):
        for c in dict.fromkeys(cs):
            c0, c1 = mk("at", c, num(0)), mk("at", c, num(1))
            def pat(a, b, k):
                return and_(eq(c0, num(a)), eq(c1, num(b)), k)
            k0, kn = eq(K, ZERO), not_(eq(K, ZERO))
            table = {"exclusive_or": or_(pat(1, 1, eq(K, num(-1))), pat(-1, -1, eq(K, num(1)))),
                     "exclusive_nor": or_(pat(1, -1, k0), pat(-1, 1, k0)),
                     "inverted_integers": or_(pat(1, 1, k0), pat(-1, -1, k0)),
                     "balanced_integers": or_(pat(1, -1, k0), pat(-1, 1, k0)),
                     "constant_sum_integers": or_(pat(1, 1, kn), pat(-1, -1, kn)),
                     "constant_difference_integers": or_(pat(1, -1, kn), pat(-1, 1, kn))}
            for t, cond in table.items():
                if have(t) and contains(have(t)[0].pc, lambda x: x is c0):
                    must(t, cond, "the coefficients and constant of that type")
    # variables of the two-variable types
    for v in dict.fromkeys(vs):
        if v.op != "loc":
            continue
        for t, kind in (("exclusive_or", "Binary"), ("exclusive_nor", "Binary"), ("inverted_integers", "Integer"), ("balanced_integers", "Integer"),
                        ("constant_sum_integers", "Integer"), ("constant_difference_integers", "Integer"), ("constant_ratio_integers", "Integer")):
            for e in have(t):
                for k in (0, 1):
                    ats = [x for x in subterms(e.pc) if x.op == "eq" and contains(x, lambda y: y is mk("at", v, num(k))) and any(z.op == "enum" and "VariableSense::" in str(z) for z in x.a)]
                    if not ats:
                        continue
                    good = [x for x in ats if str([z for z in x.a if z.op == "enum"][0]).split("::")[-1] in (kind, "Dependent" + kind)]
                    ctx.ob("shape", bool(good) and safe_implies(e.pc, or_(*good)), ctx.at(f, e), "a constraint is classified as '%s' although a variable is not %s" % (t, kind.lower()))
    keys(ctx, f, E, trues)


def keys(ctx, f, E, trues):
    """types used with a key variable have one"""
    ks = [e for e in order(writes(E, "m_key_variable_ptr"))]
    for t in ("exclusive_or", "exclusive_nor", "inverted_integers", "balanced_integers", "constant_sum_integers", "constant_difference_integers",
              "constant_ratio_integers", "intermediate", "min_max", "max_min", "soft_selection", "trinomial_exclusive_nor", "gf2"):
        for e in trues:
            if fname(e.t) == "m_is_" + t:
                cand = [k for k in ks if not is_null(k.v)]
                cover = or_(*[k.pc for k in cand]) if cand else FALSE
                same = [k for k in cand if k.pc is e.pc] or safe_implies(e.pc, cover)
                ctx.ob("key-variable", bool(same), ctx.at(f, e), "a constraint classified as '%s' is given no key variable" % t)


def is_null(t):
    return t is NULL or t.op in ("null",) or (t.op == "n" and t.a[0] == 0)


def attributes(ctx):
    f = ctx.fn1(CON + "setup_expression_attributes", 0)
    E = ctx.run(f)
    for fld, test in (("m_has_only_binary_coefficient", "coef"), ("m_has_only_binary_variable", "var")):
        ws = [e for e in order(writes(E, fld))]
        ctx.need(ws, "%s is not computed" % fld)
        if len(ws) == 1 and not ws[0].loops:
            v = ws[0].v
            ctx.need(v.op == "not" and v.a[0].op == "exists", "%s := %s" % (fld, v))
            body = v.a[0].a[2]
            init = True
        else:
            init = ws[0].pc is TRUE and is_true(ws[0].v) and not ws[0].loops
            lo = [e for e in ws if e.loops]
            ctx.need(len(lo) == 1 and is_false(lo[0].v), "%s is computed in an unknown way" % fld)
            body = lo[0].pc
        ctx.ob("attributes", init, ctx.at(f, ws[0]), "%s does not start as true" % fld)
        if test == "coef":
            g = [x for x in subterms(body) if x.op == "get" and x.a[0] == 1]
            ctx.ob("attributes", bool(g) and safe_equiv(body, not_(eq(g[0], num(1)))), ctx.at(f, ws[-1]), "%s is cleared when %s, not when a coefficient differs from 1" % (fld, body), sample=str(body))
        else:
            en = {str(x).split("::")[-1]: None for x in subterms(body) if x.op == "enum"}
            ctx.ob("attributes", set(en) == {"Binary", "Selection"}, ctx.at(f, ws[-1]), "%s counts %s as binary" % (fld, sorted(en)), sample=str(body))
            ats = [x for x in subterms(body) if x.op == "eq" and any(y.op == "enum" for y in x.a)]
            ctx.ob("attributes", bool(ats) and safe_equiv(body, and_(*[not_(x) for x in ats])), ctx.at(f, ws[-1]), "%s is cleared when %s" % (fld, body))


def accessors(ctx, types):
    for t in types:
        fs = [g for g in ctx.P.find(CON + "is_" + t) if not g["p"]]
        ctx.need(fs, "accessor is_%s" % t)
        E = ctx.run(fs[0])
        r = [e for e in E.effects if e.kind == "ret"]
        ctx.ob("accessor", len(r) == 1 and r[0].v is mk("fld", THIS, CON + "m_is_" + t), ctx.at(fs[0], r[0] if r else None), "is_%s() returns %s" % (t, r[0].v if r else None), sample="is_%s() = m_is_%s" % (t, t))
    f = ctx.fn1(CON + "type", 0)
    E = ctx.run(f)
    flags = {t: mk("fld", THIS, CON + "m_is_" + t) for t in types}
    seen = {}
    for e in E.effects:
        if e.kind != "ret":
            continue
        for pc, v in leaves(e.v, e.pc):
            ctx.need(v.op == "s", "type label %s" % v)
            lab = norm(v.a[0])
            for t in types:
                if norm(t) == lab:
                    seen[t] = e
                    others = and_(*[not_(flags[u]) for u in types if u != t])
                    ctx.ob("label", safe_implies(pc, flags[t]) and safe_implies(and_(flags[t], others), pc), ctx.at(f, e), "the label '%s' is shown when %s" % (v.a[0], pc), sample="%s <-> m_is_%s" % (v.a[0], t))
    for t in types:
        ctx.ob("label", t in seen, ctx.at(f), "the type '%s' has no label of its own" % t)


def pushes(E, holder):
    for e in calls(E, "push_back"):
        if e.t is not None and e.t.op == "fld":
            yield e


def categorize_constraints(ctx, types):
    f = ctx.fn1("Model::categorize_constraints", 0)
    E = ctx.run(f, opaque=("setup_constraint_type",))
    sc = list(calls(E, "setup_constraint_type"))
    ctx.need(sc, "categorize_constraints does not classify")
    ps = [e for e in pushes(E, None) if e.args]
    ctx.need(ps, "categorize_constraints fills no list")
    el = sc[0].t
    ctx.ob("all-classified", sc[0].pc is TRUE and len(sc[0].loops) == 2 and all(d.a[0] is ZERO for d in sc[0].loops if d.op == "idx"), ctx.at(f, sc[0]), "only some constraints are classified (%s)" % sc[0].pc)
    want = {t + "_ptrs": lambda c, t=t: mk("fld", c, CON + "m_is_" + t) for t in types}
    seen = {}
    for e in ps:
        n = fname(e.t)
        c = e.args[0]
        ctx.ob("list-element", c is el and e.loops == sc[0].loops, ctx.at(f, e), "%s receives %s over %s" % (n, c, e.loops))
        ctx.ob("classified-first", sc[0].seq < e.seq, ctx.at(f, e), "%s is filled before the constraint is classified" % n)
        if n in want:
            seen[n] = e
            fl = want[n](c)
            ctx.ob("list-flag", safe_equiv(e.pc, fl), ctx.at(f, e), "constraints are entered in %s when %s" % (n, e.pc), sample="%s <-> %s" % (n, fname(fl)))
        elif n in ("enabled_constraint_ptrs", "disabled_constraint_ptrs", "less_ptrs", "equal_ptrs", "greater_ptrs", "constraint_ptrs"):
            en = mk("fld", c, CON + "m_is_enabled")
            ok = False
            if n == "constraint_ptrs":
                ok = e.pc is TRUE
            elif n == "enabled_constraint_ptrs":
                ok = safe_equiv(e.pc, en)
            elif n == "disabled_constraint_ptrs":
                ok = safe_equiv(e.pc, not_(en))
            else:
                word = {"less_ptrs": "Less", "equal_ptrs": "Equal", "greater_ptrs": "Greater"}[n]
                at = [x for x in subterms(e.pc) if x.op == "eq" and any(y.op == "enum" and str(y).split("::")[-1] == word for y in x.a)]
                ok = bool(at) and safe_implies(e.pc, and_(at[0], en))
            seen[n] = e
            ctx.ob("list-flag", ok, ctx.at(f, e), "constraints are entered in %s when %s" % (n, e.pc), sample="%s when %s" % (n, e.pc))
    for t in list(want) + ["constraint_ptrs", "enabled_constraint_ptrs", "disabled_constraint_ptrs", "less_ptrs", "equal_ptrs", "greater_ptrs"]:
        ctx.ob("list-filled", t in seen, ctx.at(f), "no constraint is ever entered in %s" % t)
    stored(ctx, f, E, ("m_constraint_reference", "m_constraint_type_reference"), ps)


def stored(ctx, f, E, names, ps):
    for n in names:
        ws = [e for e in writes(E, n)]
        direct = [e for e in ps if has_field(e.t, n)]
        if direct:
            # the member is filled in place: it must be emptied first
            continue
        ctx.ob("stored", len(ws) == 1 and ws[0].pc is TRUE and all(p.seq < ws[0].seq for p in ps), ctx.at(f, ws[0] if ws else None), "the new classification is not stored in %s" % n)
        if ws:
            ctx.ob("stored", any(is_sub(ws[0].v, p.t) or p.t.a[0] is ws[0].v for p in ps), ctx.at(f, ws[0]), "%s is set to %s, not to the lists just built" % (n, ws[0].v))


def categorize_variables(ctx):
    f = ctx.fn1("Model::categorize_variables", 0)
    E = ctx.run(f)
    ps = [e for e in pushes(E, None) if e.args]
    ctx.need(ps, "categorize_variables fills no list")
    want = {"binary_variable_ptrs": "Binary", "integer_variable_ptrs": "Integer", "selection_variable_ptrs": "Selection",
            "dependent_binary_variable_ptrs": "DependentBinary", "dependent_integer_variable_ptrs": "DependentInteger"}
    seen = {}
    for e in ps:
        n = fname(e.t)
        v = e.args[0]
        ok2 = len(e.loops) == 2 and all(d.op == "idx" and d.a[0] is ZERO for d in e.loops)
        ctx.ob("list-element", ok2 and fname(v.a[0]) == "m_variables" if v.op == "at" else False, ctx.at(f, e), "%s receives %s over %s" % (n, v, e.loops))
        seen[n] = e
        if n in want:
            at = [x for x in subterms(e.pc) if x.op == "eq" and any(y.op == "enum" and str(y).split("::")[-1] == want[n] for y in x.a) and is_sub(v, x)]
            at = at or [x for x in subterms(e.pc) if x.op == "eq" and any(y.op == "enum" and str(y).split("::")[-1] == want[n] for y in x.a)]
            ctx.ob("list-flag", bool(at) and safe_equiv(e.pc, at[0]), ctx.at(f, e), "variables are entered in %s when %s" % (n, e.pc), sample="%s <-> %s" % (n, e.pc))
        elif n in ("variable_ptrs", "fixed_variable_ptrs", "mutable_variable_ptrs"):
            fx = mk("fld", v, "printemps::model_component::Variable::m_is_fixed")
            ok = {"variable_ptrs": e.pc is TRUE, "fixed_variable_ptrs": safe_equiv(e.pc, fx), "mutable_variable_ptrs": safe_equiv(e.pc, not_(fx))}[n]
            ctx.ob("list-flag", ok, ctx.at(f, e), "variables are entered in %s when %s" % (n, e.pc), sample="%s <-> %s" % (n, e.pc))
    for n in list(want) + ["variable_ptrs", "fixed_variable_ptrs", "mutable_variable_ptrs"]:
        ctx.ob("list-filled", n in seen, ctx.at(f), "no variable is ever entered in %s" % n)
    stored(ctx, f, E, ("m_variable_reference", "m_variable_type_reference"), ps)


def counters(ctx, types):
    """number_of_*() and the reports name the list they count"""
    pairs = {"number_of_variables": "variable_ptrs", "number_of_fixed_variables": "fixed_variable_ptrs", "number_of_mutable_variables": "mutable_variable_ptrs",
             "number_of_binary_variables": "binary_variable_ptrs", "number_of_integer_variables": "integer_variable_ptrs", "number_of_selection_variables": "selection_variable_ptrs",
             "number_of_dependent_binary_variables": "dependent_binary_variable_ptrs", "number_of_dependent_integer_variables": "dependent_integer_variable_ptrs",
             "number_of_constraints": "constraint_ptrs", "number_of_selection_constraints": "m_selections", "number_of_enabled_constraints": "enabled_constraint_ptrs", "number_of_disabled_constraints": "disabled_constraint_ptrs"}
    for g, lst in pairs.items():
        for f in ctx.fns("Model::" + g, 0):
            E = ctx.run(f)
            r = [e for e in E.effects if e.kind == "ret"]
            ctx.need(len(r) == 1, g)
            v = r[0].v
            ls = [fname(x) for x in subterms(v) if x.op == "fld" and (fname(x).endswith("_ptrs") or fname(x) == "m_selections")]
            ctx.ob("counter", ls == [lst] and v is size_of([x for x in subterms(v) if fname(x) == lst][0]), ctx.at(f, r[0]), "%s() is %s" % (g, v), sample=str(v))


def reports(ctx, types):
    names = {}
    for t in types:
        names[norm(t)] = t + "_ptrs"
    for fn, extra in (("Status::add_constraint_type_detail", None), ("Status::add_variable_type_detail", "variable"), ("Status::add_constraint_detail", "c"), ("Status::add_variable_detail", "v")):
        f = ctx.fn1(fn, 1)
        E = ctx.run(f)
        seen = set()
        for e in calls(E, "emplace_back"):
            if len(e.args) != 2 or e.args[0].op != "s":
                if len(e.args) == 2 and e.args[0].op == "at" and contains(e.args[0], lambda x: x.op == "s"):
                    lits = [x.a[0] for x in subterms(e.args[0]) if x.op == "s"]
                    ctx.ob("report-phase", sorted(lits) == ["original", "presolved"], ctx.at(f, e), "phases %s" % lits)
                continue
            key = e.args[0].a[0]
            v = e.args[1]
            ls = [fname(x) for x in subterms(v) if x.op == "fld" and fname(x).endswith("_ptrs")]
            if not ls:
                continue
            if extra is None:
                want = names.get(norm(key))
            elif extra == "variable":
                want = key + "_variable_ptrs"
            elif extra == "c":
                want = "constraint_ptrs" if key == "all" else key + "_constraint_ptrs"
            else:
                want = "variable_ptrs" if key == "all" else key + "_variable_ptrs"
            ctx.ob("report", ls[0] == want, ctx.at(f, e), "the report '%s' counts %s" % (key, ls[0]), sample="%s <- %s" % (key, ls[0]))
            seen.add(ls[0])
            # original first, presolved second, as the phase names are listed
            hs = [x for x in subterms(v) if x.op == "at" and contains(x, lambda y: y.op == "ilist")]
            if hs:
                refs = [fname(x) for x in ilist_items(hs[0])]
                ph = [e2 for e2 in calls(E, "emplace_back") if len(e2.args) == 2 and e2.args[0].op == "at" and contains(e2.args[0], lambda y: y.op == "s")]
                if ph and refs and len(refs) == 2:
                    lits = [x.a[0] for x in ilist_items(ph[0].args[0])]
                    ok = all((l == "original") == bool(r and r.endswith("_original")) for l, r in zip(lits, refs))
                    ctx.ob("report-phase", ok, ctx.at(f, e), "phases %s are computed from %s" % (lits, refs))
        if extra is None:
            for t in types:
                ctx.ob("report", t + "_ptrs" in seen, ctx.at(f), "the type '%s' is missing from the report" % t)
    f = ctx.fn1("Model::print_number_of_constraints", 0)
    E = ctx.run(f)
    seen = set()
    for e in calls(E, "print_info"):
        s = cat_parts(e.args[0])
        for i, p in enumerate(s):
            if p.op != "s" or " -- " not in p.a[0] or ":" not in p.a[0]:
                continue
            want = names.get(norm(p.a[0]))
            if want is None:
                continue
            ls = [x for q in s[i + 1:] for x in subterms(q) if x.op == "fld" and fname(x).endswith("_ptrs")]
            seen.add(want)
            ctx.ob("report", bool(ls) and all(fname(x) == want for x in ls), ctx.at(f, e), "the line '%s' counts %s" % (p.a[0], sorted({fname(x) for x in ls})), sample=p.a[0])
            hold = [fname(x.a[0]) for x in ls]
            if len(hold) >= 2:
                ctx.ob("report-phase", hold[0].endswith("_original") and not hold[-1].endswith("_original"), ctx.at(f, e), "the line '%s' shows %s" % (p.a[0], hold))
    for t in types:
        ctx.ob("report", t + "_ptrs" in seen, ctx.at(f), "the type '%s' is missing from the printed table" % t)


def ilist_items(t):
    for x in subterms(t):
        if x.op == "ilist" and not any(y.op == "ilist" for y in x.a[0]):
            return list(x.a[0])
    return []


def cat_parts(t):
    if t.op == "cat":
        out = []
        for x in t.a:
            if isinstance(x, tuple):
                for y in x:
                    out += cat_parts(y)
            else:
                out += cat_parts(x)
        return out
    return [t]


def run(ctx):
    box = {}

    def base(ctx):
        box["t"] = universe(ctx)
        box["f"] = flags_of(ctx, box["t"])
    ctx.section(base)
    if "f" in box:
        t = box["t"]
        ctx.section(classifier, t, box["f"])
        ctx.section(accessors, t)
        ctx.section(categorize_constraints, t)
        ctx.section(reports, t)
        ctx.section(counters, t)
    ctx.section(attributes)
    ctx.section(categorize_variables)
