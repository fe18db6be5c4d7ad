"""P10: invalid requests are rejected before they take effect.

Every rejecting operation is listed with the exact condition under which its documentation makes it throw.  The union of
the path conditions of its throw statements must be equivalent to that condition (no valid request rejected, no invalid one
accepted), and no store to the object, its arguments or the model may be executed before the throw on a path to it."""
from common import *

MC = "printemps::model_component::"


def this_field(ctx, cls, name):
    """this.<name> as the evaluator writes it"""
    r = "printemps::multi_array::AbstractMultiArray"
    R = ctx.P.records.get(r)
    if R and any(name in (x.get("n") if isinstance(x, dict) else x) for x in R["fields"]):
        return mk("fld", THIS, r + "::" + name)
    raise Broken("field %s of %s not found" % (name, cls))


SINGLE = {
    MC + "VariableProxy": ("value", "set_value", "evaluate", "fix", "unfix", "is_fixed", "fix_by", "lower_bound", "upper_bound", "has_bounds", "sense", "set_name", "name", "to_expression", "operator+", "operator-", "operator="),
    MC + "ExpressionProxy": ("sensitivities", "constant_value", "evaluate", "update", "value", "set_name", "name", "to_expression", "is_enabled", "operator+", "operator-", "operator=", "operator+=", "operator-=", "operator*=", "operator/="),
    MC + "ConstraintProxy": ("set_name", "name", "constraint_value", "violation_value", "is_enabled", "operator="),
    "printemps::multi_array::ValueProxy": ("value", "name", "operator="),
}
INDEXED = {
    MC + "VariableProxy": ("operator()", "sum"),
    MC + "ExpressionProxy": ("operator()", "sum"),
    MC + "ConstraintProxy": ("operator()",),
    "printemps::multi_array::ValueProxy": ("values", "names"),
}
CREATE = {"create_variable": "VARIABLE", "create_variables": "VARIABLE", "create_expression": "EXPRESSION", "create_expressions": "EXPRESSION", "create_constraint": "CONSTRAINT", "create_constraints": "CONSTRAINT"}
READERS = ("helper::read_names_and_values", "helper::read_names", "helper::read_name_pairs", "mps::MPS::read_mps", "json::read_json_object", "json::read_json_array")


def throws(E):
    return [e for e in E.effects if e.kind == "throw"]


def rooted(t):
    """does the location belong to the object or an argument (not to a local)?"""
    while t is not None and t.op in ("fld", "at", "get", "call", "deref", "mut"):
        t = t.a[1] if t.op in ("call", "get") else t.a[0]
        if isinstance(t, (str, int, tuple)):
            return False
    return t is not None and (t is THIS or t.op == "sym")


MUTATING = ("push_back", "emplace_back", "emplace", "insert", "erase", "clear", "resize", "assign", "swap", "pop_back", "pop_front", "push_front", "open", "reset", "operator=", "operator+=", "operator-=", "operator*=", "operator/=")
QUIET = ("format_error_location", "print_message", "print_info", "print_warning", "print_error", "print_single_line", "print_double_line", "set_start_time", "date_time", "is_started", "print_program_info", "to_string")


def mutates(ctx, e):
    if e.kind == "write":
        return rooted(e.t)
    if e.kind != "call":
        return False
    n = callee(e)
    if n in QUIET:
        return False
    if e.t is not None and rooted(e.t):
        fs = [f for f in ctx.P.fn.values() if f["n"] == e.v]
        if fs:
            return not any(f.get("const") for f in fs) and any(x.get("k") in ("asg", "cmpasg", "inc") for f in fs for x in sym.walk(f.get("b"))) or n.startswith(("set_", "fix", "unfix", "create_", "operator=", "setup"))
        return n in MUTATING
    return False


def before(ctx, rule, f, E, allow=()):
    ok, bad = True, None
    for t in throws(E):
        for e in E.effects:
            if e.seq < t.seq and mutates(ctx, e) and not (fname(e.t) in allow if e.kind == "write" else callee(e) in allow) and safe_sat(and_(e.pc, t.pc)):
                # a store on a path that also reaches the throw
                if e.loops and not t.loops and not safe_sat(and_(e.pc, t.pc)):
                    continue
                ok, bad = False, e
    ctx.ob(rule, ok, ctx.at(f, bad) if bad else ctx.at(f), "%s changes %s before it rejects the request" % (short(f["n"]), (fname(bad.t) or bad.t if bad.kind == "write" else bad.v) if bad else ""))


def condition(E, names=None):
    return or_(*[t.pc for t in throws(E)])


def known_atoms(c, spec):
    """are all quantities of the throw condition among those of the specification (or the object's and arguments' own)?"""
    for x in subterms(c):
        if x.op in ("loopval", "exists", "sum", "phi", "loc", "iv", "lastval", "maxover"):
            return False
        if x.op == "call" and x not in list(subterms(spec)):
            return x.a[0].split("::")[-1] in ("size", "length", "empty", "fail")
    return True


def judge(ctx, rule, f, spec, what, allow=(), E=None):
    """throw condition of f is exactly spec, and nothing is changed before"""
    if E is None:
        E = ctx.run(f)
    c = condition(E)
    if not safe_equiv(c, spec):
        # the guard may live in a sibling this function delegates to
        sib = tuple(short(g["n"]) for g in ctx.P.fn.values() if g.get("cls") == f.get("cls") and g["id"] != f["id"])
        E2 = ctx.run(f, inline=sib, opaque=("(ctor)",))
        c2 = condition(E2)
        if safe_equiv(c2, spec):
            E, c = E2, c2
    ok = safe_equiv(c, spec)
    if not ok and not known_atoms(c, spec):
        raise Broken("%s: throw condition %s not comparable" % (f["n"], str(c)[:100]))
    ctx.ob(rule, ok, ctx.at(f, throws(E)[0]) if throws(E) else ctx.at(f),
           "%s rejects a request exactly when %s; found: %s" % (short(f["n"]), what, str(c)[:160] if throws(E) else "never"))
    before(ctx, rule, f, E, allow)


def own(ctx, cls, name):
    out, seen = [], set()
    for f in ctx.P.fn.values():
        if f["n"] == cls + "::" + name and f.get("b"):
            k = (f["file"], f["l"], tuple(p["t"] for p in f["p"]))
            if k not in seen:
                seen.add(k)
                out.append(f)
    return out


def single(ctx, cls, name):
    ctx.rule("operations on a whole definition are rejected unless it has exactly one element")
    ne = this_field(ctx, cls, "m_number_of_elements")
    fs = [f for f in own(ctx, cls, name) if not (name == "operator=" and f["p"] and f["p"][0]["t"] == cls and cls.endswith("ValueProxy"))]
    ctx.need(fs, cls + "::" + name)
    for f in fs:
        judge(ctx, "single-element", f, not_(eq(ne, num(1))), "the number of elements is not one")


def indexed(ctx, cls, name):
    ctx.rule("an index with another number of dimensions than the definition is rejected")
    nd = this_field(ctx, cls, "m_number_of_dimensions")
    fs = [f for f in own(ctx, cls, name) if f["p"] and "vector" in f["p"][0]["t"]]
    ctx.need(fs, cls + "::" + name)
    for f in fs:
        judge(ctx, "index dimensions", f, not_(eq(size_of(mk("sym", "$0")), nd)), "the index has another number of dimensions")
    # the variadic form forwards its arguments, all of them and in order, to the checked one
    for f in own(ctx, cls, name):
        if f in fs or not f["p"] or name != "operator()":
            continue
        E = ctx.run(f)
        rets = [e for e in E.effects if e.kind == "call" and callee(e) == "operator()"]
        if not rets:
            raise Broken("variadic operator() of %s" % cls)
        for e in rets:
            a = e.args[0] if e.args else None
            n = [x for x in subterms(a) if x.op == "sym"] if a is not None else []
            ctx.ob("variadic index", len(n) == len(f["p"]), ctx.at(f, e), "%s forwards %d of its %d indices" % (short(f["n"]), len(n), len(f["p"])))


def dots(ctx, cls):
    ctx.rule("dot rejects a wrong number of dimensions, more than one free dimension and a wrong number of coefficients")
    nd, ne = this_field(ctx, cls, "m_number_of_dimensions"), this_field(ctx, cls, "m_number_of_elements")
    s0, s1 = size_of(mk("sym", "$0")), size_of(mk("sym", "$1"))
    for f in own(ctx, cls, "dot"):
        if len(f["p"]) == 1:
            judge(ctx, "dot", f, or_(not_(eq(nd, num(1))), not_(eq(s0, ne))), "it is not one-dimensional or the number of coefficients differs")
        elif len(f["p"]) == 2:
            E = ctx.run(f)
            if not throws(E):
                ctx.ob("dot", False, ctx.at(f), "%s rejects nothing" % f["n"])
                continue
            c = condition(E)
            cnt = [x for x in subterms(c) if x.op == "call" and x.a[0].split("::")[-1] == "count"]
            loc = [x for x in subterms(c) if x.op == "call" and x.a[0].split("::")[-1] == "size" and x.a[1] is not None and x.a[1].op == "loc"]
            if len(set(cnt)) > 1 or len(set(loc)) > 1:
                raise Broken("dot: several counts")
            spec = not_(eq(s0, nd))
            ctx.ob("dot", bool(cnt) or any(x.op in ("loopval", "sum") for x in subterms(c)), ctx.at(f), "%s does not count the free dimensions" % f["n"])
            ctx.ob("dot", contains(c, lambda x: x == s1), ctx.at(f), "%s does not compare the number of coefficients" % f["n"])
            if not cnt or not loc:
                raise Broken("dot: condition not recognised")
            a = cnt[0].a[2]
            good = str(a[0]) == "$0.begin()" and str(a[1]) == "$0.end()" and str(a[2]).endswith("Range::All")
            ctx.ob("dot", good, ctx.at(f), "%s counts the free dimensions of the whole index" % f["n"])
            spec = or_(spec, not_(lt(cnt[0], num(2))), not_(eq(s1, loc[0])))
            ctx.ob("dot", safe_equiv(c, spec), ctx.at(f, throws(E)[0]), "%s rejects exactly: wrong dimensions, more than one free dimension, wrong number of coefficients; found %s" % (f["n"], str(c)[:160]))
            before(ctx, "dot", f, E)
    ctx.atleast("dot", 4)


def bounds(ctx):
    ctx.rule("reversed bounds are rejected, equal ones accepted")
    a, b = mk("sym", "$0"), mk("sym", "$1")
    for cls in (MC + "Variable", MC + "VariableProxy"):
        for f in own(ctx, cls, "set_bound"):
            judge(ctx, "bounds", f, lt(b, a), "the lower bound exceeds the upper bound")
    ctx.atleast("bounds", 4)


def fixed(ctx):
    ctx.rule("assigning another value to a fixed variable is rejected")
    cls = MC + "Variable"
    v, fx = mk("fld", THIS, cls + "::m_value"), mk("fld", THIS, cls + "::m_is_fixed")
    n = 0
    for name in ("set_value", "operator="):
        for f in own(ctx, cls, name):
            if not f["p"] or "Variable" in f["p"][0]["t"].split("::")[-1]:
                continue
            n += 1
            judge(ctx, "fixed", f, and_(fx, not_(eq(v, mk("sym", "$0")))), "the variable is fixed and the value differs")
    ctx.need(n >= 2, "assignments of Variable")


def creates(ctx, name):
    ctx.rule("definitions with a space in their name, or beyond the supported maximum, are rejected")
    kind = CREATE[name]
    cls = "printemps::model::Model"
    fs = own(ctx, cls, name)
    ctx.need(fs, name)
    mx = const_value(ctx.P, "printemps::model::ModelConstant::MAX_NUMBER_OF_%s_PROXIES" % kind)
    if mx is None:
        raise Broken("maximum not found")
    mx = asnum(mx)
    list_ = mk("fld", THIS, cls + "::m_%s_proxies" % kind.lower())
    for f in fs:
        E = ctx.run(f)
        adds = [e for e in E.effects if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and e.t == list_]
        deleg = [e for e in E.effects if e.kind == "call" and callee(e) in CREATE]
        if deleg and not adds:
            # wrapper: passes the name on; any rejection of its own precedes the creation
            e = deleg[0]
            ctx.ob("create wrapper", CREATE[callee(e)] == kind and e.args and e.args[0] == mk("sym", "$0"), ctx.at(f, e), "%s creates with the given name" % name)
            rest = [x for x in E.effects if x.kind == "call" and callee(x) == "set_bound"]
            for r in rest:
                rej = condition(E)
                lo, up = r.args[0], r.args[1]
                ctx.ob("create wrapper", safe_implies(and_(r.pc, lt(up, lo)), FALSE) or safe_implies(lt(up, lo), rej), ctx.at(f, r), "%s rejects reversed bounds only after the variable has been created" % name)
            before(ctx, "create wrapper", f, E)
            continue
        sp = [x for x in subterms(condition(E)) if x.op == "call" and x.a[0].endswith("has_space")]
        if not sp:
            E = ctx.run(f, inline=tuple(CREATE))
            sp = [x for x in subterms(condition(E)) if x.op == "call" and x.a[0].endswith("has_space")]
        if not sp and throws(E) and not known_atoms(condition(E), eq(size_of(list_), mx)):
            raise Broken("%s: rejection condition not recognised" % name)
        space = mk("call", sp[0].a[0], sp[0].a[1], sp[0].a[2]) if sp else None
        if space is None:
            ctx.ob("create", False, ctx.at(f), "%s accepts a name containing spaces" % name)
            continue
        ctx.ob("create", space.a[2] and space.a[2][0] == mk("sym", "$0"), ctx.at(f), "%s tests the given name for spaces" % name)
        judge(ctx, "create", f, or_(space, not_(lt(size_of(list_), mx))), "the name has a space or the maximum number is reached", E=E)


def has_space(ctx):
    f = ctx.fn1("utility::has_space", 1)
    E = ctx.run(f)
    rets = [e for e in E.effects if e.kind == "ret"]
    t = [e for e in rets if is_true(e.v)]
    if len(rets) != 2 or len(t) != 1 or not t[0].loops:
        raise Broken("has_space")
    l = t[0].loops[0]
    whole = str(l) == "idx(0, $0.size())"
    c = t[0].pc
    ch = [x for x in subterms(c) if x.op == "at"]
    ctx.ob("has_space", whole and ch and safe_equiv(c, eq(ch[0], num(32))), ctx.at(f, t[0]), "has_space finds a space at any position; found %s under %s" % (str(l), str(c)[:80]))


def reader(ctx, name):
    ctx.rule("a file that cannot be opened is rejected before anything is read")
    for f in ctx.fns(name):
        E = ctx.run(f)
        streams = [e.t for e in E.effects if e.kind == "init" and "ifstream" in str(e.v)]
        ctx.need(streams, "input stream of " + name)
        for s in streams:
            opens = [e for e in E.effects if e.kind == "call" and callee(e) == "open" and e.t == s]
            state = lambda x: x.op == "call" and x.a[1] == s and x.a[0].split("::")[-1] in ("fail", "is_open", "good", "bad", "(conv)", "operator!", "operator bool")
            bad = [e for e in throws(E) if contains(e.pc, state) and not e.loops]
            if not bad:
                ctx.ob("reader", not any(contains(e.pc, state) for e in E.effects), ctx.at(f), "state of the stream is tested but not rejected")
                ctx.ob("reader", False, ctx.at(f), "%s does not reject a file that cannot be opened" % name)
                continue
            fails = [x for x in subterms(bad[0].pc) if state(x)]
            x = fails[0]
            n = x.a[0].split("::")[-1]
            spec = x if n in ("fail", "operator!") else not_(x)
            if n == "bad":
                ctx.ob("reader", False, ctx.at(f, bad[0]), "%s tests bad(), which is not set when a file cannot be opened" % name)
                continue
            ctx.ob("reader", safe_equiv(bad[0].pc, spec), ctx.at(f, bad[0]), "%s throws exactly when the file cannot be opened" % name)
            for e in opens:
                ctx.ob("reader", e.seq < bad[0].seq and contains(e.args[0], lambda y: y == mk("sym", "$0")), ctx.at(f, e), "%s opens the named file before it tests the stream" % name)
            reads = [e for e in E.effects if e.kind == "call" and callee(e) in ("getline", "read", "get", "operator>>") and (e.t == s or s in e.args)]
            ctx.need(reads, "reads of " + name)
            for e in reads:
                ctx.ob("reader", not safe_sat(and_(e.pc, spec)) or e.seq > bad[0].seq, ctx.at(f, e), "%s reads before it tests the stream" % name)
            before(ctx, "reader", f, _only(E, bad[:1]))


class _only:
    def __init__(self, E, t):
        self.effects = [e for e in E.effects if e.kind != "throw" or e in t]


def solve_once(ctx):
    ctx.rule("a model can be solved only once")
    f = ctx.fn1("solver::Solver::preprocess", 0)
    E = ctx.run(f)
    fl = [x for t in throws(E) for x in subterms(t.pc) if x.op == "fld" and x.a[1].endswith("m_is_solved")]
    if not fl:
        ctx.ob("solve once", False, ctx.at(f), "solving a model a second time is not rejected")
        return
    flag = fl[0]
    ctx.ob("solve once", str(flag.a[0]).endswith("m_model_ptr") and safe_equiv(or_(*[t.pc for t in throws(E) if contains(t.pc, lambda x: x == flag) and t.seq <= min(u.seq for u in throws(E))]), flag), ctx.at(f), "the second solve of a model is rejected, the first is not")
    t = min(throws(E), key=lambda e: e.seq)
    sets = [e for e in writes(E, "m_is_solved")]
    ctx.ob("solve once", bool(sets) and all(is_true(e.v) for e in sets) and safe_implies(not_(flag), or_(*[e.pc for e in sets])), ctx.at(f, sets[0]) if sets else ctx.at(f), "every accepted solve marks the model as solved")
    for e in E.effects:
        if e.seq < t.seq and (e.kind == "write" and "m_model_ptr" in str(e.t) or e.kind == "call" and e.t is not None and "m_model_ptr" in str(e.t) and mutates(ctx, e)):
            ctx.ob("solve once", not safe_sat(and_(e.pc, t.pc)), ctx.at(f, e), "the model is changed before the second solve is rejected")
    # nobody else clears the flag
    for g in ctx.P.fn.values():
        if not g.get("b") or "(ctor)" in g["n"] or g["n"].endswith(("Model::initialize", "Model::set_is_solved", "Solver::preprocess")):
            continue
        for c in direct_calls(g):
            if str(c.get("f") or c.get("n") or c).endswith("set_is_solved"):
                Eg = ctx.run(g)
                for e in list(writes(Eg, "m_is_solved")):
                    ctx.ob("solve once", is_true(e.v), ctx.at(g, e), "%s clears the solved mark" % g["n"])
    m = ctx.fn1("solver::Solver::solve", 0)
    Em = ctx.run(m)
    cs = [e for e in Em.effects if e.kind == "call" and e.v.startswith("printemps::") and not callee(e).startswith("print")]
    ctx.ob("solve once", bool(cs) and callee(cs[0]) == "preprocess" and cs[0].pc == TRUE, ctx.at(m, cs[0]) if cs else ctx.at(m), "solve starts with the stage that rejects a second solve")


def problem(ctx):
    ctx.rule("a model without variables, or with neither objective nor constraints, is rejected before setup")
    f = ctx.fn1("preprocess::Verifier::verify_problem", 1)
    m = mk("fld", THIS, "printemps::preprocess::Verifier::m_model_ptr")
    M = "printemps::model::Model::"
    nv, nc = size_of(mk("fld", m, M + "m_variable_proxies")), size_of(mk("fld", m, M + "m_constraint_proxies"))
    ob = mk("fld", m, M + "m_is_defined_objective")
    judge(ctx, "problem", f, or_(eq(nv, num(0)), and_(eq(nc, num(0)), not_(ob))), "no variables, or neither objective nor constraints, are defined")
    g = ctx.fn1("model::Model::setup", 2)
    E = ctx.run(g)
    cs = list(calls(E, "verify_problem"))
    ctx.ob("problem", any(e.pc == TRUE for e in cs), ctx.at(g), "Model::setup verifies every problem")
    for e in E.effects:
        if cs and e.seq < cs[0].seq and mutates(ctx, e):
            ctx.ob("problem", False, ctx.at(g, e), "the model is changed before the problem is verified")
    for name in ("minimize", "maximize"):
        for h in ctx.fns("model::Model::" + name):
            Eh = ctx.run(h)
            w = list(writes(Eh, "m_is_defined_objective"))
            if not w and any(callee(e) in ("minimize", "maximize") for e in Eh.effects if e.kind == "call"):
                continue
            ctx.ob("problem", bool(w) and is_true(w[-1].v) and w[-1].pc == TRUE, ctx.at(h), "%s marks the objective as defined" % name)


def sizes(ctx):
    ctx.rule("vector and matrix operations reject operands of different sizes")
    V, D, S = "printemps::utility::sparse::Vector", "printemps::utility::sparse::Diagonal", "printemps::utility::sparse::SparseMatrix"
    vec = lambda t: size_of(mk("fld", t, V + "::values"))
    dia = lambda t: size_of(mk("fld", mk("fld", t, D + "::diagonal_vector"), V + "::values"))
    a0, a1 = mk("sym", "$0"), mk("sym", "$1")
    ne = lambda a, b: not_(eq(a, b))
    spec = {(V, "operator+=", 1): ne(vec(a0), vec(THIS)), (V, "operator-=", 1): ne(vec(a0), vec(THIS)), (V, "dot", 1): ne(vec(a0), vec(THIS)), (V, "learn", 2): ne(vec(a0), vec(THIS)),
            (V, "clamp", 2): or_(ne(vec(a0), vec(THIS)), ne(vec(a1), vec(THIS))),
            (D, "operator*=", 1): ne(dia(a0), dia(THIS)), (D, "dot", 1): ne(vec(a0), dia(THIS)), (D, "dot", 2): ne(vec(a1), dia(THIS)),
            (S, "dot", 2): ne(vec(a1), mk("fld", THIS, S + "::number_of_columns")), (S, "scale_row", 2): ne(dia(a1), mk("fld", THIS, S + "::number_of_rows")), (S, "scale_column", 2): ne(dia(a1), mk("fld", THIS, S + "::number_of_columns"))}
    for (c, n, k), s in spec.items():
        for f in own(ctx, c, n):
            if len(f["p"]) != k or n.startswith("operator") and "sparse::" not in f["p"][0]["t"]:
                continue
            ctx.section(size1, c, n, f, s)


def size1(ctx, c, n, f, s):
    E = ctx.run(f)
    if not throws(E) and any(e.kind == "call" and callee(e) == n for e in E.effects):
        return  # forwards to the checked overload
    # output parameters are pointers
    judge(ctx, "sizes", f, s, "the sizes of the operands differ", E=E)


def run(ctx):
    for cls, names in SINGLE.items():
        for n in names:
            ctx.section(single, cls, n)
    for cls, names in INDEXED.items():
        for n in names:
            ctx.section(indexed, cls, n)
    for cls in (MC + "VariableProxy", MC + "ExpressionProxy"):
        ctx.section(dots, cls)
    ctx.section(bounds)
    ctx.section(fixed)
    for n in CREATE:
        ctx.section(creates, n)
    ctx.section(has_space)
    for r in READERS:
        ctx.section(reader, r)
    ctx.section(solve_once)
    ctx.section(problem)
    sizes(ctx)
