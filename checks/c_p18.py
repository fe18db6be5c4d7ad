"""P18: command-line flags and auxiliary files control what they name.

The argument loop is evaluated for one argument of each kind: the settings it stores and how far it advances are compared
with the flag's meaning; the driver's calls carry the condition and the file they belong to; the readers and the model
operations behind them are compared element by element with their meaning."""
from common import *

NS = "printemps::standalone::MPSSolver::"
ST = mk("fld", THIS, "")
VALUE = {"-p": "m_option_file_name", "-i": "m_initial_solution_file_name", "-m": "m_mutable_variable_file_name", "-f": "m_fixed_variable_file_name",
         "-s": "m_selection_constraint_file_name", "-x": "m_flippable_variable_pair_file_name", "-c": "m_minimum_common_element"}
SWITCH = {"--accept-continuous": "m_accept_continuous_variables", "--extract-flippable-variable-pairs": "m_extract_flippable_variable_pairs",
          "--include-mps-loading-time": "m_include_mps_loading_time", "--export-json-instance": "m_export_json_instance"}


def F(n, t=THIS):
    return mk("fld", t, NS + n)


def given(n):
    return not_(eq(size_of(F(n)), ZERO))


def truth(v):
    return is_true(v) or (v.op == "n" and v != ZERO)


def falsity(v):
    return is_false(v) or v == ZERO


def parser(ctx):
    ctx.rule("flags: each argument stores exactly the setting it names and the loop advances past what it consumed")
    f = ctx.fn1("MPSSolver::parse_command_line_arguments", 2)
    E = ctx.run(f)
    cmp_ = [x for e in E.effects for x in subterms(e.pc) if x.op == "eq" and any(isinstance(y, T) and y.op == "s" and y.a[0] in VALUE for y in x.a)]
    if not cmp_:
        raise Broken("flag comparisons")
    arg = [y for y in cmp_[0].a if y.op != "s"][0]
    if arg.op != "at" or arg.a[1].op != "phi" or arg.a[1] not in E.phidefs:
        raise Broken("argument %s" % str(arg)[:60])
    base, i = arg.a
    init, new, dom = E.phidefs[i]
    ctx.ob("flags", init == ONE, ctx.at(f), "reading starts at the first argument; found %s" % init)
    bs = str(base)
    if base.op == "ctor" and "vector" in bs:
        a = base.a[1]
        ctx.ob("flags", len(a) >= 2 and str(a[0]) == "$1" and str(a[1]) == "{$0 + $1}", ctx.at(f), "all arguments are read; found %s" % bs[:80])
        inr = lt(i, size_of(base))
    elif bs == "$1":
        inr = lt(i, mk("sym", "$0"))
    else:
        raise Broken("argument list %s" % bs[:60])
    ex = [e for e in E.effects if e.kind in ("loopexit", "break")]
    for e in ex:
        ctx.ob("flags", safe_implies(e.pc, not_(inr)), ctx.at(f, e), "the loop ends only after the last argument; found %s" % str(e.pc)[:100])
    nxt = mk("at", base, add(i, ONE))

    def scen(w):
        known = list(VALUE) + list(SWITCH)
        A = and_(inr, *([eq(arg, mk("s", w))] if w else []), *[not_(eq(arg, mk("s", k))) for k in known if k != w])
        # a flag that takes a value is followed by one
        return and_(A, lt(add(i, ONE), size_of(base) if bs != "$1" else mk("sym", "$0"))) if w in VALUE else A

    def one(w, field, val, step):
        A = scen(w)
        what = "argument %s" % (w or "FILE")
        ws = [e for e in E.effects if e.kind == "write" and is_sub(e.t, THIS) and safe_sat(and_(A, e.pc))]
        hit = [e for e in ws if e.t == F(field)]
        ctx.ob("flags", len(hit) == 1, ctx.at(f, hit[0]) if hit else ctx.at(f), "%s sets %s" % (what, field))
        for e in hit:
            if not safe_implies(A, e.pc):
                raise Broken("%s is stored under %s" % (what, str(e.pc)[:80]))
            v = under(e.v, A)
            ctx.ob("flags", val(v), ctx.at(f, e), "%s: value %s" % (what, str(v)[:80]))
        for e in ws:
            if e not in hit:
                ctx.ob("flags", False, ctx.at(f, e), "%s also sets %s" % (what, fname(e.t)))
        th = [e for e in E.effects if e.kind == "throw" and safe_sat(and_(A, e.pc))]
        ctx.ob("flags", not th, ctx.at(f, th[0]) if th else ctx.at(f), what + " is accepted")
        got = under(new, A)
        ctx.ob("flags", got == add(i, num(step)), ctx.at(f), "%s consumes %d argument(s); next position %s" % (what, step, str(got)[:80]))

    for w, n in VALUE.items():
        if w == "-c":
            one(w, n, lambda v: v.op == "call" and v.a[0].split("::")[-1] in ("atoi", "stoi") and contains(v, lambda x: x == nxt), 2)
        else:
            one(w, n, lambda v: v == nxt, 2)
    for w, n in SWITCH.items():
        one(w, n, truth, 1)
    one(None, "m_mps_file_name", lambda v: v == arg, 1)


def defaults(ctx):
    ctx.rule("without a flag its setting is off, empty or the documented default")
    f = ctx.fn1("MPSSolver::initialize", 0)
    E = ctx.run(f)
    for n in [x for x in VALUE.values() if x != "m_minimum_common_element"] + ["m_mps_file_name"]:
        ok = any(callee(e) == "clear" and e.t == F(n) and e.pc is TRUE for e in E.effects if e.kind == "call") or any(e.kind == "write" and e.t == F(n) and str(e.v) in ("''", '""', "ctor(std::basic_string, ())") for e in E.effects)
        ctx.ob("defaults", ok, ctx.at(f), "%s starts empty" % n)
        bad = [e for e in E.effects if e.kind == "write" and e.t == F(n) and e.v.op == "s" and e.v.a[0]]
        for e in bad:
            ctx.ob("defaults", False, ctx.at(f, e), "%s starts as %s" % (n, e.v))
    for n in SWITCH.values():
        v = final_value(E, lambda t, n=n: t == F(n))
        ctx.ob("defaults", v is not None and falsity(v), ctx.at(f), "%s starts off; found %s" % (n, v))
    v = final_value(E, lambda t: t == F("m_minimum_common_element"))
    ctx.ob("defaults", v == num(5), ctx.at(f), "the minimum number of common elements is 5 by default; found %s" % v)
    for c in ctx.fns("MPSSolver::(ctor)", 2):
        Ec = ctx.run(c, opaque=("initialize", "setup"))
        seq = [callee(e) for e in Ec.effects if e.kind == "call" and callee(e) in ("initialize", "setup") and e.t == THIS]
        ctx.ob("defaults", seq == ["initialize", "setup"], ctx.at(c), "construction initialises, then reads the arguments; found %s" % seq)


def driver(ctx):
    ctx.rule("each auxiliary file is loaded exactly when its flag was given and applied to its part of the model")
    f = ctx.fn1("MPSSolver::setup", 2)
    E = ctx.run(f)
    both = and_(given("m_mutable_variable_file_name"), given("m_fixed_variable_file_name"))
    th = [e for e in E.effects if e.kind == "throw"]
    ctx.ob("driver", bool(th) and safe_equiv(or_(*[e.pc for e in th]), both), ctx.at(f, th[0]) if th else ctx.at(f), "arguments are rejected exactly when both -m and -f are given; found %s" % [str(e.pc)[:100] for e in th])
    ok = not_(both)
    pc = list(calls(E, "parse_command_line_arguments"))
    ctx.ob("driver", len(pc) == 1 and pc[0].pc is TRUE and [str(a) for a in pc[0].args] == ["$0", "$1"], ctx.at(f, pc[0]) if pc else ctx.at(f), "the arguments are parsed")
    mdl, opt = F("m_model"), F("m_option")

    def src(name, n):
        def g(a):
            return a.op == "call" and a.a[0].split("::")[-1] == name and list(a.a[2]) == [F(n)]
        g.__doc__ = "%s(%s)" % (name, n)
        return g
    tab = [("import_mps", mdl, TRUE, None), ("setup", opt, given("m_option_file_name"), lambda a: a == F("m_option_file_name")),
           ("unfix_variables", mdl, given("m_mutable_variable_file_name"), src("read_names", "m_mutable_variable_file_name")),
           ("fix_variables", mdl, given("m_fixed_variable_file_name"), src("read_names_and_values", "m_fixed_variable_file_name")),
           ("set_user_defined_selection_constraints", mdl, given("m_selection_constraint_file_name"), src("read_names", "m_selection_constraint_file_name")),
           ("setup_flippable_variable_ptr_pairs", mdl, given("m_flippable_variable_pair_file_name"), src("read_name_pairs", "m_flippable_variable_pair_file_name")),
           ("import_solution", mdl, given("m_initial_solution_file_name"), src("read_names_and_values", "m_initial_solution_file_name"))]
    pos = {}
    for name, recv, cond, arg in tab:
        cs = [e for e in E.effects if e.kind == "call" and callee(e) == name and e.t == recv]
        ctx.ob("driver", len(cs) == 1, ctx.at(f, cs[0]) if cs else ctx.at(f), "%s is done once" % name)
        for e in cs[:1]:
            pos[name] = e.seq
            ctx.ob("driver", safe_equiv(and_(ok, e.pc), and_(ok, cond)), ctx.at(f, e), "%s is done exactly when its flag was given; found %s" % (name, str(e.pc)[:120]))
            if arg:
                ctx.ob("driver", len(e.args) >= 1 and arg(e.args[0]), ctx.at(f, e), "%s uses its own file; found %s" % (name, str(e.args[0])[:80] if e.args else None))
    mp = [e for e in E.effects if e.kind == "call" and callee(e) == "import_mps"]
    for e in mp[:1]:
        ctx.ob("driver", contains(e.args[0], lambda x: x == F("m_mps_file_name")) and e.args[1] == F("m_accept_continuous_variables"), ctx.at(f, e), "the model is the given file, read with --accept-continuous; found %s" % [str(a)[:60] for a in e.args])
    nm = [e for e in E.effects if e.kind == "write" and e.t == mk("fld", mdl, "printemps::model::Model::m_name")]
    ctx.ob("driver", bool(nm) and contains(nm[-1].v, lambda x: x == F("m_mps_file_name")), ctx.at(f), "the model is named after its file")
    ow = [e for e in E.effects if e.kind == "write" and is_sub(e.t, opt)]
    two = [e for e in ow if fname(e.t) == "is_enabled_two_flip_move"]
    ctx.ob("driver", len(two) == 1 and truth(two[0].v) and safe_equiv(and_(ok, two[0].pc), and_(ok, given("m_flippable_variable_pair_file_name"))), ctx.at(f, two[0]) if two else ctx.at(f), "two-flip moves are enabled exactly with -x")
    for e in ow:
        if e not in two:
            ctx.ob("driver", False, ctx.at(f, e), "no other option is changed: %s" % str(e.t))
    if "setup" in pos and two:
        ctx.ob("driver", pos["setup"] < two[0].seq, ctx.at(f, two[0]), "the option file does not undo the flags")
    for n in pos:
        if n not in ("import_mps", "setup") and "import_mps" in pos:
            ctx.ob("driver", pos["import_mps"] < pos[n], ctx.at(f), "%s comes after the model was read" % n)


def running(ctx):
    ctx.rule("the run modes: solving with the given model, option and clock; extraction of pairs; the files written")
    f = ctx.fn1("MPSSolver::run", 0)
    E = ctx.run(f, opaque=("MPSSolver::solve", "MPSSolver::extract_flippable_variable_pairs"))
    x = F("m_extract_flippable_variable_pairs")
    for n, c in (("solve", not_(x)), ("extract_flippable_variable_pairs", x)):
        cs = [e for e in calls(E, n)]
        ctx.ob("run", len(cs) == 1 and safe_equiv(cs[0].pc, c), ctx.at(f, cs[0]) if cs else ctx.at(f), "%s runs exactly when it was asked for" % n)
    f = ctx.fn1("MPSSolver::solve", 0)
    E = ctx.run(f)
    inc = F("m_include_mps_loading_time")
    st = [e for e in calls(E, "setup")]
    with_, without = [e for e in st if len(e.args) == 3], [e for e in st if len(e.args) == 2]
    for e in st:
        ctx.ob("run", list(e.args[:2]) == [F("m_model"), F("m_option")], ctx.at(f, e), "the solver gets the model and the option")
    ctx.ob("run", len(with_) == 1 and safe_equiv(with_[0].pc, inc) and with_[0].args[2] == F("m_time_keeper"), ctx.at(f, with_[0]) if with_ else ctx.at(f), "the loading time counts exactly with --include-mps-loading-time")
    ctx.ob("run", len(without) == 1 and safe_equiv(without[0].pc, not_(inc)), ctx.at(f, without[0]) if without else ctx.at(f), "otherwise the solver starts its own clock")
    sv = [e for e in calls(E, "solve")]
    ctx.ob("run", len(sv) == 1 and sv[0].pc is TRUE, ctx.at(f), "the model is solved once")
    arch = [y for e in E.effects for y in subterms(e.pc) if y.op == "fld" and y.a[1].endswith("is_enabled_store_feasible_solutions")]
    tab = [("write_json_by_name", ".solution", "'incumbent.json'", TRUE), ("write_solution", ".solution", "'incumbent.sol'", TRUE), ("write_json_by_name", ".status", "'status.json'", TRUE),
           ("write_solutions_json", ".feasible_solution_archive", "'feasible.json'", arch[0] if arch else FALSE), ("write_json", "this.m_model", None, F("m_export_json_instance"))]
    for n, obj, file, cond in tab:
        cs = [e for e in calls(E, n) if str(e.t).endswith(obj)]
        ctx.ob("run", len(cs) == 1 and safe_equiv(cs[0].pc, cond) and (file is None or str(cs[0].args[0]) == file), ctx.at(f, cs[0]) if cs else ctx.at(f), "%s of %s writes %s exactly when asked for; found %s" % (n, obj.strip("."), file or "the instance", [(str(e.args[0]), str(e.pc)) for e in cs]))
    f = ctx.fn1("MPSSolver::extract_flippable_variable_pairs", 0)
    E = ctx.run(f)
    ex = list(calls(E, "extract_pairs"))
    wr = list(calls(E, "write_pairs"))
    ctx.ob("run", len(ex) == 1 and ex[0].args[0] == F("m_minimum_common_element"), ctx.at(f, ex[0]) if ex else ctx.at(f), "pairs are extracted with the given minimum")
    ctx.ob("run", len(wr) == 1 and str(wr[0].args[0]) == "'flip.txt'" and ex and ex[0].seq < wr[0].seq, ctx.at(f, wr[0]) if wr else ctx.at(f), "the extracted pairs are written")
    # the solver keeps the clock it was given
    f = ctx.fn1("solver::Solver::setup", 3)
    E = ctx.run(f, opaque=("initialize",))
    for n, a in (("m_model_ptr", "$0"), ("m_option", "$1"), ("m_option_original", "$1"), ("m_time_keeper", "$2")):
        w = list(writes(E, n))
        ctx.ob("run", bool(w) and str(w[-1].v) == a and w[-1].pc is TRUE, ctx.at(f), "Solver::setup keeps %s; found %s" % (n, str(w[-1].v) if w else None))
    f = ctx.fn1("solver::Solver::setup", 2)
    E = ctx.run(f, opaque=("initialize",))
    for n, a in (("m_model_ptr", "$0"), ("m_option", "$1"), ("m_option_original", "$1")):
        w = list(writes(E, n))
        ctx.ob("run", bool(w) and str(w[-1].v) == a and w[-1].pc is TRUE, ctx.at(f), "Solver::setup keeps %s; found %s" % (n, str(w[-1].v) if w else None))


def pairs(ctx):
    ctx.rule("extracted pairs: variables with at least the given number of common constraints")
    f = ctx.fn1("FlippableVariablePairExtractor::extract_pairs", 2)
    E = ctx.run(f)
    s0 = mk("sym", "$0")
    ins = [e for e in E.effects if e.kind == "call" and callee(e) in ("insert", "emplace") and len(e.args) == 1]
    if len(ins) != 1:
        raise Broken("candidate variables")
    v = ins[0].args[0]
    conj = ins[0].pc
    sen = [x for x in subterms(conj) if x.op == "eq" and any("VariableSense" in str(y) for y in x.a)]
    own = {str(y) for x in sen for y in x.a if y.op == "enum"}
    ctx.ob("pairs", {o.split("::")[-1] for o in own} == {"Binary", "Selection"}, ctx.at(f, ins[0]), "candidates are binary or selection variables; found %s" % sorted(own))
    fx = mk("fld", v, "printemps::model_component::Variable::m_is_fixed")
    ctx.ob("pairs", safe_implies(conj, not_(fx)), ctx.at(f, ins[0]), "candidates are not fixed")
    ep = [e for e in E.effects if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and len(e.args) == 4]
    if len(ep) != 1:
        raise Broken("pair creation")
    e = ep[0]
    it = [x for x in subterms(e.pc) if x.op == "call" and x.a[0].split("::")[-1] == "intersection_set"]
    ctx.ob("pairs", bool(it) and safe_equiv(e.pc, not_(lt(size_of(it[0]), s0))), ctx.at(f, e), "a pair is kept exactly when it has the minimum number of common constraints; found %s" % str(e.pc)[:60])
    if it:
        a, b = e.args[0], e.args[1]
        ctx.ob("pairs", a != b and str(a) + ".m_extension.related_constraint_ptrs" in str(it[0].a[2][0]) and str(b) + ".m_extension.related_constraint_ptrs" in str(it[0].a[2][1]), ctx.at(f, e), "the constraints of the pair's own variables are compared")
    l = [str(x) for x in e.loops]
    ctx.ob("pairs", len(l) == 2 and l[0].startswith("idx(0, ") and l[1].startswith("idx({1 + #0}, ") and l[0].split(", ")[1] == l[1].split(", ")[1], ctx.at(f, e), "every pair of candidates is tried; loops %s" % l)


def reader(ctx, name):
    f = ctx.fn1("helper::" + name, 1)
    E = ctx.run(f)
    th = [e for e in E.effects if e.kind == "throw"]
    op = [e for e in E.effects if e.kind == "call" and callee(e) == "open"]
    ctx.ob("reader", bool(th), ctx.at(f), "%s: an unreadable file is rejected" % name)
    for e in th:
        ok = e.pc.op == "call" and e.pc.a[0].split("::")[-1] in ("fail",) or e.pc.op == "not" and e.pc.a[0].op == "call" and e.pc.a[0].a[0].split("::")[-1] in ("is_open", "good", "(conv)")
        ctx.ob("reader", ok and not e.loops, ctx.at(f, e), "%s: exactly unreadable files are rejected; found %s" % (name, str(e.pc)[:80]))
    for e in op:
        ctx.ob("reader", contains(e.args[0], lambda x: x == mk("sym", "$0")), ctx.at(f, e), "%s reads the given file" % name)
    rets = [e for e in E.effects if e.kind == "ret" and e.v is not None]
    if len(rets) != 1 or rets[0].v.op != "loc":
        raise Broken("%s: result" % name)
    res = rets[0].v
    st = [e for e in E.effects if (e.kind == "write" and e.t.op == "at" and e.t.a[0] == res) or (e.kind == "call" and e.t == res and callee(e) in ("insert", "emplace", "emplace_back", "push_back"))]
    if len(st) != 1:
        raise Broken("%s: %d stores" % (name, len(st)))
    e = st[0]
    parts = [e.t.a[1], e.v] if e.kind == "write" else list(e.args)
    if len(parts) == 1 and parts[0].op == "ctor" and len(parts[0].a[1]) == 2:
        parts = list(parts[0].a[1])
    if not parts or parts[0].op != "at":
        raise Broken("%s: entry %s" % (name, [str(x)[:40] for x in parts]))
    items = parts[0].a[0]
    need = {"read_names": 1, "read_names_and_values": 2, "read_name_pairs": 2}[name]
    ctx.ob("reader", len(parts) == (1 if name == "read_names" else 2), ctx.at(f, e), "%s: shape of an entry" % name)
    ctx.ob("reader", parts[0] == mk("at", items, ZERO), ctx.at(f, e), "%s: the first word is the name; found %s" % (name, str(parts[0])[:60]))
    if name == "read_name_pairs":
        ctx.ob("reader", parts[1] == mk("at", items, ONE), ctx.at(f, e), "%s: the second word is the second name; found %s" % (name, str(parts[1])[:60]))
    if name == "read_names_and_values":
        v = parts[1]
        s = str(v)
        w = "atof(%s[1].c_str())" % items
        good = ("trunc(floor({0.5 + %s}))" % w, "floor({0.5 + %s})" % w, "trunc(round(%s))" % w, "round(%s)" % w, "lround(%s)" % w)
        if s not in good and "%s[1]" % items in s and any(x in s for x in ("round", "rint", "floor", "stoi", "stod", "strto")) and "0.5" not in s:
            if "floor(%s)" % w not in s:
                raise Broken("%s: value %s" % (name, s[:80]))
        ctx.ob("reader", s in good, ctx.at(f, e), "%s: the second word, rounded to the nearest integer, is the value; found %s" % (name, s[:80]))
    # every line with enough words
    rest = [c for c in (e.pc.a[0] if e.pc.op == "and" else [e.pc]) if contains(c, lambda x: x == items)]
    got = and_(*rest)
    n = size_of(items)
    for k in range(0, need + 3):
        A = eq(n, num(k))
        if k < need:
            ctx.ob("reader", not safe_sat(and_(A, got)), ctx.at(f, e), "%s: a line of %d word(s) is skipped" % (name, k))
        else:
            ctx.ob("reader", safe_implies(A, got), ctx.at(f, e), "%s: a line of %d word(s) is read; condition %s" % (name, k, str(got)[:80]))
    br = [x for x in E.effects if x.kind in ("break",) and x.loops]
    for x in br:
        ctx.ob("reader", False, ctx.at(f, x), "%s stops before the end of the file" % name)


def known(t):
    """`name is in container` as a condition: (container, name, polarity) of c.find(n) ==/!= c.end(), count(n)"""
    for x in subterms(t):
        if x.op == "call" and x.a[0].split("::")[-1] in ("find", "count", "contains") and x.a[1] is not None:
            return x
    return None


def listed(c, name):
    """condition that `name` is in the map/set c"""
    f = mk("call", "std::unordered_map::find", c, (name,))
    return f


def modelops(ctx):
    ctx.rule("model operations reach exactly the named variables and constraints")
    V = "this.m_variable_proxies[#0].m_variables[#1]"
    C = "this.m_constraint_proxies[#0].m_constraints[#1]"
    vloops = ["idx(0, this.m_variable_proxies.size())", "idx(0, this.m_variable_proxies[#0].m_variables.size())"]
    cloops = ["idx(0, this.m_constraint_proxies.size())", "idx(0, this.m_constraint_proxies[#0].m_constraints.size())"]

    def member(e, obj, cont, what, f):
        """the literal `obj's name is in cont` guarding e, as condition"""
        k = known(e.pc)
        if k is None:
            return None
        ok = str(k.a[1]) == cont and str(k.a[2][0]) == obj + ".m_extension.name"
        ctx.ob("model", ok, ctx.at(f, e), "%s: the element's own name is looked up in the list; found %s" % (what, str(k)[:80]))
        s = str(e.pc)
        if k.a[0].endswith("find"):
            return "in" if e.pc.op == "not" and e.pc.a[0].op == "eq0" else "out" if e.pc.op == "eq0" else None
        if e.pc.op == "lt0" or e.pc.op == "not" and e.pc.a[0].op == "eq0":
            return "in"
        return "in" if e.pc == k else "out" if e.pc.op in ("eq0", "not") else None

    def loops(e, want, what, f):
        l = [str(x) for x in e.loops]
        if l != want:
            raise Broken("%s: loops %s" % (what, l))

    f = ctx.fn1("Model::fix_variables", 1)
    E = ctx.run(f)
    fx = [e for e in E.effects if e.kind == "call" and callee(e) == "fix_by" or e.kind == "write" and is_sub(e.t, THIS)]
    ctx.ob("model", bool(fx), ctx.at(f), "listed variables are fixed")
    for e in fx:
        if e.kind != "call":
            raise Broken("fix_variables writes %s" % e.t)
        loops(e, vloops, "fix_variables", f)
        ctx.ob("model", str(e.t) == V and member(e, V, "$0", "fix_variables", f) == "in" and str(e.args[0]) == "$0[%s.m_extension.name]" % V, ctx.at(f, e), "exactly the listed variables are fixed, each to its listed value; found %s under %s" % (str(e.args[0])[:80], str(e.pc)[:60]))
    f = ctx.fn1("Model::unfix_variables", 1)
    E = ctx.run(f)
    fx = [e for e in calls(E, "fix_by")]
    un = [e for e in E.effects if e.kind == "write" and fname(e.t) == "m_is_fixed" and falsity(e.v)]
    if len(fx) != 1 or any(e.kind == "write" and e not in un for e in E.effects if e.kind == "write" and is_sub(e.t, THIS)):
        raise Broken("unfix_variables")
    loops(fx[0], vloops, "unfix_variables", f)
    cond = None if fx[0].pc is TRUE else member(fx[0], V, "$0", "unfix_variables", f)
    ctx.ob("model", str(fx[0].t) == V and fx[0].args[0] == ZERO and (fx[0].pc is TRUE or cond == "out"), ctx.at(f, fx[0]), "variables that are not listed are fixed at zero; found %s under %s" % (fx[0].args[0], str(fx[0].pc)[:60]))
    ctx.ob("model", len(un) == 1 and str(un[0].t.a[0]) == V and (un[0].pc is TRUE and cond == "out" or member(un[0], V, "$0", "unfix_variables", f) == "in"), ctx.at(f, un[0]) if un else ctx.at(f), "exactly the listed variables can change")
    if un and fx[0].pc is TRUE:
        ctx.ob("model", fx[0].seq < un[0].seq, ctx.at(f, un[0]), "listed variables end up mutable")
    f = ctx.fn1("Model::set_user_defined_selection_constraints", 1)
    E = ctx.run(f)
    ws = [e for e in E.effects if e.kind == "write" and is_sub(e.t, THIS)]
    ctx.ob("model", len(ws) >= 1, ctx.at(f), "listed constraints are marked")
    for e in ws:
        loops(e, cloops, "set_user_defined_selection_constraints", f)
        ctx.ob("model", str(e.t.a[0]).startswith(C) and fname(e.t).endswith("is_user_defined_selection") and truth(e.v) and member(e, C, "$0", "set_user_defined_selection_constraints", f) == "in", ctx.at(f, e), "exactly the listed constraints become user-defined selections; found %s := %s" % (str(e.t)[-60:], e.v))
    f = ctx.fn1("Model::setup_flippable_variable_ptr_pairs", 1)
    E = ctx.run(f)
    mp = [e for e in E.effects if e.kind == "write" and e.t.op == "at"]
    fin = [e for e in writes(E, "m_flippable_variable_ptr_pairs")]
    if len(mp) != 1 or len(fin) != 1:
        raise Broken("setup_flippable_variable_ptr_pairs")
    loops(mp[0], vloops, "setup_flippable_variable_ptr_pairs", f)
    ctx.ob("model", str(mp[0].t.a[1]) == V + ".m_extension.name" and str(mp[0].v) == V, ctx.at(f, mp[0]), "a name stands for its own variable")
    P = str(mp[0].t.a[0])
    ad = [e for e in E.effects if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and e.t == fin[0].v]
    if len(ad) != 1:
        raise Broken("flippable pairs: additions")
    a = list(ad[0].args)
    if len(a) == 1 and a[0].op in ("ctor", "ilist"):
        a = list(a[0].a[-1])
    ctx.ob("model", [str(x) for x in a] == ["%s[get(0, $0[#0])]" % P, "%s[get(1, $0[#0])]" % P], ctx.at(f, ad[0]), "a pair consists of its own two variables; found %s" % [str(x)[:60] for x in a])
    want = and_(*[not_(eq(mk("call", k.a[0], k.a[1], (mk("get", num(i) if False else i, mk("at", mk("sym", "$0"), mk("iv", 0))),)), en)) for i, k, en in []]) if False else None
    ks = sorted({str(x.a[2][0]) for x in subterms(ad[0].pc) if x.op == "call" and x.a[0].split("::")[-1] in ("find", "count", "contains") and str(x.a[1]) == P})
    ctx.ob("model", ks == ["get(0, $0[#0])", "get(1, $0[#0])"] and len(ad[0].pc.a[0]) == 2 and all(c.op in ("not", "lt0") for c in ad[0].pc.a[0]), ctx.at(f, ad[0]), "a pair is registered exactly when both names are known; found %s" % str(ad[0].pc)[:120])
    ctx.ob("model", [str(x) for x in ad[0].loops] == ["idx(0, $0.size())"], ctx.at(f, ad[0]), "every listed pair is considered")
    for f in ctx.fns("Model::import_solution", 1):
        E = ctx.run(f)
        what = "import_solution(%s)" % f["p"][0]["t"].split("::")[-1]
        cs = [e for e in E.effects if len(e.loops) == 2 and (e.kind == "call" and callee(e) in ("operator=", "set_value_if_mutable", "set_value", "set_value_force") or e.kind == "write" and is_sub(e.t, THIS))]
        if not cs:
            raise Broken(what)
        cont = None
        pol = {}
        cs = [y for e in cs for y in arms(e)]
        for e in cs:
            loops(e, vloops, what, f)
            if e.kind != "call" or str(e.t) != V:
                raise Broken("%s: %s" % (what, str(e.t)[:60]))
            if "DenseSolution" in what:
                ctx.ob("model", e.pc is TRUE and str(e.args[0]) == "$0.variable_value_proxies[{0}.m_proxy_index].m_values[{0}.m_flat_index]".replace("{0}", V), ctx.at(f, e), "%s: each variable gets its own value; found %s" % (what, str(e.args[0])[:140])) if False else dense(ctx, f, e, V, what)
                continue
            cont = "$0.variables" if "SparseSolution" in what else "$0"
            m = member(e, V, cont, what, f)
            if m is None:
                raise Broken("%s: condition %s" % (what, str(e.pc)[:80]))
            pol[m] = e
        if cont:
            ctx.ob("model", "in" in pol and str(pol["in"].args[0]) == "%s[%s.m_extension.name]" % (cont, V), ctx.at(f), "%s: listed variables get their listed value; found %s" % (what, str(pol["in"].args[0])[:80] if "in" in pol else None))
            ctx.ob("model", "out" in pol and pol["out"].args[0] == ZERO, ctx.at(f), "%s: other variables start at zero" % what)


class Arm:
    def __init__(s, e, pc, args):
        s.__dict__.update({k: getattr(e, k) for k in ("kind", "t", "v", "loops", "line", "fn", "seq", "node", "ctx", "fid", "stack")})
        s.pc, s.args = pc, args


def arms(e):
    """a call whose only argument is a conditional value, as two guarded calls"""
    if e.kind == "call" and len(e.args) == 1 and isinstance(e.args[0], T) and e.args[0].op == "ite":
        c, a, b = e.args[0].a
        return [Arm(e, and_(e.pc, c), (a,)), Arm(e, and_(e.pc, not_(c)), (b,))]
    return [e]


def dense(ctx, f, e, V, what):
    s = str(e.args[0])
    ok = s.startswith("$0.variable_value_proxies[%s." % V) and "proxy_index]" in s and s.count(V) == 2 and "flat_index" in s
    i, j = s.find("proxy_index"), s.find("flat_index")
    ctx.ob("model", ok and e.pc is TRUE and i < j, ctx.at(f, e), "%s: each variable gets its own value; found %s" % (what, s[:140]))


def run(ctx):
    ctx.section(parser)
    ctx.section(defaults)
    ctx.section(driver)
    ctx.section(running)
    ctx.section(pairs)
    ctx.rule("readers: one entry per line with enough words; unreadable files are rejected")
    for n in ("read_names", "read_names_and_values", "read_name_pairs"):
        ctx.section(reader, n)
    ctx.section(modelops)
