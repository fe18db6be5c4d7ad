"""P15: solution and instance exports write each quantity under its own name; conversions preserve it."""
from common import *
import re


_calls = calls


def calls(E, name):
    return list(_calls(E, name))


def text(t):
    return str(t)


def val(t):
    """the number a term denotes, or None"""
    return t.a[0] if isinstance(t, T) and t.op == "n" else None


# ---------------------------------------------------------------- JSON documents
def emplaced(E):
    """(object term, key term, value term, effect)"""
    for e in E.effects:
        if e.kind == "call" and callee(e) == "emplace_back" and "Json" in str(e.v) and e.args:
            if len(e.args) == 2:
                yield e.t, e.args[0], e.args[1], e
            elif len(e.args) == 1:
                yield e.t, None, e.args[0], e


def keyed(E):
    out = {}
    for o, k, v, e in emplaced(E):
        if k is not None and k.op == "s":
            out.setdefault(k.a[0], []).append((o, v, e))
    return out


def complete_before_use(ctx, f, E):
    """an object is copied into its parent: everything it holds must have been put in before"""
    em = list(emplaced(E))
    locs = {o for o, _, _, _ in em if o.op == "loc"}
    for o in locs:
        used = [e for o2, k, v, e in em if v is o] + [e for e in E.effects if e.kind == "call" and callee(e) in ("write_json_object", "write_json_array") and e.args and e.args[0] is o]
        ctx.ob("json-attached", bool(used), ctx.at(f, [e for o2, _, _, e in em if o2 is o][0]), "%s builds the JSON object %s but never writes it" % (short(f["n"]), o))
        for u in used:
            late = [e for o2, k, v, e in em if o2 is o and e.seq > u.seq and len(e.loops) >= len(u.loops)]
            ctx.ob("json-order", not late, ctx.at(f, late[0] if late else u), "%s adds to %s after it was copied into the document" % (short(f["n"]), o))


def expect(ctx, f, E, kk, key, pred, desc, loops=None, cond=None, obj=None):
    hits = [(o, v, e) for o, v, e in kk.get(key, []) if obj is None or obj(o, e)]
    ctx.ob("json-key", bool(hits), ctx.at(f), "%s does not write the key '%s'" % (short(f["n"]), key))
    for o, v, e in hits:
        for pc, x in leaves(v, e.pc):
            ok = pred(x, pc, e)
            ctx.ob("json-value", ok, ctx.at(f, e), "%s writes %s under the key '%s' (expected %s)" % (short(f["n"]), text(x)[:120], key, desc), sample="%s <- %s" % (key, text(x)[:60]))
        if loops is not None:
            ctx.ob("json-coverage", len(e.loops) == loops, ctx.at(f, e), "%s writes the key '%s' %d loop levels deep" % (short(f["n"]), key, len(e.loops)))
    if hits and cond is None:
        full = or_(*[e.pc for _, _, e in hits])
        ctx.ob("json-always", safe_implies(TRUE, full), ctx.at(f, hits[0][2]), "%s writes the key '%s' only if %s" % (short(f["n"]), key, text(full)[:120]))


def fld_is(*path):
    """value is this.<a>.<b>..."""
    def p(x, pc, e):
        for n in reversed(path):
            if x.op != "fld" or fname(x) != n:
                return False
            x = x.a[0]
        return True
    return p


def version(x, pc, e):
    return "VERSION" in text(x) or x.op == "s"


def plain_loops(ctx, f, e, doms):
    """the loops cover all elements: idx(0, <container>.size()) for the expected containers"""
    got = [text(d) for d in e.loops]
    ok = len(got) == len(doms) and all(re.match(r"^idx\(0, .*%s(\.size\(\)|\.m_number_of_elements)?\)$" % re.escape(w), g) for g, w in zip(got, doms))
    return ok


def named(ctx):
    for name, conv in (("write_json_by_name", "create_json_object"), ("write_json_by_array", "create_json_array")):
        f = ctx.fn1("NamedSolution::" + name, 1)
        E = ctx.run(f)
        kk = keyed(E)
        expect(ctx, f, E, kk, "version", version, "the version")
        for key, fl in (("name", "m_name"), ("number_of_variables", "m_number_of_variables"), ("number_of_constraints", "m_number_of_constraints"),
                        ("is_found_feasible_solution", "m_is_feasible"), ("objective", "m_objective"), ("total_violation", "m_total_violation")):
            expect(ctx, f, E, kk, key, lambda x, pc, e, fl=fl: fname(x) == fl and x.a[0] is THIS, "this." + fl, 0)
        for key, fl in (("variables", "m_variable_value_proxies"), ("expressions", "m_expression_value_proxies"), ("constraints", "m_constraint_value_proxies"), ("violations", "m_violation_value_proxies")):
            expect(ctx, f, E, kk, key, lambda x, pc, e, fl=fl: x.op == "call" and str(x.a[0]).split("::")[-1] == conv and len(x.a[2]) >= 1 and fname(x.a[2][0]) == fl and x.a[2][0].a[0] is THIS, "%s(%s)" % (conv, fl), 0)
        complete_before_use(ctx, f, E)
        w = calls(E, "write_json_object")
        ctx.ob("json-written", len(w) == 1 and w[0].pc is TRUE and text(w[0].args[1]) == "$0", ctx.at(f), "%s does not write the document to the given file exactly once" % name)


def archive(ctx):
    f = ctx.fn1("SolutionArchive::write_solutions_json", 1)
    E = ctx.run(f)
    kk = keyed(E)
    expect(ctx, f, E, kk, "version", version, "the version")
    for key in ("name", "number_of_variables", "number_of_constraints"):
        expect(ctx, f, E, kk, key, lambda x, pc, e, key=key: fname(x) == "m_" + key and x.a[0] is THIS, "this.m_" + key, 0)
    for key in ("is_feasible", "objective", "total_violation"):
        expect(ctx, f, E, kk, key, lambda x, pc, e, key=key: fname(x) == key and text(x.a[0]) == "this.m_solutions[#0]", "the solution's " + key, 1)
    vs = [(o, k, v, e) for o, k, v, e in emplaced(E) if k is not None and k.op != "s"]
    ctx.need(vs, "variables of an archived solution")
    for o, k, v, e in vs:
        ok = k.op == "get" and v.op == "get" and text(k.a[0]) == "0" and text(v.a[0]) == "1" and k.a[1] is v.a[1] and text(k.a[1]) == "this.m_solutions[#0].variables[#1]" and e.pc is TRUE
        ctx.ob("archive-variable", ok, ctx.at(f, e), "the archive file writes the variable %s as %s" % (k, v))
        ctx.ob("archive-variable", plain_loops(ctx, f, e, ("m_solutions", "variables")), ctx.at(f, e), "the archive file does not cover every variable of every solution (%s)" % (e.loops,))
    complete_before_use(ctx, f, E)
    w = calls(E, "write_json_object")
    ctx.ob("json-written", len(w) == 1 and w[0].pc is TRUE and text(w[0].args[1]) == "$0", ctx.at(f), "the archive document is not written to the given file exactly once")


SENSES = {"Equal": "=", "Less": "<=", "Greater": ">="}


def sense_atom(x):
    """text of an equality atom with an enumerator -> enumerator name"""
    m = re.findall(r"(?:ConstraintSense|VariableSense)::(\w+)", text(x))
    return m


def pc_forces(pc, word):
    """pc implies that the sense is <word>"""
    at = [x for x in subterms(pc) if x.op in ("eq0", "eq") and ("Sense::" + word) in text(x)]
    return any(safe_implies(pc, a) for a in at)


def instance_json(ctx):
    f = ctx.fn1("Model::write_json", 1)
    E = ctx.run(f)
    kk = keyed(E)
    ob = lambda e, name: True
    V = "this.m_variable_proxies[#0].m_variables[#1]"
    C = "this.m_constraint_proxies[#0].m_constraints[#1]"

    def which(kind):
        def p(o, e):
            t = " ".join(text(d) for d in e.loops)
            if kind == "v":
                return "m_variable_proxies" in t
            if kind == "c":
                return "m_constraint_proxies" in t and len(e.loops) == 2
            if kind == "cs":
                return "m_constraint_proxies" in t and len(e.loops) == 3
            if kind == "os":
                return "m_objective" in t and len(e.loops) == 1
            return not e.loops
        return p
    expect(ctx, f, E, kk, "name", lambda x, pc, e: text(x) in ("delete_space(this.m_name)", "this.m_name") or (x.op == "s" and "m_name.size()" in text(pc)), "the model's name", 0, obj=which("m"))
    expect(ctx, f, E, kk, "is_minimization", fld_is("m_is_minimization"), "this.m_is_minimization", 0, obj=which("m"))
    for key, tail in (("name", ".m_extension.name"), ("value", ".m_value"), ("is_fixed", ".m_is_fixed"), ("lower_bound", ".m_lower_bound"), ("upper_bound", ".m_upper_bound")):
        expect(ctx, f, E, kk, key, lambda x, pc, e, tail=tail: text(x) == V + tail, "the variable's" + tail, 2, obj=which("v"))
    expect(ctx, f, E, kk, "sense", lambda x, pc, e: text(x) in ("'Binary'", "'Integer'") and bin_ok(text(x) == "'Binary'", pc, V), "Binary exactly for binary variables", 2, cond=1, obj=which("v"))
    expect(ctx, f, E, kk, "name", lambda x, pc, e: text(x) == C + ".m_extension.name", "the constraint's name", 2, obj=which("c"))
    expect(ctx, f, E, kk, "is_enabled", lambda x, pc, e: text(x) == C + ".m_is_enabled", "the constraint's flag", 2, obj=which("c"))
    expect(ctx, f, E, kk, "rhs", lambda x, pc, e: text(x) == "{-%s.m_expression.m_constant_value}" % C, "minus the expression's constant", 2, obj=which("c"))
    ss = [h for h in kk.get("sense", []) if which("c")(h[0], h[2])]
    seen = set()
    for o, v, e in ss:
        for pc, x in leaves(v, e.pc):
            w = [k for k, s in SENSES.items() if text(x) == "'%s'" % s]
            ok = bool(w) and pc_forces(pc, w[0])
            seen.update(w)
            ctx.ob("instance-sense", ok, ctx.at(f, e), "write_json writes the sense %s when %s" % (text(x), text(pc)[:120]))
    ctx.ob("instance-sense", seen == set(SENSES), ctx.at(f), "write_json does not write the senses %s" % sorted(set(SENSES) - seen))
    for kind, base, n in (("cs", C + ".m_expression.m_sensitivities[#2]", 3), ("os", "this.m_objective.m_expression.m_sensitivities[#0]", 1)):
        expect(ctx, f, E, kk, "variable", lambda x, pc, e: text(x) == "get(0, %s).m_extension.name" % base, "the name of the coefficient's variable", n, obj=which(kind))
        expect(ctx, f, E, kk, "coefficient", lambda x, pc, e: text(x) == "get(1, %s)" % base, "the coefficient", n, obj=which(kind))
    for key in ("variables", "constraints", "objective"):
        ctx.ob("json-key", len(kk.get(key, [])) == 1 and kk[key][0][2].pc is TRUE, ctx.at(f), "write_json does not write the key '%s' exactly once" % key)
        if kk.get(key):
            ctx.ob("json-section", contains(kk[key][0][1], lambda x: x.op == "loc") and section_of(E, kk[key][0][1]) == key, ctx.at(f, kk[key][0][2]), "write_json writes %s under the key '%s'" % (kk[key][0][1], key))
    complete_before_use(ctx, f, E)
    prep = [e for e in E.effects if e.kind == "call" and callee(e) == "setup_unique_names"]
    ctx.ob("unique-names", bool(prep) and prep[0].pc is TRUE and prep[0].seq < min(e.seq for _, _, _, e in emplaced(E)), ctx.at(f), "write_json reads the names before they are made unique")
    w = calls(E, "write_json_object")
    ctx.ob("json-written", len(w) == 1 and w[0].pc is TRUE and text(w[0].args[1]) == "$0", ctx.at(f), "the instance document is not written to the given file exactly once")


def section_of(E, v):
    """which section the loc v (an array or object) collects, from the loops of the effects that fill it"""
    seen, todo = set(), [v]
    txt = ""
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        for o2, k, x, e in emplaced(E):
            if o2 is o:
                txt += " " + " ".join(text(d) for d in e.loops)
                if x.op == "loc":
                    todo.append(x)
    if "m_constraint_proxies" in txt:
        return "constraints"
    if "m_variable_proxies" in txt:
        return "variables"
    if "m_objective" in txt:
        return "objective"
    return None


def bin_ok(is_bin, pc, V):
    at = [x for x in subterms(pc) if x.op in ("eq0", "eq") and re.search(r"VariableSense::\w*Binary", text(x)) and "sense" in text(x)]
    if not at:
        return False
    return any(safe_implies(pc, a) for a in at) if is_bin else any(safe_implies(pc, not_(a)) for a in at)


# ---------------------------------------------------------------- stream writers
def chain_root(t):
    while isinstance(t, T) and t.op == "call" and str(t.a[0]).split("::")[-1] == "operator<<":
        if isinstance(t.a[1], T):
            t = t.a[1]
        elif t.a[2]:
            t = t.a[2][0]
        else:
            break
    return t


def tokens(E):
    """what is inserted into streams, in order: (stream root, value, effect)"""
    for e in E.effects:
        if e.kind == "call" and callee(e) == "operator<<" and e.args:
            base = e.t if isinstance(e.t, T) else e.args[0]
            yield chain_root(base), e.args[-1], e


def words(v):
    """split a value into words: constants at blanks, other terms as they are"""
    if v.op == "s":
        return re.findall(r"\n|[^\s]+", v.a[0]) if isinstance(v.a[0], str) else []
    if v.op == "cat":
        out = []
        for x in v.a:
            out += words(x)
        return out
    if v.op == "call" and str(v.a[0]).split("::")[-1] in ("to_string", "setw", "left", "right") and v.a[2]:
        return [v]
    return [v]


def lines(E, root):
    """lines written: (pc, loops, words, effect)"""
    out, cur = [], None
    for r, v, e in tokens(E):
        if r is not root:
            continue
        key = (e.pc, e.loops)
        if cur is not None and (cur[0], cur[1]) != key:
            out.append(cur)
            cur = None
        if cur is None:
            cur = [e.pc, e.loops, [], e]
        if "endl" in text(v):
            out.append(cur)
            cur = None
            continue
        for w in words(v):
            if w == "\n":
                out.append(cur)
                cur = [e.pc, e.loops, [], e]
            else:
                cur[2].append(w)
    if cur is not None:
        out.append(cur)
    return [l for l in out if l[2]]


def expand(ls):
    """one line per combination of the branches of its words"""
    for pc, loops, ws, e in ls:
        todo = [(pc, [])]
        for w in ws:
            nxt = []
            for p, acc in todo:
                if isinstance(w, str):
                    nxt.append((p, acc + [w]))
                else:
                    for p2, x in leaves(w, p):
                        nxt.append((p2, acc + words(x)))
            todo = nxt[:64]
        for p, acc in todo:
            yield p, loops, acc, e


def stream_root(ctx, E, f):
    rs = [e for e in E.effects if e.kind == "init" and "ofstream" in text(e.v)]
    ctx.need(len(rs) == 1, "output stream of %s" % f["n"])
    ctx.ob("file-name", "$0" in text(rs[0].v), ctx.at(f, rs[0]), "%s writes to %s instead of the given file" % (short(f["n"]), rs[0].v))
    return rs[0].t


def sol_writer(ctx):
    f = ctx.fn1("NamedSolution::write_solution", 1)
    E = ctx.run(f)
    root = stream_root(ctx, E, f)
    ls = list(expand(lines(E, root)))
    obj = [l for l in ls if l[2][0] == "=obj="]
    inf = [l for l in ls if l[2][0] == "=infeas="]
    vals = [l for l in ls if len(l[1]) == 2]
    ctx.need(obj or inf or vals, "lines of write_solution")
    for name, l, want in (("=obj=", obj, True), ("=infeas=", inf, False)):
        ctx.ob("sol-header", len(l) == 1, ctx.at(f), "write_solution writes %d '%s' lines" % (len(l), name))
        for pc, loops, ws, e in l:
            t = text(pc)
            ctx.ob("sol-header", t == ("this.m_is_feasible" if want else "!this.m_is_feasible") and not loops, ctx.at(f, e), "write_solution writes '%s' when %s" % (name, t))
            if want:
                v = ws[1] if len(ws) > 1 else None
                ok = isinstance(v, T) and (text(v) == "this.m_objective" or (v.op == "call" and str(v.a[0]).endswith("to_string") and text(v.a[2][0]) == "this.m_objective"))
                ctx.ob("sol-objective", ok, ctx.at(f, e), "write_solution writes %s as the objective" % (v,))
    ctx.ob("sol-value", len(vals) == 1, ctx.at(f), "write_solution writes %d lines per variable" % len(vals))
    for pc, loops, ws, e in vals:
        b = "get(1, this.m_variable_value_proxies[#0])"
        ok = len(ws) == 2 and text(ws[0]) == b + ".m_names[#1]" and text(ws[1]) == b + ".m_values[#1]" and pc is TRUE
        ctx.ob("sol-value", ok, ctx.at(f, e), "write_solution writes the variable line %s when %s" % ([text(w) for w in ws], text(pc)))
        ctx.ob("sol-value", bool(re.match(r"^idx\(0, this\.m_variable_value_proxies\.size\(\)\)$", text(loops[0]))) and bool(re.match(r"^idx\(0, .*(m_number_of_elements|m_names\.size\(\)|m_values\.size\(\))\)$", text(loops[1]))), ctx.at(f, e), "write_solution does not cover every variable (%s)" % (loops,))


def mps_writer(ctx):
    f = ctx.fn1("Model::write_mps", 1)
    E = ctx.run(f)
    root = stream_root(ctx, E, f)
    ls = list(expand(lines(E, root)))
    sec, order_ = None, []
    by = {}
    for l in ls:
        w = l[2][0]
        if not l[1] and w in ("NAME", "ROWS", "COLUMNS", "RHS", "BOUNDS", "ENDATA"):
            sec = w
            if w not in order_:
                order_.append(w)
            if w == "NAME":
                by.setdefault("NAME", []).append(l)
            continue
        by.setdefault(sec, []).append(l)
    ctx.ob("mps-sections", order_ == ["NAME", "ROWS", "COLUMNS", "RHS", "BOUNDS", "ENDATA"], ctx.at(f), "write_mps writes the sections %s" % order_)
    V = "this.m_variable_proxies[#0].m_variables[#1]"
    C = "this.m_constraint_proxies[#0].m_constraints[#1]"
    cn, vn = ("delete_space(%s.m_extension.name)" % C, C + ".m_extension.name"), ("delete_space(%s.m_extension.name)" % V, V + ".m_extension.name")

    def covers(l, *doms):
        return plain_loops(ctx, f, l[3], doms)
    # ROWS
    seen = set()
    for l in by.get("ROWS", []):
        pc, loops, ws, e = l
        if not loops:
            ctx.ob("mps-rows", ws[:1] == ["N"], ctx.at(f, e), "write_mps writes the row line %s" % ws)
            objname = ws[1] if len(ws) > 1 else None
            continue
        k = {"E": "Equal", "L": "Less", "G": "Greater"}.get(ws[0] if isinstance(ws[0], str) else None)
        ok = k is not None and pc_forces(pc, k) and len(ws) == 2 and text(ws[1]) in cn and covers(l, "m_constraint_proxies", "m_constraints")
        seen.add(k)
        ctx.ob("mps-rows", ok, ctx.at(f, e), "write_mps writes the row line %s when %s" % ([text(w) for w in ws], text(pc)[:140]))
    ctx.ob("mps-rows", {"Equal", "Less", "Greater"} <= seen, ctx.at(f), "write_mps omits the rows of %s constraints" % sorted({"Equal", "Less", "Greater"} - seen))
    # COLUMNS
    nobj = ncon = 0
    for l in by.get("COLUMNS", []):
        pc, loops, ws, e = l
        if not loops:
            ctx.ob("mps-marker", "'MARKER'" in ws and ws[-1] in ("'INTORG'", "'INTEND'"), ctx.at(f, e), "write_mps writes the column line %s" % ws)
            continue
        if len(loops) == 2:
            nobj += 1
            s = V + ".m_extension.objective_sensitivity"
            vt = text(ws[2]) if len(ws) == 3 else ""
            mini = [x for x in subterms(pc) if text(x) == "this.m_is_minimization"]
            pos = bool(mini) and safe_implies(pc, mini[0])
            ng = bool(mini) and safe_implies(pc, not_(mini[0]))
            sg = re.sub(r"\.m_extension\.objective_sensitivity|\.m_objective_sensitivity", "#S", vt)
            pure = {V + "#S": 1, "{-%s#S}" % V: -1}.get(sg, 0)
            either = vt.startswith("{") and "ite(this.m_is_minimization, 1, -1)" in vt and vt.count("*") == 1
            ok = text(ws[0]) in vn and (either or (pure == 1 and pos) or (pure == -1 and ng)) and covers(l, "m_variable_proxies", "m_variables")
            ctx.ob("mps-objective", ok, ctx.at(f, e), "write_mps writes the objective entry %s when %s" % ([text(w) for w in ws], text(pc)[:160]))
        else:
            ncon += 1
            b = [x for x in subterms(ws[2]) if x.op == "at"] if len(ws) == 3 and isinstance(ws[2], T) else []
            ok = len(ws) == 3 and text(ws[0]) in vn and ws[2].op == "get" and text(ws[2].a[0]) == "1" and text(ws[1]) in ("delete_space(get(0, %s).m_extension.name)" % ws[2].a[1], "get(0, %s).m_extension.name" % ws[2].a[1])
            ok = ok and text(ws[2].a[1]) == V + ".m_extension.constraint_sensitivities[#2]" and pc is TRUE and covers(l, "m_variable_proxies", "m_variables", "constraint_sensitivities")
            ctx.ob("mps-columns", ok, ctx.at(f, e), "write_mps writes the column entry %s when %s" % ([text(w) for w in ws], text(pc)[:120]))
    ctx.ob("mps-objective", nobj >= 1, ctx.at(f), "write_mps writes no objective coefficients")
    ctx.ob("mps-columns", ncon >= 1, ctx.at(f), "write_mps writes no constraint coefficients")
    # RHS
    n = 0
    for l in by.get("RHS", []):
        pc, loops, ws, e = l
        if len(loops) != 2:
            continue
        n += 1
        ok = len(ws) == 3 and text(ws[1]) in cn and text(ws[2]) == "{-%s.m_expression.m_constant_value}" % C and covers(l, "m_constraint_proxies", "m_constraints")
        free = pc is TRUE or safe_implies(not_(eq(ws[2], ZERO)), pc) if len(ws) == 3 and isinstance(ws[2], T) else False
        ctx.ob("mps-rhs", ok and free, ctx.at(f, e), "write_mps writes the right-hand side %s when %s" % ([text(w) for w in ws], text(pc)[:120]))
    ctx.ob("mps-rhs", n >= 1, ctx.at(f), "write_mps writes no right-hand sides")
    bounds(ctx, f, by.get("BOUNDS", []), V, vn, covers)
    prep = {}
    for e in E.effects:
        if e.kind == "call" and callee(e) in ("setup_unique_names", "setup_variable_constraint_sensitivities", "setup_variable_objective_sensitivities"):
            prep.setdefault(callee(e), e)
    first = min(e.seq for r, v, e in tokens(E))
    for k in ("setup_unique_names", "setup_variable_constraint_sensitivities", "setup_variable_objective_sensitivities"):
        ctx.ob("mps-prepared", k in prep and prep[k].pc is TRUE and prep[k].seq < first, ctx.at(f), "write_mps does not call %s before writing" % k)
    # digits
    prec = [(v, e) for r, v, e in tokens(E) if r is root and "setprecision" in text(v)] + [(e.args[0], e) for e in E.effects if e.kind == "call" and callee(e) == "precision" and e.t is root and e.args]
    nums = [e.seq for r, v, e in tokens(E) if r is root and e.loops and (("sensitivit" in text(v) and "name" not in text(v)) or "m_constant_value" in text(v))]
    ok = False
    for v, e in prec:
        d = [val(x) for x in subterms(v) if val(x) is not None]
        ok = ok or (e.pc is TRUE and (not nums or e.seq < min(nums)) and (any(x >= 15 for x in d) or "digits10" in text(v)))
    ctx.ob("mps-digits", ok, ctx.at(f), "write_mps writes coefficients with the stream's default of six significant digits")


LO, HI = mk("sym", "@lower"), mk("sym", "@upper")
HMIN, HMAX = -1073741823, 1073741823


def bounds(ctx, f, ls, V, vn, covers):
    """interprets the BOUNDS lines for each kind of bound pair (unbounded, zero, positive, negative; fixed or not)"""
    ls = [l for l in ls if l[1]]
    ctx.need(ls, "bounds written by write_mps")
    for l in ls:
        ctx.ob("mps-bounds", len(l[2]) >= 3 and text(l[2][2]) in vn and covers(l, "m_variable_proxies", "m_variables"), ctx.at(f, l[3]), "write_mps writes the bound line %s" % [text(w) for w in l[2]])
    terms = {x for l in ls for x in subterms(l[0])} | {x for l in ls for w in l[2] if isinstance(w, T) for x in subterms(w)}
    lo = [x for x in terms if text(x) == V + ".m_lower_bound"]
    hi = [x for x in terms if text(x) == V + ".m_upper_bound"]
    fx = [x for x in terms if text(x) == V + ".m_is_fixed"]
    va = [x for x in terms if text(x) == V + ".m_value"]
    hmin, hmax = int_half(ctx)
    for fixed in (True, False):
        for a in (hmin, -5, 0, 1, 3):
            for b in (hmax, 9, 3, 1):
                if a > b:
                    continue
                m = {}
                for x in lo:
                    m[x] = num(a)
                for x in hi:
                    m[x] = num(b)
                for x in fx:
                    m[x] = TRUE if fixed else FALSE
                for x in va:
                    m[x] = num(b if b != hmax else (a if a != hmin else 7))
                L, U, defined, unk = 0, None, False, False
                for pc, loops, ws, e in ls:
                    c = subst(pc, m)
                    if c is FALSE or is_false(c):
                        continue
                    if not (c is TRUE or is_true(c)):
                        if not safe_sat(c):
                            continue
                        if not safe_implies(TRUE, c):
                            unk = True
                            continue
                    w = [subst(x, m) if isinstance(x, T) else x for x in ws]
                    v = val(w[3]) if len(w) > 3 and isinstance(w[3], T) else None
                    k = w[0]
                    defined = True
                    if k == "FX":
                        L = U = v
                    elif k == "LO":
                        L = v
                    elif k == "UP":
                        U = v
                    elif k == "FR":
                        L, U = hmin, hmax
                    elif k == "MI":
                        L = hmin
                    elif k == "PL":
                        U = hmax
                    elif k == "BV":
                        L, U = 0, 1
                    else:
                        unk = True
                if unk:
                    raise Broken("a bound line of write_mps is not understood")
                if U is None:
                    U = hmax if defined else 1
                want = (val(m[va[0]]),) * 2 if fixed and va else (a, b)
                ctx.ob("mps-bounds", (L, U) == want, ctx.at(f, ls[0][3]), "write_mps writes a%s variable with bounds [%s, %s] so that it reads back as [%s, %s]" % (" fixed" if fixed else "", name(a, hmin, hmax), name(b, hmin, hmax), name(L, hmin, hmax), name(U, hmin, hmax)))


def name(v, hmin, hmax):
    return "-inf" if v == hmin else "inf" if v == hmax else str(v)


def int_half(ctx):
    a, b = const_value(ctx.P, "INT_HALF_MIN"), const_value(ctx.P, "INT_HALF_MAX")
    a, b = val(a), val(b)
    return (a if a is not None else HMIN), (b if b is not None else HMAX)


# ---------------------------------------------------------------- conversions
def conversions(ctx):
    f = ctx.fn1("DenseSolution::to_sparse", 0)
    E = ctx.run(f)
    r = E.ret
    ctx.need(r is not None and r.op == "loc", "result of to_sparse")
    for n in ("objective", "total_violation", "global_augmented_objective", "is_feasible"):
        ws = [e for e in writes(E, n) if e.t.a[0] is r]
        ctx.ob("to-sparse", len(ws) >= 1 and text(ws[-1].v) == "this." + n and ws[-1].pc is TRUE, ctx.at(f, ws[-1] if ws else None), "to_sparse does not carry over %s" % n)
    vs = [e for e in writes(E) if e.t.op == "at" and fname(e.t.a[0]) == "variables"]
    ctx.need(vs, "variables of to_sparse")
    for e in vs:
        p = "this.variable_value_proxies[#0]"
        ok = text(e.t.a[1]) == p + ".m_names[#1]" and text(e.v) == p + ".m_values[#1]" and safe_implies(not_(eq(e.v, ZERO)), e.pc)
        ctx.ob("to-sparse", ok, ctx.at(f, e), "to_sparse stores %s under %s when %s" % (e.v, e.t.a[1], text(e.pc)[:100]))
        ctx.ob("to-sparse", bool(re.match(r"^idx\(0, this\.variable_value_proxies\.size\(\)\)$", text(e.loops[0]))) and bool(re.match(r"^idx\(0, .*(m_number_of_elements|m_names\.size\(\)|m_values\.size\(\))\)$", text(e.loops[-1]))), ctx.at(f, e), "to_sparse does not cover every variable")


def imports(ctx):
    fs = [g for g in ctx.P.find("Model::import_solution") if len(g["p"]) == 1]
    ctx.need(len(fs) >= 3, "import_solution overloads")
    for f in fs:
        E = ctx.run(f, inline=("set_value_if_mutable", "Variable::operator="))
        t = f["p"][0]["t"]
        ws = [e for e in writes(E, "m_value") if len(e.loops) == 2]
        if not ws:
            raise Broken("import_solution of %s" % t)
        me = "this.m_variable_proxies[#0].m_variables[#1]"
        mp = "$0.variables" if "Sparse" in t else "$0"
        full = or_(*[e.pc for e in ws])
        fx = [x for x in subterms(full) if text(x) == me + ".m_is_fixed"]
        ctx.ob("import-all", safe_implies(not_(fx[0]) if fx else TRUE, full), ctx.at(f, ws[0]), "import_solution of %s sets a variable only if %s" % (t.split("::")[-1], text(full)[:140]))
        for e in ws:
            ok = text(e.t.a[0]) == me and plain_loops(ctx, f, e, ("m_variable_proxies", "m_variables"))
            ctx.ob("import-target", ok, ctx.at(f, e), "import_solution sets %s" % e.t)
            for pc, v in leaves(e.v, e.pc):
                if "Dense" in t:
                    want = "$0.variable_value_proxies[%s.m_extension.proxy_index].m_values[%s.m_extension.flat_index]" % (me, me)
                    alt = "$0.variable_value_proxies[#0].m_values[#1]"
                    ctx.ob("import-value", text(v) in (want, alt), ctx.at(f, e), "import_solution gives the variable the value %s" % v)
                else:
                    present = [x for x in subterms(pc) if x.op in ("eq0", "eq") and ".find(%s.m_extension.name)" % me in text(x)]
                    key = "%s[%s.m_extension.name]" % (mp, me)
                    if text(v) == key or (v.op == "get" and ".find(%s.m_extension.name)" % me in text(v)):
                        ctx.ob("import-value", not present or any(safe_implies(pc, not_(x)) for x in present), ctx.at(f, e), "import_solution looks up %s where it is missing" % v)
                    elif val(v) == 0:
                        ctx.ob("import-value", bool(present) and any(safe_implies(pc, x) for x in present), ctx.at(f, e), "import_solution sets a variable that the solution contains to 0")
                    else:
                        ctx.ob("import-value", False, ctx.at(f, e), "import_solution gives the variable the value %s" % v)
    for nm, call in (("fix_variables", "fix_by"), ("unfix_variables", "unfix")):
        for f in [g for g in ctx.P.find("Model::" + nm) if len(g["p"]) == 1]:
            E = ctx.run(f, opaque=("Variable::" + call,))
            cs = calls(E, call)
            if not cs:
                raise Broken(nm)
            me = "this.m_variable_proxies[#0].m_variables[#1]"
            for e in cs:
                ok = text(e.t) == me and plain_loops(ctx, f, e, ("m_variable_proxies", "m_variables"))
                present = [x for x in subterms(e.pc) if x.op in ("eq0", "eq") and "find(" in text(x) and me + ".m_extension.name" in text(x)]
                ok = ok and bool(present) and any(safe_implies(e.pc, not_(x)) for x in present) and any(safe_implies(not_(x), e.pc) for x in present)
                if call == "fix_by":
                    ok = ok and text(e.args[0]) == "$0[%s.m_extension.name]" % me
                ctx.ob("fix-named", ok, ctx.at(f, e), "%s calls %s(%s) on %s when %s" % (nm, call, [text(a) for a in e.args], e.t, text(e.pc)[:140]))


# ---------------------------------------------------------------- JSON text
def json_text(ctx):
    k = 0
    for f in ctx.P.find("json::operator<<"):
        E = ctx.run(f)
        for r, v, e in tokens(E):
            if v.op == "call" and str(v.a[0]).startswith("any_cast<") or "any_cast<" in text(v):
                for m in set(re.findall(r"any_cast<([^<>]+)>", text(v))):
                    at = [x for x in subterms(e.pc) if x.op in ("eq0", "eq") and re.search(r"typeid:%s\b(?! )" % re.escape(m), text(x))]
                    ok = any(safe_implies(e.pc, x) for x in at)
                    k += 1
                    ctx.ob("json-type", ok, ctx.at(f, e), "the JSON writer reads a value as %s without having tested for it" % m)
            if v.op == "ite" or (v.op == "s" and v.a[0] in ("true", "false")):
                for pc, x in leaves(v, e.pc):
                    if x.op == "s" and x.a[0] in ("true", "false"):
                        b = [y for y in subterms(pc) if text(y).startswith("any_cast<bool>")]
                        ok = bool(b) and safe_implies(pc, b[0] if x.a[0] == "true" else not_(b[0]))
                        ctx.ob("json-bool", ok, ctx.at(f, e), "the JSON writer prints '%s' when %s" % (x.a[0], text(pc)[-80:]))
        keys = [(r, v, e) for r, v, e in tokens(E) if v.op == "get" and text(v.a[0]) == "0"]
        if "JsonObject" in f["p"][1]["t"]:
            ctx.ob("json-key-text", bool(keys), ctx.at(f), "the JSON writer does not print the keys")
    ctx.need(k >= 10, "typed values in the JSON writer")
    for nm in ("write_json_object", "write_json_array"):
        f = ctx.fn1("json::" + nm, 2)
        E = ctx.run(f)
        rs = [e for e in E.effects if e.kind == "init" and "ofstream" in text(e.v)]
        tk = list(tokens(E))
        ctx.need(len(rs) == 1, nm)
        ctx.ob("file-name", "$1" in text(rs[0].v) and any(text(v) == "$0" and e.pc is TRUE for r, v, e in tk), ctx.at(f), "%s does not write the document to the given file" % nm)
    fs = ctx.P.find("multi_array::create_json_object")
    ctx.need(fs, "create_json_object")
    for f in fs:
        E = ctx.run(f)
        for o, key, v, e in emplaced(E):
            b = "get(1, $0[#0])"
            ok = key is not None and text(key) == b + ".m_names[#1]" and text(v) == b + ".m_values[#1]" and e.pc is TRUE and len(e.loops) == 2
            ctx.ob("json-elements", ok, ctx.at(f, e), "create_json_object writes %s under the name %s" % (v, key))
            ctx.ob("json-elements", bool(re.match(r"^idx\(0, \$0\.size\(\)\)$", text(e.loops[0]))) and bool(re.match(r"^idx\(0, .*(m_number_of_elements|m_names\.size\(\)|m_values\.size\(\))\)$", text(e.loops[-1]))), ctx.at(f, e), "create_json_object does not cover every element")


def run(ctx):
    ctx.rule("each key of an exported document receives, on every path and exactly where it belongs, the quantity it names")
    ctx.rule("the MPS writer emits, for every constraint and variable, the row, coefficients, right-hand side and bounds that read back to it")
    ctx.rule("conversions and imports copy each value under its own name")
    for g in (named, archive, instance_json, sol_writer, mps_writer, conversions, imports, json_text):
        ctx.section(g)
