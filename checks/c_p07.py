"""P07: MPS input is translated faithfully or rejected.

The parser is evaluated symbolically for one record of a file: the section state is whatever the section headers set it to.
For each record kind of the format (row code, column entry, marker, right-hand side, range sign x row sense, bound code) the
stores it makes are compared with the ones the format defines; the model construction from the parsed file likewise."""
from common import *

MP = "printemps::mps::"
CS, VS = MP + "MPSConstraintSense::", MP + "MPSVariableSense::"
HEADERS = ("ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS")


class Parser:
    def __init__(s, ctx):
        s.ctx = ctx
        s.f = f = ctx.fn1("mps::MPS::read_mps", 1)
        s.E = E = ctx.run(f)
        # reading stops at ENDATA
        end = lambda x: x.op == "eq" and any(isinstance(y, T) and y.op == "s" and y.a[0] == "ENDATA" for y in x.a)
        not_early(E, lambda e: any(safe_implies(e.pc, x) for x in subterms(e.pc) if end(x)))
        heads = [x for e in E.effects for x in subterms(e.pc) if x.op == "eq" and any(isinstance(y, T) and y.op == "s" and y.a[0] == "ROWS" for y in x.a)]
        if not heads:
            raise Broken("section headers not found")
        first = [y for y in heads[0].a if y.op != "s"][0]
        if first.op != "at":
            raise Broken("first word of a record: %s" % str(first)[:60])
        s.items = first.a[0]
        # the section: the loop variable that the headers set
        cand = [p for p in E.phidefs if p.a[0] == 0 and isinstance(E.phidefs[p][1], T) and E.phidefs[p][1].op == "ite" and any(y.op == "enum" and "ReadMode" in str(y) for y in subterms(E.phidefs[p][1]))]
        if len(cand) > 1:
            cand = [p for p in cand if "MPSReadMode" in str(E.phidefs[p][0])]
        if len(cand) != 1:
            raise Broken("section state: %s" % [(str(p)[:40], str(E.phidefs[p][0])[:40], str(E.phidefs[p][1])[:60]) for p in E.phidefs if p.a[0] == 0])
        s.mode = cand[0]
        s.modes = {}
        for h in HEADERS:
            v = under(E.phidefs[s.mode][1], and_(s.word(0, h), s.words(1), s.opened()))
            if v.op != "enum":
                raise Broken("section %s: %s" % (h, str(v)[:60]))
            s.modes[h] = v
        s.ctx.ob("sections", len(set(map(str, s.modes.values()))) == len(HEADERS), ctx.at(f), "each section has a state of its own: %s" % {k: str(v).split("::")[-1] for k, v in s.modes.items()})

    def opened(s):
        st = [x for e in s.E.effects for x in subterms(e.pc) if x.op == "call" and x.a[1] is not None and "ifs" in str(x.a[1]) and x.a[0].split("::")[-1] in ("fail", "is_open")]
        return TRUE if not st else not_(st[0]) if st[0].a[0].endswith("fail") else st[0]

    def at(s, i):
        return mk("at", s.items, num(i) if isinstance(i, int) else i)

    def word(s, i, w):
        return eq(s.at(i), mk("s", w))

    def words(s, n):
        return eq(size_of(s.items), num(n))

    def scenario(s, section, *conds, size=None):
        """assumption describing one well-formed record of a section"""
        A = and_(s.opened(), eq(s.mode, s.modes[section]), not_(eq(size_of(s.items), ZERO)), *conds)
        if size is not None:
            A = and_(A, s.words(size))
        for h in HEADERS + ("NAME", "ENDATA"):
            if h != "NAME":
                A = and_(A, or_(not_(s.word(0, h)), not_(s.words(1))))
            else:
                A = and_(A, not_(s.word(0, h)))
        return A

    def rejects(s, A):
        return [e for e in s.E.effects if e.kind == "throw" and e.loops and safe_sat(and_(A, e.pc))]

    def executed(s, A, kinds=("write",)):
        """effects of the record loop possible under A, with the part of their condition A does not settle"""
        out = []
        for e in s.E.effects:
            if e.kind not in kinds or not e.loops or "lines" not in str(e.loops[0]):
                continue
            if not safe_sat(and_(A, e.pc)):
                continue
            rest = [c for c in (e.pc.a[0] if e.pc.op == "and" else [e.pc]) if not safe_implies(A, c) and not (c.op == "not" and c.a[0].op == "exists")]
            out.append((e, and_(*rest)))
        return out


def show(t):
    return str(t).replace("printemps::mps::", "")


def stores(p, A):
    """{(object, field): (value, rest, effect)}, last store wins"""
    R = {}
    for e, rest in p.executed(A):
        R[str(e.t)] = (e.v, rest, e)
    return R


def roots(t):
    return {x for x in subterms(t) if x.op in ("loc", "sym", "phi", "fld", "mut", "loopval", "lastval")}


def expect(ctx, p, what, A, table, prefix, complete=True):
    """the record's stores below `prefix` are exactly the table"""
    R = stores(p, A)
    for k, want in table.items():
        got = R.get(prefix + k)
        ok = got is not None and (want(got[0]) if callable(want) else str(got[0]) == want)
        if got is not None and got[1] is not TRUE:
            if safe_sat(and_(A, not_(got[1]))) and ok:
                if set(map(str, roots(got[1]))) <= {str(p.items)}:
                    ctx.ob("record", False, ctx.at(p.f, got[2]), "%s: %s is stored only when %s" % (what, k, show(got[1])[:100]))
                    continue
                raise Broken("%s: %s stored under %s" % (what, k, show(got[1])[:100]))
        ctx.ob("record", ok, ctx.at(p.f, got[2]) if got else ctx.at(p.f), "%s: %s = %s; found %s" % (what, k.strip("."), want if isinstance(want, str) else want.__doc__ or "its value", show(got[0])[:80] if got else "nothing"))
    if complete:
        for k, (v, rest, e) in R.items():
            if (k.startswith("this.variables[") or k.startswith("this.constraints[") or k.startswith("this.objective")) and not any(prefix + x == k for x in table):
                ctx.ob("record", False, ctx.at(p.f, e), "%s also changes %s" % (what, k))


def pushes(p, A, listname):
    return [(e, r) for e, r in p.executed(A, ("call",)) if callee(e) in ("push_back", "emplace_back") and str(e.t) == "this." + listname]


def rows(ctx, p):
    ctx.rule("rows: N names the objective, L/E/G define a constraint of that sense, other codes are rejected")
    I = str(p.items)
    A = p.scenario("ROWS", p.word(0, "N"))
    ctx.ob("record", not p.rejects(A), ctx.at(p.f), "a row with code N is accepted")
    expect(ctx, p, "row with code N", A, {".name": "%s[1]" % I}, "this.objective")
    for code, sense in (("L", "Less"), ("E", "Equal"), ("G", "Greater")):
        A = p.scenario("ROWS", p.word(0, code))
        ctx.ob("record", not p.rejects(A), ctx.at(p.f), "a row with code %s is accepted" % code)
        expect(ctx, p, "row with code " + code, A, {".sense": CS + sense, ".name": "%s[1]" % I}, "this.constraints[%s[1]]" % I)
        ps = pushes(p, A, "constraint_names")
        ctx.ob("record", len(ps) == 1 and str(ps[0][0].args[0]) == "%s[1]" % I and ps[0][1] is TRUE, ctx.at(p.f, ps[0][0]) if ps else ctx.at(p.f), "row with code %s is listed once among the constraints" % code)
    A = p.scenario("ROWS", *[not_(p.word(0, c)) for c in "NLEG"])
    ctx.ob("record", any(safe_implies(A, e.pc) for e in p.rejects(A)), ctx.at(p.f), "an unknown row code is rejected")


def atof(p, i):
    return "atof(%s[%s].c_str())" % (p.items, i)


def columns(ctx, p):
    ctx.rule("columns: each entry is the coefficient of the column in the named row or objective; integer markers switch integrality")
    I = str(p.items)
    E = p.E
    sense = [q for q in E.phidefs if q.a[0] == 0 and any(y.op == "enum" and "MPSVariableSense" in str(y) for y in subterms(E.phidefs[q][1]) if isinstance(E.phidefs[q][1], T))]
    if len(sense) != 1:
        raise Broken("integrality state")
    sense = sense[0]
    init, new, _ = E.phidefs[sense]
    ctx.ob("record", str(init) == VS + "Continuous", ctx.at(p.f), "columns before any marker are continuous")
    big = not_(lt(size_of(p.items), num(3)))
    for w, v in (("'INTORG'", "Integer"), ("'INTEND'", "Continuous")):
        A = p.scenario("COLUMNS", p.word(2, w), big)
        got = under(new, A)
        ctx.ob("record", str(got) == VS + v, ctx.at(p.f), "marker %s makes the following columns %s; found %s" % (w, v, show(got)[:60]))
        R = {k: x for k, x in stores(p, A).items() if k.startswith(("this.variables", "this.constraints", "this.objective"))}
        ctx.ob("record", not R and not p.rejects(A), ctx.at(p.f), "marker %s is not a column; stores %s" % (w, list(R)[:2]))
    A = p.scenario("COLUMNS", not_(p.word(2, "'INTORG'")), not_(p.word(2, "'INTEND'")), big)
    got = under(new, A)
    ctx.ob("record", got is sense or got == sense, ctx.at(p.f), "an entry does not change integrality; found %s" % show(got)[:60])
    for s in ("ROWS", "RHS", "BOUNDS", "RANGES"):
        got = under(new, p.scenario(s))
        ctx.ob("record", got is sense or got == sense, ctx.at(p.f), "integrality does not change in section %s" % s)
    # entries
    ws = [(e, r) for e, r in p.executed(A) if "sensitivities" in str(e.t)]
    inner = sorted({str(e.loops[1]) for e, r in ws if len(e.loops) > 1})
    if len(inner) != 1 or not all(len(e.loops) == 2 for e, r in ws):
        raise Broken("entries of a column record")
    ctx.ob("record", inner[0] in ("idx(0, idiv({-1 + %s.size()}, 2))" % I,), ctx.at(p.f, ws[0][0]), "every (row, coefficient) pair of the record is read; loop %s" % inner[0])
    nm, val = "%s[{1 + 2*#1}]" % I, atof(p, "{2 + 2*#1}")
    on = [x for e, r in ws for x in subterms(r) if str(x) == "this.objective.name"]
    if not on:
        raise Broken("objective row test")
    io = eq(on[0], p.at(add(ONE, mul(num(2), mk("iv", 1)))))
    tests = {x for e, r in ws for x in subterms(r) if x.op in ("eq", "eq0") and "this.objective.name" in str(x)}
    ctx.ob("record", tests == {io}, ctx.at(p.f, ws[0][0]), "the entry's own row name decides; found %s" % [str(x) for x in tests])
    small = [x for e, r in ws for x in subterms(r) if x.op == "lt0" and "abs(" in str(x)]
    for pol, tgt in ((io, "this.objective.sensitivities[%s[0]]" % I), (not_(io), "this.constraints[%s].sensitivities[%s[0]]" % (nm, I))):
        hits = [(e, r) for e, r in ws if str(e.t) == tgt]
        ctx.ob("record", len(hits) == 1 and str(hits[0][0].v) == val, ctx.at(p.f, hits[0][0]) if hits else ctx.at(p.f), "the coefficient %s is stored in %s; found %s" % (val, tgt, str(hits[0][0].v)[:60] if hits else [str(e.t)[:60] for e, r in ws]))
        for e, r in hits:
            ctx.ob("record", safe_implies(r, pol), ctx.at(p.f, e), "%s is stored only for %s rows" % (tgt[:40], "objective" if pol is io else "constraint"))
    cover = or_(*[r for e, r in ws])
    rej = [e for e in E.effects if e.kind == "throw" and len(e.loops) == 2 and safe_sat(and_(A, e.pc))]
    rejc = or_(*[and_(*[c for c in (e.pc.a[0] if e.pc.op == "and" else [e.pc]) if not safe_implies(A, c)]) for e in rej])
    tiny = TRUE
    if small:
        # entries below 1e-10 in absolute value count as zero
        ds = [x for x in set(map(str, small))]
        eps = num_in(small[0])
        ctx.ob("record", len(ds) == 1 and eps is not None and 0 < eps <= 1e-9, ctx.at(p.f), "only negligible coefficients are dropped; found %s" % ds[0][:80])
        lits = {c for e, r in ws for c in (r.a[0] if r.op == "and" else [r]) if "abs(" in str(c)}
        tiny = and_(*lits)
        ctx.ob("record", len(lits) == 1 and val in str(tiny), ctx.at(p.f), "the entry's own coefficient is tested")
        # the kept side is the large one
        lit = list(lits)[0]
        ctx.ob("record", keeps_large(lit), ctx.at(p.f), "large coefficients are kept, not dropped: %s" % str(lit)[:80])
    ctx.ob("record", safe_equiv(or_(cover, rejc), tiny), ctx.at(p.f), "every entry is stored or rejected; found %s" % str(or_(cover, rejc))[:160])
    ctx.ob("record", bool(rej), ctx.at(p.f), "an entry naming an unknown row is rejected")
    for e in rej:
        ctx.ob("record", not safe_sat(and_(e.pc, io)), ctx.at(p.f, e), "objective entries are not rejected")
    # new columns
    cr = [(e, r) for e, r in p.executed(A) if str(e.t) == "this.variables[%s[0]].sense" % I]
    if not cr:
        raise Broken("creation of a column")
    e, r = cr[0]
    ctx.ob("record", e.v == sense, ctx.at(p.f, e), "a new column is integer exactly between the integer markers; found %s" % show(e.v)[:60])
    ps = [x for x in pushes(p, A, "variable_names")]
    ctx.ob("record", len(ps) == 1 and str(ps[0][0].args[0]) == "%s[0]" % I and safe_equiv(ps[0][1], r), ctx.at(p.f, e), "a new column is listed once")
    ctx.ob("record", "this.variables.find" in str(r) or "this.variables.count" in str(r), ctx.at(p.f, e), "a column is created at its first record only; condition %s" % str(r)[:80])
    fnd = str(r)
    ctx.ob("record", "(%s[0])" % I in fnd, ctx.at(p.f, e), "the column's own name is looked up; found %s" % fnd[:80])
    nw = [x for x in p.executed(A) if str(x[0].t) == "this.variables[%s[0]].name" % I]
    ctx.ob("record", bool(nw) and str(nw[0][0].v) == "%s[0]" % I, ctx.at(p.f, e), "a new column has its name")


def num_in(t):
    """the constant compared with an absolute value"""
    p = poly_of(t.a[0])
    cs = [float(c) for m, c in p.items() if m == ()]
    return abs(cs[0]) if cs else 0.0


def keeps_large(lit):
    """does |x| -> infinity satisfy the literal?"""
    neg = lit.op == "not"
    c = lit.a[0] if neg else lit
    p = poly_of(c.a[0])
    co = [float(v) for m, v in p.items() if m and "abs(" in str(m[0])]
    if len(co) != 1:
        raise Broken("coefficient threshold")
    return (co[0] < 0) != neg


def rhs(ctx, p):
    ctx.rule("right-hand sides are stored in the named constraint")
    I = str(p.items)
    A = p.scenario("RHS", not_(lt(size_of(p.items), num(3))))
    ws = [(e, r) for e, r in p.executed(A) if str(e.t).startswith(("this.constraints", "this.variables", "this.objective"))]
    good = [(e, r) for e, r in ws if str(e.t) == "this.constraints[%s[{1 + 2*#1}]].rhs" % I]
    if not good and ws and not all(str(e.loops[-1]) == "idx(0, idiv({-1 + %s.size()}, 2))" % I for e, r in ws):
        raise Broken("RHS record")
    ctx.ob("record", len(good) == 1 and str(good[0][0].v) == atof(p, "{2 + 2*#1}"), ctx.at(p.f, good[0][0]) if good else ctx.at(p.f), "an RHS entry is stored in its row; found %s" % (str(good[0][0].v)[:60] if good else "nothing"))
    for e, r in good:
        ctx.ob("record", str(e.loops[-1]) == "idx(0, idiv({-1 + %s.size()}, 2))" % I and len(e.loops) == 2, ctx.at(p.f, e), "every pair of an RHS record is read; loop %s" % e.loops[-1])
        if r is not TRUE and not ("find" in str(r) or "objective" in str(r)):
            ctx.ob("record", False, ctx.at(p.f, e), "an RHS entry is stored only when %s" % str(r)[:80])
    for e, r in ws:
        if (e, r) not in good and not str(e.t).startswith("this.objective"):
            ctx.ob("record", False, ctx.at(p.f, e), "an RHS record changes %s" % str(e.t))


def ranges(ctx, p):
    ctx.rule("ranges: L rows get rhs-|R| <= row, G rows row <= rhs+|R|, E rows become [rhs, rhs+|R|] or [rhs-|R|, rhs] by the sign of R")
    I = str(p.items)
    nm, val = "%s[{1 + 2*#1}]" % I, atof(p, "{2 + 2*#1}")
    row = [e for e in p.E.effects if e.kind == "write" and str(e.t).endswith("].rhs") and "_range" in str(e.t)]
    if not row:
        raise Broken("RANGES record")
    senses = [x for e in row for x in subterms(e.pc) if x.op == "eq" and any(str(y).startswith(CS) for y in x.a)]
    if not senses:
        raise Broken("RANGES sense")
    st = [y for y in senses[0].a if not str(y).startswith(CS)][0]
    ctx.ob("record", str(st) == "this.constraints[%s].sense" % nm, ctx.at(p.f, row[0]), "the range applies to the named row; found %s" % str(st)[:60])
    old = "this.constraints[%s]" % nm
    new = "this.constraints[cat(%s, '_range')]" % nm
    vt = [x for e in p.E.effects if e.kind == "write" for x in subterms(e.v) if isinstance(e.v, T) and str(x) == val]
    if not vt:
        raise Broken("RANGES value")
    v = vt[0]
    up, dn = "{abs(%s) + %s.rhs}" % (val, old), "{-abs(%s) + %s.rhs}" % (val, old)
    other = {str(mk("enum", *st_.a)) if False else None for st_ in ()}
    for sense, sg, sold, snew, r in (("Less", None, None, "Greater", dn), ("Greater", None, None, "Less", up), ("Equal", lt(ZERO, v), "Greater", "Less", up), ("Equal", lt(v, ZERO), "Less", "Greater", dn)):
        en = [y for x in senses for y in x.a if str(y) == CS + sense]
        if not en:
            raise Broken("RANGES: sense %s" % sense)
        A = p.scenario("RANGES", not_(lt(size_of(p.items), num(3))), eq(st, en[0]))
        if sg is not None:
            A = and_(A, sg)
        what = "range on a row with sense %s%s" % (sense, "" if sg is None else " and %s R" % ("positive" if snew == "Less" else "negative"))
        ctx.ob("record", not p.rejects(A), ctx.at(p.f), what + " is accepted")
        t = {".sense": CS + snew, ".rhs": (lambda x, r=r: sameabs(x, r, v, snew)), ".sensitivities": old + ".sensitivities", ".name": "cat(%s, '_range')" % nm}
        expect(ctx, p, what, A, t, new, complete=False)
        R = stores(p, A)
        s_old = R.get(old + ".sense")
        fin = str(s_old[0]) if s_old else CS + sense
        ctx.ob("record", fin == CS + (sold or sense), ctx.at(p.f, s_old[2]) if s_old else ctx.at(p.f, row[0]), "%s: the row itself becomes %s; found %s" % (what, sold or sense, show(fin)))
        for k in (".rhs", ".sensitivities"):
            ctx.ob("record", old + k not in R, ctx.at(p.f), "%s leaves the row's %s" % (what, k))
        ps = pushes(p, A, "constraint_names")
        ctx.ob("record", len(ps) == 1 and str(ps[0][0].args[0]) == "cat(%s, '_range')" % nm, ctx.at(p.f), what + " is listed among the constraints")


def sameabs(x, r, v, snew):
    """the value of the range row, whatever the sign of R"""
    if str(x) == r:
        return True
    row = [y for y in subterms(x) if y.op == "fld" and y.a[1].endswith("rhs")]
    if not row:
        return False
    want = add(row[0], mk("abs", v) if snew == "Less" else neg(mk("abs", v)))
    for sg in (1, -1):
        def side(t):
            t = under(t, lt(ZERO, v) if sg > 0 else lt(v, ZERO))
            for y in list(subterms(t)):
                if y.op == "abs" and y.a[0] == v:
                    t = subst(t, {y: v if sg > 0 else neg(v)})
            return t
        a, b = side(x), side(want)
        if a != b:
            if any(y.op in ("ite", "max", "min") for y in subterms(a)):
                raise Broken("range value %s" % str(x)[:60])
            return False
    return True


def lohi(p, kind):
    """value of the fourth word as an integer bound"""
    c = atof(p, "3")
    lim = ("1073741823", "-1073741823")

    def ok(x):
        s = str(x)
        if c not in s:
            return False
        core = x
        while core.op == "trunc":
            core = core.a[0]
        rnd = core.a[0].split("::")[-1] if core.op == "call" else core.op
        inner = core
        if rnd in ("ceil", "floor", "round", "rint"):
            want = {"lower": "ceil", "upper": "floor", "fixed": rnd}[kind]
            if rnd != want:
                return False
            inner = core.a[2][0] if core.op == "call" else core.a[0]
        elif kind != "fixed" and rnd not in ("max", "min", "clamp"):
            return False
        elif kind != "fixed":
            return False
        si = str(inner)
        if not all(l in si for l in lim):
            return False
        return True
    ok.__doc__ = "the value, rounded inward and limited to the supported range"
    return ok


def bounds(ctx, p):
    ctx.rule("each bound code sets exactly the bounds it defines; unknown columns are rejected")
    I = str(p.items)
    V = "this.variables[%s[2]]" % I
    lo, hi = "-1073741823", "1073741823"
    inf = "__builtin_huge_val()"
    ninf = "{-__builtin_huge_val()}"
    c = atof(p, "3")
    tab = {
        ("FR", 3): {".integer_lower_bound": lo, ".integer_upper_bound": hi, ".continuous_lower_bound": ninf, ".continuous_upper_bound": inf},
        ("BV", 3): {".sense": VS + "Integer", ".integer_lower_bound": "0", ".integer_upper_bound": "1", ".continuous_lower_bound": "0", ".continuous_upper_bound": "1"},
        ("MI", 3): {".integer_lower_bound": lo, ".integer_upper_bound": "0", ".continuous_lower_bound": ninf, ".continuous_upper_bound": "0"},
        ("PL", 3): {".integer_lower_bound": "0", ".integer_upper_bound": hi, ".continuous_lower_bound": "0", ".continuous_upper_bound": inf},
        ("LO", 4): {".integer_lower_bound": lohi(p, "lower"), ".continuous_lower_bound": c},
        ("LI", 4): {".sense": VS + "Integer", ".integer_lower_bound": lohi(p, "lower"), ".continuous_lower_bound": c},
        ("UP", 4): {".integer_upper_bound": lohi(p, "upper"), ".continuous_upper_bound": c},
        ("UI", 4): {".sense": VS + "Integer", ".integer_upper_bound": lohi(p, "upper"), ".continuous_upper_bound": c},
        ("FX", 4): {".is_fixed": "true", ".integer_fixed_value": lohi(p, "fixed"), ".continuous_fixed_value": c, ".integer_lower_bound": lohi(p, "fixed"), ".integer_upper_bound": lohi(p, "fixed"), ".continuous_lower_bound": c, ".continuous_upper_bound": c},
    }
    thr = [e for e in p.E.effects if e.kind == "throw" and e.loops and safe_sat(and_(p.scenario("BOUNDS", size=4), e.pc))]
    ctx.ob("record", any("this.variables" in str(e.pc) and "(%s[2])" % I in str(e.pc) for e in thr), ctx.at(p.f), "a bound on an unknown column is rejected")
    unknown = or_(*[e.pc for e in thr])
    for (code, n), t in tab.items():
        t = dict(t)
        t[".is_bound_defined"] = "true"
        A = and_(p.scenario("BOUNDS", p.word(0, code), size=n), not_(unknown))
        if not safe_sat(A):
            ctx.ob("record", False, ctx.at(p.f), "bound code %s is rejected" % code)
            continue
        expect(ctx, p, "bound code " + code, A, t, V)


def finish(ctx, p):
    ctx.rule("integer columns without bounds are binary, other defaults are [0, inf); a file without ENDATA is rejected")
    E, f = p.E, p.f
    ws = [e for e in E.effects if e.kind == "write" and e.loops and "lines" not in str(e.loops[0]) and "variables" in str(e.t)]
    got = {}
    for e in ws:
        got[fname(e.t)] = e
    if not got:
        raise Broken("default bounds of integer columns")
    for k, v in (("integer_lower_bound", "0"), ("integer_upper_bound", "1")):
        e = got.get(k)
        ctx.ob("defaults", e is not None and str(e.v) == v, ctx.at(f, e) if e else ctx.at(f), "an integer column without bounds has %s %s" % (k, v))
        if e is None:
            continue
        obj = e.t.a[0]
        conj = [c for c in (e.pc.a[0] if e.pc.op == "and" else [e.pc]) if contains(c, lambda x: x == obj)]
        want = and_(not_(mk("fld", obj, MP + "MPSVariable::is_bound_defined")), *[x for c in conj for x in subterms(c) if x.op == "eq" and VS + "Integer" in str(x)][:1])
        ctx.ob("defaults", safe_equiv(and_(*conj), want) and VS + "Integer" in str(want), ctx.at(f, e), "exactly integer columns without a bound record get the default; found %s" % show(and_(*conj))[:100])
        ctx.ob("defaults", str(e.loops[-1]).endswith("this.variables.size())"), ctx.at(f, e), "the default reaches every column; loop %s" % e.loops[-1])
    ends = [e for e in E.effects if e.kind == "throw" and not e.loops and "ENDATA" in str(e.pc)]
    ctx.ob("defaults", bool(ends), ctx.at(f), "a file without ENDATA is rejected")
    for e in ends[:1]:
        left = [c for c in (e.pc.a[0] if e.pc.op == "and" else [e.pc]) if not (c.op == "not" and c.a[0].op == "exists") and not safe_implies(p.opened(), c)]
        ctx.ob("defaults", not left, ctx.at(f, e), "every file without ENDATA is rejected; found only when %s" % show(and_(*left))[:80])
    g = ctx.fn1("mps::MPSVariable::initialize", 0)
    Eg = ctx.run(g)
    for k, v in (("sense", VS + "Continuous"), ("integer_lower_bound", "0"), ("integer_upper_bound", "1073741823"), ("continuous_lower_bound", "0"), ("continuous_upper_bound", "__builtin_huge_val()"), ("is_bound_defined", "false"), ("is_fixed", "false")):
        w = list(writes(Eg, k))
        ctx.ob("defaults", bool(w) and str(w[-1].v) == v, ctx.at(g), "default %s of a column is %s; found %s" % (k, v, str(w[-1].v) if w else None))
    g = ctx.fn1("mps::MPSConstraint::initialize", 0)
    w = list(writes(ctx.run(g), "rhs"))
    ctx.ob("defaults", bool(w) and w[-1].v == ZERO, ctx.at(g), "the default right-hand side is zero")


class Store:
    def __init__(s, t, v, e):
        s.t, s.v, s.e = t, v, e
        s.pc, s.loops, s.line, s.fn, s.node, s.kind, s.fid, s.stack, s.ctx, s.seq = e.pc, e.loops, e.line, e.fn, e.node, e.kind, e.fid, e.stack, e.ctx, e.seq


def model(ctx):
    ctx.rule("every column and row of the parsed file appears in the model with its bounds, fixing, name, coefficients, sense and right-hand side")
    f = ctx.fn1("model::Model::import_mps", 2)
    E = ctx.run(f)
    M = mk("sym", "$0")
    cv = list(calls(E, "create_variables"))
    cc = list(calls(E, "create_constraints"))
    if not cv or not cc:
        raise Broken("import_mps creates nothing")
    ctx.ob("model", str(cv[0].args[1]) in ("$0.variables.size()", "$0.variable_names.size()"), ctx.at(f, cv[0]), "one variable per column")
    ctx.ob("model", str(cc[0].args[1]) in ("$0.constraint_names.size()", "$0.constraints.size()"), ctx.at(f, cc[0]), "one constraint per row")
    var = "$0.variables[$0.variable_names[#0]]"
    cont = [x for e in E.effects if e.kind == "throw" for x in subterms(e.pc) if x.op == "eq" and VS + "Continuous" in map(str, x.a)]
    if not cont:
        ctx.ob("model", False, ctx.at(f), "continuous columns are not rejected when they are not accepted")
        return
    isc = cont[0]
    acc = mk("sym", "$1")
    ctx.ob("model", var + ".sense" in map(str, isc.a), ctx.at(f), "the column's own integrality is tested")
    for e in E.effects:
        if e.kind == "throw":
            ctx.ob("model", safe_equiv(e.pc, and_(isc, not_(acc))), ctx.at(f, e), "a file is rejected exactly for continuous columns that are not accepted; found %s" % show(e.pc)[:100])
    okc = or_(not_(isc), acc)

    def elem(e):
        return "ilist((#0))" in str(e.t) or "[#0]" in str(e.t).replace("variable_names[#0]", "")

    sb = list(calls(E, "set_bound"))
    ctx.ob("model", len(sb) == 1 and [str(a) for a in sb[0].args] == [var + ".integer_lower_bound", var + ".integer_upper_bound"] and elem(sb[0]) and safe_equiv(sb[0].pc, okc), ctx.at(f, sb[0]) if sb else ctx.at(f), "each variable has the bounds of its column; found %s" % ([str(a) for a in sb[0].args] if sb else None))
    fx = list(calls(E, "fix_by"))
    isf = [x for e in fx for x in subterms(e.pc) if x.op == "fld" and x.a[1].endswith("is_fixed")]
    ctx.ob("model", len(fx) == 1 and str(fx[0].args[0]) == var + ".integer_fixed_value" and elem(fx[0]) and isf and str(isf[0]) == var + ".is_fixed" and safe_equiv(fx[0].pc, and_(okc, isf[0])), ctx.at(f, fx[0]) if fx else ctx.at(f), "exactly fixed columns are fixed, to their value")
    if sb and fx:
        ctx.ob("model", sb[0].seq < fx[0].seq, ctx.at(f, fx[0]), "bounds are set before the value is fixed")
    names = [e for e in E.effects if e.kind == "write" and fname(e.t) == "name"]
    vn = [e for e in names if "create_variables" in str(e.t)]
    cn = [e for e in names if "create_constraints" in str(e.t)]
    if not vn or not cn:
        raise Broken("names of imported variables and constraints")
    ctx.ob("model", str(vn[0].v) == "$0.variable_names[#0]" and elem(vn[0]) and safe_equiv(vn[0].pc, okc), ctx.at(f, vn[0]), "each variable has its column's name")
    ctx.ob("model", str(cn[0].v) == "$0.constraint_names[#0]" and elem(cn[0]), ctx.at(f, cn[0]), "each constraint has its row's name")
    mp = [e for e in E.effects if e.kind == "write" and e.t.op == "at" and e.t.a[0].op == "loc" and str(e.t.a[1]) == "$0.variable_names[#0]"]
    if len(mp) != 1:
        raise Broken("map from names to variables")
    ctx.ob("model", "create_variables" in str(mp[0].v) and "ilist((#0))" in str(mp[0].v), ctx.at(f, mp[0]), "a column's name stands for its own variable")
    ptrs = mp[0].t.a[0]
    con = "$0.constraints[$0.constraint_names[#0]]"
    co = [Store(e.t, e.v, e) for e in E.effects if e.kind == "write" and e.t.op == "at" and e.t.a[0].op == "loc" and e.t.a[0] != ptrs]
    co += [Store(mk("at", e.t, e.args[0]), e.args[1], e) for e in E.effects if e.kind == "call" and callee(e) in ("emplace", "insert_or_assign", "try_emplace") and len(e.args) == 2 and isinstance(e.t, T) and e.t.op == "loc" and e.t != ptrs]
    kinds = {"con": ("%s.sensitivities[#1]" % con, "%s.sensitivities" % con), "obj": ("$0.objective.sensitivities[#0]", "$0.objective.sensitivities")}
    dest = {}
    for k, (src, dom) in kinds.items():
        hit = [e for e in co if src in str(e.v)]
        ctx.ob("model", len(hit) == 1 and str(hit[0].v) == "get(1, %s)" % src, ctx.at(f, hit[0]) if hit else ctx.at(f), "the coefficients of the %s are copied; found %s" % ("rows" if k == "con" else "objective", [str(e.v)[:60] for e in co]))
        for e in hit[:1]:
            ctx.ob("model", str(e.t.a[1]) == "%s[get(0, %s)]" % (ptrs, src), ctx.at(f, e), "each coefficient belongs to the variable of its own column; found %s" % str(e.t.a[1])[:80])
            ctx.ob("model", str(e.loops[-1]) == "idx(0, %s.size())" % dom and not set(map(str, split_conds(e.pc) if False else [])), ctx.at(f, e), "every coefficient is copied; loop %s" % str(e.loops[-1])[:80])
            extra = [x for x in subterms(e.pc) if x.op == "get"]
            ctx.ob("model", not extra, ctx.at(f, e), "no coefficient is dropped; condition %s" % str(e.pc)[:100])
            dest[k] = e.t.a[0]
    ss = [e for e in E.effects if e.kind == "write" and fname(e.t) == "m_sensitivities"]
    exprs = {}
    for k, d in dest.items():
        h = [e for e in ss if e.v == d]
        if not h:
            raise Broken("expression of the %s" % k)
        exprs[k] = h[0].t.a[0]
    # constraints: sense and right-hand side
    asg = [e for e in E.effects if e.kind == "call" and callee(e) == "operator=" and "create_constraints" in str(e.t)]
    if not asg:
        raise Broken("constraints are not assigned")
    sense_t = mk("fld", None, "x") if False else None
    for sense, op in (("Less", "operator<="), ("Equal", "operator=="), ("Greater", "operator>=")):
        hit = [e for e in asg if any(x.op == "eq" and CS + sense in map(str, x.a) and "%s.sense" % con in map(str, x.a) and safe_implies(e.pc, x) for x in subterms(e.pc))]
        ctx.ob("model", len(hit) == 1, ctx.at(f, hit[0]) if hit else ctx.at(f), "rows of sense %s become constraints" % sense)
        for e in hit[:1]:
            ctx.ob("model", elem(e), ctx.at(f, e), "the row's own constraint is defined")
            v = e.args[0]
            want = CS.replace("mps::MPSConstraintSense::", "") if False else None
            found = constraint_of(ctx, E, v)
            if found is None:
                raise Broken("constraint value %s" % str(v)[:80])
            s_, expr, r = found
            ctx.ob("model", s_ == sense, ctx.at(f, e), "a row of sense %s becomes a constraint of sense %s" % (sense, s_))
            ctx.ob("model", expr == exprs.get("con") and str(r) == con + ".rhs", ctx.at(f, e), "the constraint compares the row's expression with its right-hand side; found %s, %s" % (str(expr)[:60], str(r)[:60]))
    mn = list(calls(E, "minimize"))
    ctx.ob("model", len(mn) == 1 and mn[0].args[0] == exprs.get("obj") and not list(calls(E, "maximize")), ctx.at(f, mn[0]) if mn else ctx.at(f), "the objective row is minimised")


def constraint_of(ctx, E, v):
    """(sense, expression, right-hand side) of a constraint value built by a comparison operator"""
    for x in subterms(v):
        if x.op == "call" and x.a[0].split("::")[-1] in ("operator<=", "operator>=", "operator=="):
            a = x.a[2]
            if len(a) == 2:
                return {"operator<=": "Less", "operator>=": "Greater", "operator==": "Equal"}[x.a[0].split("::")[-1]], a[0], a[1]
    sn = [x for x in subterms(v) if x.op == "enum" and "ConstraintSense" in str(x)]
    if len(sn) == 1:
        for x in subterms(v):
            if x.op == "call" and x.a[0].split("::")[-1] == "operator-" and len(x.a[2]) == 2:
                return str(sn[0]).split("::")[-1], x.a[2][0], x.a[2][1]
    return None


def run(ctx):
    box = {}

    def make(ctx):
        box["p"] = Parser(ctx)
    ctx.section(make)
    if "p" in box:
        for s in (rows, columns, rhs, ranges, bounds, finish):
            ctx.section(s, box["p"])
    ctx.section(model)
