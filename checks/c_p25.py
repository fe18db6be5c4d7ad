"""P25: the linear relaxation represents the model.

The export is evaluated symbolically; each vector and matrix of the relaxation is read off element by element and compared with
the quantity of the variable or constraint its position stands for. Scaling, transposition and products of the sparse matrices
are compared with their definitions."""
from common import *

LP = "printemps::linear_programming::LinearProgramming::"
MD = "printemps::model::Model::"
MC = "printemps::model_component::"
SP = "printemps::utility::sparse::"


class Export:
    def __init__(s, ctx):
        s.ctx = ctx
        s.f = ctx.fn1("Model::export_lp_instance", 0)
        s.E = E = ctx.run(s.f)
        rets = [e for e in E.effects if e.kind == "ret" and e.v is not None]
        if len(rets) != 1 or rets[0].v.op != "loc":
            raise Broken("returned instance")
        s.lp = rets[0].v
        ins = [e for e in E.effects if e.kind == "call" and callee(e) == "insert" and "BidirectionalMap" in e.v]
        if not ins:
            raise Broken("index maps")
        s.maps = {}
        for e in ins:
            s.maps.setdefault(e.t, []).append(e)
        if len(s.maps) != 2:
            raise Broken("%d index maps" % len(s.maps))
        isv = {m: any("variable" in str(e.args[0]) for e in es) for m, es in s.maps.items()}
        s.vm = [m for m in s.maps if isv[m]]
        s.cm = [m for m in s.maps if not isv[m]]
        if len(s.vm) != 1 or len(s.cm) != 1:
            raise Broken("index maps")
        s.vm, s.cm = s.vm[0], s.cm[0]
        s.var = "%s.m_reverse[#0]" % s.vm
        s.con = "%s.m_reverse[#0]" % s.cm
        s.nv, s.nc = "%s.m_forward.size()" % s.vm, "%s.m_forward.size()" % s.cm

    def final(s, name):
        """the object whose contents become a field of the instance, and what happens to the field afterwards"""
        w = [e for e in s.E.effects if e.kind == "write" and e.t == mk("fld", s.lp, LP + name)]
        if not w:
            return None, []
        return w, [e for e in s.E.effects if e.kind == "call" and e.t == mk("fld", s.lp, LP + name)]

    def elements(s, name):
        """element stores of the vector that becomes lp.<name>"""
        w, after = s.final(name)
        if not w:
            s.ctx.ob("export", False, s.ctx.at(s.f), "the instance has its %s" % name)
            return None
        v = w[-1].v
        direct = mk("fld", s.lp, LP + name)
        st = [e for e in s.E.effects if e.kind == "write" and e.t.op == "at" and (e.t.a[0] in (v, direct) or e.t.a[0].op == "fld" and e.t.a[0].a[1].endswith("Vector::values") and e.t.a[0].a[0] in (v, direct))]
        return v, st, w


def init_of(x, v):
    """(size, fill) a vector was built with"""
    if v.op == "loc":
        w = [e for e in x.E.effects if e.kind == "init" and e.t == v]
        if not w:
            return None
        v = w[-1].v
    if v.op == "ctor" and ("Vector" in v.a[0] or "vector" in v.a[0]) and len(v.a[1]) >= 1:
        return v.a[1]
    return None


def columns(ctx, x):
    ctx.rule("columns: exactly the mutable binary, integer and selection variables, each with its own bounds, objective coefficient and value")
    kinds = set()
    for e in x.maps[x.vm]:
        v = e.args[0]
        l = v.a[0] if v.op == "at" else None
        if l is None or l.op != "fld" or not l.a[1].endswith("_variable_ptrs"):
            raise Broken("columns: %s" % str(v)[:80])
        k = l.a[1].split("::")[-1]
        kinds.add(k)
        fx = mk("fld", v, MC + "Variable::m_is_fixed")
        if k == "mutable_variable_ptrs":
            kinds |= {"binary_variable_ptrs", "integer_variable_ptrs", "selection_variable_ptrs"}
            if e.pc is TRUE:
                continue
        ctx.ob("columns", safe_equiv(e.pc, not_(fx)) and [str(d) for d in e.loops] == ["idx(0, %s.size())" % l], ctx.at(x.f, e), "exactly the mutable variables of %s become columns; found %s" % (k, str(e.pc)[:80]))
    for k in ("binary_variable_ptrs", "integer_variable_ptrs", "selection_variable_ptrs"):
        ctx.ob("columns", k in kinds, ctx.at(x.f), "%s become columns" % k)
    for e in x.maps[x.vm] + x.maps[x.cm]:
        numbering(ctx, x, e)
    V = x.var
    for name, want in (("primal_objective_coefficients", V + ".m_extension.objective_sensitivity"), ("primal_lower_bounds", V + ".m_lower_bound"), ("primal_upper_bounds", V + ".m_upper_bound"), ("primal_initial_solution", V + ".m_value")):
        r = x.elements(name)
        if not r:
            continue
        v, st, w = r
        ini = init_of(x, v)
        if ini is not None:
            ctx.ob("columns", str(ini[0]) == x.nv, ctx.at(x.f), "%s has one element per column; found %s" % (name, str(ini[0])[:60]))
        if len(st) != 1:
            raise Broken("%s: %d element stores" % (name, len(st)))
        e = st[0]
        ctx.ob("columns", str(e.t.a[1]) == "#0" and str(e.v) == want and e.pc is TRUE and [str(d) for d in e.loops] == ["idx(0, %s)" % x.nv], ctx.at(x.f, e), "%s of column i is %s; found %s" % (name, want.split("]")[-1], str(e.v)[:80]))
        ctx.ob("columns", all(y.seq > e.seq for y in w), ctx.at(x.f, e), "%s is complete when it is stored" % name)
    # unboundedness
    for name, fld, lo in (("is_primal_lower_unbounded", "m_lower_bound", True), ("is_primal_upper_unbounded", "m_upper_bound", False)):
        r = x.elements(name)
        if not r:
            continue
        v, st, w = r
        if len(st) != 1:
            raise Broken(name)
        e = st[0]
        b = [y for y in subterms(e.pc) if y.op == "fld" and y.a[1].endswith("_bound")]
        ctx.ob("columns", str(e.t.a[1]) == "#0" and (is_true(e.v) or e.v == ONE) and len(set(b)) == 1 and str(b[0]) == V + "." + fld, ctx.at(x.f, e), "%s of column i tests its own bound; found %s" % (name, str(e.pc)[:80]))
        p = e.pc
        if p.op == "lt0" and b:
            co = [float(c) for m, c in poly_of(p.a[0]).items() if m and str(m[0]) == str(b[0])]
            ctx.ob("columns", len(co) == 1 and (co[0] > 0) == lo, ctx.at(x.f, e), "%s marks bounds beyond the limit" % name)
            rest = add(p.a[0], neg(mul(num(1 if lo else -1), b[0])))
            lim = rest.a[0] if rest.op == "n" else None
            if lim is None:
                raise Broken("limit of %s: %s" % (name, str(rest)[:60]))
            ctx.ob("columns", float(lim) >= 2 ** 28 - 1, ctx.at(x.f, e), "%s is only set for bounds beyond a quarter of the integer range; found limit %s" % (name, lim))


def numbering(ctx, x, e):
    i = e.args[1]
    if i.op != "phi" or i not in x.E.phidefs:
        return
    mine = [d for d in x.E.phiall[i] if d[2] is not None and e.loops and d[2] in e.loops]
    if len({d[1] for d in mine}) != 1:
        return
    init, new, dom = mine[0]
    got = under(new, e.pc)
    ctx.ob("columns", got == add(i, ONE), ctx.at(x.f, e), "consecutive numbering: after an entry the next number follows; found %s" % str(got)[:80])
    if e.pc is not TRUE:
        got = under(new, not_(e.pc))
        ctx.ob("columns", got == i, ctx.at(x.f, e), "elements that are left out get no number; found %s" % str(got)[:80])


def rows(ctx, x):
    ctx.rule("rows: the enabled constraints and the constraints replaced by selections, grouped by sense; coefficients of mutable variables in >= form")
    seen = {}
    order_ = []
    for e in x.maps[x.cm]:
        c = e.args[0]
        en = mk("fld", c, MC + "Constraint::m_is_enabled")
        if c.op == "at" and c.a[0].op == "fld":
            k = c.a[0].a[1].split("::")[-1]
            want = en
        elif c.op == "fld" and c.a[1].endswith("::constraint_ptr") and "m_selections" in str(c):
            k, want = "selections", not_(en)
        else:
            raise Broken("rows: %s" % str(c)[:80])
        ctx.ob("rows", k not in seen, ctx.at(x.f, e), "%s are added once" % k)
        seen[k] = e
        order_.append(k)
        ctx.ob("rows", safe_equiv(e.pc, want), ctx.at(x.f, e), "%s become rows exactly when %s; found %s" % (k, "disabled" if k == "selections" else "enabled", str(e.pc)[:80]))
    for k in ("less_ptrs", "equal_ptrs", "greater_ptrs", "selections"):
        ctx.ob("rows", k in seen, ctx.at(x.f), "%s become rows" % k)
    cnt = {}
    for k, e in seen.items():
        cnt[k] = mk("sum", *[]) if False else None
    # index ranges cover consecutive groups
    rng = {}
    for n in ("less", "equal", "greater"):
        w, _ = x.final(n + "_constraint_index_range")
        if not w or w[-1].v.op != "ctor" or len(w[-1].v.a[1]) != 2:
            raise Broken("range of %s rows" % n)
        rng[n] = (w[-1].v.a[1], w[-1])
    allr = {}
    for n, ((a, b), e) in rng.items():
        d = sub(b, a)
        ks = {"less_ptrs": "less_ptrs" in str(d), "equal_ptrs": "equal_ptrs" in str(d), "greater_ptrs": "greater_ptrs" in str(d), "m_selections": "m_selections" in str(d)}
        want = {"less": {"less_ptrs"}, "equal": {"equal_ptrs", "m_selections"}, "greater": {"greater_ptrs"}}[n]
        ctx.ob("rows", {k for k, v in ks.items() if v} == want and len(poly_of(d)) == len(want) and all(c == 1 for c in poly_of(d).values()), ctx.at(x.f, e), "the %s range has the rows of its sense; found width %s" % (n, str(d)[:120]))
        allr[n] = (a, b)
    so = sorted(seen, key=lambda k: seen[k].seq)
    before = {"less": {k for k in so if so.index(k) < min(so.index("less_ptrs"), 99)}} if "less_ptrs" in so else {}
    for n, grp in (("less", ["less_ptrs"]), ("equal", ["equal_ptrs", "selections"]), ("greater", ["greater_ptrs"])):
        if not all(g in so for g in grp):
            continue
        first = min(so.index(g) for g in grp)
        ctx.ob("rows", sorted(so.index(g) for g in grp) == list(range(first, first + len(grp))), ctx.at(x.f), "rows of sense %s are consecutive" % n)
        prior = {k if k != "selections" else "m_selections" for k in so[:first]}
        a = allr[n][0]
        found = {k for k in ("less_ptrs", "equal_ptrs", "greater_ptrs", "m_selections") if k in str(a)}
        ctx.ob("rows", found == prior and len([1 for m in poly_of(a) if m]) == len(prior), ctx.at(x.f, rng[n][1]), "the %s range starts after the rows before it; found %s" % (n, str(a)[:100]))
    # right-hand sides
    less = None
    r = x.elements("dual_objective_coefficients")
    if r:
        v, st, w = r
        K = x.con
        const = K + ".m_expression.m_constant_value"
        cases = {}
        for e in st:
            s = [y for y in subterms(e.pc) if y.op == "eq" and MC + "ConstraintSense::Less" in map(str, y.a)]
            t = [e.pc] if not s else s
            sens = [y for y in subterms(e.pc) if y.op == "eq" and K + ".m_sense" in map(str, y.a)]
            cases[e] = sens
            if str(e.t.a[1]) != "#0" or [str(d) for d in e.loops] != ["idx(0, %s)" % x.nc]:
                raise Broken("right-hand sides")
        snames = {n: None for n in ("Less", "Equal", "Greater")}
        st_ = [y for e in st for y in subterms(e.pc) if y.op == "fld" and str(y) == K + ".m_sense"]
        if not st_:
            raise Broken("right-hand sides do not depend on the sense")
        for n in snames:
            A = eq(st_[0], mk("enum", MC + "ConstraintSense::" + n))
            hit = [e for e in st if safe_implies(A, e.pc)]
            if len(hit) != 1:
                raise Broken("right-hand side of %s rows" % n)
            val = under(hit[0].v, A)
            sign = 1 if n == "Less" else -1
            rest = sub(val, mul(num(sign), find_term(val, const)))
            ctx.ob("rows", find_term(val, const) is not ZERO and const not in str(rest), ctx.at(x.f, hit[0]), "the right-hand side of %s rows contains the constant with sign %+d; found %s" % (n, sign, str(val)[:100]))
            sm = [y for y in subterms(rest) if y.op == "sum"]
            ok = len(sm) == 1 and rest == mul(num(sign), sm[0])
            ctx.ob("rows", ok, ctx.at(x.f, hit[0]), "the right-hand side of %s rows contains the fixed variables' part with the same sign; found %s" % (n, str(rest)[:100]))
            if ok:
                dom, body = str(sm[0].a[0]), sm[0].a[2]
                S = K + ".m_expression.m_sensitivities"
                ctx.ob("rows", dom == "idx(0, %s.size())" % S, ctx.at(x.f, hit[0]), "all terms of the constraint are considered")
                item = [y for y in subterms(body) if y.op == "at" and str(y.a[0]) == S]
                if not item and body.op == "n":
                    ctx.ob("rows", False, ctx.at(x.f, hit[0]), "the right-hand side of %s rows ignores the fixed variables" % n)
                    continue
                if not item:
                    raise Broken("fixed part %s" % str(body)[:80])
                it = item[0]
                var, co = getn(0, it), getn(1, it)
                fx = mk("fld", var, MC + "Variable::m_is_fixed")
                want = mul(mk("fld", var, MC + "Variable::m_value"), co)
                ctx.ob("rows", under(body, fx) == want and under(body, not_(fx)) == ZERO, ctx.at(x.f, hit[0]), "the fixed part is value times coefficient of the fixed variables; found %s" % str(body)[:120])
    # multipliers
    r = x.elements("dual_lower_bounds")
    if r:
        v, st, w = r
        ini = init_of(x, v)
        ctx.ob("rows", ini is not None and "lowest" in str(ini[1]) and str(ini[0]) == x.nc, ctx.at(x.f), "multipliers are free unless bounded; found %s" % [str(y)[:40] for y in ini or ()])
        spans = sorted(str(e.loops[-1]) for e in st if e.v == ZERO and str(e.t.a[1]) == "#0" and e.pc is TRUE and len(e.loops) == 1)
        want = sorted("idx(%s, %s)" % (allr[n][0], allr[n][1]) for n in ("less", "greater"))
        if [e for e in st if e.pc is not TRUE]:
            raise Broken("multiplier bounds under conditions")
        ctx.ob("rows", spans == want, ctx.at(x.f, st[0]) if st else ctx.at(x.f), "multipliers of inequality rows are non-negative and those of equations free; found %d of 2 ranges" % len(set(spans) & set(want)))
    r = x.final("dual_upper_bounds")[0]
    if r:
        ini = init_of(x, r[-1].v)
        ctx.ob("rows", ini is not None and "max()" in str(ini[1]) and str(ini[0]) == x.nc, ctx.at(x.f, r[-1]), "multipliers have no upper bound")
    # matrix
    rec = [e for e in x.E.effects if e.kind == "call" and callee(e) in ("emplace_back", "push_back") and len(e.args) == 3]
    if len(rec) == 0:
        raise Broken("matrix entries")
    sens = [y for e in rec for y in subterms(e.pc) if y.op == "fld" and str(y) == x.con + ".m_sense"] or [y for e in rec for y in subterms(e.args[2]) if y.op == "fld" and str(y) == x.con + ".m_sense"]
    it = [y for e in rec for y in subterms(e.args[2]) if y.op == "at" and str(y.a[0]) == x.con + ".m_expression.m_sensitivities"]
    if not sens or not it:
        raise Broken("matrix entries: sense")
    var, co = getn(0, it[0]), getn(1, it[0])
    fx = mk("fld", var, MC + "Variable::m_is_fixed")
    for n in ("Less", "Equal", "Greater"):
        A = and_(eq(sens[0], mk("enum", MC + "ConstraintSense::" + n)), not_(fx))
        hit = [e for e in rec if safe_sat(and_(A, e.pc))]
        ctx.ob("rows", len(hit) == 1 and safe_implies(A, hit[0].pc), ctx.at(x.f, hit[0]) if hit else ctx.at(x.f), "each term of a mutable variable in a %s row is one entry" % n)
        for e in hit[:1]:
            want = neg(co) if n == "Less" else co
            ctx.ob("rows", under(e.args[2], A) == want, ctx.at(x.f, e), "entry of a %s row is %s the coefficient; found %s" % (n, "minus" if n == "Less" else "", str(under(e.args[2], A))[:80]))
            ctx.ob("rows", str(e.args[0]) == "#0" and str(e.args[1]) == "%s.m_forward[%s]" % (x.vm, var), ctx.at(x.f, e), "entry stands in the row of its constraint and the column of its variable; found %s, %s" % (str(e.args[0]), str(e.args[1])[:80]))
    for e in rec:
        ctx.ob("rows", not safe_sat(and_(e.pc, fx)), ctx.at(x.f, e), "fixed variables have no column")
        ctx.ob("rows", [str(d) for d in e.loops] == ["idx(0, %s)" % x.nc, "idx(0, %s.m_expression.m_sensitivities.size())" % x.con], ctx.at(x.f, e), "all terms of all rows are entered")
    w, _ = x.final("primal_constraint_coefficients")
    if w and w[-1].v.op == "ctor" and len(w[-1].v.a[1]) == 5 and all(y.op == "loc" for y in w[-1].v.a[1][:3]):
        a = w[-1].v.a[1]
        R = rec[0].t
        for v, k in ((a[0], 2), (a[1], 0), (a[2], 1)):
            ps = [e for e in x.E.effects if e.kind == "call" and e.t == v and callee(e) in ("push_back", "emplace_back")]
            ctx.ob("rows", len(ps) == 1 and str(ps[0].args[0]) == "get(%d, %s[#1])" % (k, R) and str(ps[0].loops[-1]) == "idx(0, %s.size())" % R and ps[0].pc is TRUE, ctx.at(x.f, ps[0]) if ps else ctx.at(x.f), "the matrix gets each entry's %s; found %s" % (("row", "column", "value")[k], str(ps[0].args[0])[:60] if ps else None))
        ctx.ob("rows", str(a[3]) == x.nc and str(a[4]) == x.nv, ctx.at(x.f, w[-1]), "the matrix has one row per constraint and one column per variable")
        ctx.ob("rows", any(callee(e) == "clear" and e.t == R and len(e.loops) == 1 and e.seq < rec[0].seq for e in x.E.effects if e.kind == "call"), ctx.at(x.f), "entries of a row are not repeated in the next")
    w, _ = x.final("dual_constraint_coefficients")
    pw, _ = x.final("primal_constraint_coefficients")
    ok = bool(w) and bool(pw) and any(y.op == "call" and y.a[0].endswith("::transpose") and y.a[1] in (pw[-1].v, mk("fld", x.lp, LP + "primal_constraint_coefficients")) for y in subterms(w[-1].v))
    ctx.ob("rows", ok, ctx.at(x.f, w[-1]) if w else ctx.at(x.f), "the dual matrix is the transpose of the primal one")
    for n, v in (("number_of_rows", x.nc), ("number_of_columns", x.nv)):
        w, _ = x.final(n)
        ctx.ob("rows", bool(w) and str(w[-1].v) == v, ctx.at(x.f), "%s counts them" % n)


def find_term(v, s):
    for y in subterms(v):
        if str(y) == s:
            return y
    return ZERO


def objective(ctx, x):
    ctx.rule("objective: offset from the constant and the fixed variables; the sign is turned for maximisation, once")
    mn = mk("fld", THIS, MD + "m_is_minimization")
    w, _ = x.final("objective_offset")
    if not w:
        ctx.ob("objective", False, ctx.at(x.f), "the instance has an objective offset")
        return
    cur = {}
    for pol, A in ((1, mn), (-1, not_(mn))):
        val = None
        for e in w:
            if safe_implies(A, e.pc):
                val = under(e.v, A)
        if val is None:
            raise Broken("objective offset")
        c = find_term(val, "this.m_objective.m_expression.m_constant_value")
        ctx.ob("objective", c is not ZERO and str(c) not in str(sub(val, mul(num(pol), c))), ctx.at(x.f, w[-1]), "the offset contains the objective's constant with sign %+d; found %s" % (pol, str(val)[:100]))
        rest = sub(val, mul(num(pol), c))
        sm = [y for y in subterms(rest) if y.op == "sum"]
        ok = len(sm) == 1 and rest == mul(num(pol), sm[0])
        ctx.ob("objective", ok, ctx.at(x.f, w[-1]), "the offset contains the fixed variables' part with the same sign; found %s" % str(rest)[:100])
        if ok:
            F = "this.m_variable_reference.fixed_variable_ptrs"
            if str(sm[0].a[0]) != "idx(0, %s.size())" % F:
                raise Broken("offset domain %s" % str(sm[0].a[0])[:80])
            fs = [y for y in subterms(sm[0].a[2]) if y.op == "at" and str(y.a[0]) == F]
            ctx.ob("objective", bool(fs) and str(sm[0].a[2]) in ("{%s.m_extension.objective_sensitivity*%s.m_value}" % (fs[0], fs[0]),), ctx.at(x.f, w[-1]), "each fixed variable contributes value times objective coefficient; found %s" % str(sm[0].a[2])[:100])
    _, after = x.final("primal_objective_coefficients")
    ng = [e for e in after if callee(e) == "operator*="]
    ctx.ob("objective", len(ng) == 1 and safe_equiv(ng[0].pc, not_(mn)) and ng[0].args[0] == num(-1), ctx.at(x.f, ng[0]) if ng else ctx.at(x.f), "the objective coefficients are negated exactly for maximisation; found %s" % [(str(e.pc)[:40], str(e.args[0])) for e in ng])
    w, _ = x.final("is_minimization")
    ctx.ob("objective", bool(w) and w[-1].v == mn, ctx.at(x.f), "the instance knows the sense")


def start(ctx, x):
    ctx.rule("the starting point lies within the bounds")
    w, _ = x.final("primal_initial_solution")
    v = w[-1].v
    cl = [e for e in x.E.effects if e.kind == "call" and callee(e) == "clamp" and e.t == v]
    lo, up = x.final("primal_lower_bounds")[0][-1].v, x.final("primal_upper_bounds")[0][-1].v
    ctx.ob("start", len(cl) == 1 and list(cl[0].args) == [lo, up] and cl[0].seq < w[-1].seq, ctx.at(x.f, cl[0]) if cl else ctx.at(x.f), "the primal start is clamped to the bounds")
    f = ctx.fn1(SP.replace("printemps::", "") + "Vector::clamp", 2)
    E = ctx.run(f)
    ws = [e for e in E.effects if e.kind == "write" and e.t.op == "at"]
    ok = len(ws) == 1 and str(ws[0].v) in ("min(($1.values[#0],max(($0.values[#0],this.values[#0]))))", "max(($0.values[#0],min(($1.values[#0],this.values[#0]))))")
    if len(ws) != 1:
        raise Broken("clamp")
    if not ok and not all(k in str(ws[0].v) for k in ("$0", "$1", "this")):
        ctx.ob("start", False, ctx.at(f, ws[0]), "clamp limits from both sides; found %s" % str(ws[0].v)[:80])
    elif not ok:
        raise Broken("clamp value %s" % str(ws[0].v)[:80])
    else:
        ctx.ob("start", str(ws[0].t) == "this.values[#0]" and str(ws[0].loops[-1]) == "idx(0, this.values.size())", ctx.at(f, ws[0]), "clamp limits every element")


def matrix(ctx):
    ctx.rule("sparse matrices: stored triplets, row offsets, transposition, products and scaling follow their definitions")
    f = ctx.fn1("sparse::SparseMatrix::setup", 5)
    E = ctx.run(f)
    for n, a in (("values", "$0"), ("row_indices", "$1"), ("column_indices", "$2"), ("number_of_rows", "$3"), ("number_of_columns", "$4")):
        w = [e for e in E.effects if e.kind == "write" and e.t == mk("fld", THIS, SP + "SparseMatrix::" + n)]
        ctx.ob("matrix", len(w) == 1 and str(w[0].v) == a, ctx.at(f, w[0]) if w else ctx.at(f), "setup keeps %s" % n)
    rp = [e for e in E.effects if e.kind == "write" and e.t.op == "at" and "row_ptrs" in str(e.t)]
    if len(rp) != 2:
        raise Broken("row offsets")
    c, a = rp
    ctx.ob("matrix", str(c.t) == "this.row_ptrs[{1 + $1[#0]}]" and c.v == add(c.t, ONE) and str(c.loops[-1]) == "idx(0, $0.size())", ctx.at(f, c), "entries are counted per row; found %s" % str(c.t))
    ctx.ob("matrix", str(a.t) == "this.row_ptrs[{1 + #0}]" and str(a.v) == "{this.row_ptrs[#0] + this.row_ptrs[{1 + #0}]}" and str(a.loops[-1]) == "idx(0, $3)", ctx.at(f, a), "row offsets accumulate the counts; found %s" % str(a.v))
    rs = [e for e in E.effects if e.kind == "call" and callee(e) in ("resize", "assign") and "row_ptrs" in str(e.t)]
    if rs:
        ctx.ob("matrix", str(rs[0].args[0]) == "{1 + $3}" and rs[0].args[1] == ZERO, ctx.at(f, rs[0]), "one offset more than rows, starting at zero")
    # dot
    f = ctx.fn1("sparse::SparseMatrix::dot", 2)
    E = ctx.run(f)
    ws = [e for e in E.effects if e.kind == "write" and e.t.op == "at"]
    acc = [e for e in ws if len(e.loops) == 2]
    z = [e for e in ws if len(e.loops) == 1]
    if len(acc) == 1:
        e = acc[0]
        ctx.ob("matrix", str(e.t) == "$0.values[#0]" and str(sub(e.v, e.t)) == "{$1.values[this.column_indices[#1]]*this.values[#1]}", ctx.at(f, e), "a product sums value times operand of each entry; found %s" % str(e.v)[:100])
        ctx.ob("matrix", [str(d) for d in e.loops] == ["idx(0, this.number_of_rows)", "idx(this.row_ptrs[#0], this.row_ptrs[{1 + #0}])"], ctx.at(f, e), "each row's entries are summed")
        ctx.ob("matrix", len(z) == 1 and z[0].v == ZERO and z[0].t == e.t and z[0].seq < e.seq, ctx.at(f, e), "each product starts from zero")
    elif len(z) == 1 and z[0].v.op == "sum":
        sm = z[0].v
        ctx.ob("matrix", str(z[0].t) == "$0.values[#0]" and str(sm.a[0]) == "idx(this.row_ptrs[#0], this.row_ptrs[{1 + #0}])" and "this.column_indices" in str(sm.a[2]) and "this.values" in str(sm.a[2]), ctx.at(f, z[0]), "a product sums value times operand of each entry")
    else:
        raise Broken("matrix product")
    # transpose
    f = ctx.fn1("sparse::SparseMatrix::transpose", 0)
    E = ctx.run(f)
    r = [e for e in E.effects if e.kind == "ret"]
    if len(r) != 1 or r[0].v.op != "ctor" or len(r[0].v.a[1]) != 5:
        raise Broken("transpose")
    a = r[0].v.a[1]
    src = {}
    for k in range(3):
        st = [e for e in E.effects if e.kind == "write" and e.t.op == "at" and e.t.a[0] == a[k]]
        if len(st) != 1:
            raise Broken("transpose vectors")
        v = st[0].v
        src[k] = (fname(v.a[0]) if v.op == "at" else None, str(v.a[1]) if v.op == "at" else None)
    ctx.ob("matrix", [src[k][0] for k in range(3)] == ["values", "column_indices", "row_indices"] and len({src[k][1] for k in range(3)}) == 1, ctx.at(f, r[0]), "the transpose has the same entries with rows and columns exchanged; found %s" % [src[k][0] for k in range(3)])
    ctx.ob("matrix", [str(y) for y in a[3:]] == ["this.number_of_columns", "this.number_of_rows"], ctx.at(f, r[0]), "the transpose has exchanged dimensions")
    # grouping by rows: the last ordering of the entries is by the new row
    ss = [e for e in E.effects if e.kind == "call" and callee(e) in ("sort", "stable_sort") and len(e.args) == 3]
    if ss:
        A, B = mk("sym", "first"), mk("sym", "second")
        L = run_stored_lambda(ctx, E, ss[-1].args[2], f["file"], args=[A, B])
        ca, cb = (mk("at", mk("fld", THIS, SP + "SparseMatrix::column_indices"), y) for y in (A, B))
        ctx.ob("matrix", implies_split(lt(ca, cb), L.ret) and implies_split(lt(cb, ca), not_(L.ret)), ctx.at(f, ss[-1]), "the entries of the transpose are grouped by its rows")
    # norms
    f = ctx.fn1("sparse::SparseMatrix::setup_norm", 0)
    E = ctx.run(f)
    w = [e for e in E.effects if e.kind == "write" and fname(e.t) == "norm_infty"]
    if len(w) != 1:
        raise Broken("norm")
    ok = str(w[0].v) == "maxover(idx(0, this.values.size()), 0, abs(this.values[#0]), 0)"
    if not ok and "max" in str(w[0].v):
        raise Broken("norm_infty: %s" % str(w[0].v)[:80])
    ctx.ob("matrix", ok, ctx.at(f, w[0]), "the maximum norm covers every entry; found %s" % str(w[0].v)[:80])
    w = [e for e in E.effects if e.kind == "write" and fname(e.t) == "norm_one"]
    mx = [y for e in w for y in subterms(e.v) if y.op == "call" and y.a[0].endswith("max_element")]
    if len(mx) != 1 or not str(mx[0]).endswith(".begin(), %s.end())" % mx[0].a[2][1].a[1]):
        raise Broken("norm_one")
    acc = [e for e in E.effects if e.kind == "write" and e.t.op == "at" and e.t.a[0] == mx[0].a[2][1].a[1]]
    if len(acc) != 1:
        raise Broken("column sums")
    ctx.ob("matrix", str(acc[0].t.a[1]) == "this.column_indices[#0]" and str(sub(acc[0].v, acc[0].t)) == "abs(this.values[#0])" and [str(d) for d in acc[0].loops] == ["idx(0, this.values.size())"], ctx.at(f, acc[0]), "the one norm is the largest column sum; found %s" % str(acc[0].v)[:80])
    # scaling by a diagonal
    for n, want in (("scale_row", "$1.diagonal_vector.values[#0]"), ("scale_column", "$1.diagonal_vector.values[this.column_indices[#0]]")):
        f = ctx.fn1("sparse::SparseMatrix::" + n, 2)
        E = ctx.run(f)
        ws = [e for e in E.effects if e.kind == "write" and e.t.op == "at" and fname(e.t.a[0]) == "values"]
        if len(ws) != 1 or len(ws[0].loops) != (2 if n == "scale_row" else 1):
            raise Broken(n)
        e = ws[0]
        q = {m: c for m, c in poly_of(e.v).items()}
        fac = [y for m in q for y in m if y != e.t and str(y) != str(e.t)]
        ctx.ob("matrix", len(q) == 1 and len(fac) == 1 and str(fac[0]) == want, ctx.at(f, e), "%s multiplies each entry by the factor of its line; found %s" % (n, str(e.v)[:100]))
    # scaling of values: divided by exactly the scalers that are recorded
    for n in ("pock_chambolle_scaling", "ruiz_scaling"):
        f = ctx.fn1("sparse::SparseMatrix::" + n)
        E = ctx.run(f)
        vs = [e for e in E.effects if e.kind == "write" and e.t.op == "at" and str(e.t.a[0]) == "this.values"]
        if len(vs) != 1:
            raise Broken(n)
        e = vs[0]
        iv = e.t.a[1]
        got = {}
        for side, idx in (("row_scaler", "row_indices"), ("column_scaler", "column_indices")):
            rec = [c for c in E.effects if c.kind == "call" and callee(c) == "operator*=" and str(c.t) == "this." + side]
            ctx.ob("matrix", len(rec) == 1 and len(rec[0].loops) == len(e.loops) - 1, ctx.at(f, rec[0]) if rec else ctx.at(f), "%s records its %s once per scaling" % (n, side))
            if rec:
                got[side] = "%s.diagonal_vector.values[this.%s[%s]]" % (rec[0].args[0], idx, iv)
        if len(got) == 2:
            d = e.v
            ok = d.op == "div" and d.a[0] == e.t and str(d.a[1]) in ("{%s*%s}" % (got["column_scaler"], got["row_scaler"]), "{%s*%s}" % (got["row_scaler"], got["column_scaler"]))
            if not ok and not (d.op == "div" and all(g in str(d) for g in got.values())):
                pass
            elif not ok:
                raise Broken("%s: %s" % (n, str(d)[:80]))
            ctx.ob("matrix", ok, ctx.at(f, e), "%s divides each entry by the recorded scalers of its row and column; found %s" % (n, str(d)[:120]))
    for cls, par in (("Diagonal", 1),):
        for f in ctx.fns("sparse::Diagonal::dot", 1, lambda g: g["p"][0]["t"].endswith("*")):
            E = ctx.run(f)
            ws = [e for e in E.effects if e.kind == "write" and e.t.op == "at"]
            ctx.ob("matrix", len(ws) == 1 and str(ws[0].t) == "$0.values[#0]" and str(ws[0].v) == "{$0.values[#0]*this.diagonal_vector.values[#0]}", ctx.at(f), "a diagonal multiplies each element by its own entry")
    f = ctx.fn1("sparse::Diagonal::inverse", 0)
    E = ctx.run(f)
    ws = [e for e in E.effects if e.kind == "write" and e.t.op == "at"]
    ctx.ob("matrix", len(ws) == 1 and ws[0].v.op == "div" and ws[0].v.a[0] == ONE and ws[0].v.a[1] == ws[0].t, ctx.at(f), "the inverse has the reciprocal entries")


def scaling(ctx):
    ctx.rule("scaling: primal quantities by the columns, dual quantities by the rows, objective data by the inverses, and back")
    f = ctx.fn1("LinearProgramming::scaling", 2)
    E = ctx.run(f)
    C, R = "this.primal_constraint_coefficients.column_scaler", "this.primal_constraint_coefficients.row_scaler"
    dots = {}
    for e in calls(E, "dot"):
        if len(e.args) == 1:
            dots.setdefault(str(e.args[0]), []).append(e)
    for n, s in (("primal_objective_coefficients", C + ".inverse()"), ("primal_lower_bounds", C), ("primal_upper_bounds", C), ("primal_initial_solution", C),
                 ("dual_objective_coefficients", R + ".inverse()"), ("dual_lower_bounds", R), ("dual_upper_bounds", R), ("dual_initial_solution", R)):
        h = dots.get("this." + n, [])
        ctx.ob("scaling", len(h) == 1 and str(h[0].t) == s and h[0].pc is TRUE, ctx.at(f, h[0]) if h else ctx.at(f), "%s is scaled by %s; found %s" % (n, s, [str(e.t) for e in h]))
    sc = [e for e in E.effects if e.kind == "call" and callee(e) in ("ruiz_scaling", "pock_chambolle_scaling")]
    tr = [e for e in E.effects if e.kind == "write" and fname(e.t) == "dual_constraint_coefficients"]
    ctx.ob("scaling", len(tr) == 1 and "primal_constraint_coefficients.transpose()" in str(tr[0].v) and all(e.seq < tr[0].seq for e in sc), ctx.at(f, tr[0]) if tr else ctx.at(f), "the dual matrix is the transpose of the scaled one")
    for e in calls(E, "dot"):
        ctx.ob("scaling", all(y.seq < e.seq for y in sc), ctx.at(f, e), "vectors are scaled with the final scalers")
    want = {"ruiz_scaling": lt(ZERO, mk("sym", "$0")), "pock_chambolle_scaling": mk("sym", "$1")}
    for n, c in want.items():
        h = [e for e in sc if callee(e) == n]
        ctx.ob("scaling", len(h) == 1 and safe_equiv(h[0].pc, c), ctx.at(f, h[0]) if h else ctx.at(f), "%s is applied exactly when asked for" % n)
    f = ctx.fn1("PDLPCoreResult::scaling", 2)
    E = ctx.run(f)
    dots = {}
    for e in calls(E, "dot"):
        if len(e.args) == 1:
            dots.setdefault(str(e.args[0]), []).append(e)
    for n, s in (("primal.solution", "$1.inverse()"), ("primal.solution_average", "$1.inverse()"), ("dual.solution", "$0.inverse()"), ("dual.solution_average", "$0.inverse()")):
        h = dots.get("this." + n, [])
        ctx.ob("scaling", len(h) == 1 and str(h[0].t) == s, ctx.at(f, h[0]) if h else ctx.at(f), "the result's %s is scaled back; found %s" % (n, [str(e.t) for e in h]))
    f = ctx.fn1("PDLPController::run", 0)
    E = ctx.run(f)
    sc = [e for e in calls(E, "scaling")]
    back = [e for e in sc if any(str(a).endswith("row_scaler") for a in e.args)]
    fw = [e for e in sc if e not in back]
    ctx.ob("scaling", len(fw) == 1 and len(back) == 1 and fw[0].seq < back[0].seq and safe_equiv(fw[0].pc, back[0].pc), ctx.at(f, back[0]) if back else ctx.at(f), "the instance is scaled and the result scaled back")
    for e in back:
        a = [str(y) for y in e.args]
        ctx.ob("scaling", a[0].endswith("primal_constraint_coefficients.row_scaler") and a[1].endswith("primal_constraint_coefficients.column_scaler"), ctx.at(f, e), "the result is scaled back by the instance's own scalers; found %s" % a)
    for e in fw:
        ctx.ob("scaling", [str(y).split(".")[-1] for y in e.args] == ["counts_of_ruiz_scaling", "is_enabled_pock_chambolle_scaling"], ctx.at(f, e), "the scaling follows the option")


def run(ctx):
    box = {}

    def export(ctx):
        box["x"] = Export(ctx)
    ctx.section(export)
    if "x" in box:
        for s in (columns, rows, objective, start):
            ctx.section(s, box["x"])
    ctx.section(matrix)
    ctx.section(scaling)
