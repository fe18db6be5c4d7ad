"""P32: the LP method's iterates, objectives, violations and verdicts are those of linear-programming duality."""
from common import *
import sym as S
from c_p31 import Rec, symb

M = "printemps::solver::pdlp::core::"
SP = "printemps::utility::sparse::"
LP = "printemps::linear_programming::LinearProgramming"
VALS = SP + "Vector::values"
X = mk("sym", "#element")
VEC = ("Vector::dot", "Vector::norm", "Vector::learn", "Vector::clamp", "Vector::reset", "SparseMatrix::dot", "sparse::linear_combination", "sparse::sum", "sparse::subtract", "sparse::distance", "sparse::dot_dot")


def elem(loc):
    return mk("at", mk("fld", loc, VALS), X)


def has_x(t):
    return contains(t, lambda x: x is X)


def sqrt(t):
    return mk("call", "sqrt", None, (t,))


def squares(t):
    """sqrt(a)*sqrt(a) = a, abs(a)*abs(a) = a*a"""
    def f(x):
        if x.op == "call" and x.a[0] in ("std::sqrt", "sqrt", "sqrtf", "sqrtl"):
            return sqrt(x.a[2][0])
        if x.op != "poly":
            return x
        acc, ch = ZERO, False
        for m, c in x.a[0]:
            v, i = num(c), 0
            while i < len(m):
                y = m[i]
                if i + 1 < len(m) and m[i + 1] is y and y.op == "call" and y.a[0] == "sqrt":
                    v, ch, i = mul(v, y.a[2][0]), True, i + 2
                else:
                    v, i = mul(v, y), i + 1
            acc = add(acc, v)
        return f(acc) if ch else x
    return rebuild(t, f)


def linear(t, g):
    """apply g to the elementwise part of every monomial, scalars stay outside"""
    acc = ZERO
    for m, c in poly_of(t).items():
        inner = [x for x in m if has_x(x)]
        outer = [x for x in m if not has_x(x)]
        v = num(c)
        for x in outer:
            v = mul(v, x)
        e = ONE
        for x in inner:
            e = mul(e, x)
        acc = add(acc, mul(v, g(e)))
    return acc


class Vectors:
    """elementwise contents of every vector, followed through the calls and loops of one function"""

    def __init__(self, ctx, rows, cols):
        self.env, self.seen, self.ctx, self.rows, self.cols = {}, {}, ctx, rows, cols

    def get(self, loc):
        return self.env.get(loc, elem(loc))

    def dim(self, loc):
        """col or row space of a vector, by where it lives"""
        s = str(loc)
        n = fname(loc) or ""
        if ".primal." in s or n.startswith("primal_"):
            return "col"
        if ".dual." in s or n.startswith("dual_"):
            return "row"
        raise Broken("space of " + s)

    def vsum(self, d, t):
        return linear(t, lambda e: mk("vsum", d, e))

    def mat(self, A, t):
        return linear(t, lambda e: mk("mat", A, e, X))

    def full(self, dom):
        lo, hi = dom.a
        s = str(hi)
        if lo is ZERO and (hi is self.cols or s.endswith(".size()") and ".primal" in s):
            return "col"
        if lo is ZERO and (hi is self.rows or s.endswith(".size()") and ".dual" in s):
            return "row"
        return None

    def resolve(self, t):
        def f(x):
            if x in self.seen:
                return self.seen[x]
            if x.op == "sum" and x.a[0].op == "idx":
                d = self.full(x.a[0])
                lv = [y for y in subterms(x.a[2]) if y.op == "iv"]
                if len(set(lv)) == 1:
                    iv = lv[0]
                    body = self.elements(x.a[2], iv)
                    if d is None:
                        raise Broken("sum over " + str(x.a[0]))
                    return self.vsum(d, body)
            if x.op == "call" and str(x.a[0]).endswith("Vector::norm") and not x.a[2]:
                v = self.get(x.a[1])
                return sqrt(self.vsum(self.dim(x.a[1]), mul(v, v)))
            if x.op == "call" and str(x.a[0]).endswith("Vector::dot") and len(x.a[2]) == 1:
                return self.vsum(self.dim(x.a[1]), mul(self.get(x.a[1]), self.get(x.a[2][0])))
            if x.op == "call" and str(x.a[0]).endswith("sparse::distance"):
                v = sub(self.get(x.a[2][0]), self.get(x.a[2][1]))
                return sqrt(self.vsum(self.dim(x.a[2][0]), mul(v, v)))
            return x
        return squares(rebuild(t, f))

    def elements(self, t, iv):
        def f(x):
            if x is iv:
                return X
            if x.op == "at" and x.a[1] is X and x.a[0].op == "fld" and x.a[0].a[1] == VALS:
                return self.get(x.a[0].a[0])
            return x
        return rebuild(t, f)

    def call(self, e):
        n, a = str(e.v), e.args
        if e.pc is not TRUE and not n.endswith(("Vector::dot", "Vector::norm", "distance")):
            raise Broken("conditional " + n.split("::")[-1])
        sc = lambda t: self.resolve(t)
        if n.endswith("sparse::linear_combination"):
            r, rest, v = a[0], list(a[1:]), ZERO
            while rest:
                c = sc(rest.pop(0))
                o = rest.pop(0)
                if (fname(o) or "").endswith("constraint_coefficients"):
                    v = add(v, mul(c, self.mat(o, self.get(rest.pop(0)))))
                else:
                    v = add(v, mul(c, self.get(o)))
            self.env[r] = v
        elif n.endswith("sparse::sum") or n.endswith("sparse::subtract"):
            self.env[a[0]] = (add if n.endswith("sum") else sub)(self.get(a[1]), self.get(a[2]))
        elif n.endswith("SparseMatrix::dot"):
            if len(a) != 2:
                raise Broken("matrix product")
            self.env[a[0]] = self.mat(e.t, self.get(a[1]))
        elif n.endswith("Vector::clamp"):
            self.env[e.t] = mk("clamp", self.get(e.t), self.get(a[0]), self.get(a[1]))
        elif n.endswith("Vector::reset"):
            self.env[e.t] = ZERO
        elif n.endswith("Vector::learn"):
            o, v = self.get(e.t), self.get(a[0])
            self.env[e.t] = add(o, mul(sc(a[1]), sub(v, o)))
        elif n.endswith(("Vector::dot", "Vector::norm", "sparse::distance")):
            t = mk("call", e.v, e.t, tuple(a))
            v = self.resolve(mk("call", e.v, e.t, tuple(a))) if t not in self.seen else None
            old = self.seen.pop(t, None)
            v = self.resolve(t)
            if old is not None and old is not v:
                raise Broken("%s is read twice with different contents" % t)
            self.seen[t] = v
        elif n.endswith("sparse::dot_dot"):
            raise Broken("dot_dot")

    def group(self, es):
        """writes of one pass over the elements; values refer to the contents before the pass"""
        dom = es[0].loops[-1]
        d = self.full(dom)
        new = {}
        for e in es:
            loc, iv = e.t.a[0].a[0], e.t.a[1]
            pc, v = self.elements(e.pc, iv), self.elements(e.v, iv)
            if d is None:
                pc = and_(pc, le(dom.a[0], X), lt(X, dom.a[1]))
            elif d != self.dim(loc):
                self.ctx.ob("passes", False, "%s:%s" % (e.fn, e.line), "%s is changed over the other space's indices" % loc, key=str(loc))
            new[loc] = ite(pc, v, new.get(loc, self.get(loc)))
        self.env.update(new)

    def follow(self, E, effects=None, stop=None):
        pend = []

        def flush():
            if pend:
                self.group(pend)
                del pend[:]
        out = []
        for e in (E.effects if effects is None else effects):
            el = e.kind == "write" and e.t.op == "at" and e.t.a[0].op == "fld" and e.t.a[0].a[1] == VALS and e.t.a[1].op == "iv"
            if el and pend and pend[0].loops[-1] is e.loops[-1] and pend[0].fid == e.fid and getattr(pend[0], "lid", None) == getattr(e, "lid", None) and self.same_pass(pend[-1], e):
                pend.append(e)
                continue
            flush()
            if el:
                pend.append(e)
            elif e.kind == "call" and str(e.v).startswith(SP):
                self.call(e)
            elif e.kind == "write":
                out.append((e, self.resolve(e.pc), self.contents(e.t, e.v)))
        flush()
        return out

    def same_pass(self, a, b):
        # a later pass reads the plain contents again; one pass reads its own results
        return not contains(b.v, lambda x: x is b.t) or a.t is not b.t or contains(b.v, lambda x: x is a.v)

    def contents(self, t, v):
        if isinstance(t, T_) and v.op == "fld" and is_vec(self.ctx, v):
            self.env[t] = self.get(v)
            return self.get(v)
        return self.resolve(v)


T_ = type(ZERO)
VECTORS = {"solution", "solution_trial", "solution_average", "solution_baseline", "buffer", "lhs", "move", "direction", "reduced_cost_coefficients", "lagrangian_coefficients", "primal_initial_solution", "dual_initial_solution"}


def is_vec(ctx, t):
    return fname(t) in VECTORS


class Names:
    def __init__(self, ctx):
        m = Rec(ctx, THIS, M + "PDLPCoreStateManager")
        self.st = m("m_state", M + "PDLPCoreState")
        self.p = self.st("primal", M + "PrimalDualState")
        self.d = self.st("dual", M + "PrimalDualState")
        self.o = m("m_option", "printemps::option::Option")
        self.i = Rec(ctx, m("m_instance_ptr"), LP)
        self.c, self.b = elem(self.i("primal_objective_coefficients")), elem(self.i("dual_objective_coefficients"))
        self.A, self.AT = self.i("primal_constraint_coefficients"), self.i("dual_constraint_coefficients")
        self.xa, self.ya = elem(self.p("solution_average")), elem(self.d("solution_average"))
        self.x, self.y = elem(self.p("solution")), elem(self.d("solution"))
        self.V = Vectors(ctx, self.i("number_of_rows"), self.i("number_of_columns"))


def last(ws, t):
    """value of a member after the function"""
    v, n = None, None
    for e, pc, x in ws:
        if e.t is t:
            if e.loops:
                raise Broken("%s is written in a loop" % t)
            v = x if pc is TRUE else ite(pc, x, t if v is None else v)
            n = e
    return (t if v is None else v), n


def sums(t):
    """scalar part and, per space, the merged summand"""
    rest, parts = {}, {}
    for m, c in poly_of(t).items():
        vs = [x for x in m if x.op == "vsum"]
        if len(vs) == 1 and len(m) == 1:
            d, b = vs[0].a
            parts[d] = add(parts.get(d, ZERO), mul(num(c), b))
        else:
            rest[m] = c
    return from_poly(rest), parts


def case_same(a, b, flags, pcs=(TRUE,)):
    """equality of two elementwise values for all settings of 0/1 flags"""
    import itertools
    for vals in itertools.product((0, 1), repeat=len(flags)):
        mp = {f: num(v) for f, v in zip(flags, vals)}
        p, q = subst(a, mp), subst(b, mp)
        for pc in pcs:
            if p is not q and not same_under(p, q, pc):
                return False, p, q
    return True, None, None


# --------------------------------------------------------------------------- sections

def objectives(ctx):
    ctx.rule("the primal objective is c.x + offset and the dual objective is b.y + sum of reduced cost times the bound it meets + offset, at the averaged solutions")
    N = Names(ctx)
    f = ctx.fn1("PDLPCoreStateManager::update_objective", 0)
    E = ctx.run(f, opaque=VEC)
    ws = N.V.follow(E)
    fl = [mk("at", N.i("is_primal_upper_unbounded"), X), mk("at", N.i("is_primal_lower_unbounded"), X)]
    r = sub(N.c, mk("mat", N.AT, N.ya, X))
    r1 = ite(eq(fl[0], ONE), mm("max", r, ZERO), r)
    rc = ite(eq(fl[1], ONE), mm("min", r1, ZERO), r1)
    got = N.V.get(N.p("reduced_cost_coefficients"))
    at = mk("sym", "#r")
    hide = lambda t: rebuild(t, lambda x: squash(x, r, at))
    ok, p, q = case_same(hide(got), hide(rc), fl)
    ctx.ob("reduced-costs", ok, ctx.at(f), "the reduced cost of a column is %s instead of %s (c - A'y, without the part that meets an infinite bound)" % (str(p)[:200], str(q)[:120]), sample="r = clamp(c - A'y)")
    # objectives
    vp, e = last(ws, N.p("objective"))
    want = add(mk("vsum", "col", mul(N.c, N.xa)), N.i("objective_offset"))
    ctx.ob("primal-objective", vp is want, ctx.at(f, e), "the primal objective is %s instead of the cost of the averaged solution plus the offset" % str(vp)[:200], sample=str(want)[:100])
    vd, e = last(ws, N.d("objective"))
    rest, parts = sums(vd)
    ctx.ob("dual-objective", rest is N.i("objective_offset"), ctx.at(f, e), "besides sums the dual objective holds %s instead of the offset" % str(rest)[:160], key="offset")
    ctx.ob("dual-objective", parts.get("row", ZERO) is mul(N.b, N.ya), ctx.at(f, e), "the dual objective takes %s per row instead of right-hand side times multiplier" % str(parts.get("row"))[:160], key="rows")
    lo, hi = elem(N.i("primal_lower_bounds")), elem(N.i("primal_upper_bounds"))
    wb = ite(lt(ZERO, rc), mul(rc, lo), mul(rc, hi))
    gb = parts.get("col", ZERO)
    signs = (lt(ZERO, at), lt(at, ZERO), eq(at, ZERO))
    ok, p, q = case_same(hide(gb), hide(wb), fl, signs)
    ctx.ob("dual-objective", ok, ctx.at(f, e), "the dual objective takes %s per column instead of the reduced cost times the lower bound when positive and the upper bound when negative" % str(p)[:200], key="columns", sample="r>0: r*lower, r<0: r*upper")


def squash(x, r, at):
    """replace every multiple of r inside a polynomial"""
    if x is r:
        return at
    if x.op == "poly":
        # c*k - mat*k for a common factor k
        mats = [t for t in subterms(r) if t.op == "mat"]
        if len(mats) == 1 and any(mats[0] in m for m, c in x.a[0]):
            k = ZERO
            for m, c in x.a[0]:
                if mats[0] in m:
                    mm_ = list(m)
                    mm_.remove(mats[0])
                    v = num(-c)
                    for y in mm_:
                        v = mul(v, y)
                    k = add(k, v)
            return add(sub(x, mul(k, r)), mul(k, at))
    return x


def violations(ctx):
    ctx.rule("the primal violation is the norm of b - Ax (positive part on inequality rows), the dual violation that of c - A'y - r; relative ones are divided by one plus the norm of the right-hand side")
    N = Names(ctx)
    f = ctx.fn1("PDLPCoreStateManager::update_violation", 0)
    E = ctx.run(f, opaque=VEC)
    ws = N.V.follow(E)
    res = sub(N.b, mk("mat", N.A, N.xa, X))
    vp, e = last(ws, N.p("absolute_violation_norm"))
    body = norm_body(vp, "row")
    ctx.ob("primal-violation", body is not None, ctx.at(f, e), "the primal violation is %s instead of a norm over the rows" % str(vp)[:200], key="norm")
    if body is not None:
        at = mk("sym", "#r")
        body = rebuild(body, lambda x: squash(x, res, at))
        less, greater = N.i("less_constraint_index_range"), N.i("greater_constraint_index_range")
        dom = lambda t: and_(le(mk("get", 0, t), X), lt(X, mk("get", 1, t)))
        gs = [dom(less), dom(greater)]
        alt = [x for x in subterms(body) if x.op == "get"]
        if {x.a[1] for x in alt} - {less, greater, N.i("equal_constraint_index_range")}:
            raise Broken("row ranges %s" % sorted(map(str, alt))[:4])
        for nm, pc, want in (("<= rows", and_(gs[0], not_(gs[1])), mm("max", at, ZERO)), (">= rows", and_(gs[1], not_(gs[0])), mm("max", at, ZERO)), ("equality rows", and_(not_(gs[0]), not_(gs[1])), at)):
            v = under(body, pc)
            w = mul(want, want)
            ok = all(under(v, and_(pc, s)) is under(w, s) or same_under(under(v, s), under(w, s), and_(pc, s)) for s in (lt(at, ZERO), lt(ZERO, at), eq(at, ZERO)))
            ctx.ob("primal-violation", ok, ctx.at(f, e), "the residual counted on %s is %s, squared, instead of %s" % (nm, str(v)[:200], want), key=nm, sample="%s: %s" % (nm, want))
    vr, e = last(ws, N.p("relative_violation_norm"))
    ctx.ob("primal-violation", vr is div(vp, add(ONE, N.d("objective_coefficients_norm"))), ctx.at(f, e), "the relative primal violation is %s" % str(vr)[-200:], key="relative")
    vd, e = last(ws, N.d("absolute_violation_norm"))
    u = sub(sub(N.c, mk("mat", N.AT, N.ya, X)), elem(N.p("reduced_cost_coefficients")))
    want = sqrt(N.V.vsum("col", mul(u, u)))
    ctx.ob("dual-violation", vd is want, ctx.at(f, e), "the dual violation is %s instead of the norm of c - A'y - r" % str(vd)[:260], key="norm", sample="norm(c - A'y - r)")
    vr, e = last(ws, N.d("relative_violation_norm"))
    ctx.ob("dual-violation", vr is div(vd, add(ONE, N.p("objective_coefficients_norm"))), ctx.at(f, e), "the relative dual violation is %s" % str(vr)[-200:], key="relative")


def norm_body(v, d):
    if v.op == "call" and v.a[0] == "sqrt":
        rest, parts = sums(v.a[2][0])
        if rest is ZERO and set(parts) == {d}:
            return parts[d]
    return None


def gap(ctx):
    ctx.rule("the gap is the distance of the two objectives, the relative one divided by one plus both magnitudes; all three groups of figures are refreshed together, objectives first")
    N = Names(ctx)
    f = ctx.fn1("PDLPCoreStateManager::update_gap", 0)
    E = ctx.run(f, opaque=VEC)
    ws = N.V.follow(E)
    po, do = N.p("objective"), N.d("objective")
    g, e = last(ws, N.st("absolute_gap"))
    from terms import abs_
    a = abs_(sub(po, do))
    ctx.ob("gap", g is a or g is abs_(sub(do, po)), ctx.at(f, e), "the gap is %s" % str(g)[:160], key="absolute", sample=str(a))
    r, e = last(ws, N.st("relative_gap"))
    den = add(add(ONE, abs_(po)), abs_(do))
    ctx.ob("gap", r is div(g, den), ctx.at(f, e), "the relative gap is %s instead of the gap over %s" % (str(r)[:200], den), key="relative", sample=str(den))
    f = ctx.fn1("PDLPCoreStateManager::update_convergence_information", 0)
    E = ctx.run(f, opaque=("update_objective", "update_violation", "update_gap"))
    cs = [(callee(e), e.pc) for e in E.effects if e.kind == "call"]
    names = [c for c, _ in cs]
    for n in ("update_objective", "update_violation", "update_gap"):
        ctx.ob("refresh", names.count(n) >= 1 and all(pc is TRUE for c, pc in cs if c == n), ctx.at(f), "%s is not called on every refresh" % n, key=n)
    for n in ("update_violation", "update_gap"):
        if n in names and "update_objective" in names:
            ctx.ob("refresh", names.index("update_objective") < len(names) - 1 - names[::-1].index(n), ctx.at(f), "%s comes before the objectives and reduced costs it uses" % n, key="order " + n)


def step(ctx):
    ctx.rule("a step moves x along the negative and y along the positive gradient of the Lagrangian, projected onto the bounds, with the reflected x in the dual step, and is taken only below the step size limit")
    N = Names(ctx)
    f = ctx.fn1("PDLPCoreStateManager::update_solution", 0)
    E = ctx.run(f, opaque=VEC, inline=("compute_weighted_norm",))
    pre = [e for e in E.effects if not e.loops]
    body = [e for e in E.effects if e.loops and e.loops[0].op == "whl"]
    tops = {e.loops[0] for e in body}
    ctx.need(len(tops) == 1, "one trial loop")
    V = N.V
    V.follow(E, pre)
    targets = set()
    for e in body:
        if e.kind == "call" and str(e.v).startswith(SP):
            n = str(e.v)
            if n.endswith(("linear_combination", "sparse::sum", "subtract", "SparseMatrix::dot")):
                targets.add(e.args[0])
            elif n.endswith(("clamp", "reset", "learn")):
                targets.add(e.t)
    for t in targets:
        V.env[t] = mk("at", mk("carried", t), X)
    ws = V.follow(E, body)
    xs, ys = N.p("solution"), N.d("solution")
    acc = [w for w in ws if w[0].t is xs]
    accd = [w for w in ws if w[0].t is ys]
    ctx.need(len(acc) == 1 and len(accd) == 1, "one acceptance")
    e, pc, v = acc[0]
    ed, pcd, vd = accd[0]
    ctx.ob("acceptance", pc is pcd, ctx.at(f, ed), "primal and dual solution are accepted under different conditions: %s" % str(pcd)[:200], key="together")
    # step size of this trial
    taus = [t for t in subterms(v) if t.op == "phi"]
    if len(taus) != 1:
        taus = [w[2] for w in ws if w[0].t is N.st("step_size_previous")]
        if len(taus) != 1:
            raise Broken("step size")
    tau = taus[0]
    w = N.st("primal_weight")
    lo, hi = elem(N.i("primal_lower_bounds")), elem(N.i("primal_upper_bounds"))
    ps = div(tau, w)
    x, y = N.x, N.y
    lhs = mk("mat", N.AT, y, X)
    raw = add(sub(x, mul(ps, N.c)), mul(ps, lhs))
    xt = mk("clamp", raw, lo, hi)
    ctx.ob("primal-step", v is xt, ctx.at(f, e), "the accepted x is %s instead of %s" % (str(v)[:300], str(xt)[:240]), sample=str(xt)[:160])
    ds = mul(tau, w)
    refl = sub(mul(num(2), xt), x)
    dlo, dhi = elem(N.i("dual_lower_bounds")), elem(N.i("dual_upper_bounds"))
    yt = mk("clamp", sub(add(y, mul(ds, N.b)), mul(ds, V.mat(N.A, refl))), dlo, dhi)
    ctx.ob("dual-step", vd is yt, ctx.at(f, ed), "the accepted y is %s instead of %s" % (str(vd)[:300], str(yt)[:240]), sample=str(yt)[:160])
    # limit
    dx, dy = sub(xt, x), sub(yt, y)
    xn, yn = V.vsum("col", mul(dx, dx)), V.vsum("row", mul(dy, dy))
    move2 = add(mul(w, xn), mul(div(ONE, w), yn))
    from terms import abs_
    inter = abs_(V.vsum("row", mul(dy, V.mat(N.A, dx))))
    eps = const_value(ctx.P, "printemps::constant::EPSILON")
    ctx.need(eps is not None, "EPSILON")
    small = not_(lt(eps, inter))
    lim = mul(num(0.5), div(move2, inter))
    ok1 = squares(under(pc, not_(small)))
    want = lt(tau, lim)
    ctx.ob("limit", ok1 is want or same_bool(ok1, want), ctx.at(f, e), "with interaction a step is accepted when %s instead of when it is below half the squared weighted move over the interaction" % str(ok1)[:300], key="limit", sample="tau < 0.5*||move||^2/|dy.A dx|")
    st, n = None, 0
    for e2, pc2, v2 in ws:
        if e2.t is N.st("step_size_previous"):
            ctx.ob("acceptance", pc2 is pc and v2 is tau, ctx.at(f, e2), "the step size recorded for the averages is %s instead of the accepted one" % str(v2)[:160], key="recorded")
            n += 1
    ctx.ob("acceptance", n == 1, ctx.at(f), "the accepted step size is recorded %d times" % n, key="recorded once")
    rets = [z for z in E.effects if z.kind in ("ret", "break", "loopexit") and z.loops]
    ctx.ob("acceptance", bool(rets) and all(V.resolve(z.pc) is pc for z in rets if z.kind == "ret"), ctx.at(f), "the trials end under another condition than acceptance", key="ends")


def same_bool(a, b):
    try:
        return safe_equiv(a, b)
    except Exception:
        return False


def averages(ctx):
    ctx.rule("the reported solutions are the averages of the iterates weighted by their step sizes; a restart continues from the chosen candidate on both sides")
    N = Names(ctx)
    f = ctx.fn1("PDLPCoreStateManager::update_averaged_solution", 0)
    E = ctx.run(f, opaque=VEC)
    ws = N.V.follow(E)
    cum, prev = N.st("step_size_cumulative_sum"), N.st("step_size_previous")
    v, e = last(ws, cum)
    tot = add(cum, prev)
    ctx.ob("average", v is tot, ctx.at(f, e), "the total step size becomes %s instead of growing by the last step" % str(v)[:160], key="total", sample=str(tot))
    rate = div(prev, tot)
    for side, avg, cur in (("x", N.p("solution_average"), N.x), ("y", N.d("solution_average"), N.y)):
        want = add(elem(avg), mul(rate, sub(cur, elem(avg))))
        got = N.V.get(avg)
        ctx.ob("average", got is want, ctx.at(f), "the average of %s becomes %s instead of moving towards the last iterate by its share of the step sizes" % (side, str(got)[:240]), key=side, sample=str(want)[:120])
    f = ctx.fn1("PDLPCoreStateManager::update_restart_solution", 0)
    E = ctx.run(f, opaque=VEC)
    for side in (N.p, N.d):
        t, c = side("solution"), side("solution_restart_candidate_ptr")
        w = [e for e in E.effects if e.kind == "write" and e.t is t]
        ctx.ob("restart", len(w) == 1 and w[0].pc is TRUE and w[0].v in (c, mk("deref", c)), ctx.at(f), "%s does not restart from its own candidate" % t, key=str(t))
    f = ctx.fn1("PDLPCoreStateManager::setup_new_inner_loop", 0)
    E = ctx.run(f, opaque=VEC)
    for side in (N.p, N.d):
        t = side("solution_average")
        again = not_(eq(N.st("outer_iteration"), ZERO))
        w = [e for e in E.effects if e.kind == "write" and e.t is t]
        ok = len(w) >= 1 and w[-1].v is side("solution") and (w[-1].pc is TRUE or safe_implies(again, w[-1].pc))
        ctx.ob("restart", ok, ctx.at(f), "after a restart the average does not start from the restart solution", key="avg" + str(t))
        t = side("solution_baseline")
        w = [e for e in E.effects if e.kind == "write" and e.t is t]
        ctx.ob("restart", len(w) == 1 and w[0].pc is TRUE and w[0].v is side("solution"), ctx.at(f), "%s is not the solution the loop starts from" % t, key="base" + str(t))
    f = ctx.fn1("PDLPCoreStateManager::update_restart_information", 0)
    E = ctx.run(f, opaque=VEC + ("compute_normalized_gap", "compute_weighted_norm"))
    ws = {}
    for e in E.effects:
        if e.kind == "write" and fname(e.t) == "solution_restart_candidate_ptr":
            ws.setdefault(e.t, []).append(e)
    pairs = []
    for side in (N.p, N.d):
        es = ws.get(side("solution_restart_candidate_ptr"), [])
        ctx.need(es, "restart candidates")
        for e in es:
            v = e.v.a[0] if e.v.op in ("addr", "ref") else e.v
            ctx.ob("restart", v in (side("solution"), side("solution_average")), ctx.at(f, e), "the restart candidate is %s" % str(v)[:120], key="cand%s%s" % (side.base, v))
            pairs.append((side.base, fname(v), e.pc))
    for a in pairs:
        if a[0] is N.p.base:
            ctx.ob("restart", any(b[0] is N.d.base and b[1] == a[1] and b[2] is a[2] for b in pairs), ctx.at(f), "primal and dual restart from different kinds of candidates", key="pair" + str(a[1]))


def start(ctx):
    ctx.rule("a run starts from the instance's initial solutions with the norms of its coefficient vectors and the interval its objective can take")
    N = Names(ctx)
    f = ctx.fn1("PDLPCoreStateManager::setup", 2)
    E = ctx.run(f, opaque=VEC + ("setup_initial_step_size", "setup_initial_primal_weight", "PDLPCoreStateManager::initialize"))
    inst = Rec(ctx, mk("sym", "$0"), LP)
    by = {}
    for e in E.effects:
        if e.kind == "write":
            by.setdefault(str(e.t), []).append(e)

    def lastw(t):
        w = by.get(str(t))
        return w[-1] if w else None

    def sname(v):
        return str(v).split(".")[-1] if "norm()" not in str(v) else ".".join(str(v).split(".")[-2:])
    for side, nm in ((N.p, "primal"), (N.d, "dual")):
        for m in ("solution", "solution_average"):
            w = lastw(side(m))
            ctx.ob("start", w is not None and w.pc is TRUE and fname(w.v) == nm + "_initial_solution", ctx.at(f, w), "%s starts from %s" % (side(m), w.v if w else None), key=nm + m)
        w = lastw(side("objective_coefficients_norm"))
        ctx.ob("start", w is not None and w.pc is TRUE and sname(w.v) == nm + "_objective_coefficients.norm()", ctx.at(f, w), "%s is %s" % (side("objective_coefficients_norm"), str(w.v)[:160] if w else None), key=nm + "norm")
    lo, up = N.p("objective_lower_bound"), N.p("objective_upper_bound")
    for t, pos, neg_ in ((lo, "primal_lower_bounds", "primal_upper_bounds"), (up, "primal_upper_bounds", "primal_lower_bounds")):
        ws = by.get(str(t), [])
        ini = [e for e in ws if not e.loops]
        ac = [e for e in ws if e.loops]
        if len(ini) == 1 and ini[0].v.op != "sum" and ac:
            ctx.ob("range", fname(ini[0].v) == "objective_offset", ctx.at(f, ini[0]), "%s starts at %s instead of the objective's offset" % (t, ini[0].v), key="zero" + str(t))
            d = ac[0].loops[-1]
            ctx.ob("range", all(e.loops[-1] is d for e in ac) and d.op == "idx" and d.a[0] is ZERO and fname(d.a[1]) == "number_of_columns", ctx.at(f, ac[0]), "%s sums over %s" % (t, d), key="dom" + str(t))
            total = [(e.pc, increment(e)) for e in ac]
        elif len(ini) >= 1 and [x for x in subterms(ini[-1].v) if x.op == "sum"]:
            d = poly_of(ini[-1].v)
            sm = [m for m, c in d.items() if len(m) == 1 and c == 1 and m[0].op == "sum"]
            ctx.need(len(sm) == 1, "one sum")
            s = sm[0][0]
            del d[sm[0]]
            ctx.ob("range", fname(from_poly(d)) == "objective_offset", ctx.at(f, ini[-1]), "%s starts at %s instead of the objective's offset" % (t, from_poly(d)), key="zero" + str(t))
            total = [(TRUE, s.a[2])]
        else:
            raise Broken("objective range")
        cs = [x for p, v in total for x in subterms(v) | subterms(p) if x.op == "at" and "primal_objective_coefficients" in str(x)]
        ctx.need(len(set(cs)) == 1, "one coefficient")
        c = cs[0]
        for nm, s, want in (("positive", lt(ZERO, c), pos), ("negative", lt(c, ZERO), neg_)):
            v = ZERO
            for p, x in total:
                q = under(p, s)
                if q is TRUE or safe_implies(s, p):
                    v = add(v, under(x, s))
                elif safe_sat(and_(s, p)):
                    raise Broken("range under %s" % p)
            bs = [x for x in subterms(v) if x.op == "at" and x is not c]
            ctx.ob("range", len(bs) == 1 and want in str(bs[0]) and bs[0].a[1] is c.a[1] and v is mul(c, bs[0]), ctx.at(f), "for a %s cost %s takes %s instead of cost times %s" % (nm, fname(t), str(v)[:140], want), key=str(t) + nm, sample="%s: %s" % (fname(t), want))


def increment(e):
    d = poly_of(e.v)
    own = [m for m, c in d.items() if len(m) == 1 and c == 1 and m[0].op == "fld" and fname(m[0]) == fname(e.t)]
    if len(own) != 1:
        raise Broken("accumulation of " + str(e.t))
    del d[own[0]]
    return from_poly(d)


def verdicts(ctx):
    ctx.rule("OPTIMAL is reported exactly when both relative violations and the relative gap are within the tolerance, INFEASIBLE only when the dual is feasible and its objective lies above everything the primal objective can take")
    core = Rec(ctx, THIS, M + "PDLPCore")
    mgr = core("m_state_manager", M + "PDLPCoreStateManager")
    st = mgr("m_state", M + "PDLPCoreState")
    p, d = st("primal", M + "PrimalDualState"), st("dual", M + "PrimalDualState")
    o = core("m_option", "printemps::option::Option")
    tol = Rec(ctx, o("pdlp"), "printemps::option::PDLPOption")("tolerance")
    sts = st("termination_status")
    ok = and_(le(p("relative_violation_norm"), tol), le(d("relative_violation_norm"), tol), le(st("relative_gap"), tol))
    verdict(ctx, "satisfy_optimal_terminate_condition", sts, "OPTIMAL", ok, ok)
    nec = and_(le(d("relative_violation_norm"), tol), lt(p("objective_upper_bound"), d("objective")))
    verdict(ctx, "satisfy_infeasible_terminate_condition", sts, "INFEASIBLE", nec, None)


def verdict(ctx, n, sts, name, need, suff):
    f = ctx.fn1("PDLPCore::" + n, 0)
    E = ctx.run(f, inline=("set_termination_status", "PDLPCoreStateManager::state"))
    w = [e for e in E.effects if e.kind == "write" and e.t is sts]
    ctx.need(w, "status")
    for e in w:
        ctx.ob("verdict", str(e.v).endswith("::" + name), ctx.at(f, e), "%s sets %s" % (n, e.v), key=n + "name")
        ctx.ob("verdict", safe_implies(e.pc, need), ctx.at(f, e), "%s is reported when %s, which does not imply %s" % (name, str(e.pc)[:240], str(need)[:240]), key=n + "only")
        if suff is not None:
            ctx.ob("verdict", safe_implies(suff, or_(*[x.pc for x in w])), ctx.at(f, e), "%s is not reported although %s" % (name, str(suff)[:240]), key=n + "if")
    tr = [e for e in E.effects if e.kind == "ret" and e.v is not None]
    T = or_(*[and_(e.pc, e.v if e.v.op != "n" else (TRUE if e.v.a[0] else FALSE)) for e in tr]) if tr else FALSE
    W = or_(*[x.pc for x in w])
    ctx.ob("verdict", T is W or same_bool(T, W), ctx.at(f), "%s answers %s but sets the status when %s" % (n, str(T)[:160], str(W)[:160]), key=n + "answer")


# --------------------------------------------------------------------------- vector operations

def total_element(ctx, f, E, target):
    """value of element #0 of the result after all writes"""
    val, dom = None, None
    for e in E.effects:
        if e.kind != "write" or not (e.t.op == "at" and e.t.a[0] is target):
            continue
        if e.pc is not TRUE and safe_sat(not_(e.pc)):
            pcs = {x.pc for x in E.effects if x.kind == "write" and x.t.op == "at" and x.t.a[0] is target}
            if len(pcs) != 1:
                raise Broken("conditional element")
        if e.t.a[1] is not mk("iv", 0):
            raise Broken("element " + str(e.t))
        if dom is not None and e.loops[0] is not dom:
            raise Broken("several passes")
        dom = e.loops[0]
        if len(e.loops) == 1:
            v = e.v
            if contains(v, lambda x: x is e.t):
                v = subst(v, {e.t: val}) if val is not None else v
            val = v
        elif len(e.loops) == 2:
            inc = sub(e.v, e.t)
            if contains(inc, lambda x: x is e.t):
                raise Broken("accumulation")
            if val is None:
                val = e.t
            val = add(val, linear2(e.loops[1], inc))
        else:
            raise Broken("nested")
    if val is None:
        raise Broken("no element is written")
    val = rebuild(val, lambda x: linear2(x.a[0], x.a[2]) if x.op == "sum" and x.a[0].op == "idx" else x)
    return val, dom


def linear2(dom, t):
    acc = ZERO
    iv = mk("iv", 1)
    for m, c in poly_of(t).items():
        inn = [x for x in m if contains(x, lambda y: y is iv)]
        out = [x for x in m if not contains(x, lambda y: y is iv)]
        v = num(c)
        for x in out:
            v = mul(v, x)
        b = ONE
        for x in inn:
            b = mul(b, x)
        acc = add(acc, mul(v, mk("sum2", dom, b)))
    return acc


def operations(ctx):
    ctx.rule("the vector operations compute, for every element, the sum, difference, linear combination and distance they name")
    P = ctx.P
    iv = mk("iv", 0)
    arg = lambda k: mk("arg", k)

    def el(k):
        return mk("at", mk("fld", params[k], VALS), iv)
    for nm in ("sparse::sum", "sparse::subtract", "sparse::linear_combination"):
        fs = [f for f in P.find(nm) if f["n"].startswith(SP)]
        ctx.need(fs, nm)
        for f in fs:
            ty = [p["t"] for p in f["p"]]
            if any("std::vector" in t for t in ty):
                continue
            E = ctx.run(f)
            params = {k: find_param(E, k) for k in range(len(ty))}
            if any(v is None for v in params.values()):
                miss = [k for k, v in params.items() if v is None]
                ctx.ob("vectors", False, ctx.at(f), "%s ignores operand %s" % (nm.split("::")[-1], miss), key=nm + str(len(ty)))
                continue
            val, dom = total_element(ctx, f, E, mk("fld", params[0], VALS))
            k, want, sizes = 1, ZERO, []
            if nm != "sparse::linear_combination":
                want = (add if nm.endswith("sum") else sub)(el(1), el(2))
                sizes = [1, 2, 0]
            else:
                while k < len(ty):
                    c = params[k]
                    if "SparseMatrix" in ty[k + 1]:
                        A = params[k + 1]
                        fl = lambda n: mk("fld", A, SP + "SparseMatrix::" + n)
                        j = mk("iv", 1)
                        d = mk("idx", mk("at", fl("row_ptrs"), iv), mk("at", fl("row_ptrs"), add(iv, ONE)))
                        t = mul(mk("at", fl("values"), j), mk("at", mk("fld", params[k + 2], VALS), mk("at", fl("column_indices"), j)))
                        want = add(want, mul(c, mk("sum2", d, t)))
                        sizes.append(("rows", A))
                        k += 3
                    else:
                        want = add(want, mul(c, el(k + 1)))
                        sizes.append(k + 1)
                        k += 2
            ctx.ob("vectors", val is want, ctx.at(f), "an element of the result is %s instead of %s" % (str(val)[:200], str(want)[:200]), key=nm + str(ty)[-60:] + str(len(ty)), sample=str(want)[:120])
            lo, hi = dom.a if dom.op == "idx" else (None, None)
            okd = lo is ZERO and not any(m != () and len(m) > 1 for m in poly_of(hi)) and ("size()" in str(hi) or "number_of_rows" in str(hi)) and hi.op != "poly"
            ctx.ob("vectors", okd, ctx.at(f), "the elements computed are %s instead of all of them" % dom, key=nm + "dom" + str(len(ty)))
    f = ctx.fn1("sparse::Vector::learn", 2)
    E = ctx.run(f)
    a, r = find_param(E, 0), find_param(E, 1)
    ctx.need(a is not None and r is not None, "operands of learn")
    val, dom = total_element(ctx, f, E, mk("fld", THIS, VALS))
    me, him = mk("at", mk("fld", THIS, VALS), iv), mk("at", mk("fld", a, VALS), iv)
    want = add(me, mul(r, sub(him, me)))
    ctx.ob("vectors", val is want, ctx.at(f), "learning makes an element %s instead of %s" % (str(val)[:160], want), key="learn", sample=str(want))
    ctx.ob("vectors", dom.op == "idx" and dom.a[0] is ZERO and "size()" in str(dom.a[1]) and dom.a[1].op != "poly", ctx.at(f), "the elements learnt are %s" % dom, key="learndom")
    f = ctx.fn1("sparse::distance", 2)
    E = ctx.run(f)
    v = squares(E.ret)
    if v.op == "call" and v.a[0] == "sqrt" and v.a[2][0].op == "sum":
        s = v.a[2][0]
        u, w = (mk("at", mk("fld", find_param(E, k), VALS), iv) for k in (0, 1))
        df = sub(u, w)
        ctx.ob("vectors", s.a[2] is mul(df, df) and s.a[0].a[0] is ZERO, ctx.at(f), "the distance sums %s" % str(s)[:160], key="distance", sample="sqrt(sum (a-b)^2)")
    elif v.op == "call" and v.a[0] == "sqrt":
        raise Broken("distance")
    else:
        ctx.ob("vectors", False, ctx.at(f), "the distance is %s" % str(v)[:160], key="distance")


def find_param(E, k):
    n = "$%d" % k
    for e in E.effects:
        for t in [e.t, e.v, e.pc] + list(e.loops):
            if isinstance(t, T_):
                for x in subterms(t):
                    if str(x) == n:
                        return x
    if isinstance(E.ret, T_):
        for x in subterms(E.ret):
            if str(x) == n:
                return x
    return None


def run(ctx):
    for s in (objectives, violations, gap, step, averages, start, verdicts, operations):
        ctx.section(s)
