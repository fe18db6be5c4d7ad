"""P17: expression and constraint operators follow linear algebra.

Every instantiated operator is evaluated over abstract expression values: a value is a pair (linear part, constant), both formal
sums of operand atoms, possibly indexed by a loop over the elements of a proxy.  Calls of other operators inside a body count as
what they are specified to compute; each of them has an obligation of its own."""
from common import *

MC = "printemps::model_component::"
EXPR = MC + "Expression"
SENS, CONST = EXPR + "::m_sensitivities", EXPR + "::m_constant_value"
OPS = ("operator+", "operator-", "operator*", "operator/")
LIKE = tuple(MC + n for n in ("Expression", "Variable", "VariableProxy", "ExpressionProxy"))
NUMERIC = ("int", "double")
S0, S1 = mk("sym", "$0"), mk("sym", "$1")
ELEMS = {"VariableProxy": (MC + "VariableProxy::m_variables", "Variable"), "ExpressionProxy": (MC + "ExpressionProxy::m_expressions", "Expression")}


class Val:
    """lin: {(loops, guard, operand): coefficient}, con: {(loops, guard): scalar}"""

    def __init__(s, lin=(), con=()):
        s.lin, s.con = dict(lin), dict(con)

    def put(s, d, k, v):
        v = add(d[k], v) if k in d else v
        if v is ZERO:
            d.pop(k, None)
        else:
            d[k] = v

    def plus(s, o, c=ONE):
        r = Val(s.lin, s.con)
        for k, v in o.lin.items():
            r.put(r.lin, k, mul(c, v))
        for k, v in o.con.items():
            r.put(r.con, k, mul(c, v))
        return r

    def scaled(s, c):
        return Val().plus(s, c)

    def divided(s, c):
        return Val({k: quot(v, c) for k, v in s.lin.items()}, {k: quot(v, c) for k, v in s.con.items()})

    def summed(s, loops, guard):
        if not loops and guard is TRUE:
            return s
        if any(k[0] for k in list(s.lin) + list(s.con)):
            raise Broken("nested sums")
        return Val({(loops, guard, k[2]): v for k, v in s.lin.items()}, {(loops, guard): v for k, v in s.con.items()})

    def __eq__(s, o):
        return s.lin == o.lin and s.con == o.con

    def __repr__(s):
        def sh(k):
            return "".join("sum over %s: " % (l,) for l in k[0]) + ("" if k[1] is TRUE else "[if %s] " % k[1])
        return " + ".join(["%s%s*%s" % (sh(k), v, k[2]) for k, v in s.lin.items()] + ["%s%s" % (sh(k), v) for k, v in s.con.items()]) or "0"


def quot(v, c):
    """v / c, distributed over sums so that equal quotients are equal terms"""
    r = ZERO
    for m, k in poly_of(v).items():
        r = add(r, div(from_poly({m: k}), c))
    return r


def dist(t):
    """distribute real divisions inside t"""
    hits = {x: quot(x.a[0], x.a[1]) for x in subterms(t) if x.op == "div"}
    return subst(t, hits) if any(k is not v for k, v in hits.items()) else t


def atom(a):
    return Val({((), TRUE, a): ONE}, {((), TRUE): mk("fld", a, CONST)})


def scalar(t):
    return Val({}, {} if t is ZERO else {((), TRUE): t})


class Bodies:
    """abstract run of one function body from its recorded effects"""

    def __init__(self, ctx, f, E):
        self.ctx, self.f, self.E = ctx, f, E
        self.env, self.maps, self.vecs = {}, {}, {}
        self.types = {"$%d" % i: p["t"] for i, p in enumerate(f["p"])}
        rets = [e for e in E.effects if e.kind == "ret"]
        self.pc = or_(*[e.pc for e in rets]) if rets else TRUE
        self.rets = rets
        for e in order(E.effects):
            if e.kind in ("throw", "ret", "break", "continue", "loopexit"):
                continue
            if not safe_sat(and_(e.pc, self.pc)):
                continue
            self.step(e)

    # ---- values
    def is_operand(self, t):
        if t is THIS:
            return True
        if t.op == "sym":
            ty = self.types.get(t.a[0])
            return ty is not None and ty.rstrip("*& ") in LIKE
        if t.op == "at":
            b = t.a[0]
            return b.op == "fld" and b.a[1] in [v[0] for v in ELEMS.values()] or b in self.vecs
        if t.op == "call" and t.a[0].split("::")[-1] in ("sum", "dot"):
            return True
        return False

    def value(self, t):
        if t in self.env:
            return self.env[t]
        if t.op == "call":
            n, recv, args = t.a[0].split("::")[-1], t.a[1], t.a[2]
            if n == "create_instance":
                if not args:
                    return Val()
                if len(args) == 2:
                    return self.linear(args[0]).plus(self.constant(args[1]))
                if len(args) == 1:
                    return self.value(args[0])
            if n in ("to_expression", "copy", "self") and not args:
                return self.value(recv)
            if n in OPS and recv is not None and recv.op != "none" and not args:
                return self.value(recv) if n == "operator+" else self.value(recv).scaled(num(-1))
            if n in OPS and len(args) == 2:
                return self.binary(n, self.operand(args[0]), self.operand(args[1]))
        if t.op == "ctor" and t.a[0] == EXPR:
            a = t.a[1]
            if not a:
                return Val()
            if len(a) == 1:
                return self.value(a[0])
            if len(a) == 2:
                return self.linear(a[0]).plus(self.constant(a[1]))
        if self.is_operand(t):
            return atom(t)
        raise Broken("expression value %s" % str(t)[:80])

    def operand(self, t):
        """(Val, None) or (None, scalar)"""
        try:
            return self.value(t), None
        except Broken:
            if any(x.op in ("call", "ctor") and ("operator" in str(x.a[0]) or x.a[0] == EXPR) for x in subterms(t)):
                raise
            return None, self.scal(t)

    def binary(self, n, l, r):
        if n in ("operator+", "operator-"):
            sg = ONE if n == "operator+" else num(-1)
            lv = l[0] if l[0] is not None else scalar(l[1])
            rv = r[0] if r[0] is not None else scalar(r[1])
            return lv.plus(rv, sg)
        if n == "operator*":
            if l[0] is not None and r[0] is None:
                return l[0].scaled(r[1])
            if r[0] is not None and l[0] is None:
                return r[0].scaled(l[1])
        if n == "operator/" and l[0] is not None and r[0] is None:
            return l[0].divided(r[1])
        raise Broken("operands of %s" % n)

    def linear(self, s):
        """the linear part a sensitivity map stands for"""
        if s in self.maps:
            v = Val()
            for loops, g, k, c in self.maps[s]:
                one = Val({((), TRUE, k): c})
                v = v.plus(one.summed(loops, g))
            return v
        if s.op == "fld" and s.a[1] == SENS:
            return Val(self.value(s.a[0]).lin)
        if s.op == "ctor" and "unordered_map" in str(s.a[0]) and not [x for x in s.a[1] if not (x.op == "ctor" and not x.a[1])]:
            return Val()
        raise Broken("sensitivities %s" % str(s)[:80])

    def constant(self, t):
        c = self.const_of(t)
        return c if c is not None else scalar(self.scal(t))

    def const_of(self, t):
        if t.op == "fld" and t.a[1] == CONST:
            return Val({}, self.value(t.a[0]).con)
        return None

    def scal(self, t):
        """a scalar term; constants of known expression values are expanded"""
        def f(x):
            if x.op == "fld" and x.a[1] == CONST:
                v = self.value(x.a[0])
                if any(k[0] for k in v.con):
                    raise Broken("constant of a sum")
                r = ZERO
                for c in v.con.values():
                    r = add(r, c)
                return r
            return None
        cands = [x for x in subterms(t) if x.op == "fld" and x.a[1] == CONST]
        hits = {x: f(x) for x in cands if not any(y is not x and contains(y, lambda z: z is x) for y in cands)}
        return dist(subst(t, hits) if hits else t)

    # ---- effects
    def rel(self, e):
        known = set(conj_atoms(self.pc))
        return and_(*[c for c in conj_atoms(e.pc) if c not in known])

    def target(self, t):
        return t in self.env or t is THIS and self.f.get("cls") == EXPR or t.op == "at" and self.is_operand(t) and not index_syms(t)

    def through(self, loops, g, val):
        """replace a loop over a local vector by the loop that filled it"""
        if not loops:
            return loops, g, val
        if len(loops) != 1:
            return loops, g, val
        d = loops[0]
        for v, pushes in self.vecs.items():
            if str(d) == "idx(0, %s.size())" % v:
                if len(pushes) != 1:
                    raise Broken("a vector with %d push sites" % len(pushes))
                pl, pg, pv = pushes[0]
                if len(pl) != 1:
                    raise Broken("pushes under %d loops" % len(pl))
                hits = {x for k in val.lin for x in subterms(k[2]) if x.op == "at" and x.a[0] is v}
                if len(hits) != 1:
                    raise Broken("elements of a filtered vector")
                hit, = hits
                lin = {}
                for k, c in val.lin.items():
                    a = subst(k[2], {hit: pv})
                    if a is k[2] or contains(a, lambda x: x is v):
                        raise Broken("element of a filtered vector")
                    lin[((), TRUE, a)] = rank(c, v, hit, pv)
                con = {((), TRUE): rank(c, v, hit, pv) for k, c in val.con.items()}
                return pl, and_(g, pg), Val(lin, con)
        return loops, g, val

    def add_to(self, t, e, val):
        g = self.rel(e)
        loops, g, val = self.through(e.loops, g, val)
        if not e.loops and g is not TRUE:
            raise Broken("conditional change of an expression")
        base = self.env.get(t)
        if base is None:
            base = atom(t)
        self.env[t] = base.plus(val.summed(loops, g))

    def plain(self, e):
        if e.loops or self.rel(e) is not TRUE:
            raise Broken("conditional assignment of an expression")

    def cur(self, t):
        return self.env.get(t) or (self.env[t] if t in self.env else atom(t))

    def step(self, e):
        if e.kind == "init":
            v = e.v
            if v is None:
                return
            if v.op == "ctor" and "unordered_map" in str(v.a[0]):
                self.maps[e.t] = []
            elif v.op == "ctor" and "vector" in str(v.a[0]):
                self.vecs[e.t] = []
            else:
                try:
                    self.env[e.t] = self.value(v)
                except Broken:
                    pass
            return
        if e.kind == "call":
            n = callee(e)
            t = e.t
            if t is None:
                return
            if t in self.vecs:
                if n in ("push_back", "emplace_back"):
                    self.vecs[t].append((e.loops, self.rel(e), e.args[0]))
                    return
                if n in ("reserve", "size"):
                    return
                raise Broken("%s on a local vector" % n)
            if t in self.maps:
                if n in ("emplace", "insert_or_assign", "try_emplace") and len(e.args) == 2:
                    self.maps[t].append((*self.map_entry(e, e.args[0], e.args[1]),))
                    return
                if n in ("reserve", "size"):
                    return
                raise Broken("%s on a local map" % n)
            if self.target(t) and e.v.startswith(EXPR + "::"):
                if n in ("operator+=", "operator-="):
                    v, s = self.operand(e.args[0])
                    v = v if v is not None else scalar(s)
                    self.add_to(t, e, v.scaled(ONE if n == "operator+=" else num(-1)))
                elif n in ("operator*=", "operator/="):
                    self.plain(e)
                    s = self.scal(e.args[0])
                    self.env[t] = (self.cur(t).scaled(s) if n == "operator*=" else self.cur(t).divided(s))
                elif n == "operator=":
                    self.plain(e)
                    v, s = self.operand(e.args[0])
                    self.env[t] = v if v is not None else scalar(s)
                elif n == "set_sensitivities":
                    self.plain(e)
                    self.env[t] = Val(self.linear(e.args[0]).lin, self.cur(t).con)
                elif n == "initialize":
                    self.plain(e)
                    self.env[t] = Val()
            elif t.op == "fld" and t.a[1] == SENS and self.target(t.a[0]):
                self.plain(e)
                if n == "clear":
                    self.env[t.a[0]] = Val({}, self.cur(t.a[0]).con)
                elif n == "operator=":
                    self.env[t.a[0]] = Val(self.linear(e.args[0]).lin, self.cur(t.a[0]).con)
                elif n not in ("reserve", "size", "begin", "end", "find"):
                    raise Broken("%s on sensitivities" % n)
            return
        if e.kind == "write":
            t = e.t
            if t.op == "at" and t.a[0] in self.maps:
                self.maps[t.a[0]].append(self.map_entry(e, t.a[1], e.v))
            elif t.op == "at" and t.a[0] in self.vecs:
                raise Broken("element write in a local vector")
            elif self.target(t):
                self.plain(e)
                self.env[t] = self.value(e.v)
            elif t.op == "fld" and t.a[1] == SENS and self.target(t.a[0]):
                self.plain(e)
                self.env[t.a[0]] = Val(self.linear(e.v).lin, self.cur(t.a[0]).con)
            elif t.op == "fld" and t.a[1] == CONST and self.target(t.a[0]):
                self.plain(e)
                c = self.constant(e.v)
                self.env[t.a[0]] = Val(self.cur(t.a[0]).lin, c.con)
            elif t.op == "get" and any(x.op == "fld" and x.a[1] == SENS and self.target(x.a[0]) for x in subterms(t)):
                x = [x for x in subterms(t) if x.op == "fld" and x.a[1] == SENS and self.target(x.a[0])][0]
                whole = len(e.loops) == 1 and str(e.loops[0]) == "idx(0, %s.size())" % x and self.rel(e) is TRUE and str(t) == "get(1, %s[#0])" % x
                if not whole:
                    self.ctx.ob("scales-all-terms", False, self.ctx.at(self.f, e), "%s does not treat every term of the expression alike (%s)" % (sig(self.f), e))
                    raise Broken("partial scaling")
                v = self.cur(x.a[0])
                out = {}
                for k, w in v.lin.items():
                    out[k] = dist(subst(self.scal(e.v), {t: w}))
                if subst(e.v, {t: ZERO}) is not ZERO and not (e.v.op == "div" and e.v.a[0] is t):
                    raise Broken("term scaling %s" % e.v)
                self.env[x.a[0]] = Val(out, v.con)
            elif t.op == "at" and t.a[0].op == "fld" and t.a[0].a[1] == SENS:
                raise Broken("term-wise update of an expression")

    def map_entry(self, e, k, v):
        loops, g, val = self.through(e.loops, self.rel(e), Val({((), TRUE, k): self.scal(v)}))
        (kk, c), = val.lin.items()
        return loops, g, kk[2], c

    def result(self):
        self.ctx.need(len(self.rets) == 1, "one return in " + self.f["n"])
        return self.rets[0].v


RANK = "rank"


def rank(c, v, hit, pv):
    """#0 counting positions of a filtered vector: the rank among the kept elements"""
    c = subst(c, {hit: mk("sym", "kept")})
    c = subst(c, {x: mk("sym", RANK) for x in index_syms(c)})
    return subst(c, {mk("sym", "kept"): pv})


def conj_atoms(pc):
    if pc is TRUE:
        return []
    return list(pc.a[0]) if pc.op == "and" and isinstance(pc.a[0], tuple) else list(pc.a) if pc.op == "and" else [pc]


def sig(f):
    return "%s(%s)" % (f["n"].replace(MC, ""), ", ".join(p["t"].replace(MC, "") for p in f["p"]))


def bodies(ctx, f):
    E = ctx.run(f, opaque=("Expression::initialize",))
    return Bodies(ctx, f, E)


def short_name(f):
    return f["n"].split("::")[-1]


def judge(ctx, rule, f, got, want):
    ctx.ob(rule, got == want, ctx.at(f), "%s computes %s, not %s" % (sig(f), got, want), key="%s|%s" % (rule, sig(f)), sample=sig(f))


def like(t):
    return t.rstrip("*& ") in LIKE


def arg(f, i):
    s = mk("sym", "$%d" % i)
    return (atom(s), None) if like(f["p"][i]["t"]) else (None, s)


def expected_binary(f):
    n = short_name(f)
    b = Bodies.__new__(Bodies)
    return Bodies.binary(b, n, arg(f, 0), arg(f, 1))


def one_binary(ctx, f):
    b = bodies(ctx, f)
    judge(ctx, "binary-operator", f, b.value(b.result()), expected_binary(f))


def one_comparison(ctx, f):
    n = short_name(f)
    b = bodies(ctx, f)
    r = b.result()
    ctx.need(r.op == "call" and r.a[0].endswith("Constraint::create_instance") and len(r.a[2]) == 2 or r.op == "ctor" and r.a[0] == MC + "Constraint" and len(r.a[1]) == 2, "constraint built by " + sig(f))
    ex, sense = r.a[2] if r.op == "call" else r.a[1]
    v = b.value(ex)
    s = {"operator<=": "Less", "operator==": "Equal", "operator>=": "Greater"}[n]
    flip = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
    ctx.need(sense.op == "enum", "sense in " + sig(f))
    g = sense.a[0].split("::")[-1]
    diff = Bodies.binary(Bodies.__new__(Bodies), "operator-", arg(f, 0), arg(f, 1))
    ok = g == s and v == diff or g == flip[s] and v == diff.scaled(num(-1)) or g == s == "Equal" and v == diff.scaled(num(-1))
    ctx.ob("comparison-operator", ok, ctx.at(f), "%s builds %s %s 0" % (sig(f), v, g), key="comparison-operator|" + sig(f), sample=sig(f))


def one_unary(ctx, f):
    b = bodies(ctx, f)
    cls = f["cls"].split("::")[-1]
    me = elem0(cls) if cls.endswith("Proxy") else atom(THIS)
    n = short_name(f)
    want = me.scaled(num(-1)) if n == "operator-" else me
    got = b.value(b.result())
    if cls.endswith("Proxy"):
        got = fold_this(got, cls)
    judge(ctx, "unary-operator", f, got, want)
    if cls.endswith("Proxy"):
        single(ctx, f, b)


def fold_this(v, cls):
    """the expression of a whole proxy is that of its only element"""
    e0 = mk("at", mk("fld", THIS, ELEMS[cls][0]), ZERO)
    r = Val()
    for k, c in v.lin.items():
        r.put(r.lin, (k[0], k[1], e0 if k[2] is THIS else k[2]), subst(c, {mk("fld", THIS, CONST): mk("fld", e0, CONST)}))
    for k, c in v.con.items():
        r.put(r.con, k, subst(c, {mk("fld", THIS, CONST): mk("fld", e0, CONST)}))
    return r


def elem0(cls):
    return atom(mk("at", mk("fld", THIS, ELEMS[cls][0]), ZERO))


def single(ctx, f, b):
    """a proxy stands for an expression only when it has exactly one element"""
    n = mk("fld", THIS, "printemps::multi_array::AbstractMultiArray::m_number_of_elements")
    delegated = [e for e in b.E.effects if e.kind == "call" and e.t is THIS and e.pc is TRUE]
    ctx.ob("single-element", safe_implies(b.pc, eq(n, ONE)) or bool(delegated), ctx.at(f), "%s accepts a proxy that does not have exactly one element" % sig(f), key="single-element|" + sig(f))


def one_compound(ctx, f):
    cls = f["cls"].split("::")[-1]
    n = short_name(f)
    b = bodies(ctx, f)
    tgt = THIS if cls == "Expression" else mk("at", mk("fld", THIS, ELEMS[cls][0]), ZERO)
    ctx.need(tgt in b.env, "updated expression in " + sig(f))
    got = b.env[tgt]
    if n == "operator=":
        a = arg(f, 0)
        want = a[0] if a[0] is not None else scalar(a[1])
    else:
        want = Bodies.binary(Bodies.__new__(Bodies), n[:-1], (atom(tgt), None), arg(f, 0))
    judge(ctx, "compound-assignment", f, got, want)
    if cls != "Expression":
        single(ctx, f, b)


def plus_expression(ctx):
    """Expression += Expression, term by term"""
    f = ctx.fn1("Expression::operator+=", 1, pred=lambda g: g["p"][0]["t"] == EXPR)
    E = ctx.run(f)
    con = mk("fld", THIS, CONST)
    ws = [e for e in writes(E) if e.t is con]
    ctx.need(ws, "constant update in +=")
    ctx.ob("sum-constant", len(ws) == 1 and ws[0].pc is TRUE and not ws[0].loops and ws[0].v is add(con, mk("fld", S0, CONST)), ctx.at(f, ws[0]), "+= of an expression gives the constant %s" % ws[-1].v)
    other = mk("fld", S0, SENS)
    mine = mk("fld", THIS, SENS)
    ts = [e for e in writes(E) if e.t.op == "at" and e.t.a[0] is mine or e.t.op == "get" and contains(e.t, lambda x: x is mine)]
    ctx.need(ts, "term update in +=")
    cover = FALSE
    for e in ts:
        ctx.need(len(e.loops) == 1, "loop over the appended terms")
        ctx.ob("sum-all-terms", str(e.loops[0]) == "idx(0, %s.size())" % other, ctx.at(f, e), "+= visits %s instead of every term of the right operand" % (e.loops,))
        el = [x for x in subterms(e.v) | subterms(e.t) if x.op == "at" and x.a[0] is other]
        ctx.need(el, "appended term")
        k, c = getn(0, el[0]), getn(1, el[0])
        if e.t.op == "at":
            ctx.ob("sum-term-key", e.t.a[1] is k, ctx.at(f, e), "+= stores the coefficient under %s" % e.t.a[1])
        else:
            ctx.need(contains(e.t, lambda x: x is k), "found term of +=")
        absent = any("find" in str(a) and "end" in str(a) and a.op in ("eq", "eq0", "cmp", "==") or "count(" in str(a) and a.op != "not" for a in conj_atoms(e.pc))
        if e.v is add(e.t, c):
            ok = True
        elif e.v is c:
            ok = absent and not any(a.op == "not" and "find" in str(a) for a in conj_atoms(e.pc))
        else:
            ok = False
        ctx.ob("sum-term-value", ok, ctx.at(f, e), "+= sets the coefficient to %s when %s" % (e.v, e.pc))
        cover = or_(cover, e.pc)
    ctx.ob("sum-term-cover", safe_implies(TRUE, cover), ctx.at(f), "+= drops terms unless %s" % cover)


def construction(ctx):
    f = ctx.fn1("Expression::(ctor)", 2)
    E = ctx.run(f, opaque=("Expression::initialize",))
    ws = {e.t: e for e in order(E.effects) if e.kind == "write"}
    s, c = mk("fld", THIS, SENS), mk("fld", THIS, CONST)
    ctx.need(s in ws and c in ws, "constructor fields")
    ini = [e.seq for e in calls(E, EXPR + "::initialize")]
    for t, w in ((s, S0), (c, S1)):
        ctx.ob("construction", ws[t].v is w and ws[t].pc is TRUE and all(q < ws[t].seq for q in ini), ctx.at(f), "the expression constructor leaves %s at %s" % (t, ws[t].v))
    for f in ctx.fns("Expression::create_instance", min=2):
        E = ctx.run(f, opaque=("Expression::(ctor)",))
        r = E.ret
        ctx.need(r is not None and r.op == "ctor", "create_instance")
        ctx.ob("construction", list(r.a[1]) == [S0, S1][:len(f["p"])], ctx.at(f), "%s builds %s" % (sig(f), r))
    f = ctx.fn1("Expression::initialize", 0)
    E = ctx.run(f)
    ws = [e for e in writes(E) if e.t is c]
    ctx.ob("construction", bool(ws) and ws[-1].v is ZERO and any(callee(e) == "clear" and e.t is s for e in E.effects if e.kind == "call"), ctx.at(f), "initialize leaves a constant or terms in the expression")
    f = ctx.fn1("Expression::set_sensitivities", 1)
    E = ctx.run(f)
    ws = [e for e in writes(E) if e.t is s]
    ctx.ob("construction", len(ws) == 1 and ws[0].v is S0, ctx.at(f), "set_sensitivities does not take over the given terms")
    for n in ("copy", "self"):
        f = ctx.fn1("Expression::" + n, 0)
        b = bodies(ctx, f)
        judge(ctx, "construction", f, b.value(b.result()), atom(THIS))


def variable_expression(ctx):
    f = ctx.fn1("Variable::to_expression", 0)
    b = bodies(ctx, f)
    judge(ctx, "variable-expression", f, b.value(b.result()), Val({((), TRUE, THIS): ONE}))


def proxy_expression(ctx, cls):
    f = ctx.fn1(cls + "::to_expression", 0)
    b = bodies(ctx, f)
    judge(ctx, "proxy-expression", f, b.value(b.result()), elem0(cls))
    n = mk("fld", THIS, "printemps::multi_array::AbstractMultiArray::m_number_of_elements")
    ctx.ob("single-element", safe_implies(b.pc, eq(n, ONE)), ctx.at(f), "%s accepts a proxy that does not have exactly one element" % sig(f), key="single-element|" + sig(f))


AMA = "printemps::multi_array::AbstractMultiArray::"


def reductions(ctx, f):
    """sum and dot over the elements of a proxy"""
    cls = f["cls"].split("::")[-1]
    n = short_name(f)
    fld_, ety = ELEMS[cls]
    b = bodies(ctx, f)
    v = b.value(b.result())
    elems = mk("fld", THIS, fld_)
    nel, ndim = mk("fld", THIS, AMA + "m_number_of_elements"), mk("fld", THIS, AMA + "m_number_of_dimensions")
    indexed = len(f["p"]) == (1 if n == "sum" else 2)
    coef = None if n == "sum" else mk("sym", "$%d" % (len(f["p"]) - 1))
    # the linear part: one family of terms over all elements
    ctx.need(len(v.lin) <= 1, "one family of terms")
    ctx.ob("reduction-terms", len(v.lin) == 1, ctx.at(f), "%s adds no element to the result" % sig(f), key="reduction-terms|" + sig(f))
    for (loops, g, el), c in v.lin.items():
        ctx.need(len(loops) == 1 and el.op == "at" and el.a[0] is elems, "elements of the proxy")
        i = el.a[1]
        dom = str(loops[0])
        full = dom in ("idx(0, %s)" % nel, "idx(0, %s.size())" % elems)
        ctx.ob("reduction-range", full and i in index_syms(i), ctx.at(f), "%s visits %s" % (sig(f), dom), key="reduction-range|" + sig(f))
        if not indexed:
            ctx.ob("reduction-filter", g is TRUE, ctx.at(f), "%s skips elements unless %s" % (sig(f), g), key="reduction-filter|" + sig(f))
        else:
            ctx.ob("reduction-filter", covers(g, el, elems, ndim), ctx.at(f), "%s takes an element when %s" % (sig(f), g), key="reduction-filter|" + sig(f))
        want = ONE if coef is None else mk("at", coef, mk("sym", RANK) if indexed else i)
        ctx.ob("reduction-coefficient", c is want, ctx.at(f), "%s gives an element the coefficient %s" % (sig(f), c), key="reduction-coefficient|" + sig(f))
        want_con = {}
        if ety == "Expression":
            want_con = {(loops, g): mul(want, mk("fld", el, CONST))}
        got_con = dict(v.con)
        ctx.ob("reduction-constant", got_con == want_con, ctx.at(f), "%s gives the constant %s" % (sig(f), got_con), key="reduction-constant|" + sig(f))
    # size checks
    sz = size_of(S0)
    if indexed:
        ctx.ob("reduction-arity", safe_implies(b.pc, eq(sz, ndim)), ctx.at(f), "%s accepts an index with a wrong number of dimensions" % sig(f), key="reduction-arity|" + sig(f))
    if coef is not None:
        cs = size_of(coef)
        if not indexed:
            ctx.ob("reduction-arity", safe_implies(b.pc, and_(eq(cs, nel), eq(ndim, ONE))), ctx.at(f), "%s accepts coefficients that do not match the elements" % sig(f), key="reduction-arity|" + sig(f))
        else:
            vs = [size_of(x) for x in b.vecs]
            ctx.need(vs, "the kept elements")
            ctx.ob("reduction-arity", any(safe_implies(b.pc, eq(cs, x)) for x in vs), ctx.at(f), "%s accepts coefficients that do not match the kept elements" % sig(f), key="reduction-arity|" + sig(f))


def covers(g, el, elems, ndim):
    """not exists j: index[j] != All and index[j] != element's index[j]"""
    if not (g.op == "not" and g.a[0].op == "exists"):
        raise Broken("filter %s" % str(g)[:100])
    ex = g.a[0]
    if str(ex.a[0]) not in ("idx(0, %s)" % ndim, "idx(0, $0.size())"):
        return False
    body = ex.a[-1]
    ats = conj_atoms(body)
    ats = [a for a in ats]
    if len(ats) != 2 or not all(a.op == "not" for a in ats):
        return False
    s = sorted(str(a.a[0]) for a in ats)
    isall = [x for x in s if x.endswith("== printemps::model_component::Range::All]") and x.startswith("[$0[#")]
    same = [x for x in s if "multi_dimensional_index[#" in x and str(el) in x and "$0[#" in x and x.endswith("== 0]")]
    return len(isall) == 1 and len(same) == 1


def selections(ctx):
    for f in ctx.fns("VariableProxy::selection", min=2):
        b = bodies(ctx, f)
        r = b.result()
        ctx.need(r.op == "call" and r.a[0].endswith("Constraint::create_instance") and len(r.a[2]) == 2, "constraint of selection")
        args = (S0,) if f["p"] else ()
        sm = [x for x in subterms(r) if x.op == "call" and x.a[0].split("::")[-1] == "sum"]
        ctx.need(sm, "sum of selection")
        v = b.value(r.a[2][0])
        want = atom(sm[0]).plus(scalar(ONE), num(-1))
        ctx.ob("selection", v == want and tuple(sm[0].a[2]) == args and sm[0].a[1] is THIS and str(r.a[2][1]).endswith("ConstraintSense::Equal"), ctx.at(f), "%s builds %s" % (sig(f), r), key="selection|" + sig(f))


def constraints(ctx):
    for f in ctx.fns("Constraint::(ctor)", 2) + ctx.fns("Constraint::create_instance", 2) + ctx.fns("Constraint::operator=", 1, min=2) + ctx.fns("ConstraintProxy::operator=", 1):
        E = ctx.run(f, opaque=("Constraint::setup", "Constraint::operator=", "Constraint::(ctor)"))
        n = short_name(f)
        if n == "create_instance":
            r = E.ret
            ctx.need(r is not None and r.op in ("ctor", "loc"), "create_instance result")
            ok = r.op == "ctor" and list(r.a[1]) == [S0, S1]
        elif f["cls"].endswith("Proxy"):
            cs = [e for e in E.effects if e.kind in ("call", "write") and (e.kind == "write" or e.v.endswith("Constraint::operator="))]
            ctx.need(cs, "assignment of the only constraint")
            ok = len(cs) == 1 and str(cs[0].t).endswith("m_constraints[0]") and (cs[0].v if cs[0].kind == "write" else cs[0].args[0]) is S0
        else:
            cs = list(calls(E, MC + "Constraint::setup"))
            ctx.need(cs, "setup call in " + sig(f))
            a = (S0, S1) if n == "(ctor)" else (mk("fld", S0, MC + "Constraint::m_expression"), mk("fld", S0, MC + "Constraint::m_sense"))
            self_ = or_(*[e.pc for e in E.effects if e.kind == "ret" and not any(c.seq < e.seq and safe_implies(e.pc, c.pc) for c in cs)])
            ok = all(tuple(c.args) == a and c.t is THIS for c in cs) and (self_ is FALSE or safe_implies(self_, eq(S0, THIS)) or "$0 == this" in str(self_))
        ctx.ob("constraint-taken-over", ok, ctx.at(f), "%s does not carry the expression and sense over" % sig(f), key="constraint-taken-over|" + sig(f))
    f = ctx.fn1("Constraint::setup", 2)
    E = ctx.run(f)
    for n, w in (("m_expression", S0), ("m_sense", S1)):
        ws = [e for e in writes(E) if e.t is mk("fld", THIS, MC + "Constraint::" + n)]
        ctx.need(ws, "Constraint::setup writes " + n)
        ctx.ob("constraint-taken-over", ws[-1].v is w and ws[-1].pc is TRUE, ctx.at(f), "Constraint::setup leaves %s at %s" % (n, ws[-1].v))


def objectives(ctx):
    OBJ = MC + "Objective"
    f = ctx.fn1("Objective::setup", 1)
    E = ctx.run(f)
    ws = [e for e in writes(E) if e.t is mk("fld", THIS, OBJ + "::m_expression")]
    ini = list(calls(E, OBJ + "::initialize"))
    ctx.need(ws, "Objective::setup")
    ctx.ob("objective-taken-over", ws[-1].v is S0 and ws[-1].pc is TRUE and all(i.seq < ws[-1].seq for i in ini), ctx.at(f), "Objective::setup leaves the expression at %s" % ws[-1].v)
    for f in ctx.fns("Objective::(ctor)", 1, pred=lambda g: g["p"][0]["t"] == EXPR) + ctx.fns("Objective::create_instance", 1) + ctx.fns("Objective::operator=", 1, min=2):
        E = ctx.run(f, opaque=("Objective::setup", "Objective::(ctor)"))
        if short_name(f) == "create_instance":
            ctx.need(E.ret is not None and E.ret.op == "ctor", "create_instance result")
            ok = list(E.ret.a[1]) == [S0]
        else:
            cs = list(calls(E, OBJ + "::setup"))
            ctx.need(cs, "setup call in " + sig(f))
            a = S0 if short_name(f) == "(ctor)" else mk("fld", S0, OBJ + "::m_expression")
            ok = all(tuple(c.args) == (a,) and c.t is THIS for c in cs)
        ctx.ob("objective-taken-over", ok, ctx.at(f), "%s does not carry the expression over" % sig(f), key="objective-taken-over|" + sig(f))
    MOD = "printemps::model::Model::"
    for n in ("minimize", "maximize"):
        fs = [f for f in ctx.P.find("Model::" + n) if f["p"] and like(f["p"][0]["t"])]
        ctx.need(len(fs) >= 2, "Model::" + n)
        for f in fs:
            E = ctx.run(f, opaque=("Objective::create_instance", "Objective::operator="))
            b = Bodies(ctx, f, E)
            o = mk("fld", THIS, MOD + "m_objective")
            asg = [(e, e.v if e.kind == "write" else e.args[0]) for e in E.effects if e.t is o and (e.kind == "write" or e.kind == "call" and e.v.endswith("Objective::operator="))]
            ctx.need(asg, "objective assignment in " + sig(f))
            e, v = asg[-1]
            ctx.need(v.op == "call" and v.a[0].endswith("Objective::create_instance") and len(v.a[2]) == 1, "objective in " + sig(f))
            got = b.value(v.a[2][0])
            judge(ctx, "objective-expression", f, got, atom(S0))
            for fl, w in (("m_is_minimization", TRUE if n == "minimize" else FALSE), ("m_is_defined_objective", TRUE)):
                ws = [x for x in writes(E) if x.t is mk("fld", THIS, MOD + fl)]
                ctx.ob("objective-direction", bool(ws) and resolve(ws[-1].v, TRUE) is w and ws[-1].pc is TRUE, ctx.at(f), "%s leaves %s unset" % (sig(f), fl), key="objective-direction|%s|%s" % (sig(f), fl))


def run(ctx):
    selftests(ctx)
    ctx.rule("every instantiated operator over numbers, variables, expressions and their proxies computes the linear combination its symbol denotes, term by term and for the constant")
    ctx.rule("a comparison builds left-minus-right with the sense of its symbol; sum/dot reach exactly the elements the index selects with the given coefficients; constraints and objectives keep the expression, sense and direction they are given")
    for s in (plus_expression, construction, variable_expression, selections, constraints, objectives):
        ctx.section(s)
    for cls in ELEMS:
        ctx.section(proxy_expression, cls)
    seen = set()
    for f in sorted(ctx.P.fn.values(), key=lambda f: (f["file"], f["l"], f["n"], str(f["p"]))):
        if not f["file"].startswith("printemps/model_component/") or f.get("dflt"):
            continue
        n, np_ = short_name(f), len(f["p"])
        k = (f["file"], f["l"], sig(f))
        if k in seen:
            continue
        seen.add(k)
        cls = (f.get("cls") or "").split("::")[-1]
        if not f.get("cls") and np_ == 2 and n in OPS and f["rt"] == EXPR:
            ctx.section(one_binary, f)
        elif not f.get("cls") and np_ == 2 and n in ("operator<=", "operator==", "operator>=") and f["rt"] == MC + "Constraint":
            ctx.section(one_comparison, f)
        elif cls in ("Expression", "Variable", "ExpressionProxy", "VariableProxy"):
            if n in ("operator+", "operator-") and np_ == 0:
                ctx.section(one_unary, f)
            elif n in ("sum", "dot"):
                ctx.section(reductions, f)
            elif cls in ("Expression", "ExpressionProxy") and n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=") and np_ == 1:
                if cls == "Expression" and n == "operator+=" and f["p"][0]["t"] == EXPR:
                    continue
                ctx.section(one_compound, f)


def selftests(ctx):
    a = atom(S0)
    ctx.selftest("a sum is commutative", a.plus(scalar(S1)) == scalar(S1).plus(a))
    ctx.selftest("a difference is not", not (a.plus(atom(S1), num(-1)) == atom(S1).plus(a, num(-1))))
    ctx.selftest("scaling reaches the constant", a.scaled(num(2)).con != a.con)
