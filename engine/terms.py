"""Interned symbolic terms with canonical forms (polynomials, booleans, gated values)."""
from fractions import Fraction
import functools

_tab = {}


class T:
    __slots__ = ("op", "a", "_s", "_h", "size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return key(self) < key(o)


def mk(op, *a):
    k = (op,) + a
    # numbers: 1 == 1.0 == True as dict keys; the op separates them
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.a, t._s, t._h = op, a, None, hash(k)
        n = 1
        for x in a:
            if isinstance(x, T):
                n += x.size
            elif isinstance(x, tuple):
                n += sum((y.size if isinstance(y, T) else 1) for y in x)
        t.size = n
        _tab[k] = t
    return t


def key(t):
    return show(t)


def fmtnum(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return str(v.numerator)
        return repr(float(v))
    return str(v)


def _short(n):
    return n


def show(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    op, a = t.op, t.a
    if op == "n":
        s = fmtnum(a[0])
    elif op == "b":
        s = "true" if a[0] else "false"
    elif op == "s":
        s = repr(a[0])
    elif op in ("enum", "g", "sym"):
        s = a[0]
    elif op == "fld":
        s = show(a[0]) + "." + a[1].split("::")[-1]
    elif op == "at":
        s = show(a[0]) + "[" + show(a[1]) + "]"
    elif op == "iv":
        s = "#" + str(a[0])
    elif op == "poly":
        parts = []
        for mono, c in a[0]:
            m = "*".join(show(x) for x in mono)
            if not mono:
                parts.append(fmtnum(c))
            elif c == 1:
                parts.append(m)
            elif c == -1:
                parts.append("-" + m)
            else:
                parts.append(fmtnum(c) + "*" + m)
        s = "{" + " + ".join(parts) + "}"
    elif op == "not":
        s = "!" + show(a[0])
    elif op == "and":
        s = "(" + " & ".join(show(x) for x in a[0]) + ")"
    elif op == "or":
        s = "(" + " | ".join(show(x) for x in a[0]) + ")"
    elif op == "lt0":
        s = "[" + show(a[0]) + " < 0]"
    elif op == "eq0":
        s = "[" + show(a[0]) + " == 0]"
    elif op == "eq":
        s = "[" + show(a[0]) + " == " + show(a[1]) + "]"
    elif op == "call":
        nm = a[0].split("printemps::")[-1]
        s = (show(a[1]) + "." if a[1] is not None else "") + nm.split("::")[-1] + "(" + ", ".join(show(x) for x in a[2]) + ")"
    elif op == "this":
        s = "this"
    else:
        s = op + "(" + ", ".join(show(x) for x in a) + ")"
    t._s = s
    return s


TRUE = mk("b", True)
FALSE = mk("b", False)
THIS = mk("this")
NULL = mk("null")


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = Fraction(repr(v)) if v == v and abs(v) != float("inf") else v
    return mk("n", Fraction(v))


ZERO = num(0)
ONE = num(1)

# ---------------------------------------------------------------- arithmetic


def poly_of(t):
    """dict monomial(tuple of terms) -> coefficient"""
    if t.op == "n":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "b":
        return {(): Fraction(1)} if t.a[0] else {}
    return {(t,): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(key(x) for x in mc[0])))
    return mk("poly", items)


def add(x, y, cy=1):
    # distribute over ite only when one side constant
    d = poly_of(x)
    for m, c in poly_of(y).items():
        d[m] = d.get(m, 0) + c * cy
    return from_poly(d)


def sub(x, y):
    return add(x, y, -1)


def mul(x, y):
    dx, dy = poly_of(x), poly_of(y)
    if len(dx) * len(dy) > 64:
        return mk("mulop", *sorted((x, y), key=key))
    d = {}
    for m1, c1 in dx.items():
        for m2, c2 in dy.items():
            m = tuple(sorted(m1 + m2, key=key))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def neg(x):
    return mul(num(-1), x)


def div(x, y, integer=False):
    if y.op == "n" and y.a[0] != 0 and not integer:
        return mul(num(1 / y.a[0]), x)
    if integer and x.op == "n" and y.op == "n" and y.a[0] != 0:
        q = abs(x.a[0]) // abs(y.a[0])
        return num(q if (x.a[0] >= 0) == (y.a[0] > 0) else -q)
    if integer:
        return mk("idiv", x, y)
    if x.op == "n" and x.a[0] == 0:
        return ZERO
    # pull out sign/coefficients: (c*x)/y
    dx = poly_of(x)
    if len(dx) == 1:
        (m, c), = dx.items()
        if c != 1:
            return mul(num(c), mk("div", from_poly({m: Fraction(1)}), y))
    return mk("div", x, y)


# ---------------------------------------------------------------- booleans


_notc = {}


def not_(x):
    r = _notc.get(x)
    if r is None:
        r = _notc[x] = _not(x)
    return r


def _not(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "and":
        return or_(*[not_(y) for y in x.a[0]])
    if x.op == "or":
        return and_(*[not_(y) for y in x.a[0]])
    if x.op == "ite":
        return ite(x.a[0], not_(x.a[1]), not_(x.a[2]))
    if x.op == "lt0":
        # not (p<0)  ==> p>=0
        return mk("not", x)
    return mk("not", x)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.a[0])
        else:
            out.append(x)
    return out


_andc = {}
_orc = {}


def and_(*xs):
    r = _andc.get(xs)
    if r is None:
        r = _andc[xs] = _and(*xs)
    return r


def _and(*xs):
    s = []
    seen = set()
    for x in _flat("and", xs):
        if x is TRUE or x in seen:
            continue
        if x is FALSE:
            return FALSE
        seen.add(x)
        s.append(x)
    for x in s:
        if not_cheap(x) in seen:
            return FALSE
    # absorption: a & (a | b) -> a ; a & (!a | b) -> a & b
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(s):
            if x.op == "or":
                ds = x.a[0]
                if any(d in seen for d in ds):
                    s.pop(i)
                    seen.discard(x)
                    changed = True
                    break
                nd = [d for d in ds if not_cheap(d) not in seen]
                if len(nd) != len(ds):
                    y = or_(*nd)
                    s.pop(i)
                    seen.discard(x)
                    return and_(*(s + [y]))
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", tuple(sorted(s, key=key)))


def not_cheap(x):
    if x.op == "not":
        return x.a[0]
    if x.op in ("and", "or"):
        return not_(x)
    return mk("not", x)


def or_(*xs):
    r = _orc.get(xs)
    if r is None:
        r = _orc[xs] = _or(*xs)
    return r


def _or(*xs):
    s = []
    seen = set()
    for x in _flat("or", xs):
        if x is FALSE or x in seen:
            continue
        if x is TRUE:
            return TRUE
        seen.add(x)
        s.append(x)
    for x in s:
        if not_cheap(x) in seen:
            return TRUE
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(s):
            if x.op == "and":
                ds = x.a[0]
                if any(d in seen for d in ds):
                    s.pop(i)
                    seen.discard(x)
                    changed = True
                    break
                nd = [d for d in ds if not_cheap(d) not in seen]
                if len(nd) != len(ds):
                    y = and_(*nd)
                    s.pop(i)
                    seen.discard(x)
                    return or_(*(s + [y]))
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    ex = [x for x in s if x.op == "exists"]
    if len(ex) > 1:
        groups = {}
        for x in ex:
            groups.setdefault(x.a[0], []).append(x)
        for dom, g in groups.items():
            if len(g) > 1:
                v = mk("iv", "b99")
                bodies = [subst(x.a[2], {mk("iv", x.a[1]): v}) for x in g]
                m = or_(*bodies)
                ds = list(m.a[0]) if m.op == "or" else [m]
                if set(ds) != set(bodies):
                    rest = [x for x in s if x not in g]
                    return or_(*(rest + [exists_(dom, "b99", d) for d in ds]))
    # (a & X) | (!a & X) -> X
    ands = [x for x in s if x.op == "and"]
    for i in range(len(ands)):
        for j in range(i + 1, len(ands)):
            A, B = set(ands[i].a[0]), set(ands[j].a[0])
            if len(A) == len(B):
                d1, d2 = A - B, B - A
                if len(d1) == 1 and len(d2) == 1 and not_cheap(next(iter(d1))) is next(iter(d2)):
                    rest = [x for x in s if x is not ands[i] and x is not ands[j]]
                    return or_(*(rest + [and_(*(A & B))]))
    return mk("or", tuple(sorted(s, key=key)))


def bound_level(t):
    return max([0] + [int(x.a[1][1:]) for x in subterms(t) if x.op == "exists"])


def exists_(dom, depth, body):
    """exists over dom: bound variable renamed canonically, disjunctions split"""
    if body is FALSE:
        return FALSE
    if body.op == "or":
        return or_(*[exists_(dom, depth, x) for x in body.a[0]])
    if body.op == "and":
        v = mk("iv", depth)
        inv = [x for x in body.a[0] if not contains(x, lambda y: y is v)]
        if inv and len(inv) < len(body.a[0]):
            return and_(*(inv + [exists_(dom, depth, and_(*[x for x in body.a[0] if x not in inv]))]))
    k = 1 + bound_level(body)
    return mk("exists", dom, "b%d" % k, subst(body, {mk("iv", depth): mk("iv", "b%d" % k)}))


BOOLOPS = {"b", "not", "and", "or", "lt0", "eq0", "eq", "exists"}


def is_bool(t):
    if t.op == "ite":
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return t.op in BOOLOPS


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == "not":
        return ite(c.a[0], y, x)
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return not_(c)
    if x is TRUE or y is FALSE or x is FALSE or y is TRUE or (is_bool(x) and is_bool(y)):
        return or_(and_(c, x), and_(not_(c), y))
    # max / min patterns
    if c.op == "lt0":
        p = c.a[0]
        if p is sub(x, y):      # x<y ? x : y
            return mm("min", x, y)
        if p is sub(y, x):      # y<x ? x : y
            return mm("max", x, y)
    if x.op == "ite" and x.a[0] is c:
        return ite(c, x.a[1], y)
    if y.op == "ite" and y.a[0] is c:
        return ite(c, x, y.a[2])
    return mk("ite", c, x, y)


def mm(op, *xs):
    s = []
    for x in xs:
        for y in (x.a[0] if x.op == op else (x,)):
            if y not in s:
                s.append(y)
    ns = [x for x in s if x.op == "n"]
    if len(ns) > 1:
        v = (max if op == "max" else min)(x.a[0] for x in ns)
        s = [x for x in s if x.op != "n"] + [num(v)]
    if len(s) == 1:
        return s[0]
    # max(x,-x) = abs
    if op == "max" and len(s) == 2 and neg(s[0]) is s[1]:
        return abs_(s[0])
    return mk(op, tuple(sorted(s, key=key)))


def abs_(x):
    if x.op == "n":
        return num(abs(x.a[0]))
    y = neg(x)
    return mk("abs", min(x, y, key=key))


NONNEG_CALLS = ("::size", "::length", "::count")


def is_nonneg(t):
    if t.op == "call" and (t.a[0].endswith(NONNEG_CALLS)):
        return True
    if t.op == "abs":
        return True
    return False


def is_intlike(t):
    return t.op == "call" and t.a[0].endswith(NONNEG_CALLS)


def lt(a, b):
    """a < b"""
    p = sub(a, b)
    return lt0(p)


def lt0(p):
    if p.op == "n":
        return TRUE if p.a[0] < 0 else FALSE
    d = poly_of(p)
    nm = [(m, c) for m, c in d.items() if m]
    # normalise positive scale: leading coefficient to +-1
    lead = min(nm, key=lambda mc: tuple(key(x) for x in mc[0]))
    sc = abs(lead[1])
    if sc != 1:
        d = {m: c / sc for m, c in d.items()}
        p = from_poly(d)
        nm = [(m, c) for m, c in d.items() if m]
    if len(nm) == 1 and len(nm[0][0]) == 1 and is_intlike(nm[0][0][0]):
        x = nm[0][0][0]
        k = d.get((), Fraction(0))
        if nm[0][1] == 1:
            # x < -k
            if -k <= 0:
                return FALSE
            if -k <= 1:
                return eq(x, ZERO)
        else:
            # k < x  i.e. x > k
            if k < 0:
                return TRUE
            if k == 0:
                return not_(eq(x, ZERO))
            if k < 1:
                return not_(eq(x, ZERO))
    return mk("lt0", p)


def le(a, b):
    return not_(lt(b, a))


ATOMIC = {"enum", "s", "b", "null", "this", "str"}


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "b" or b.op == "b":
        if a.op == "b" and b.op == "b":
            return FALSE
        if a.op == "b":
            a, b = b, a
        if not (a.op == "n"):
            return a if b.a[0] else not_(a)
    if is_bool(a) and is_bool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op in ATOMIC and b.op in ATOMIC:
        if a.op == b.op and a.op in ("enum", "s"):
            return FALSE
        return mk("eq", *sorted((a, b), key=key))
    if a.op in ATOMIC or b.op in ATOMIC:
        # distribute over ite with atomic leaves
        if a.op == "ite":
            a, b = b, a
        if b.op == "ite" and a.op in ATOMIC:
            return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
        return mk("eq", *sorted((a, b), key=key))
    p = sub(a, b)
    if p.op == "n":
        return TRUE if p.a[0] == 0 else FALSE
    # distribute constants over ite of constants
    for u, v in ((a, b), (b, a)):
        if u.op == "ite" and v.op == "n" and (u.a[1].op == "n" or u.a[2].op == "n"):
            return ite(u.a[0], eq(u.a[1], v), eq(u.a[2], v))
    d = poly_of(p)
    nm = [(m, c) for m, c in d.items() if m]
    lead = min(nm, key=lambda mc: tuple(key(x) for x in mc[0]))
    sc = lead[1]
    if sc != 1:
        p = from_poly({m: c / sc for m, c in d.items()})
    return mk("eq0", p)


# ---------------------------------------------------------------- traversal


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):      # poly items
                    for z in y:
                        if isinstance(z, T):
                            yield z
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, T):
                                    yield w


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for c in children(t):
        subterms(c, seen)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f, memo=None):
    """bottom-up map: f applied to every rebuilt node."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    R = lambda x: rebuild(x, f, memo)
    op, a = t.op, t.a
    if op == "poly":
        acc = ZERO
        for m, c in a[0]:
            v = num(c)
            for x in m:
                y = R(x)
                v = mul(v, ONE if y is TRUE else ZERO if y is FALSE else y)
            acc = add(acc, v)
        r = acc
    elif op == "and":
        r = and_(*[R(x) for x in a[0]])
    elif op == "or":
        r = or_(*[R(x) for x in a[0]])
    elif op == "not":
        r = not_(R(a[0]))
    elif op == "lt0":
        y = R(a[0])
        r = lt0(ONE if y is TRUE else ZERO if y is FALSE else y)
    elif op == "eq0":
        y = R(a[0])
        r = eq(ONE if y is TRUE else ZERO if y is FALSE else y, ZERO)
    elif op == "eq":
        r = eq(R(a[0]), R(a[1]))
    elif op == "ite":
        r = ite(R(a[0]), R(a[1]), R(a[2]))
    elif op in ("max", "min"):
        r = mm(op, *[R(x) for x in a[0]])
    elif op == "abs":
        r = abs_(R(a[0]))
    elif op == "div":
        r = div(R(a[0]), R(a[1]))
    else:
        na = tuple(R(x) if isinstance(x, T) else (tuple(R(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in a)
        r = mk(op, *na)
    r = f(r)
    memo[t] = r
    return r


def subst(t, mapping):
    return rebuild(t, lambda x: mapping.get(x, x))


# ---------------------------------------------------------------- propositional reasoning


def atoms(t, acc=None):
    if acc is None:
        acc = {}
    if t.op in ("and", "or"):
        for x in t.a[0]:
            atoms(x, acc)
    elif t.op == "not":
        atoms(t.a[0], acc)
    elif t.op == "ite" :
        for x in t.a:
            atoms(x, acc)
    elif t.op != "b":
        acc[t] = acc.get(t, 0) + 1
    return acc


def assign(t, atom, val, memo=None):
    """substitute atom:=val in the boolean skeleton"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t is atom:
        r = TRUE if val else FALSE
    elif t.op == "and":
        r = and_(*[assign(x, atom, val, memo) for x in t.a[0]])
    elif t.op == "or":
        r = or_(*[assign(x, atom, val, memo) for x in t.a[0]])
    elif t.op == "not":
        r = not_(assign(t.a[0], atom, val, memo))
    elif t.op == "ite":
        r = ite(*[assign(x, atom, val, memo) for x in t.a])
    else:
        r = t
    memo[t] = r
    return r


class Theory:
    """single-scalar interval reasoning + equality of atomic values"""

    def __init__(self):
        self.iv = {}
        self.eqs = {}
        self.lin = ()

    def copy(self):
        n = Theory()
        n.lin = self.lin
        n.iv = {k: list(v) for k, v in self.iv.items()}
        n.eqs = {k: [v[0], set(v[1])] for k, v in self.eqs.items()}
        return n

    @staticmethod
    def split(p):
        d = poly_of(p)
        k = d.pop((), Fraction(0))
        lead = min(d.items(), key=lambda mc: tuple(key(x) for x in mc[0]))
        s = 1 if lead[1] > 0 else -1
        sc = abs(lead[1])
        q = from_poly({m: c * s / sc for m, c in d.items()})
        return q, s, k / sc

    def add(self, atom, val):
        """returns False on contradiction"""
        if atom.op in ("lt0", "eq0"):
            if atom.op == "lt0" or val:
                self.lin = self.lin + ((atom, val),)
            q, s, k = self.split(atom.a[0])
            lo, lo_s, hi, hi_s, ne = self.iv.get(q, [None, False, None, False, frozenset()])
            if lo is None and is_nonneg(q):
                lo = Fraction(0)
            if atom.op == "eq0":
                v = -k * s if s > 0 else k
                # s*q + k == 0 -> q = -k/s
                v = -k / s
                if val:
                    if lo is None or v > lo or (v == lo and not lo_s):
                        lo, lo_s = (v, False) if (lo is None or v >= lo) else (lo, lo_s)
                    else:
                        return False
                    if hi is None or v < hi or (v == hi and not hi_s):
                        hi, hi_s = (v, False)
                    else:
                        return False
                    if v in ne:
                        return False
                    lo = hi = v
                else:
                    ne = ne | {v}
            else:
                # s*q + k < 0
                v = -k / s
                up = (s > 0)
                if not val:
                    up = not up
                strict = val
                if up:
                    if hi is None or v < hi or (v == hi and strict):
                        hi, hi_s = v, strict
                else:
                    if lo is None or v > lo or (v == lo and strict):
                        lo, lo_s = v, strict
            if is_intlike(q):
                while lo is not None and (lo.denominator != 1 or lo_s or lo in ne):
                    lo = Fraction(lo.__floor__() + 1) if (lo_s or lo in ne or lo.denominator != 1) else lo
                    lo_s = False
                while hi is not None and hi in ne:
                    hi, hi_s = hi - 1, False
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (lo_s or hi_s)):
                    return False
                if lo == hi and lo in ne:
                    return False
            self.iv[q] = [lo, lo_s, hi, hi_s, ne]
            return True
        if atom.op == "eq":
            x, y = atom.a
            if y.op in ATOMIC and x.op not in ATOMIC:
                x, y = y, x
            if x.op in ("enum", "s", "null") and y.op not in ATOMIC:
                cur = self.eqs.get(y, [None, set()])
                if val:
                    if cur[0] is not None and cur[0] is not x:
                        return False
                    if x in cur[1]:
                        return False
                    cur = [x, set(cur[1])]
                else:
                    if cur[0] is x:
                        return False
                    cur = [cur[0], cur[1] | {x}]
                    if x.op == "enum":
                        e = x.a[0].rsplit("::", 1)[0]
                        vals = ENUMS.get(e)
                        if vals and len(vals) <= len({z for z in cur[1] if z.op == "enum" and z.a[0].rsplit("::", 1)[0] == e}):
                            return False
                self.eqs[y] = cur
        return True


    def consistent(self):
        """Fourier-Motzkin over the recorded linear comparisons (monomials are independent unknowns)"""
        if len(self.lin) < 2 or len(self.lin) > 24:
            return True
        rows = []
        for atom, val in self.lin:
            d = dict(poly_of(atom.a[0]))
            if atom.op == "eq0":
                rows.append((d, False))
                rows.append(({m: -c for m, c in d.items()}, False))
            elif val:
                rows.append((d, True))
            else:
                rows.append(({m: -c for m, c in d.items()}, False))
        seen = set()
        for d, _ in list(rows):
            for m in d:
                if len(m) == 1 and m[0] not in seen:
                    x = m[0]
                    seen.add(x)
                    if x.op in ("max", "min"):
                        for y in x.a[0]:
                            e = dict(poly_of(sub(y, x) if x.op == "max" else sub(x, y)))
                            rows.append((e, False))
                    if x.op == "abs":
                        rows.append((dict(poly_of(sub(x.a[0], x))), False))
                        rows.append((dict(poly_of(sub(neg(x.a[0]), x))), False))
                    if is_nonneg(x):
                        rows.append(({m: Fraction(-1)}, False))
        return fm(rows)


def fm(rows):
    while True:
        vs = {}
        for d, st in rows:
            for m in d:
                if m != ():
                    p, q = vs.get(m, (0, 0))
                    vs[m] = (p + 1, q) if d[m] > 0 else (p, q + 1)
        for d, st in rows:
            if not any(m != () for m in d):
                c = d.get((), Fraction(0))
                if c > 0 or (st and c == 0):
                    return False
        if not vs:
            return True
        m = min(vs, key=lambda k: vs[k][0] * vs[k][1])
        up = [r for r in rows if r[0].get(m, 0) > 0]
        dn = [r for r in rows if r[0].get(m, 0) < 0]
        out = [r for r in rows if not r[0].get(m, 0)]
        have = set()
        for d1, s1 in up:
            for d2, s2 in dn:
                a, b = -d2[m], d1[m]
                e = {}
                for k, c in d1.items():
                    e[k] = e.get(k, 0) + c * a
                for k, c in d2.items():
                    e[k] = e.get(k, 0) + c * b
                e = {k: c for k, c in e.items() if c != 0 and k != m}
                h = (frozenset(e.items()), s1 or s2)
                if h not in have:
                    have.add(h)
                    out.append((e, s1 or s2))
        if len(out) > 200:
            return True
        rows = out


ENUMS = {}


class TooHard(Exception):
    pass


def sat(f, th=None, budget=None):
    """is boolean term f satisfiable (over atoms + small theory)?"""
    if budget is None:
        budget = [20000]
    if th is None:
        th = Theory()
    if f is FALSE:
        return False
    if f is TRUE:
        return th.consistent()
    budget[0] -= 1
    if budget[0] <= 0:
        raise TooHard()
    # unit propagation
    lits = [f] if f.op != "and" else list(f.a[0])
    pick = None
    for l in lits:
        a, v = (l.a[0], False) if l.op == "not" else (l, True)
        if a.op not in ("and", "or", "ite"):
            pick = (a, v)
            break
    if pick:
        a, v = pick
        t2 = th.copy()
        if not t2.add(a, v):
            return False
        return sat(assign(f, a, v), t2, budget)
    at = atoms(f)
    a = max(at, key=lambda x: (at[x], key(x)))
    for v in (True, False):
        t2 = th.copy()
        if t2.add(a, v) and sat(assign(f, a, v), t2, budget):
            return True
    return False


def lift(f):
    """lift ite nested inside comparison atoms to the boolean level (bounded)"""
    for _ in range(40):
        target = None
        for a in atoms(f):
            if a.op in ("lt0", "eq0", "eq"):
                for s in subterms(a):
                    if s.op == "ite" and not any(x.op == "exists" for x in ()):
                        target = (a, s)
                        break
            if target:
                break
        if not target:
            return f
        a, s = target
        c = s.a[0]
        a1 = subst(a, {s: s.a[1]})
        a0 = subst(a, {s: s.a[2]})
        rep = or_(and_(c, a1), and_(not_(c), a0))
        f = _replace_atom(f, a, rep)
    return f


def _replace_atom(t, atom, rep):
    if t is atom:
        return rep
    if t.op == "and":
        return and_(*[_replace_atom(x, atom, rep) for x in t.a[0]])
    if t.op == "or":
        return or_(*[_replace_atom(x, atom, rep) for x in t.a[0]])
    if t.op == "not":
        return not_(_replace_atom(t.a[0], atom, rep))
    if t.op == "ite":
        return ite(*[_replace_atom(x, atom, rep) for x in t.a])
    return t


def ex_lemmas(f):
    """existentials over one domain are monotone in their bodies"""
    ex = [a for a in atoms(f) if a.op == "exists"]
    if len(ex) < 2 or len(ex) > 12:
        return f
    add_ = []
    for a in ex:
        for b in ex:
            if a is not b and a.a[0] is b.a[0]:
                B = subst(b.a[2], {mk("iv", b.a[1]): mk("iv", a.a[1])})
                if not sat(lift(and_(a.a[2], not_(B)))):
                    add_.append((a, b))
    # the clauses are added without re-normalising (which would merge the existentials again)
    if not add_:
        return f
    ren = {}
    for i, a in enumerate(ex):
        ren[a] = mk("sym", "?ex%d" % i)
    f = subst_bool(f, ren)
    return and_(f, *[or_(not_(ren[a]), ren[b]) for a, b in add_])


def subst_bool(t, ren):
    if t in ren:
        return ren[t]
    if t.op == "and":
        return and_(*[subst_bool(x, ren) for x in t.a[0]])
    if t.op == "or":
        return or_(*[subst_bool(x, ren) for x in t.a[0]])
    if t.op == "not":
        return not_(subst_bool(t.a[0], ren))
    if t.op == "ite":
        return ite(*[subst_bool(x, ren) for x in t.a])
    return t


def implies(g, f):
    return not sat(ex_lemmas(lift(and_(g, not_(f)))))


def equiv(g, f):
    return g is f or (implies(g, f) and implies(f, g))
