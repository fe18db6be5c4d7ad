"""Shared helpers for the per-property rules."""
import os, json, collections, sys
from terms import *
import sym
from sym import Prog, Eval, Ref, Lam, Budget, walk, strip, fld, getn, size_of, is_sub, conj

ASSUME = ["the clang-18 front end resolves the program as the shipped g++ does",
          "the driver's (int,double) instantiation is the shipped one",
          "distinct access paths denote distinct objects unless equal",
          "floating-point comparisons are treated as over the reals (no NaN)"]


class Broken(Exception):
    pass


def load_known(V):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return set()
    d = json.load(open(p))
    return {(k["property"], k["key"]) for k in d.get("known", [])}


def suffix(n, o):
    return n.endswith(o[1:]) if o[0] == "*" else n.endswith("::" + o)


class Ctx:
    def __init__(self, ir, V, repo, pid, tmp, extract):
        self.V, self.repo, self.pid, self.tmp = V, repo, pid, tmp
        self._extract = extract
        sym.load_baseline(os.path.join(V, "engine", "baseline_functions.txt"))
        self.P = Prog(ir)
        self.violations = []
        self.counts = collections.Counter()
        self.obligations = 0
        self.samples = []
        self.rules = []
        self.analysed = set()
        self._tests = []
        self.undecided = []
        if len(self.P.fn) < 1000:
            raise Broken("only %d functions parsed" % len(self.P.fn))

    def alt(self, defs):
        ir = os.path.join(self.tmp, "ir-%s.jsonl" % "-".join(defs))
        if not os.path.exists(ir):
            self._extract(ir, defs)
        return Prog(ir)

    # ---- reporting
    def rule(self, text):
        self.rules.append(text)

    def ob(self, rule, ok, at, msg, key=None, sample=None):
        """one obligation"""
        self.obligations += 1
        self.counts[rule] += 1
        if sample and len([s for s in self.samples if s.startswith(rule)]) < 3:
            self.samples.append("%s: %s" % (rule, sample))
        if not ok:
            k = key or ("%s|%s" % (rule, msg))
            if not any(v["key"] == k for v in self.violations):
                self.violations.append({"rule": rule, "at": at, "msg": msg, "key": k})
        return ok

    def count(self, name, n=1):
        self.counts[name] += n

    def need(self, cond, what):
        if not cond:
            raise Broken("anchor missing: " + what)

    def atleast(self, rule, n):
        if self.counts[rule] < n:
            raise Broken("rule '%s' found %d instances, expected at least %d" % (rule, self.counts[rule], n))

    def section(self, f, *a):
        """an independent part of a rule: when its anchors are gone it is undecided, the other parts still count"""
        try:
            f(self, *a)
        except Broken as e:
            self.undecided.append("%s: %s" % (f.__name__, e))
        except (TooHard, Budget, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.undecided.append("%s: analysis failed (%s: %s)" % (f.__name__, type(e).__name__, e))

    def coverage(self):
        return {"undecided": self.undecided, "explanation": "; ".join(self.rules), "obligations_checked": self.obligations, "rule_instances": dict(self.counts),
                "functions_parsed": len(self.P.fn), "functions_evaluated": len(self.analysed), "samples": self.samples[:25]}

    def selftest(self, name, ok):
        self._tests.append((name, ok))

    def finish_selftests(self):
        for n, ok in self._tests:
            if not ok:
                raise Broken("self-test failed: " + n)
            self.counts["self-tests"] += 1
        if self.obligations == 0:
            raise Broken("no obligations")

    # ---- program access
    def fns(self, name, arity=None, pred=None, min=1):
        r = self.P.find(name, arity, pred)
        # one instantiation per source location
        seen, out = set(), []
        for f in r:
            k = (f["file"], f["l"], f["n"])
            if k in seen:
                continue
            seen.add(k)
            out.append(f)
        if len(out) < min:
            raise Broken("function %s not found" % name)
        return out

    def fn1(self, name, arity=None, pred=None):
        r = self.fns(name, arity, pred)
        if len(r) != 1:
            raise Broken("function %s: %d candidates" % (name, len(r)))
        return r[0]

    def run(self, f, inline=(), opaque=(), args=None, cb=None, this=THIS, P=None, sizes=False):
        """evaluate function f; inline: name suffixes to expand, opaque: suffixes never expanded"""
        inline, opaque = tuple(inline), tuple(opaque)

        def policy(g):
            n = g["n"]
            if opaque and any(suffix(n, o) for o in opaque):
                return False
            if inline and any(suffix(n, o) for o in inline):
                return True
            if cb:
                return cb(g)
            return None
        E = Eval(P or self.P, inline=policy)
        if sizes:
            E.epoch = 0
        E.ret = E.run(f, this=this, args=args)
        if isinstance(E.ret, Ref):
            E.ret = E.read(E.ret.loc)
        E.f = f
        self.analysed.add(f["id"])
        return E

    def at(self, f, e=None):
        if e is not None and e.line:
            return "%s (%s:%s)" % (e.fn, f["file"], e.line)
        return "%s (%s:%s)" % (f["n"], f["file"], f["l"])


def fname(t):
    """short field name of a location"""
    if t is not None and t.op == "fld":
        return t.a[1].split("::")[-1]
    return None


def callee(e):
    return e.v.split("::")[-1] if e.kind == "call" and isinstance(e.v, str) else None


def writes(E, field=None, pred=None):
    for e in E.effects:
        if e.kind == "write" and (field is None or fname(e.t) == field) and (pred is None or pred(e)):
            yield e


def calls(E, name):
    """opaque calls whose qualified name ends with name"""
    for e in E.effects:
        if e.kind == "call" and isinstance(e.v, str) and (e.v == name or e.v.endswith("::" + name)):
            yield e


def has_field(t, f):
    return contains(t, lambda x: x.op == "fld" and x.a[1].split("::")[-1] == f)


def mentions(t, s):
    return s in show(t)


def safe_implies(a, b):
    try:
        return implies(a, b)
    except TooHard:
        raise Broken("guard too large to decide")


def safe_sat(a):
    try:
        return sat(lift(a))
    except TooHard:
        raise Broken("guard too large to decide")


def under(t, pc, depth=0):
    """t with every ite decided that the guard pc decides"""
    if t is None or t.op in ("n", "s", "enum", "sym", "this", "b"):
        return t
    if t.op == "ite":
        c = t.a[0]
        if safe_implies(pc, c):
            return under(t.a[1], pc, depth)
        if safe_implies(pc, not_(c)):
            return under(t.a[2], pc, depth)
        a = under(t.a[1], and_(pc, c), depth + 1)
        b = under(t.a[2], and_(pc, not_(c)), depth + 1)
        return a if a is b else ite(c, a, b)
    if not contains(t, lambda x: x.op == "ite"):
        return t
    # decide nested conditions by substitution
    for _ in range(60):
        hit = None
        for s in subterms(t):
            if s.op == "ite":
                if safe_implies(pc, s.a[0]):
                    hit = (s, s.a[1])
                    break
                if safe_implies(pc, not_(s.a[0])):
                    hit = (s, s.a[2])
                    break
        if not hit:
            return t
        t = subst(t, {hit[0]: hit[1]})
        if t.op == "ite":
            return under(t, pc, depth)
    return t


def safe_equiv(a, b):
    return a is b or (safe_implies(a, b) and safe_implies(b, a))


def order(effs):
    return sorted(effs, key=lambda e: e.seq)


def final_value(E, loc_pred, pc=TRUE):
    """value left in the location by the effects (last writer first), as a guarded term"""
    v = None
    for e in order(writes(E)):
        if loc_pred(e.t):
            v = e.v if v is None and e.pc is TRUE else ite(e.pc, e.v, v if v is not None else e.old if e.old is not None else e.t)
    return v


def short(n):
    return n.replace("printemps::", "")


def direct_calls(f):
    """call/construct nodes in f's body and initialisers (lambdas included)"""
    for n in walk([f.get("b"), f.get("inits", [])]):
        if n.get("k") in ("call", "ctor", "new") and n.get("f"):
            yield n


def callgraph(P):
    g = getattr(P, "_cg", None)
    if g is None:
        g = {}
        for f in P.fn.values():
            g[f["id"]] = {n["f"] for n in direct_calls(f)}
        P._cg = g
    return g


def reachable(P, roots):
    g = callgraph(P)
    seen, todo = set(), [f["id"] for f in roots]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(y for y in g.get(x, ()) if y in P.fn)
    return seen


def callers(P, name):
    """functions that directly call a function whose qualified name ends with name"""
    for f in P.fn.values():
        for n in direct_calls(f):
            if n["n"] == name or n["n"].endswith("::" + name):
                yield f, n


def is_baseline(P, f):
    return P.key(f) in sym.BASELINE


def owners(P, f):
    """the functions of the reference tree on whose behalf f runs: f itself, or those that reach it through new helpers"""
    if is_baseline(P, f):
        return [f]
    if not hasattr(P, "_rev"):
        P._rev = {}
        for g in P.fn.values():
            for n in walk(g["b"]):
                if n.get("k") in ("call", "fn", "mfn", "ctor", "lam") and n.get("f"):
                    for i in [n["f"]] + list(n.get("insts") or []):
                        P._rev.setdefault(i, set()).add(g["id"])
        for i, js in P.stands.items():
            P._rev.setdefault(i, set()).update(js)
    out, seen, todo = [], {f["id"]}, [f["id"]]
    while todo:
        for i in P._rev.get(todo.pop(), ()):
            if i not in seen:
                seen.add(i)
                g = P.fn[i]
                if is_baseline(P, g):
                    out.append(g)
                else:
                    todo.append(i)
    return out


EVALS = ("Model::evaluate", "Model::evaluate_single", "Model::evaluate_selection", "Model::evaluate_multi")


def not_early(E, ok):
    """forget that a loop may be left early where every way of leaving it is fine"""
    m = {}
    for a in {x for e in E.effects for x in subterms(e.pc) if x.op == "early"}:
        outs = [e for e in E.effects if e.kind in ("break", "ret") and len(e.loops) == a.a[1] + 1 and e.loops[-1] is a.a[0]]
        if outs and all(ok(e) for e in outs):
            m[a] = FALSE
    if m:
        for e in E.effects:
            e.pc = subst(e.pc, m)
    return E


def index_syms(t):
    return {x for x in subterms(t) if x.op == "iv"}


def const_value(P, name):
    g = P.globals.get(name)
    if g is None or g.get("i") is None:
        return None
    E = Eval(P)
    E.st = sym.State({}, {}, TRUE)
    E.frames = [{"f": {"n": "global", "id": -1, "p": []}, "this": THIS, "rets": [], "throws": [], "mut": set(), "rref": None}]
    return asnum(E.ev(g["i"]))


def asnum(v):
    if v.op == "b":
        return num(1 if v.a[0] else 0)
    if v.op == "enum":
        e = v.a[0].rsplit("::", 1)[0]
        if v.a[0] in ENUMS.get(e, ()):
            return num(ENUMS[e].index(v.a[0]))
    return v


def is_false(v):
    return v is FALSE or v is ZERO


def is_true(v):
    return v is TRUE or v is ONE


def lambda_body(P, lam, file):
    """(params, body, id) of a lambda; for a generic one, of its instantiation"""
    n = lam.node
    if not n.get("gen"):
        return n["p"], n["b"], n["f"]
    c = [P.fn[i] for i in n.get("insts", ()) if i in P.fn and P.fn[i].get("b")]
    if not c:
        raise Broken("no instantiation of the generic lambda at %s:%s" % (file, n["l"]))
    return c[0]["p"], c[0]["b"], c[0]["id"]


def run_stored_lambda(ctx, E0, lamterm, file, args=None, policy=None):
    """evaluate a lambda that E0 stored somewhere, in its captured environment"""
    lam = E0.lams.get(lamterm)
    if lam is None:
        raise Broken("stored callable %s is not a lambda" % lamterm)
    ps, body, fid = lambda_body(ctx.P, lam, file)
    E = Eval(ctx.P, inline=policy)
    E.lams.update(E0.lams)
    E.ret = E.run_lambda({"f": fid, "p": ps, "b": body, "l": lam.node["l"], "cap": lam.node.get("cap", [])}, this=lam.this, args=args,
                         env={k: v for k, v in lam.env.items()}, fname=E0.f["n"] + "::lambda")
    E.f = E0.f
    return E


def demax(t, pc):
    """t with every max/min resolved that the guard pc resolves"""
    for _ in range(80):
        hit = None
        for s in subterms(t):
            if s.op in ("max", "min"):
                xs = list(s.a[0])
                for x in xs:
                    if all(y is x or safe_implies(pc, le(y, x) if s.op == "max" else le(x, y)) for y in xs):
                        hit = (s, x)
                        break
            elif s.op == "abs":
                x = s.a[0]
                if safe_implies(pc, le(ZERO, x)):
                    hit = (s, x)
                elif safe_implies(pc, le(x, ZERO)):
                    hit = (s, neg(x))
            if hit:
                break
        if not hit:
            return t
        t = subst(t, {hit[0]: hit[1]})
    return t


def resolve(t, pc):
    """t under pc: conditions and extrema decided, repeatedly"""
    for _ in range(10):
        n = demax(under(t, pc), pc)
        if n is t:
            return t
        t = n
    return t


def same_under(a, b, pc):
    """are a and b equal wherever pc holds (case split over undecided conditions and extrema)?"""
    if not safe_sat(pc):
        return True
    a, b = resolve(a, pc), resolve(b, pc)
    if a is b or (a.op not in ("b",) and not is_boolean(a) and sub(a, b) is ZERO):
        return True
    if is_boolean(a) and is_boolean(b):
        return safe_implies(and_(pc, a), b) and safe_implies(and_(pc, b), a)
    for t in (a, b):
        for s in subterms(t):
            if s.op == "ite":
                c = s.a[0]
            elif s.op in ("max", "min") and len(s.a[0]) >= 2:
                x, y = list(s.a[0])[:2]
                c = le(x, y)
            elif s.op == "abs":
                c = le(ZERO, s.a[0])
            else:
                continue
            p, q = and_(pc, c), and_(pc, not_(c))
            if p is pc or q is pc:
                continue
            return same_under(a, b, p) and same_under(a, b, q)
    if not is_boolean(a) and not is_boolean(b):
        return safe_implies(pc, le(a, b)) and safe_implies(pc, le(b, a))
    return False


def is_boolean(t):
    return is_bool(t) or t.op in ("b", "lt0", "eq0", "eq", "not", "and", "or", "exists")


def unloc(E, t):
    """replace local objects that are plain copies (initialised, never modified) by what they copy"""
    if not isinstance(t, T):
        return t
    m = {}
    for x in subterms(t):
        if x.op != "loc" or x in m:
            continue
        ini = [e for e in E.effects if e.kind == "init" and e.t is x]
        if len(ini) == 1 and not any(e.kind != "init" and isinstance(e.t, T) and e.t is not x and is_sub(e.t, x) for e in E.effects) \
                and not any(e.kind == "call" and e.t is x for e in E.effects):
            m[x] = ini[0].v
    return rebuild(t, lambda x: m.get(x, x)) if m else t


def leaves(t, pc=TRUE):
    """(condition, value) pairs of the ite tree t"""
    if t.op == "ite":
        for c, x in ((t.a[0], t.a[1]), (not_(t.a[0]), t.a[2])):
            p = and_(pc, c)
            if p is not FALSE:
                yield from leaves(x, p)
    else:
        yield pc, t


def split_conds(t):
    for s in subterms(t):
        if s.op == "ite":
            yield s.a[0]
        elif s.op in ("max", "min") and len(s.a[0]) >= 2:
            x, y = list(s.a[0])[:2]
            yield le(x, y)
        elif s.op == "abs":
            yield le(ZERO, s.a[0])


def implies_split(pc, goal, n=8):
    """pc implies goal, with case splits over extrema and conditionals inside either"""
    if not safe_sat(pc):
        return True
    p, g = pc, goal
    for _ in range(6):
        p2, g2 = demax(p, pc), resolve(g, p)
        if p2 is p and g2 is g:
            break
        p, g = and_(pc, p2), g2
        if p is FALSE or not safe_sat(p):
            return True
    if safe_implies(p, g):
        return True
    if n == 0:
        return False
    for t in (g, p):
        for c in split_conds(t):
            a, b = and_(p, c), and_(p, not_(c))
            if a is p or b is p:
                continue
            return implies_split(a, goal, n - 1) and implies_split(b, goal, n - 1)
    return False
