"""Gated value-numbering evaluator: walks the resolved syntax tree of a function
(inlining helpers), and produces the list of guarded effects it can have."""
import json, os, sys
from terms import *

sys.setrecursionlimit(20000)


class Prog:
    def __init__(self, path):
        self.fn = {}
        self.by_name = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                k = o["k"]
                if k == "function":
                    flatten(o)
                    self.fn[o["id"]] = o
                    self.by_name.setdefault(o["n"], []).append(o)
                elif k == "record":
                    self.records.setdefault(o["n"], o)
                elif k == "enum":
                    self.enums[o["n"]] = [c["n"] for c in o["c"]]
                elif k == "global":
                    self.globals[o["n"]] = o
        ENUMS.update(self.enums)
        self._mut = {}
        self._clones = {}
        self._asg = {}
        self.stands = {}
        self.see_through()
        self._size = {}

    def find(self, suffix, arity=None, pred=None):
        """functions whose qualified name ends with ::suffix"""
        out = []
        for n, fs in self.by_name.items():
            if n == suffix or n.endswith("::" + suffix):
                for f in fs:
                    if arity is not None and len(f["p"]) != arity:
                        continue
                    if pred and not pred(f):
                        continue
                    out.append(f)
        return out

    def see_through(self):
        """a function that only passes its parameters on to a new function stands for that function"""
        if not BASELINE:
            return
        for f in self.fn.values():
            for _ in range(4):
                b = f.get("b")
                if not b or b["k"] != "blk" or len(b["s"]) != 1 or f.get("inits") or self.key(f) not in BASELINE:
                    break
                s = b["s"][0]
                c = strip(s.get("e") or {}) if s["k"] in ("ret", "expr") else {}
                while c.get("k") == "ctor" and len(c.get("a", [])) == 1:
                    c = strip(c["a"][0])
                g = self.fn.get(c.get("f")) if c.get("k") == "call" else None
                if g is None or g is f or not g.get("b") or self.key(g) in BASELINE or g.get("cls") != f.get("cls") or g.get("rt") != f.get("rt"):
                    break
                if c.get("o") is not None and strip(c["o"]).get("k") != "this" or len(c["a"]) != len(f["p"]) or len(g["p"]) != len(f["p"]):
                    break
                if any(strip(a).get("k") != "v" or strip(a).get("id") != p["id"] or p.get("t") != q.get("t") for a, p, q in zip(c["a"], f["p"], g["p"])):
                    break
                f["b"], f["p"] = g["b"], g["p"]
                self.stands.setdefault(g["id"], set()).add(f["id"])

    def key(self, f):
        return "%s/%d" % (f["n"], len(f["p"]))

    def size(self, f):
        s = self._size.get(f["id"])
        if s is None:
            s = count_nodes(f["b"])
            self._size[f["id"]] = s
        return s


def prop_implies(a, b):
    try:
        return implies(a, b)
    except TooHard:
        return False


def flatten(o):
    """nested blocks become part of the enclosing one; statements without effect disappear (names are unique, so scopes do not matter)"""
    if isinstance(o, list):
        for x in o:
            flatten(x)
        return
    if not isinstance(o, dict):
        return
    for v in o.values():
        if isinstance(v, (dict, list)):
            flatten(v)
    if o.get("k") == "blk":
        out = []
        for x in o["s"]:
            if isinstance(x, dict) and x.get("k") == "blk":
                out.extend(x["s"])
            elif isinstance(x, dict) and x.get("k") == "expr" and strip(x.get("e") or {}).get("k") in ("int", "bool", "flt", "null"):
                continue
            else:
                out.append(x)
        o["s"] = out


def count_nodes(o):
    n = 0
    if isinstance(o, dict):
        n = 1 if "k" in o else 0
        for v in o.values():
            if isinstance(v, (dict, list)):
                n += count_nodes(v)
    elif isinstance(o, list):
        for v in o:
            n += count_nodes(v)
    return n


def walk(o):
    """all dict nodes, pre-order"""
    if isinstance(o, dict):
        yield o
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                yield from walk(v)


SCALARISH = ("std::basic_string",)

NONMUT_STD = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "operator[]", "front", "back", "find", "data",
              "operator*", "operator->", "get", "first", "second", "size", "lower_bound", "upper_bound", "equal_range",
              "count", "length", "empty", "c_str", "str", "what", "good", "fail", "is_open", "eof", "operator bool",
              "(conv)", "substr", "operator()", "top", "find_first_of", "rfind", "compare", "contains", "capacity"}

IDENT = {"std::move", "std::forward", "std::addressof", "std::as_const", "std::ref", "std::cref"}
MAXMIN = {"std::max": "max", "std::min": "min", "fmax": "max", "fmin": "min", "std::fmax": "max", "std::fmin": "min"}
ABSFN = {"std::abs", "std::fabs", "fabs"}
PURE_FREE = ("std::floor", "std::ceil", "std::round", "std::sqrt", "std::log", "std::exp", "std::pow", "std::log10", "floor", "ceil",
             "round", "sqrt", "std::isnan", "std::isinf", "std::to_string", "std::get", "std::make_pair", "std::make_tuple",
             "std::find", "std::find_if", "std::count", "std::count_if", "std::accumulate", "std::max_element", "std::min_element",
             "std::begin", "std::end", "std::distance", "std::advance", "std::next", "std::prev", "std::stoi", "std::stod",
             "std::numeric_limits", "std::includes", "std::binary_search", "std::equal", "std::operator", "__gnu_cxx::operator",
             "std::setprecision", "std::setw", "std::hash", "std::inner_product", "std::lround", "std::trunc", "std::clamp")


class Eff:
    __slots__ = ("kind", "t", "v", "pc", "loops", "line", "fn", "ctx", "seq", "node", "fid", "args", "intry", "old", "stack", "ep")

    def __init__(s, **k):
        for n in Eff.__slots__:
            setattr(s, n, k.get(n))

    def __repr__(s):
        d = {"write": "%s := %s" % (s.t, s.v), "call": "%s.%s(%s) " % (s.t, s.v, ", ".join(map(str, s.args or ()))),
             "ret": "return %s" % (s.v,), "throw": "throw %s" % (s.v,), "init": "init %s = %s" % (s.t, s.v)}.get(s.kind, "%s %s %s" % (s.kind, s.t, s.v))
        return "%s:%s  {%s}%s%s %s" % (s.fn.split("::")[-1], s.line, s.pc, " loops=%s" % (s.loops,) if s.loops else "", " ctx=%s" % (s.ctx,) if s.ctx else "", d)


class State:
    __slots__ = ("env", "store", "pc")

    def __init__(s, env, store, pc):
        s.env, s.store, s.pc = env, store, pc

    def copy(s):
        return State(dict(s.env), dict(s.store), s.pc)


class Ref:
    """alias to a location"""
    __slots__ = ("loc",)

    def __init__(s, loc):
        s.loc = loc


class Lam:
    __slots__ = ("node", "this", "env", "store")

    def __init__(s, node, this):
        s.node, s.this = node, this


class Budget(Exception):
    pass


def conj(pc):
    return set(pc.a[0]) if pc.op == "and" else ({pc} if pc is not TRUE else set())


def rel(pc, base):
    """pc relative to base (drop conjuncts already in base)"""
    if pc is FALSE:
        return FALSE
    b = conj(base)
    return and_(*[x for x in (pc.a[0] if pc.op == "and" else (pc,)) if x not in b])


def join_pc(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    ca, cb = conj(a), conj(b)
    com = ca & cb
    return and_(*(list(com) + [or_(and_(*(ca - com)), and_(*(cb - com)))]))


class Eval:
    def __init__(self, prog, inline=None, opaque=None, baseline=None, max_depth=14, max_eff=60000, inline_size=0, lam_call=None):
        """inline: callable(fn)->True/False/None (None: default policy)"""
        self.prog = prog
        self.inline_cb = inline
        self.baseline = baseline if baseline is not None else BASELINE
        self.max_depth = max_depth
        self.max_eff = max_eff
        self.effects = []
        self.phidefs = {}
        self.phiall = {}
        self.frames = []
        self.loops = []
        self.ctx = []
        self.lams = {}
        self.dry = 0
        self.copyof = {}
        self.try_depth = 0
        self.nloc = 0
        self.written = None
        self.steps = 0
        self.epoch = None
        self.locnames, self.locused = {}, {}
        self.copyst = {}
        self.aggst = {}
        self.nframe = 0

    def local_loc(self, fr, v):
        """the location of an aggregate local: one per declaration and activation"""
        k = (fr.get("uid", 0), v["id"])
        t = self.locnames.get(k)
        if t is None:
            n = v["n"] or "binding"
            c = self.locused.get(n, 0)
            self.locused[n] = c + 1
            t = self.locnames[k] = mk("loc", n if c == 0 else "%s~%d" % (n, c + 1))
        return t

    def havoc_local(self, loc):
        """an opaque member function may have changed a local object"""
        r = loc
        while r.op in ("fld", "at", "get"):
            r = r.a[1] if r.op == "get" else r.a[0]
        if r.op != "loc":
            return
        st = self.st.store
        for k in [k for k in st if is_sub(k, loc) or k is loc]:
            del st[k]
        if r is loc:
            self.copyof.pop(loc, None)
        if self.written is not None:
            self.written.add(loc)

    # ------------------------------------------------------------ policy
    def should_inline(self, f, node):
        if len(self.frames) >= self.max_depth:
            return False
        if any(fr["f"].get("orig", fr["f"]) is f for fr in self.frames):
            return False
        if self.inline_cb:
            r = self.inline_cb(f)
            if r is not None:
                return r
        if f["n"].startswith("printemps") and self.prog.key(f) not in self.baseline:
            return True
        return is_accessor(self.prog, f)

    # ------------------------------------------------------------ run
    def run(self, f, this=THIS, args=None, env=None):
        self.st = State(dict(env or {}), {}, TRUE)
        vals = []
        for i, p in enumerate(f["p"]):
            vals.append(args[i] if args and i < len(args) and args[i] is not None else mk("sym", "$" + str(i)))
        r = self.call_body(f, this, [Ref(v) if (p.get("ref") or self.is_agg(p["t"])) else v for p, v in zip(f["p"], vals)], f["b"])
        return r

    def run_lambda(self, node, this=THIS, args=None, env=None, fname="lambda", store=None):
        self.st = State(dict(env or {}), dict(store or {}), TRUE)
        f = {"n": fname, "id": node["f"], "p": node["p"], "b": node["b"], "l": node["l"]}
        vals = [args[i] if args and i < len(args) and args[i] is not None else mk("sym", "$" + str(i)) for i in range(len(node["p"]))]
        for c in node.get("cap", []):
            if "i" in c and c.get("id") not in self.st.env:
                pass
        return self.call_body(f, this, [Ref(v) if (p.get("ref") or self.is_agg(p["t"])) else v for p, v in zip(f["p"], vals)], f["b"])

    def is_agg(self, t):
        if not t:
            return False
        if t.endswith("*"):
            return False
        if t.startswith("printemps::"):
            return t not in self.prog.enums
        if t.startswith("std::") :
            return not t.startswith(SCALARISH)
        if t in ("lambda",) or t.endswith("::lambda"):
            return False
        return False

    def call_body(self, f, this, vals, body, pass_env=True):
        st = self.st
        fr = {"f": f, "this": this, "rets": [], "throws": [], "loopbase": len(self.loops), "rref": f.get("rref"), "mut": self.mutated(f["id"], body, f["p"])}
        self.nframe += 1
        fr["uid"] = self.nframe
        entry_pc = st.pc
        self.frames.append(fr)
        for p, v in zip(f["p"], vals):
            self.bind_param(p, v, fr)
        for i in f.get("inits", []):
            if i.get("f"):
                if i.get("w") or i["e"].get("k") not in ("ctor",):
                    loc = mk("fld", this, i["f"])
                    self.write(loc, self.ev(i["e"]), i["e"], kind="write")
            elif i.get("base") or i.get("del"):
                e = i["e"]
                if e and e.get("k") == "ctor" and e.get("f") in self.prog.fn:
                    g = self.prog.fn[e["f"]]
                    if self.should_inline(g, e):
                        self.call_body(g, this, self.eval_args(g, e["a"]), g["b"])
                    else:
                        self.eff("call", this, g["n"] if "n" in g else e["n"], e, args=tuple(self.arg_val(a) for a in e["a"]), fid=e["f"])
        self.ex(body)
        st = self.st
        self.frames.pop()
        rets = list(fr["rets"])
        if st.pc is not FALSE:
            rets.append((st.pc, None, st.env, st.store))
        if not rets:
            self.st = State(st.env, st.store, FALSE)
            return None
        # merge
        pc = rets[0][0]
        for r in rets[1:]:
            pc = join_pc(pc, r[0])
        if not fr["throws"] :
            # no abnormal exit: the caller's path condition is unchanged
            pc = entry_pc
        val = rets[-1][1]
        env, store = rets[-1][2], rets[-1][3]
        for (rp, rv, renv, rstore) in reversed(rets[:-1]):
            c = rel(rp, entry_pc)
            if val is not None or rv is not None:
                if isinstance(rv, Ref) or isinstance(val, Ref):
                    a = rv.loc if isinstance(rv, Ref) else rv
                    b = val.loc if isinstance(val, Ref) else val
                    if a is None or b is None:
                        val = a or b
                    else:
                        val = Ref(ite(c, a, b)) if a is not b else Ref(a)
                elif isinstance(rv, Lam) or isinstance(val, Lam):
                    val = rv or val
                elif rv is None or val is None:
                    val = rv or val
                else:
                    val = ite(c, rv, val)
            env, store = self.merge(c, renv, rstore, env, store)
        self.st = State(env, store, pc)
        if self.frames:
            self.frames[-1]["throws"].extend(fr["throws"])
        else:
            self.final_throws = fr["throws"]
        if val is not None and not self.frames:
            pass
        return val

    def merge(self, c, ea, sa, eb, sb):
        if ea is eb and sa is sb:
            return ea, sa
        env = dict(eb)
        for k, v in ea.items():
            w = eb.get(k)
            if w is None:
                env[k] = v
            elif v is not w:
                if isinstance(v, T) and isinstance(w, T):
                    env[k] = ite(c, v, w)
                elif isinstance(v, Ref) and isinstance(w, Ref):
                    env[k] = Ref(ite(c, v.loc, w.loc)) if v.loc is not w.loc else v
                else:
                    env[k] = v
        store = dict(sb)
        for k, v in sa.items():
            w = sb.get(k)
            if w is None:
                w = self.initial(k)
            if v is not w:
                store[k] = ite(c, v, w)
            else:
                store[k] = v
        for k, w in sb.items():
            if k not in sa:
                v = self.initial(k)
                if v is not w:
                    store[k] = ite(c, v, w)
        return env, store

    def initial(self, loc):
        """value of an unwritten location"""
        if loc.op == "fld":
            b = loc.a[0]
            b2 = self.initial(b) if b.op in ("fld",) else self.copyof.get(b, b)
            if b2 is not b:
                return fld(b2, loc.a[1])
        return loc

    # ------------------------------------------------------------ prescan
    def mutated(self, fid, body, params):
        m = self.prog._mut.get(fid)
        if m is None:
            m = set()
            self._scan_mut(body, m)
            self.prog._mut[fid] = m
        return m

    def _root(self, e):
        while isinstance(e, dict):
            k = e["k"]
            if k == "v":
                return e["id"]
            if k == "m":
                e = e["b"]
            elif k == "call" and e.get("o") is not None and (e["n"].split("::")[-1] in ("operator[]", "at", "begin", "end", "front", "back", "rbegin", "rend", "find", "data", "operator*", "operator->")):
                e = e["o"]
            elif k == "idx":
                e = e["a"]
            elif k == "un" and e["op"] in ("&",):
                e = e["e"]
            elif k == "cast":
                e = e["e"]
            elif k == "cond":
                return None
            else:
                return None
        return None

    def _scan_mut(self, body, m):
        for n in walk(body):
            k = n.get("k")
            if k in ("asg", "casg"):
                r = self._root(n["a"])
                if r:
                    m.add(r)
            elif k == "un" and n["op"] in ("++", "--", "&"):
                r = self._root(n["e"])
                if r:
                    m.add(r)
            elif k == "call":
                o = n.get("o")
                nm = n["n"].split("::")[-1]
                if o is not None and not n.get("cm") and not n.get("st"):
                    if not (nm in NONMUT_STD and n["n"].startswith("std::")) or nm in ("begin", "end", "rbegin", "rend", "data"):
                        r = self._root(o)
                        if r:
                            m.add(r)
                f = self.prog.fn.get(n.get("f"))
                if f is not None:
                    for p, a in zip(f["p"], n["a"]):
                        if p.get("ref") and not p.get("const") and (self.prog.key(f) in self.baseline or p["id"] in callee_assigned(self.prog, f)):
                            r = self._root(a)
                            if r:
                                m.add(r)
                elif n.get("op") in ("=", "+=", "-=", "*=", "/=", ">>", "<<", "++", "--"):
                    r = self._root(o if o is not None else n["a"][0])
                    if r:
                        m.add(r)
                elif n["n"] in ("std::swap", "std::getline", "std::tie"):
                    for a in n["a"]:
                        r = self._root(a)
                        if r:
                            m.add(r)
                if n.get("cal") is not None:
                    for a in n["a"]:
                        pass
            elif k == "rfor":
                v = n["v"]
                if v.get("ref") and not v.get("const"):
                    # loop variable aliasing elements; container counts as mutated if the variable is
                    sub = set()
                    self._scan_mut(n["b"], sub)
                    if v["id"] in sub or any(b["id"] in sub for b in v.get("b", [])):
                        r = self._root(n["r"])
                        if r:
                            m.add(r)
            elif k == "decl":
                for v in n["v"]:
                    if v.get("ref") and not v.get("const") and v.get("i"):
                        sub_r = self._root(v["i"])
                        if sub_r:
                            m.add(sub_r)

    # ------------------------------------------------------------ effects
    def eff(self, kind, t, v, node, **k):
        if self.dry:
            return
        if self.st.pc is FALSE:
            return
        e = Eff(kind=kind, t=t, v=v, pc=self.st.pc, loops=tuple(l["dom"] for l in self.loops), line=(node or {}).get("l"),
                fn=self.frames[-1]["f"]["n"] if self.frames else "?", ctx=tuple(self.ctx), seq=len(self.effects), node=node,
                fid=k.get("fid"), args=k.get("args"), intry=self.try_depth, old=k.get("old"),
                stack=tuple(fr["f"]["n"] for fr in self.frames), ep=self.st.store.get(mk("epoch", t)) if self.epoch is not None and isinstance(t, T) else None)
        self.effects.append(e)
        if len(self.effects) > self.max_eff:
            raise Budget("effects")

    def write(self, loc, val, node, kind="write"):
        if isinstance(val, (Ref,)):
            val = self.read(val.loc)
        if isinstance(val, Lam):
            val = self.lam_term(val)
        if val is None:
            val = mk("sym", "?void")
        if loc.op == "ite":
            c = loc.a[0]
            pc = self.st.pc
            self.st.pc = and_(pc, c)
            s0 = dict(self.st.store)
            self.write(loc.a[1], val, node, kind)
            s1 = self.st.store
            self.st.store = s0
            self.st.pc = and_(pc, not_(c))
            self.write(loc.a[2], val, node, kind)
            self.st.env, self.st.store = self.merge(c, self.st.env, s1, self.st.env, self.st.store)
            self.st.pc = pc
            return
        old = self.read(loc)
        self.eff(kind, loc, val, node, old=old)
        if self.st.pc is not FALSE:
            # invalidate sub-locations
            st = self.st.store
            for k in [k for k in st if is_sub(k, loc)]:
                del st[k]
            st[loc] = val
            if self.written is not None:
                self.written.add(loc)

    def copy_agg(self, loc, val, node):
        """assignment of a whole object: parts of the copy keep the values the source had when it was copied"""
        if isinstance(val, T) and val.op in ("fld", "at", "get", "sym"):
            s0 = dict(self.st.store)
            self.write(loc, val, node)
            if self.st.store.get(loc) is val:
                self.aggst[(loc, val)] = s0
        else:
            self.write(loc, val, node)

    def read(self, loc):
        if isinstance(loc, Ref):
            loc = loc.loc
        st = self.st.store
        v = st.get(loc)
        if v is not None:
            return v
        if self.aggst and loc.op in ("fld", "at", "get"):
            b, path = loc, []
            while b.op in ("fld", "at", "get"):
                path.append(b)
                b = b.a[1] if b.op == "get" else b.a[0]
                bv = st.get(b)
                if bv is not None:
                    s0 = self.aggst.get((b, bv))
                    if s0 is not None and s0 is not st:
                        for x in reversed(path):
                            bv = fld(bv, x.a[1]) if x.op == "fld" else getn(x.a[0], bv) if x.op == "get" else mk("at", bv, x.a[1])
                        self.st.store = s0
                        try:
                            return self.read(bv)
                        finally:
                            self.st.store = st
                    break
        if loc.op == "ite":
            return ite(loc.a[0], self.read(loc.a[1]), self.read(loc.a[2]))
        if loc.op == "fld":
            b = loc.a[0]
            bv = st.get(b)
            if bv is not None and bv is not b:
                if contains(bv, lambda x: x is b):
                    return fld(bv, loc.a[1])
                return self.read(fld(bv, loc.a[1]))
            if b.op in ("fld", "at", "get"):
                b2 = self.read(b)
                if b2 is not b:
                    if contains(b2, lambda x: x is b):
                        return fld(b2, loc.a[1])
                    return self.read(fld(b2, loc.a[1]))
            c = self.copyof.get(b)
            if c is not None:
                keep = self.st.store
                self.st.store = self.copyst.get(b, keep)
                r = self.read(fld(c, loc.a[1]))
                self.st.store = keep
                return r
        if loc.op == "get":
            b = loc.a[1]
            bv = st.get(b)
            if bv is not None:
                return getn(loc.a[0], bv)
            c = self.copyof.get(b)
            if c is not None:
                return getn(loc.a[0], c)
        return loc

    # ------------------------------------------------------------ binding
    def bind_param(self, p, v, fr):
        t = p["t"]
        if isinstance(v, Lam):
            self.st.env[p["id"]] = v
            return
        if p.get("ref"):
            self.st.env[p["id"]] = v if isinstance(v, Ref) else Ref(v)
            return
        if isinstance(v, Ref):
            v = self.read(v.loc)
        if self.is_agg(t):
            if p["id"] in fr["mut"]:
                self.nloc += 1
                loc = self.local_loc(fr, p)
                self.copyof[loc] = v
                self.copyst[loc] = dict(self.st.store)
                self.st.env[p["id"]] = Ref(loc)
            else:
                self.st.env[p["id"]] = Ref(v)
            return
        self.st.env[p["id"]] = v

    def by_name_params(self, f, args):
        """a parameter that refers to a scalar local of the caller is that local"""
        m = {}
        for p, a in zip(f["p"], args):
            a = strip(a) if a else {}
            ptr = False
            if a.get("k") == "un" and a.get("op") == "&" and p["t"].endswith("*"):
                a, ptr = strip(a["e"]), True
            elif not p.get("ref") or p.get("const"):
                continue
            if a.get("k") != "v" or not isinstance(self.st.env.get(a["id"]), T):
                continue
            if ptr and not only_dereferenced(f["b"], p["id"]):
                continue
            if p["id"] in callee_assigned(self.prog, f, ptr):
                m[p["id"]] = (a, ptr)
        if not m:
            return f, args
        key = (f["id"], tuple(sorted((k, v[0]["id"], v[1]) for k, v in m.items())))
        g = self.prog._clones.get(key)
        if g is None:
            keep = [i for i, p in enumerate(f["p"]) if p["id"] not in m]
            g = dict(f, b=rename(f["b"], m), p=[f["p"][i] for i in keep], orig=f, id=key, keep=keep)
            self.prog._clones[key] = g
        return g, [args[i] for i in g["keep"] if i < len(args)]

    def eval_args(self, f, args):
        out = []
        for p, a in zip(f["p"], args):
            if p.get("ref"):
                out.append(self.lv(a))
            else:
                out.append(self.ev_raw(a))
        return out

    # ------------------------------------------------------------ statements
    def ex(self, n):
        if n is None or self.st.pc is FALSE:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Budget("steps")
        getattr(self, "ex_" + n["k"])(n)

    def ex_blk(self, n):
        for s in n["s"]:
            if self.st.pc is FALSE:
                return
            self.ex(s)

    def ex_unk(self, n):
        pass

    def ex_decl(self, n):
        for v in n["v"]:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        i = v.get("i")
        if v.get("b") is not None:
            base = self.lv(i) if i is not None else Ref(mk("loc", v["n"] or "binding"))
            loc = base.loc if isinstance(base, Ref) else base
            self.bind_decomp(v, loc)
            return
        if v.get("static"):
            val = self.ev(i) if i is not None else mk("sym", "static:" + v["n"])
            self.st.env[v["id"]] = val
            return
        if v.get("ref"):
            if i is None:
                return
            r = self.lv(i)
            self.st.env[v["id"]] = r if isinstance(r, (Ref, Lam)) else Ref(r)
            return
        val = self.ev_raw(i) if i is not None else None
        if isinstance(val, Lam):
            self.st.env[v["id"]] = val
            return
        if isinstance(val, Ref):
            val = self.read(val.loc)
        if self.is_agg(v["t"]) or (v["t"] and "[" in v["t"]):
            if v["id"] in fr["mut"]:
                loc = self.local_loc(fr, v)
                st = self.st.store
                for k in [k for k in st if is_sub(k, loc) or k is loc]:
                    del st[k]
                self.copyof.pop(loc, None)
                if val is not None and not (val.op == "ctor" and not val.a[1]):
                    self.copyof[loc] = val
                    self.copyst[loc] = dict(st)
                self.eff("init", loc, val if val is not None else mk("ctor", v["t"], ()), v)
                self.st.env[v["id"]] = Ref(loc)
            else:
                self.st.env[v["id"]] = Ref(val if val is not None else mk("ctor", v["t"], ()))
            return
        self.st.env[v["id"]] = val if val is not None else mk("sym", "uninit:" + v["n"])

    def bind_decomp(self, v, loc):
        for i, b in enumerate(v["b"]):
            self.st.env[b["id"]] = Ref(getn(i, loc))

    def ex_expr(self, n):
        self.ev_raw(n["e"], stmt=True)

    def branch(self, c, then, els):
        """then/els: callables"""
        st = self.st
        base = st.pc
        a = State(dict(st.env), dict(st.store), and_(base, c))
        b = State(st.env, st.store, and_(base, not_(c)))
        self.st = a
        if then and a.pc is not FALSE:
            then()
        a = self.st
        self.st = b
        if els and b.pc is not FALSE:
            els()
        b = self.st
        if a.pc is FALSE:
            self.st = b
            return
        if b.pc is FALSE:
            self.st = a
            return
        env, store = self.merge(c, a.env, a.store, b.env, b.store)
        self.st = State(env, store, join_pc(a.pc, b.pc))

    def ex_if(self, n):
        if n.get("i"):
            self.ex(n["i"])
        if n.get("cv"):
            self.declare(n["cv"])
        c = self.cond(n["c"])
        self.branch(c, lambda: self.ex(n["t"]), (lambda: self.ex(n["e"])) if n.get("e") else None)

    def ex_ret(self, n):
        fr = self.frames[-1]
        v = None
        if n.get("e") is not None:
            v = self.lv(n["e"]) if fr["rref"] else self.ev_raw(n["e"])
            if isinstance(v, Ref) and not fr["rref"]:
                v = self.read(v.loc)
        if len(self.frames) == 1:
            x = v
            if isinstance(x, Ref):
                x = self.read(x.loc)
            if isinstance(x, Lam):
                x = self.lam_term(x)
            self.eff("ret", None, x, n)
        fr["rets"].append((self.st.pc, v, self.st.env, self.st.store))
        self.st = State(dict(self.st.env), dict(self.st.store), FALSE)

    def ex_break(self, n):
        b = self.brk[-1]
        b["breaks"].append((self.st.pc, self.st.env, self.st.store))
        if b.get("loop"):
            self.eff("break", None, None, n)
        self.st = State(dict(self.st.env), dict(self.st.store), FALSE)

    def ex_continue(self, n):
        for b in reversed(self.brk):
            if b.get("loop"):
                b["conts"].append((self.st.pc, self.st.env, self.st.store))
                break
        self.eff("continue", None, None, n)
        self.st = State(dict(self.st.env), dict(self.st.store), FALSE)

    brk = None

    def ex_switch(self, n):
        if n.get("i"):
            self.ex(n["i"])
        c = self.ev(n["c"])
        segs = []      # [labels, stmts]
        def add(s):
            if s is None:
                return
            if s["k"] == "case" or s["k"] == "default":
                lab = None if s["k"] == "default" else s["c"]
                if segs and not segs[-1][1]:
                    segs[-1][0].append(lab)
                else:
                    segs.append([[lab], []])
                add(s["b"])
            elif segs:
                segs[-1][1].append(s)
        body = n["b"]
        for s in (body["s"] if body["k"] == "blk" else [body]):
            add(s)
        if self.brk is None:
            self.brk = []
        fr = {"breaks": []}
        self.brk.append(fr)
        labs = []
        for ls, _ in segs:
            labs.append([None if l is None else eq(c, self.ev(l)) for l in ls])
        allc = [x for ls in labs for x in ls if x is not None]
        st = self.st
        base = st.pc
        outs = []
        for i, (ls, ss) in enumerate(segs):
            cc = or_(*[x if x is not None else not_(or_(*allc)) for x in labs[i]])
            self.st = State(dict(st.env), dict(st.store), and_(base, cc))
            fr["breaks"] = []
            for j in range(i, len(segs)):
                for s in segs[j][1]:
                    self.ex(s)
                if self.st.pc is FALSE:
                    break
            outs.extend((p, e, s2) for p, e, s2 in fr["breaks"])
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, self.st.env, self.st.store))
        if not any(x is None for ls in labs for x in ls):
            p = and_(base, not_(or_(*allc)))
            if p is not FALSE:
                outs.append((p, st.env, st.store))
        self.brk.pop()
        self.join(outs, base)

    def join(self, outs, base):
        if not outs:
            self.st = State(self.st.env, self.st.store, FALSE)
            return
        pc = outs[-1][0]
        env, store = outs[-1][1], outs[-1][2]
        for p, e, s in reversed(outs[:-1]):
            c = rel(p, base)
            env, store = self.merge(c, e, s, env, store)
            pc = join_pc(p, pc)
        self.st = State(env, store, pc)

    def ex_case(self, n):
        self.ex(n["b"])

    ex_default = ex_case

    def ex_try(self, n):
        base = self.st.copy()
        self.try_depth += 1
        self.ex(n["b"])
        self.try_depth -= 1
        after = self.st
        outs = []
        exc = mk("sym", "exception@%s" % ("try"))
        if after.pc is not FALSE:
            outs.append((after.pc, after.env, after.store))
        for h in n["h"]:
            self.st = State(dict(base.env), dict(base.store), and_(base.pc, exc))
            self.ex(h["b"])
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, self.st.env, self.st.store))
        self.join(outs, base.pc)

    def ex_omp(self, n):
        self.ctx.append((n["d"], n["l"], id(n), len(self.loops)))
        self.omp_nodes = getattr(self, "omp_nodes", {})
        self.omp_nodes[id(n)] = n
        if n.get("b") is not None:
            self.ex(n["b"])
        self.ctx.pop()

    # ---- loops
    def assigned_locals(self, body):
        s = set()
        for x in walk(body):
            k = x.get("k")
            if k in ("asg", "casg"):
                if x["a"]["k"] == "v":
                    s.add(x["a"]["id"])
            elif k == "un" and x["op"] in ("++", "--"):
                if x["e"]["k"] == "v":
                    s.add(x["e"]["id"])
            elif k == "call":
                if x.get("op") in ("=", "+=", "-=", "++", "--", "*=", ">>"):
                    o = x.get("o") if x.get("o") is not None else x["a"][0]
                    if o and o["k"] == "v":
                        s.add(o["id"])
                f = self.prog.fn.get(x.get("f"))
                if f:
                    for p, a in zip(f["p"], x["a"]):
                        if p.get("ref") and not p.get("const") and a and a["k"] == "v" and p["id"] in callee_assigned(self.prog, f):
                            s.add(a["id"])
                        elif a and a["k"] == "un" and a.get("op") == "&" and strip(a["e"]).get("k") == "v" and p["id"] in callee_assigned(self.prog, f, True):
                            s.add(strip(a["e"])["id"])
                elif x["n"] in ("std::getline", "std::swap", "std::advance"):
                    for a in x["a"]:
                        if a and a["k"] == "v":
                            s.add(a["id"])
                o = x.get("o")
                if o and o["k"] == "v" and isinstance(self.st.env.get(o["id"]), Lam):
                    s |= self.assigned_locals(self.st.env[o["id"]].node.get("b"))
                if o and o["k"] == "v" and not x.get("cm") and x["n"].startswith("std::basic_string"):
                    if x["n"].split("::")[-1] not in NONMUT_STD:
                        s.add(o["id"])
        return s

    def loop(self, dom, bind, body, extra_nodes, bodycond=None, step=None, excl=(), ordered=False):
        if self.brk is None:
            self.brk = []
        depth = len(self.loops)
        asg = set()
        for b in extra_nodes:
            if b is not None:
                asg |= self.assigned_locals(b)
        asg -= set(excl)
        st = self.st
        entry_pc = st.pc
        env0 = dict(st.env)
        phis = {}
        counters = {}

        def enter(storekeys):
            env = dict(env0)
            for k in asg:
                v = env.get(k)
                if k in counters:
                    env[k] = counters[k]
                elif isinstance(v, T):
                    ph = mk("phi", depth, self.names.get(k, str(k)), v if v.op in ("n", "b", "enum") else NULL)
                    phis[k] = ph
                    env[k] = ph
                elif isinstance(v, Ref):
                    storekeys = storekeys | {v.loc}
            store = {k: v for k, v in st.store.items() if not any(k is s or is_sub(k, s) for s in storekeys)}
            return State(env, store, entry_pc)

        # discovery pass
        saved_w = self.written
        if not self.dry or True:
            self.written = set()
            self.dry += 1
            ne = len(self.effects)
            fr = self.frames[-1]
            nr0, nt0 = len(fr["rets"]), len(fr["throws"])
            self.st = enter(set())
            info = self._loop_body(dom, bind, body, bodycond, step)
            if ordered and dom.op == "idx" and not info["breaks"] and bodycond is None:
                # a counter advanced by a constant once per iteration follows the loop index
                for k, ph in list(phis.items()):
                    nv = info["env"].get(k)
                    if isinstance(nv, T) and isinstance(env0[k], T):
                        d = sub(nv, ph)
                        if d.op == "n" and d is not ZERO:
                            counters[k] = add(env0[k], mul(d, sub(mk("iv", depth), dom.a[0])))
                            phis[k] = ph
            del fr["rets"][nr0:]
            del fr["throws"][nt0:]
            self.dry -= 1
            keys = self.written
            self.written = saved_w
            if self.written is not None:
                self.written |= keys
        else:
            keys = set()
        self.st = enter(keys)
        fr = self.frames[-1]
        nret = len(fr["rets"])
        nthr = len(fr["throws"])
        neff = len(self.effects)
        info = self._loop_body(dom, bind, body, bodycond, step)
        exits = [x[0] for x in list(info["breaks"]) + list(fr["rets"][nret:]) if x[0] is not FALSE]
        if dom.op != "whl" and exits:
            # what the loop does happens only until it is left early
            on, iv = not_(mk("early", dom, depth)), mk("iv", depth)
            for e in self.effects[neff:]:
                if e.kind in ("write", "call"):
                    if e.kind == "write" and e.v.op in ("n", "b", "enum", "s") and not contains(e.t, lambda x: x is iv) and all(prop_implies(x, e.pc) for x in exits):
                        continue  # setting something to a constant again makes no difference
                    e.pc = and_(e.pc, on)
        end_env = info["env"]
        has_break = bool(info["breaks"])
        # returns within loop
        rets = fr["rets"][nret:]
        post = entry_pc
        if rets:
            newr = []
            conds = []
            for (rp, rv, renv, rstore) in rets:
                c = exists_(dom, depth, rel(rp, entry_pc))
                conds.append(c)
                newr.append((and_(post, c), rv, renv, rstore))
            fr["rets"][nret:] = newr
            # one combined condition for leaving the loop through a return
            allc = exists_(dom, depth, or_(*[rel(r[0], entry_pc) for r in rets])) if len(rets) > 1 else conds[0]
            post = and_(entry_pc, not_(allc))
        for i in range(nthr, len(fr["throws"])):
            c = exists_(dom, depth, rel(fr["throws"][i], entry_pc))
            fr["throws"][i] = and_(entry_pc, c)
            post = and_(post, not_(c))
        env = dict(env0)
        for k in phis:
            nv = end_env.get(k)
            if k in counters:
                env[k] = add(env0[k], mk("sum", dom, depth, sub(nv, counters[k])))
                continue
            self.phidefs[phis[k]] = (env0[k], nv, dom)
            self.phiall.setdefault(phis[k], []).append((env0[k], nv, dom))
            env[k] = self.reduce(env0[k], phis[k], nv, dom, depth, has_break, k, info["breaks"])
        store = {k: v for k, v in st.store.items() if not any(k is s or is_sub(k, s) for s in keys)}
        self.st = State(env, store, post)
        return info

    def _loop_body(self, dom, bind, body, bodycond, step):
        entry_pc = self.st.pc
        b = {"loop": True, "breaks": [], "conts": []}
        self.brk.append(b)
        self.loops.append({"dom": dom})
        bind()
        if bodycond:
            c = bodycond()
            if c is not TRUE and dom.op == "whl":
                keep = self.st.pc
                self.st.pc = and_(keep, not_(c))
                self.eff("loopexit", None, None, body)
                self.st.pc = keep
            self.st.pc = and_(self.st.pc, c)
        base = self.st.pc
        self.ex(body)
        outs = list(b["conts"])
        if self.st.pc is not FALSE:
            outs.append((self.st.pc, self.st.env, self.st.store))
        if outs:
            self.join(outs, base)
            if callable(step):
                step()
            elif step is not None:
                self.ev_raw(step, stmt=True)
            outs = [(self.st.pc, self.st.env, self.st.store)]
        alls = outs + b["breaks"]
        # order: break states carry their own condition
        alls = b["breaks"] + outs
        if alls:
            self.join(alls, base)
        env = self.st.env
        self.loops.pop()
        self.brk.pop()
        return {"env": env, "breaks": b["breaks"], "entry": entry_pc, "base": base}

    def reduce(self, init, phi, new, dom, depth, has_break, k, breaks=()):
        if new is None or new is phi:
            return init
        if not isinstance(new, T) or not isinstance(init, T):
            return mk("loopval", dom, depth, phi, new if isinstance(new, T) else NULL, init if isinstance(init, T) else NULL)
        if not contains(new, lambda x: x is phi):
            # last value assigned
            return mk("lastval", dom, depth, new, init)
        # boolean accumulations
        if init.op == "b" or is_bool(init) or is_bool(new):
            t1 = assign_deep(new, phi, True)
            t0 = assign_deep(new, phi, False)
            # leaving the loop early keeps a monotone flag exact only when the flag has already been decided there
            decided = set()
            for b in breaks:
                v = b[1].get(k)
                if isinstance(v, T) and v is not TRUE and v is not FALSE:
                    try:
                        v = TRUE if implies(b[0], v) else FALSE if implies(b[0], not_(v)) else v
                    except TooHard:
                        pass
                decided.add(v)
            if t1 is TRUE and not contains(t0, lambda x: x is phi) and decided <= {TRUE}:
                return or_(init, exists_(dom, depth, t0))
            if t0 is FALSE and not contains(t1, lambda x: x is phi) and decided <= {FALSE}:
                return and_(init, not_(exists_(dom, depth, not_(t1))))
        d = sub(new, phi)
        if not has_break and not contains(d, lambda x: x is phi):
            return add(init, mk("sum", dom, depth, d))
        # guarded sum: ite(c, phi+d, phi)
        if not has_break and new.op in ("ite", "poly"):
            g = gated_delta(new, phi)
            if g is not None and not contains(g, lambda x: x is phi):
                return add(init, mk("sum", dom, depth, g))
        if new.op in ("max", "min") and not has_break:
            rest = [x for x in new.a[0] if x is not phi]
            if len(rest) + 1 == len(new.a[0]) and not any(contains(r, lambda x: x is phi) for r in rest):
                return mk(new.op + "over", dom, depth, mm(new.op, *rest), init)
        return mk("loopval", dom, depth, phi, new, init)

    names = {}

    def ex_for(self, n):
        init = n.get("i")
        if init is not None:
            self.ex(init)
        ind = self.induction(n)
        if ind:
            self.counted(ind, n["b"])
            return
        cnode = n.get("c")
        dom = mk("whl", len(self.loops))
        self.loop(dom, lambda: None, n["b"], [n["b"], cnode, n.get("inc")],
                  bodycond=(lambda: self.cond(cnode)) if cnode is not None else None, step=n.get("inc"))

    def counted(self, ind, body):
        vid, lo, hi, kind = ind
        depth = len(self.loops)
        if kind == "iter":
            dom = mk("idx", ZERO, size_of(lo))
            val = Ref(mk("at", lo, mk("iv", depth)))
        else:
            dom = mk("idx", lo, hi)
            val = mk("iv", depth)

        def bind():
            self.st.env[vid] = val.loc if isinstance(val, Ref) else val
        self.loop(dom, bind, body, [body], excl={vid}, ordered=kind != "idxd")
        self.st.env[vid] = hi if kind != "iter" else mk("call", "std::end", None, (lo,))

    def induction(self, n):
        """recognise for (v = lo; v < hi; ++v)"""
        c, inc = plain_cmp(n.get("c")), n.get("inc")
        if c is None or inc is None:
            return None
        vid = None
        up = None
        if inc["k"] == "un" and inc["op"] in ("++", "--") and inc["e"]["k"] == "v":
            vid, up = inc["e"]["id"], inc["op"] == "++"
        elif inc["k"] == "casg" and inc["op"] in ("+=", "-=") and inc["a"]["k"] == "v":
            b = strip(inc["b"])
            if b["k"] == "int" and b["v"] == 1:
                vid, up = inc["a"]["id"], inc["op"] == "+="
        elif inc["k"] == "asg" and inc["a"]["k"] == "v":
            b = strip(inc["b"])
            if b["k"] == "bin" and b["op"] in ("+", "-") and strip(b["a"]).get("id") == inc["a"]["id"] and strip(b["b"])["k"] == "int" and strip(b["b"])["v"] == 1:
                vid, up = inc["a"]["id"], b["op"] == "+"
        elif inc["k"] == "call" and inc.get("op") == "++":
            o = inc.get("o") if inc.get("o") is not None else inc["a"][0]
            if o["k"] == "v":
                vid, up = o["id"], True
        if vid is None or vid in self.assigned_locals(n["b"]):
            return None
        cur = self.st.env.get(vid)
        if isinstance(cur, Ref):
            cur = cur.loc
        if cur is None:
            return None
        if c["k"] == "call" and c.get("op") == "!=":
            ops = ([c["o"]] if c.get("o") is not None else []) + c["a"]
            if len(ops) == 2 and any(strip(x).get("id") == vid for x in ops):
                cur = self.copyof.get(cur, cur)
                if isinstance(cur, T) and cur.op == "call" and cur.a[0].split("::")[-1] in ("begin", "cbegin"):
                    C = cur.a[1] if cur.a[1] is not None else cur.a[2][0]
                    # the container itself where the loop names it
                    init = n.get("i")
                    if init and init.get("k") == "decl":
                        for v in init["v"]:
                            i = strip(v.get("i") or {})
                            while i.get("k") == "ctor" and len(i.get("a", [])) == 1:
                                i = strip(i["a"][0])
                            if v["id"] == vid and i.get("k") == "call" and (i.get("o") is not None or i.get("a")):
                                r = self.lv(i["o"] if i.get("o") is not None else i["a"][0])
                                if isinstance(r, Ref):
                                    C = r.loc
                    return vid, C, None, "iter"
            return None
        if c["k"] != "bin" or c["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        a, b, op = strip(c["a"]), strip(c["b"]), c["op"]
        if b.get("k") == "v" and b.get("id") == vid:
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        if not (a.get("k") == "v" and a.get("id") == vid):
            return None
        # the bound must not depend on things assigned in the body
        al = self.assigned_locals(n["b"])
        if any(x.get("k") == "v" and (x["id"] in al or x["id"] == vid) for x in walk(b)):
            return None
        bound = self.ev(b)
        if up and op in ("<", "!="):
            return vid, cur, bound, "idx"
        if up and op == "<=":
            return vid, cur, add(bound, ONE), "idx"
        if not up and op == ">=":
            return vid, bound, add(cur, ONE), "idxd"
        if not up and op == ">":
            return vid, add(bound, ONE), add(cur, ONE), "idxd"
        return None

    def ex_while(self, n):
        # while (i < n) { ...; i++; }
        body = n["b"]
        if plain_cmp(n["c"])["k"] in ("bin", "call") and body["k"] == "blk" and body["s"] and body["s"][-1]["k"] == "expr" and not n.get("cv"):
            last = body["s"][-1]["e"]
            fake = {"c": n["c"], "inc": last, "b": {"k": "blk", "s": body["s"][:-1], "l": body["l"]}}
            has_cont = has_continue(fake["b"])
            if not has_cont:
                ind = self.induction(fake)
                if ind:
                    self.counted(ind, fake["b"])
                    return
        dom = mk("whl", len(self.loops))
        cn = n["c"]
        pre = (lambda: self.declare(n["cv"])) if n.get("cv") else (lambda: None)
        info = self.loop(dom, pre, body, [body, cn], bodycond=lambda: self.cond(cn))
        if cn["k"] == "bool" and cn["v"] and not info["breaks"]:
            # while(true) without break: falls through only by return
            if self.st.pc is not FALSE and self.frames[-1]["rets"]:
                self.st = State(self.st.env, self.st.store, FALSE)

    def ex_do(self, n):
        dom = mk("whl", len(self.loops))

        def tail():
            c = self.cond(n["c"])
            keep = self.st.pc
            self.st.pc = and_(keep, not_(c))
            self.eff("loopexit", None, None, n)
            self.st.pc = keep
        self.loop(dom, lambda: None, n["b"], [n["b"], n["c"]], step=tail)

    def ex_rfor(self, n):
        r = self.lv(n["r"])
        C = r.loc if isinstance(r, Ref) else r
        depth = len(self.loops)
        ordered = True
        if C.op == "call" and C.a[0].endswith("utility::reverse") and C.a[2]:
            C = C.a[2][0]
            ordered = False
        ch = C
        dom = mk("idx", ZERO, size_of(ch))
        iv = mk("iv", depth)
        if C.op == "call" and C.a[0].endswith("::range") and len(C.a[2]) == 1:
            dom = mk("idx", ZERO, C.a[2][0])
            el = iv
        else:
            el = mk("at", ch, iv)
        v = n["v"]

        def bind():
            if v.get("b") is not None:
                self.bind_decomp(v, el)
            elif v.get("ref") or self.is_agg(v["t"]):
                if not v.get("ref") and v["id"] in self.frames[-1]["mut"]:
                    loc = self.local_loc(self.frames[-1], v)
                    self.copyof[loc] = el
                    self.copyst[loc] = dict(self.st.store)
                    for k in [k for k in self.st.store if is_sub(k, loc) or k is loc]:
                        del self.st.store[k]
                    self.st.env[v["id"]] = Ref(loc)
                else:
                    self.st.env[v["id"]] = Ref(el)
            else:
                self.st.env[v["id"]] = self.read(el)
        self.loop(dom, bind, n["b"], [n["b"]], excl={v["id"]}, ordered=ordered)

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        v = self.ev(e)
        return boolify(v)

    def ev(self, e):
        v = self.ev_raw(e)
        if isinstance(v, Ref):
            return self.read(v.loc)
        if isinstance(v, Lam):
            return self.lam_term(v)
        if v is None:
            return mk("sym", "?void")
        return v

    def lam_term(self, v):
        t = mk("lam", v.node["f"])
        self.lams[t] = v
        return t

    def arg_val(self, a):
        """value of an argument for an opaque call: locations stay symbolic"""
        v = self.ev_raw(a)
        if isinstance(v, Ref):
            x = self.read(v.loc)
            return x
        if isinstance(v, Lam):
            return self.lam_term(v)
        return v if v is not None else mk("sym", "?void")

    def lv(self, e):
        """evaluate to a location (Ref) if e is an lvalue, else a value"""
        v = self.ev_raw(e, want_lv=True)
        return v

    def ev_raw(self, e, want_lv=False, stmt=False):
        if e is None:
            return None
        m = getattr(self, "e_" + e["k"])
        return m(e, want_lv) if e["k"] in LVKINDS else m(e)

    def e_int(self, e):
        return num(e["v"])

    def e_flt(self, e):
        return num(e["v"])

    def e_str(self, e):
        return mk("s", e["v"])

    def e_chr(self, e):
        return num(e["v"])

    def e_bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return ZERO if not self.is_agg(e["t"]) else mk("ctor", e["t"], ())

    def e_sizeof(self, e):
        return num(e.get("v", 0))

    def e_this(self, e):
        return self.frames[-1]["this"]

    def e_enum(self, e):
        return mk("enum", e["n"])

    def e_fn(self, e):
        return mk("g", e["n"])

    def e_mfn(self, e):
        return mk("g", e["n"])

    def e_g(self, e):
        if "v" in e:
            return num(e["v"])
        return Ref(mk("g", e["n"]))

    def e_v(self, e, want_lv=False):
        v = self.st.env.get(e["id"])
        self.names.setdefault(e["id"], e["n"])
        if v is None:
            v = mk("sym", "ext:" + e["n"])
            self.st.env[e["id"]] = v
        return v

    def e_m(self, e, want_lv=False):
        b = self.ev_raw(e["b"], want_lv=True)
        if isinstance(b, Ref):
            bl = b.loc
            # pointer held in a location: follow its value
            bl = self.deref_base(bl, e.get("ar"))
        elif isinstance(b, Lam) or b is None:
            bl = mk("sym", "?")
        else:
            bl = b
        f = e["f"]
        if f in ("std::pair::first", "std::pair::second"):
            return Ref(getn(0 if f.endswith("first") else 1, bl))
        return Ref(fld(bl, f))

    def deref_base(self, loc, arrow=True):
        if not arrow:
            return loc
        v = self.st.store.get(loc)
        if v is not None and v.op not in ("n", "b"):
            return v
        return self.read(loc) if loc.op in ("fld", "at", "get", "ite") else loc

    def e_un(self, e, want_lv=False):
        op = e["op"]
        if op == "*":
            v = self.ev_raw(e["e"], want_lv=True)
            if isinstance(v, Ref):
                return Ref(self.read(v.loc))
            return Ref(v) if isinstance(v, T) else v
        if op == "&":
            v = self.lv(e["e"])
            if isinstance(v, Ref):
                return v.loc
            return v
        if op == "-":
            return neg(self.ev(e["e"]))
        if op == "+":
            return self.ev(e["e"])
        if op == "!":
            return not_(self.cond(e["e"]))
        if op in ("++", "--"):
            old = self.ev(e["e"])
            new = add(old, ONE if op == "++" else num(-1))
            self.assign_to(e["e"], new, e)
            return old if e.get("post") else new
        return mk("un" + op, self.ev(e["e"]))

    def assign_to(self, target, val, node):
        t = strip(target)
        if t["k"] == "v":
            cur = self.st.env.get(t["id"])
            self.names.setdefault(t["id"], t["n"])
            if isinstance(cur, Ref):
                self.write(cur.loc, val, node)
                return Ref(cur.loc)
            if isinstance(val, Ref):
                val = self.read(val.loc)
            if self.st.pc is not FALSE:
                if self.ctx and t["id"] in self.outer_omp_vars():
                    self.eff("lwrite", mk("lvar", t["n"]), val if isinstance(val, T) else NULL, node)
                self.st.env[t["id"]] = val
            return val
        loc = self.lv(target)
        if isinstance(loc, Ref):
            self.write(loc.loc, val, node)
        elif isinstance(loc, T):
            self.write(loc, val, node)
        return loc

    def outer_omp_vars(self):
        return _Always

    def e_asg(self, e):
        v = self.ev_raw(e["b"])
        if isinstance(v, Ref):
            v = self.read(v.loc)
        return self.assign_to(e["a"], v, e)

    def e_casg(self, e):
        a = self.ev(e["a"])
        b = self.ev(e["b"])
        op = e["op"][:-1]
        v = self.binop(op, a, b, e.get("t"))
        if e.get("ct") in ("double", "float", "long double") and e.get("t") in INTTYPES and v.op != "n":
            v = mk("trunc", v)
        return self.assign_to(e["a"], v, e)

    def binop(self, op, a, b, t=None):
        if op == "+":
            if a.op == "s" or b.op == "s" or a.op == "cat" or b.op == "cat":
                return mk("cat", a, b)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b, integer=bool(t) and t in INTTYPES)
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return not_(eq(a, b))
        if op in ("&", "|") and (t == "bool" or is_bool(a) and is_bool(b)):
            return and_(a, b) if op == "&" else or_(a, b)
        if op in ("<<", ">>") and a.op == "n" and b.op == "n" and a.a[0] == int(a.a[0]) and 0 <= b.a[0] < 63:
            return num(int(a.a[0]) << int(b.a[0]) if op == "<<" else int(a.a[0]) >> int(b.a[0]))
        return mk("op" + op, a, b)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(e["a"])
            if not has_side_effect(e["b"]):
                pc = self.st.pc
                self.st.pc = and_(pc, a if op == "&&" else not_(a))
                if self.st.pc is FALSE:
                    self.st.pc = pc
                    return a
                b = self.cond(e["b"])
                self.st.pc = pc
            else:
                box = []
                if op == "&&":
                    self.branch(a, lambda: box.append(self.cond(e["b"])), None)
                else:
                    self.branch(a, None, lambda: box.append(self.cond(e["b"])))
                b = box[0] if box else TRUE
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == ",":
            self.ev(e["a"])
            return self.ev_raw(e["b"])
        if op in ("==", "!=", "^", "&", "|"):
            # both sides are booleans promoted to int: compare them as booleans
            pa, pb = e["a"], e["b"]
            if all(x.get("k") == "cast" and x.get("c") == "i2i" for x in (pa, pb)) and \
               any(x["e"].get("k") == "bool" or x["e"].get("t") == "bool" for x in (pa, pb)):
                a, b = self.cond(pa["e"]), self.cond(pb["e"])
                if op == "&":
                    return and_(a, b)
                if op == "|":
                    return or_(a, b)
                same = or_(and_(a, b), and_(not_(a), not_(b)))
                return same if op == "==" else not_(same)
        a = self.ev(e["a"])
        b = self.ev(e["b"])
        return self.binop(op, a, b, e.get("t"))

    def e_cond(self, e):
        c = self.cond(e["c"])
        box = {}

        def t():
            box["t"] = self.ev_raw(e["t"], want_lv=True)

        def f():
            box["f"] = self.ev_raw(e["e"], want_lv=True)
        if c is TRUE:
            t()
            return box["t"]
        if c is FALSE:
            f()
            return box["f"]
        if has_side_effect(e["t"]) or has_side_effect(e["e"]):
            self.branch(c, t, f)
        else:
            pc = self.st.pc
            self.st.pc = and_(pc, c)
            t()
            self.st.pc = and_(pc, not_(c))
            f()
            self.st.pc = pc
        a, b = box.get("t"), box.get("f")
        if isinstance(a, Lam) or isinstance(b, Lam):
            return a or b
        if a is None or b is None:
            return a or b
        if isinstance(a, Ref) and isinstance(b, Ref):
            va, vb = self.read(a.loc), self.read(b.loc)
            if va is a.loc and vb is b.loc:
                return Ref(ite(c, a.loc, b.loc))
            return ite(c, va, vb)
        a = self.read(a.loc) if isinstance(a, Ref) else a
        b = self.read(b.loc) if isinstance(b, Ref) else b
        return ite(c, a, b)

    def e_cast(self, e):
        c = e["c"]
        v = self.ev(e["e"])
        if c == "f2i":
            if v.op == "n":
                x = v.a[0]
                return num(int(x))
            return mk("trunc", v)
        if c == "i2b" or c == "f2b":
            return boolify(v, numeric=True)
        if c == "p2b":
            return not_(eq(v, NULL))
        if c == "i2i" and is_bool(v) and e.get("t") != "bool":
            return ite(v, ONE, ZERO) if v.op != "b" else num(1 if v.a[0] else 0)
        if c == "i2f" and is_bool(v):
            return ite(v, ONE, ZERO) if v.op != "b" else num(1 if v.a[0] else 0)
        return v

    def e_idx(self, e, want_lv=False):
        a = self.lv(e["a"])
        a = a.loc if isinstance(a, Ref) else a
        i = self.ev(e["i"])
        return Ref(mk("at", a, i))

    def e_typeid(self, e):
        return mk("g", "typeid:" + e["t"])

    def e_ilist(self, e):
        return mk("ilist", tuple(self.arg_val(x) for x in e["a"]))

    def e_ailoop(self, e):
        return self.ev(e["e"])

    def e_lam(self, e):
        for c in e.get("cap", []):
            if "i" in c:
                v = self.ev_raw(c["i"])
                self.st.env[c["id"]] = v
            elif "id" in c and not c.get("ref"):
                pass
        L = Lam(e, self.frames[-1]["this"])
        L.env, L.store = dict(self.st.env), dict(self.st.store)
        return L

    def e_throw(self, e):
        v = self.arg_val(e["e"]) if e.get("e") is not None else mk("sym", "rethrow")
        self.eff("throw", None, v, e)
        if self.frames and not self.try_depth:
            self.frames[-1]["throws"].append(self.st.pc)
        self.st = State(dict(self.st.env), dict(self.st.store), FALSE)
        return None

    def e_new(self, e):
        return mk("new", e["t"], self.arg_val(e["i"]) if e.get("i") is not None else NULL)

    def e_delete(self, e):
        self.eff("call", self.ev(e["e"]), "delete", e, args=())
        return None

    def e_unk(self, e):
        return mk("unk", e["c"], tuple(self.arg_val(x) for x in e.get("a", [])))

    def e_ctor(self, e):
        a = e["a"]
        if e.get("copy") and len(a) == 1:
            return self.ev_raw(a[0], want_lv=True)
        if e["n"].startswith("std::basic_string") and len(a) >= 1:
            return self.ev_raw(a[0])
        if e["n"] == "std::function" and len(a) == 1:
            return self.ev_raw(a[0])
        f = self.prog.fn.get(e.get("f"))
        if f is not None and f["n"].startswith("printemps") and self.inline_cb and self.inline_cb(f):
            self.nloc += 1
            loc = mk("obj", e["n"], self.nloc)
            self.call_body(f, loc, self.eval_args(f, a), f["b"])
            return Ref(loc)
        vals = tuple(self.arg_val(x) for x in a)
        t = mk("ctor", e["n"], vals)
        if e["n"].startswith("printemps") and f is not None and not f.get("dflt"):
            self.eff("call", t, f["n"], e, args=vals, fid=e.get("f"))
        return t

    # ---- calls
    def e_call(self, e, want_lv=False):
        n = e["n"]
        short = n.split("::")[-1]
        o = e.get("o")
        args = e["a"]
        # closures
        if o is not None and short == "operator()":
            ov = self.ev_raw(o, want_lv=True)
            if isinstance(ov, Ref):
                s = self.read(ov.loc)
                if s in self.lams:
                    ov = self.lams[s]
            if isinstance(ov, T) and ov in self.lams:
                ov = self.lams[ov]
            if isinstance(ov, Lam):
                r = self.call_lambda(ov, args, e)
                if r is not _NO:
                    return r
            if n.startswith("std::function") or n.startswith("std::_Function"):
                t = ov.loc if isinstance(ov, Ref) else (ov if isinstance(ov, T) else mk("sym", "?fn"))
                vals = tuple(self.arg_val(a) for a in args)
                self.eff("call", t, n, e, args=vals)
                return mk("call", n, t, vals)
        f = self.prog.fn.get(e.get("f"))
        if f is None:
            return self.std_call(e, n, short, o, args, want_lv)
        # repo function
        if o is not None:
            ob = self.lv(o)
            if isinstance(ob, Ref):
                this = self.deref_base(ob.loc, e.get("ar"))
            elif isinstance(ob, T):
                this = ob
            else:
                this = mk("sym", "?")
        else:
            this = None
        if e.get("virt") and this is not None:
            f2 = self.devirt(f, this)
            if f2 is not None:
                f = f2
        if self.should_inline(f, e):
            f, args = self.by_name_params(f, args)
            vals = self.eval_args(f, args)
            r = self.call_body(f, this if this is not None else THIS, vals, f["b"])
            return r
        vals = []
        outs = []
        for p, a in zip(f["p"], args):
            if p.get("ref") and not p.get("const"):
                lv = self.lv(a)
                loc = lv.loc if isinstance(lv, Ref) else lv
                sa = strip(a)
                if isinstance(lv, T) and sa["k"] == "v":
                    outs.append((sa, lv))
                vals.append(loc if isinstance(loc, T) else self.arg_val(a))
            elif p.get("ref"):
                lv = self.lv(a)
                if isinstance(lv, Lam):
                    vals.append(self.lam_term(lv))
                else:
                    vals.append(self.read(lv.loc) if isinstance(lv, Ref) else (lv if lv is not None else NULL))
            else:
                vals.append(self.arg_val(a))
        vals = tuple(vals)
        if e.get("op") in ("=",) and this is not None and f.get("dflt") and len(vals) == 1:
            self.copy_agg(this, vals[0], e)
            return Ref(this)
        if e.get("op") in ("=",) and this is not None:
            # user-defined assignment treated as a write when not inlined
            self.eff("call", this, f["n"], e, args=vals, fid=f["id"])
            if self.written is not None:
                self.written.add(this)
            return Ref(this)
        self.eff("call", this, f["n"], e, args=vals, fid=f["id"])
        r = mk("call", tname(e, f["n"]), this, vals)
        if this is not None and f.get("cls") and not f.get("const") and not f.get("st") and isinstance(this, T):
            self.havoc_local(this)
        for sa, lv in outs:
            self.st.env[sa["id"]] = mk("out", f["n"], this if this is not None else NULL, vals, sa["n"])
        if f.get("rref"):
            return Ref(r)
        return r

    def devirt(self, f, this):
        return None

    def call_lambda(self, lam, args, e):
        node = lam.node
        if any(fr["f"].get("orig", fr["f"]).get("id") == node["f"] for fr in self.frames):
            return _NO
        if node.get("gen"):
            g = self.prog.fn.get(e.get("f"))
            if g is None:
                return _NO
            ps, body, fid = g["p"], g["b"], g["id"]
        else:
            ps, body, fid = node["p"], node["b"], node["f"]
        f = {"n": (self.frames[-1]["f"]["n"] if self.frames else "") + "::lambda", "id": fid, "p": ps, "b": body, "l": node["l"]}
        f, args = self.by_name_params(f, args)
        vals = self.eval_args(f, args)
        return self.call_body(f, lam.this, vals, f["b"])

    def lam_parts(self, lam):
        """(params, body, id) of a lambda; for a generic one, of its only instantiation"""
        n = lam.node
        if not n.get("gen"):
            return n["p"], n["b"], n["f"]
        c = [self.prog.fn[i] for i in n.get("insts", ()) if i in self.prog.fn and self.prog.fn[i].get("b")]
        return (c[0]["p"], c[0]["b"], c[0]["id"]) if len(c) == 1 else None

    def range_args(self, args):
        """(begin(C), end(C)) -> C"""
        if len(args) >= 2:
            a = self.ev(args[0])
            if a.op == "call" and a.a[0].split("::")[-1] in ("begin", "cbegin"):
                return a.a[1] if a.a[1] is not None else a.a[2][0]
        return None

    def std_call(self, e, n, short, o, args, want_lv):
        op = e.get("op")
        if n in IDENT and args:
            return self.ev_raw(args[0], want_lv=want_lv)
        if n in MAXMIN and len(args) == 2:
            return mm(MAXMIN[n], self.ev(args[0]), self.ev(args[1]))
        if n in ABSFN and len(args) == 1:
            return abs_(self.ev(args[0]))
        if n in ("std::any_of", "std::all_of", "std::none_of", "std::for_each") and len(args) == 3:
            C = self.range_args(args)
            p = self.ev_raw(args[2])
            if isinstance(p, Ref):
                p = self.lams.get(self.read(p.loc))
            pp = None
            if isinstance(p, Lam):
                pp = self.lam_parts(p)
            if C is not None and pp:
                depth = len(self.loops)
                dom = mk("idx", ZERO, size_of(C))
                el = mk("at", C, mk("iv", depth))
                f = {"n": self.frames[-1]["f"]["n"] + "::lambda", "id": pp[2], "p": pp[0], "b": pp[1], "l": e["l"]}
                self.loops.append({"dom": dom})
                st0 = self.st
                v = self.call_body(f, p.this, [Ref(el)], f["b"])
                self.st.pc = st0.pc
                self.loops.pop()
                if n == "std::for_each":
                    return NULL
                c = boolify(self.read(v.loc) if isinstance(v, Ref) else v) if v is not None else TRUE
                if n == "std::any_of":
                    return exists_(dom, depth, c)
                if n == "std::all_of":
                    return not_(exists_(dom, depth, not_(c)))
                return not_(exists_(dom, depth, c))
        if o is not None:
            if op == "[]" or short == "at":
                b = self.lv(o)
                b = b.loc if isinstance(b, Ref) else b
                b = self.container(b)
                i = self.ev(args[0])
                return Ref(mk("at", b, i))
            if op in ("*", "->") and not args:
                v = self.lv(o)
                return Ref(self.read(v.loc)) if isinstance(v, Ref) else (Ref(v) if isinstance(v, T) else v)
            if short == "get" and ("_ptr" in n):
                return self.ev(o)
            if short in ("front", "back") and not args:
                b = self.lv(o)
                b = self.container(b.loc if isinstance(b, Ref) else b)
                return Ref(mk("at", b, ZERO if short == "front" else sub(size_of(b), ONE)))
            if short == "empty" and not args:
                b = self.lv(o)
                b = self.container(b.loc if isinstance(b, Ref) else b)
                return eq(self.size_now(b), ZERO)
            if short in ("size", "length") and not args:
                b = self.lv(o)
                b = self.container(b.loc if isinstance(b, Ref) else b)
                return self.size_now(b)
            if op == "=":
                v = self.ev_raw(args[0])
                if isinstance(v, Ref):
                    v = self.read(v.loc)
                return self.assign_to(o, v, e)
            if op == "+=" and n.startswith("std::basic_string"):
                a = self.ev(o)
                return self.assign_to(o, mk("cat", a, self.ev(args[0])), e)
            if op in ("++", "--"):
                # iterators
                a = self.ev(o)
                return self.assign_to(o, mk("call", n, None, (a,)), e)
            if op in ("==", "!="):
                r = eq(self.ev(o), self.ev(args[0]))
                return r if op == "==" else not_(r)
            b = self.lv(o)
            if isinstance(b, Lam):
                b = self.lam_term(b)
            loc = b.loc if isinstance(b, Ref) else b
            if loc is None:
                loc = mk("sym", "?")
            cloc = self.container(loc)
            vals = tuple(self.arg_val(a) for a in args)
            if not e.get("cm") and short not in NONMUT_STD and not e.get("st"):
                self.eff("call", cloc, n, e, args=vals)
                if self.epoch is not None:
                    self.epoch += 1
                    self.st.store[mk("epoch", cloc)] = num(self.epoch)
                so = strip(o)
                if so["k"] == "v" and isinstance(self.st.env.get(so["id"]), T):
                    self.st.env[so["id"]] = mk("mut", short, self.st.env[so["id"]], vals)
                if self.written is not None and isinstance(b, Ref):
                    self.written.add(loc)
                if short in ("clear", "resize", "assign", "erase", "insert"):
                    for k in [k for k in self.st.store if is_sub(k, loc)]:
                        del self.st.store[k]
                return Ref(mk("call", n, cloc, vals)) if want_lv else mk("call", n, cloc, vals)
            return mk("call", n, cloc, vals)
        # free functions
        if op and len(args) == 2:
            if op in ("==", "!=", "<", ">", "<=", ">="):
                a, b = self.ev(args[0]), self.ev(args[1])
                if op == "==":
                    return eq(a, b)
                if op == "!=":
                    return not_(eq(a, b))
                return self.binop(op, a, b)
            if op == "+":
                return mk("cat", self.ev(args[0]), self.ev(args[1]))
        if n == "std::get" and e.get("ta") and args:
            i = e["ta"].split(",")[0]
            if i.isdigit():
                b = self.lv(args[0])
                return Ref(getn(int(i), b.loc if isinstance(b, Ref) else b))
        if n == "std::make_pair" or n == "std::make_tuple":
            return mk("ctor", "std::pair", tuple(self.arg_val(a) for a in args))
        if n == "std::clamp" and len(args) == 3:
            x, lo, hi = (self.ev(a) for a in args)
            return mm("min", mm("max", x, lo), hi)
        if n in ("std::accumulate",) and len(args) == 3:
            C = self.range_args(args)
            if C is not None:
                d = len(self.loops)
                return add(self.ev(args[2]), mk("sum", mk("idx", ZERO, size_of(C)), d, mk("at", C, mk("iv", d))))
        if n in ("std::swap", "std::getline"):
            locs = []
            for a in args:
                l = self.lv(a)
                locs.append(l.loc if isinstance(l, Ref) else l)
            vals = [self.read(l) for l in locs]
            self.eff("call", None, n, e, args=tuple(locs))
            if n == "std::swap" and len(args) == 2:
                self.assign_to(args[0], vals[1], e)
                self.assign_to(args[1], vals[0], e)
            else:
                for a, l in zip(args, locs):
                    if strip(a)["k"] == "v" and isinstance(self.st.env.get(strip(a)["id"]), T):
                        self.st.env[strip(a)["id"]] = mk("out", n, l)
            return mk("call", n, None, tuple(locs))
        vals = []
        for a in args:
            vals.append(self.arg_val(a))
        vals = tuple(vals)
        if not n.startswith(PURE_FREE) or op == "<<" or op == ">>":
            self.eff("call", None, n if n != "?" else "?", e, args=vals)
            if self.written is not None:
                for v in vals:
                    if v.op == "call" and v.a[0].split("::")[-1] in ("begin",) and v.a[1] is not None:
                        self.written.add(v.a[1])
        return mk("call", tname(e, n), None, vals)

    def size_now(self, b):
        """size of a container; with epochs on, sizes read after a change of the container are different terms"""
        k = self.st.store.get(mk("epoch", b)) if self.epoch is not None else None
        return size_of(b) if k is None else mk("sizeat", b, k)

    def container(self, loc):
        """canonical container behind a location (follow copies/aliases)"""
        v = self.st.store.get(loc)
        if v is not None and v.op in ("fld", "at", "get", "loc", "sym"):
            return v
        r = self.read(loc)
        if r is not loc and r.op in ("fld", "at", "get", "loc", "sym", "call"):
            b = r
            while b.op in ("fld", "at"):
                b = b.a[0]
            # part of a freshly built local object: the object's own storage, not the value it was built from
            return loc if b.op == "ctor" else r
        return loc


class _AlwaysT:
    def __contains__(self, x):
        return True


_Always = _AlwaysT()
_NO = object()

LVKINDS = {"v", "m", "un", "idx", "call"}
INTTYPES = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "char"}
BASELINE = set()


def tname(e, n):
    if e.get("ta") and n.split("::")[-1] in ("get", "any_cast"):
        return n + "<" + e["ta"] + ">"
    return n


def strip(e):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["e"]
    return e


def callee_assigned(prog, f, ptr=False, _busy=set()):
    """the parameters (ptr: what they point to) a function may change"""
    key = (f["id"], ptr)
    r = prog._asg.get(key)
    if r is not None:
        return r
    ids = {p["id"] for p in f["p"]}
    if not f.get("b") or key in _busy:
        return ids
    _busy.add(key)

    def root(x):
        x = strip(x)
        if not isinstance(x, dict):
            return None
        if ptr:
            if x.get("k") == "un" and x.get("op") == "*":
                x = strip(x["e"])
            elif x.get("k") != "v":
                return None
        while isinstance(x, dict) and not x.get("ar"):
            k = x.get("k")
            if k == "m":
                x = strip(x.get("b"))
            elif k == "idx":
                x = strip(x.get("a"))
            elif k == "call" and x.get("o") is not None and x["n"].split("::")[-1] in ("operator[]", "at", "front", "back", "begin", "end", "find", "operator*"):
                x = strip(x["o"])
            elif k == "call" and x["n"].startswith("std::get") and x["a"]:
                x = strip(x["a"][0])
            else:
                break
        return x.get("id") if isinstance(x, dict) and x.get("k") == "v" else None
    s = set()
    for x in walk(f["b"]):
        k = x.get("k")
        if k in ("asg", "casg"):
            s.add(root(x["a"]))
        elif k == "un" and x["op"] in ("++", "--", "&"):
            s.add(root(x["e"]))
        elif k in ("call", "ctor"):
            g = prog.fn.get(x.get("f"))
            o = x.get("o")
            if o is not None and not x.get("cm") and not x.get("ar") and not (x["n"].startswith("std::") and x["n"].split("::")[-1] in NONMUT_STD):
                s.add(root(o))
            for i, a in enumerate(x.get("a") or ()):
                if a is None:
                    continue
                q = g["p"][i] if g is not None and i < len(g["p"]) else None
                if q is None:
                    if k == "call" and (x["n"] in ("std::getline", "std::swap", "std::advance", "std::exchange", "std::iter_swap") or x.get("op") in (">>", "=", "+=", "-=", "*=", "/=", "++", "--") or ptr and not x["n"].startswith("std::")):
                        s.add(root(a))
                elif ptr and strip(a).get("k") == "v":
                    if q["id"] in callee_assigned(prog, g, True):
                        s.add(root(a))
                elif q.get("ref") and not q.get("const") and q["id"] in callee_assigned(prog, g):
                    s.add(root(a))
        elif k == "decl":
            for v in x["v"]:
                if v.get("ref") and not v.get("const") and v.get("i") is not None:
                    s.add(root(v["i"]))
        elif k == "rfor":
            s.add(root(x.get("r")))
    _busy.discard(key)
    r = s & ids
    prog._asg[key] = r
    return r


def only_dereferenced(body, pid):
    n = sum(1 for x in walk(body) if x.get("k") == "v" and x.get("id") == pid)
    d = sum(1 for x in walk(body) if x.get("k") == "un" and x.get("op") == "*" and strip(x["e"]).get("k") == "v" and strip(x["e"])["id"] == pid)
    return n == d


def rename(o, m):
    if isinstance(o, list):
        return [rename(x, m) for x in o]
    if not isinstance(o, dict):
        return o
    if o.get("k") == "un" and o.get("op") == "*":
        e = strip(o["e"])
        if e.get("k") == "v" and m.get(e["id"], (0, 0))[1]:
            return dict(m[e["id"]][0])
    if o.get("k") == "v" and o.get("id") in m and not m[o["id"]][1]:
        return dict(m[o["id"]][0])
    return {k: rename(v, m) for k, v in o.items()}


NEGCMP = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def plain_cmp(c):
    """a comparison without negations around it"""
    flip = False
    c = strip(c)
    while isinstance(c, dict) and c.get("k") == "un" and c.get("op") == "!":
        flip = not flip
        c = strip(c["e"])
    if flip and isinstance(c, dict) and c.get("k") in ("bin", "call") and c.get("op") in NEGCMP:
        c = dict(c, op=NEGCMP[c["op"]])
    elif flip:
        return {"k": "none"}
    return c


def boolify(v, numeric=False):
    if v.op == "n":
        return TRUE if v.a[0] != 0 else FALSE
    if is_bool(v):
        return v
    if numeric or v.op in ("poly", "sum"):
        if v.op == "ite":
            return ite(v.a[0], boolify(v.a[1], True), boolify(v.a[2], True))
        return not_(eq(v, ZERO))
    return v


def fld(b, f):
    if b.op == "ite":
        return ite(b.a[0], fld(b.a[1], f), fld(b.a[2], f))
    return mk("fld", b, f)


def getn(i, b):
    if b.op == "ctor" and b.a[0] in ("std::pair", "std::tuple") and len(b.a[1]) > i:
        return b.a[1][i]
    if b.op == "ite":
        return ite(b.a[0], getn(i, b.a[1]), getn(i, b.a[2]))
    if b.op == "call" and b.a[1] is not None and len(b.a[2]) == 1 and b.a[0] in ("std::unordered_map::find", "std::map::find") and i in (0, 1):
        # the element a successful lookup points to
        return b.a[2][0] if i == 0 else mk("at", b.a[1], b.a[2][0])
    return mk("get", i, b)


def size_of(c):
    return mk("call", "std::vector::size", c, ())


def is_sub(k, loc):
    """is location k strictly inside loc"""
    while k.op in ("fld", "at"):
        k = k.a[0]
        if k is loc:
            return True
    if k.op == "get":
        if k.a[1] is loc:
            return True
        return is_sub(k.a[1], loc)
    return False


def assign_deep(t, phi, val):
    return rebuild(t, lambda x: (TRUE if val else FALSE) if x is phi else x)


def gated_delta(t, phi):
    if t.op == "ite":
        a, b = gated_delta(t.a[1], phi), gated_delta(t.a[2], phi)
        if a is None or b is None:
            return None
        return ite(t.a[0], a, b)
    d = sub(t, phi)
    if not contains(d, lambda x: x is phi):
        return d
    if t.op == "poly":
        # c0 + ite(.., phi + .., phi): exactly one unit monomial carries phi
        p = poly_of(t)
        car = [(m, c) for m, c in p.items() if any(contains(x, lambda y: y is phi) for x in m)]
        if len(car) == 1 and car[0][1] == 1 and len(car[0][0]) == 1:
            m = car[0][0]
            g = gated_delta(m[0], phi)
            if g is not None:
                return add(sub(t, m[0]), g)
    return None


def has_continue(b):
    if isinstance(b, dict):
        k = b.get("k")
        if k == "continue":
            return True
        if k in ("for", "while", "do", "rfor", "lam"):
            return False
        return any(has_continue(v) for v in b.values() if isinstance(v, (dict, list)))
    if isinstance(b, list):
        return any(has_continue(v) for v in b)
    return False


def has_side_effect(e):
    for x in walk(e):
        k = x.get("k")
        if k in ("asg", "casg", "throw", "delete"):
            return True
        if k == "un" and x["op"] in ("++", "--"):
            return True
        if k == "call" and x.get("op") in ("=", "+=", "-=", "++", "--"):
            return True
        if k == "call" and not x.get("cm") and x.get("o") is not None and x["n"].split("::")[-1] in ("insert", "push_back", "emplace"):
            return True
    return False


_ACC = {}


def acc_key(f):
    return "%s(%s)%s" % (f["n"], ",".join(p["t"] for p in f["p"]), f.get("cm") or "")


def accessor_shape(prog, f):
    b = f["b"]
    if b and b["k"] == "blk" and f["n"].startswith("printemps") and not f.get("inits"):
        ss = b["s"]
        if len(ss) == 1 and ss[0]["k"] == "ret" and ss[0].get("e") is not None and prog.size(f) <= 16:
            return not any(x.get("k") in ("lam", "throw", "new") for x in walk(ss[0]))
        elif len(ss) == 1 and ss[0]["k"] == "expr" and prog.size(f) <= 9 and f["rt"] == "void":
            x = ss[0]["e"]
            # plain setters: this->m_x = param
            if x["k"] == "asg" or (x["k"] == "call" and x.get("op") == "="):
                return True
    return False


def is_accessor(prog, f):
    """small value functions are read through; which ones is decided on the reference tree, so that the way one is written does not matter"""
    r = _ACC.get(f["id"])
    if r is not None:
        return r
    if acc_key(f) in BASELINE_ALL:
        r = acc_key(f) in BASELINE_ACC and bool(f["b"])
    else:
        r = accessor_shape(prog, f)
    _ACC[f["id"]] = r
    return r


BASELINE_ALL, BASELINE_ACC = set(), set()


def load_baseline(path):
    global BASELINE
    if os.path.exists(path):
        BASELINE = set(open(path).read().split("\n"))
    q = path.replace("functions", "accessors")
    if os.path.exists(q):
        for l in open(q):
            l = l.rstrip("\n")
            BASELINE_ALL.add(l[2:])
            if l[0] == "+":
                BASELINE_ACC.add(l[2:])
    return BASELINE
