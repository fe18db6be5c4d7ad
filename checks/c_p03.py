"""P03: parallel regions are race-free and their results do not depend on the number of threads.

For every OpenMP work-sharing region the effects of one iteration (calls expanded through per-function write
summaries) are enumerated; a write is accepted only if the location is private to the iteration, or is selected by the
iteration's own index and not reached through a pointer that two iterations may share."""
from common import *
import re

WORKSHARE = ("parallel for", "for", "parallel for simd", "for simd")
SERIAL = ("single", "master", "masked")
EXCL = ("critical", "atomic", "ordered")
ROOTOPS = ("fld", "at", "get", "mut", "deref")
NONMUT = sym.NONMUT_STD
DRAWS = re.compile(r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|uniform_int_distribution|uniform_real_distribution|normal_distribution|bernoulli_distribution|discrete_distribution)::operator\(\)$|^std::(shuffle|sample)$")


def base_of(t):
    if t.op in ("get",):
        return t.a[1]
    if t.op == "mut":
        return t.a[1]
    if t.op in ("fld", "at"):
        return t.a[0]
    return None


def chain(t):
    """from the root to t"""
    out = [t]
    while True:
        b = base_of(t)
        if b is None or not isinstance(b, T):
            break
        out.append(b)
        t = b
    return out[::-1]


def declared(body):
    s = set()
    for n in walk(body):
        if n.get("k") == "decl":
            for v in n.get("v", []):
                s.add(v.get("id"))
                for b in v.get("bind", []) or []:
                    if isinstance(b, dict):
                        s.add(b.get("id"))
        elif n.get("k") in ("rfor", "for"):
            for key in ("v", "d", "i"):
                x = n.get(key)
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, dict) and "id" in y:
                        s.add(y["id"])
    return s


class Summary:
    def __init__(self, ctx):
        self.ctx, self.memo, self.stack = ctx, {}, set()

    def writes(self, fid):
        """locations (in terms of this and the parameters) that a call of the function may write"""
        if fid in self.memo:
            return self.memo[fid]
        f = self.ctx.P.fn.get(fid)
        if f is None or fid in self.stack or len(self.stack) > 12:
            return ()
        self.stack.add(fid)
        out = set()
        try:
            E = self.ctx.run(f)
        except Exception:
            E = None
        for e in (E.effects if E else ()):
            for l in self.of_effect(e):
                r = chain(l)[0]
                if r.op in ("loc", "ctor", "call", "lvar", "ilist", "n", "s"):
                    continue
                out.add(anyiv(l))
        self.stack.discard(fid)
        out = tuple(sorted(out, key=str))[:60]
        if not self.stack:
            self.memo[fid] = out
        else:
            self.memo[fid] = out
        return out

    def of_effect(self, e):
        if e.kind in ("write", "init"):
            if e.kind == "write" and isinstance(e.t, T):
                yield e.t
        elif e.kind == "call":
            yield from self.of_call(e)

    def bound(self, fid, e):
        f = self.ctx.P.fn[fid]
        fresh = f["n"].split("::")[-1] == "(ctor)" or (f.get("cls") or "").split("::")[-1] == f["n"].split("::")[-1]
        for l in self.writes(fid):
            if (fresh or not isinstance(e.t, T)) and chain(l)[0] is THIS:
                continue    # a new object, or a function without a receiver
            yield bind(l, e.t, e.args or ())

    def of_call(self, e):
        nm = callee(e)
        if e.fid and e.fid in self.ctx.P.fn:
            yield from self.bound(e.fid, e)
            return
        q = str(e.v)
        if q.startswith("printemps::"):
            f = [g for g in self.ctx.P.find(q.split("printemps::", 1)[1]) if len(g["p"]) == len(e.args or ())]
            if len(f) == 1:
                yield from self.bound(f[0]["id"], e)
            return
        if isinstance(e.t, T) and nm not in NONMUT and q.startswith("std::"):
            yield e.t
        if re.match(r"^std::(sort|stable_sort|swap|fill|copy|transform|reverse|iota|remove|unique|shuffle|generate|replace|partial_sum|nth_element|for_each)", q):
            for a in e.args or ():
                if isinstance(a, T):
                    r = iter_base(a)
                    if r is not None:
                        yield r


def iter_base(a):
    while a.op == "ctor" and len(a.a) > 1 and len(a.a[1]) == 1:
        a = a.a[1][0]
    if a.op == "call" and a.a[0] in ("begin", "end", "data", "rbegin", "rend") and isinstance(a.a[1], T):
        return a.a[1]
    return None


ANY = mk("sym", "any")


def anyiv(t):
    m = {x: ANY for x in subterms(t) if x.op == "iv"}
    return subst(t, m) if m else t


def bind(l, recv, args):
    m = {THIS: recv} if isinstance(recv, T) else {}
    for x in subterms(l):
        if x.op == "sym":
            a = str(x.a[0])
            if a.startswith("$") and a[1:].isdigit() and int(a[1:]) < len(args) and isinstance(args[int(a[1:])], T):
                m[x] = args[int(a[1:])]
    return subst(l, m) if m else l


def affine(idx, iv, loops):
    """idx = c*iv + d with lo <= d <= hi for constants c != 0, lo, hi; None if it is not of this form"""
    try:
        p = poly_of(idx)
    except Exception:
        return None
    c, lo, hi = 0, 0, 0
    for mono, k in p.items():
        vs = mono_vars(mono)
        if not vs:
            lo, hi = lo + k, hi + k
        elif len(vs) == 1 and vs[0] is iv:
            c = k
        elif len(vs) == 1 and vs[0].op == "iv" and vs[0].a[0] < len(loops) and vs[0].a[0] > iv.a[0]:
            d = loops[vs[0].a[0]]
            if not (d.op == "idx" and len(d.a) == 2 and d.a[0].op == "n" and d.a[1].op == "n") or d.a[1].a[0] <= d.a[0].a[0]:
                return None
            x, y = k * d.a[0].a[0], k * (d.a[1].a[0] - 1)
            lo, hi = lo + min(x, y), hi + max(x, y)
        else:
            return None
    return (c, lo, hi) if c != 0 else None


def mono_vars(mono):
    out = []
    for v in (mono if isinstance(mono, tuple) else (mono,)):
        if isinstance(v, tuple):
            out.extend([v[0]] * (v[1] if len(v) > 1 and isinstance(v[1], int) else 1))
        elif isinstance(v, T):
            out.append(v)
    return out


def injective(idx, iv, loops=()):
    """different iterations give different values of idx"""
    if idx is iv:
        return True
    a = affine(idx, iv, loops)
    return a is not None and a[2] - a[1] < abs(a[0])


def ptr_step(ctx, t):
    """the object t denotes is reached through a pointer stored in an element (so two iterations may share it)"""
    if t.op == "fld":
        n = fname(t)
        if n.endswith("_ptr"):
            return True
        ft = ctx.ftypes.get(str(t.a[1]))
        return bool(ft) and ft.strip().endswith("*")
    if t.op == "get" and contains(t, lambda x: x.op == "fld" and fname(x) in ("alterations",)):
        return t.a[0] == 0 or str(t.a[0]) == "0"
    if t.op == "at":
        b = t.a[0]
        if b.op == "fld":
            ft = ctx.ftypes.get(str(b.a[1])) or ""
            return fname(b).endswith("_ptrs") or bool(re.match(r"^std::vector<[\w:]+(<[\w:, ]+>)? ?\*,", ft))
    return False


def classify(ctx, loc, iv, priv, E, loops):
    """'private', 'own' (selected by the iteration's index) or a reason why it may be shared"""
    c = chain(loc)
    root = c[0]
    if root.op == "loc":
        ids = [k[1] for k, t in E.locnames.items() if t is root]
        if ids and all(i in priv for i in ids):
            return "private"
        if not ids:
            return "private"
    elif root.op in ("ctor", "ilist", "n", "s", "enum", "null"):
        return "private"
    elif root.op == "call":
        # a function's result: a fresh value unless the function hands out a reference
        if root.a[0] == "operator()" or root.a[0] in ("at", "operator[]"):
            args = root.a[2]
            if contains(mk("lst", *[a for a in args if isinstance(a, T)]) if args else num(0), lambda x: x is iv):
                if all(simple_index(a, iv) for a in args if isinstance(a, T)):
                    return "own"
            return "an element of %s that is not selected by the iteration's own index" % str(root.a[1])[:60]
        if root.a[1] is None or not isinstance(root.a[1], T):
            return "unknown"
        if contains(root, lambda x: x is iv):
            return "own"
        return "unknown"
    own = False
    pair = set()
    for t in c[1:]:
        if t.op == "at":
            i = t.a[1]
            if isinstance(i, T):
                if injective(i, iv, loops):
                    own = True
                    continue
                if i.op == "fld" and fname(i) in ("proxy_index", "flat_index") and contains(i, lambda x: x.op == "at" and x.a[1] is iv):
                    pair.add(fname(i))
                    if pair == {"proxy_index", "flat_index"}:
                        own = True
                        continue
        if own and ptr_step(ctx, t) and t is not c[-1]:
            return "an object reached through a pointer that several iterations may share"
    if own:
        return "own"
    return "data shared by all iterations"


def simple_index(a, iv):
    while a.op in ("ctor", "ilist"):
        x = a.a[1] if a.op == "ctor" else a.a[0]
        x = [y for y in x if isinstance(y, T) and not (y.op == "ctor" and "allocator" in str(y.a[0]))]
        if len(x) != 1:
            return True
        a = x[0]
    return injective(a, iv)


def regions(f):
    for n in walk(f.get("b")):
        if n.get("k") == "omp":
            yield n


def clause_vars(n, names):
    for c in n.get("cl", []):
        if c.get("n") in names:
            for v in c.get("v", []):
                for x in walk(v):
                    if x.get("k") == "v":
                        yield c["n"], x


def target_var(n):
    t = n.get("a") if n.get("k") in ("asg", "casg") else (n.get("e") or n.get("a"))
    while isinstance(t, dict) and t.get("k") in ("cast", "paren", "expr"):
        t = t.get("e")
    return t if isinstance(t, dict) and t.get("k") in ("v", "g") else None


def var_types(f):
    out = {p["id"]: p for p in f["p"]}
    for n in walk(f.get("b")):
        if n.get("k") == "decl":
            for v in n.get("v", []):
                out[v.get("id")] = v
    return out


def locals_rule(ctx, f, n, priv, serial_ids):
    """assignments to variables declared outside the region"""
    types = var_types(f)
    red = {}
    for nm, v in clause_vars(n, ("reduction",)):
        red[v["id"]] = v
    for nm, v in clause_vars(n, ("private", "firstprivate", "lastprivate", "linear")):
        priv.add(v["id"])
    for vid, v in red.items():
        t = (types.get(vid) or {}).get("t", "")
        ctx.ob("reduction", not re.search(r"double|float", t), "%s (%s:%s)" % (f["n"], f["file"], n["l"]), "the parallel reduction over %s in %s adds floating-point values in an order that depends on the number of threads" % (v["n"], short(f["n"])))
        priv.add(vid)
    k = 0
    for x in walk(n.get("b")):
        if x.get("k") in ("asg", "casg") or (x.get("k") == "un" and x.get("op") in ("++", "--", "p++", "p--", "post++", "post--", "pre++", "pre--")):
            t = target_var(x)
            if t is None:
                continue
            k += 1
            if t.get("k") == "g":
                ok = False
            else:
                d = types.get(t["id"], {})
                ok = t["id"] in priv or bool(d.get("ref"))
            if id(x) in serial_ids:
                ok = True
            ctx.ob("shared-local", ok, "%s (%s:%s)" % (f["n"], f["file"], x.get("l") or n["l"]), "the parallel iterations in %s all assign %s, which is declared outside the loop" % (short(f["n"]), t["n"]))
    return k


def serial_nodes(n):
    s = set()
    for x in walk(n.get("b")):
        if x.get("k") == "omp" and x.get("d") in SERIAL:
            for y in walk(x.get("b")):
                s.add(id(y))
    return s


def loop_var_ids(n):
    b = n.get("b")
    return declared(b)


def containers_rule(ctx, f, n, priv):
    """AST-level: maps looked up with operator[] (inserts), bit vectors"""
    k = 0
    for x in walk(n.get("b")):
        if x.get("k") != "call":
            continue
        nm = x.get("n") or ""
        if re.search(r"(unordered_map|::map|multimap)::operator\[\]$", nm) or "_Bit_reference::operator" in nm:
            r = x.get("o") or (x.get("a") or [None])[0]
            while isinstance(r, dict) and r.get("k") in ("cast", "paren", "m", "un", "call") and (r.get("e") or r.get("b") or r.get("o") or r.get("a")):
                nx = r.get("e") or r.get("b") or r.get("o") or r.get("a")
                r = nx[0] if isinstance(nx, list) and nx else nx
            vid = r.get("id") if isinstance(r, dict) and r.get("k") == "v" else None
            ok = vid in priv and not (var_types(f).get(vid) or {}).get("ref")
            k += 1
            what = "looks a key up in a shared map with operator[], which inserts missing keys" if "map" in nm else "assigns single bits of a shared std::vector<bool>, whose neighbours share a word"
            ctx.ob("shared-container", ok, "%s (%s:%s)" % (f["n"], f["file"], x.get("l") or n["l"]), "each parallel iteration in %s %s" % (short(f["n"]), what))
    return k


def read_conflicts(ctx, f, eff, own):
    """reads of another iteration's slot of a container that the region writes"""
    for e in eff:
        terms = [x for x in [e.v if isinstance(e.v, T) else None, e.pc] + list(e.args or ()) if isinstance(x, T)]
        for t in terms:
            for x in subterms(t):
                if x.op != "at" or not isinstance(x.a[1], T):
                    continue
                for (X, rest, iv, w, lw) in own:
                    if x.a[0] is not X or not overlaps(t, x, rest):
                        continue
                    a, b = affine(x.a[1], iv, e.loops), affine([y for y in chain(w) if y.op == "at" and y.a[0] is X][0].a[1], iv, lw)
                    if a is None or b is None or a[0] != b[0] or max(a[2], b[2]) - min(a[1], b[1]) >= abs(a[0]):
                        yield e, x, w


def overlaps(t, x, rest):
    """does t read x.<rest> (or x as a whole)"""
    if not rest:
        return True
    fs = {fname(y) for y in subterms(t) if y.op == "fld" and y.a[0] is x}
    return not fs or rest[0] in fs


def analyse(ctx, f, S):
    E = ctx.run(f)
    omps = list(regions(f))
    nodes = {id(n): n for n in omps}
    own = {}
    per = {}
    for n in omps:
        if n["d"] in SERIAL or n["d"] in EXCL or n["d"] == "barrier":
            continue
        for nm, v in clause_vars(n, ("copyprivate", "copyin")):
            ctx.need(False, "clause %s is not modelled" % nm)
        ctx.need(n["d"] in WORKSHARE + ("parallel",), "OpenMP directive '%s' in %s is not modelled" % (n["d"], f["n"]))
        priv = declared(n.get("b")) | ({p["id"] for x in walk(n.get("b")) if x.get("k") == "lam" for p in x.get("p", [])})
        k = locals_rule(ctx, f, n, priv, serial_nodes(n))
        k += containers_rule(ctx, f, n, priv)
        ctx.count("OpenMP regions")
        ctx.count("AST assignments and look-ups", k)
        per[id(n)] = priv
        # random draws anywhere below the region
        roots = [ctx.P.fn[x["f"]] for x in walk(n.get("b")) if x.get("k") in ("call", "ctor", "new") and x.get("f") in ctx.P.fn]
        bodies = [n.get("b")] + [ctx.P.fn[i].get("b") for i in reachable(ctx.P, roots)]
        bad = [x for b in bodies for x in walk(b) if x.get("k") == "call" and DRAWS.match(x.get("n") or "")]
        ctx.ob("no-draw", not bad, "%s (%s:%s)" % (f["n"], f["file"], (bad[0].get("l") if bad else n["l"])), "a parallel iteration in %s draws from a random engine, so the draws depend on the schedule" % short(f["n"]))
        st = [v for b in bodies for x in walk(b) if x.get("k") == "decl" for v in x.get("v", []) if v.get("static") and not v.get("tl") and not v.get("const") and not v.get("constexpr")]
        ctx.ob("no-static", not st, "%s (%s:%s)" % (f["n"], f["file"], n["l"]), "a function called from the parallel region in %s keeps the static local %s, which all iterations share" % (short(f["n"]), st[0]["n"] if st else ""))
    blocks, doms = {}, set()
    for e in E.effects:
        fr = None
        serial = False
        for c in e.ctx:
            if c[2] in nodes and c[0] in WORKSHARE + ("parallel",):
                if fr is None or c[0] in WORKSHARE:
                    fr = c
                    serial = False
            elif c[0] in SERIAL:
                serial = True
            elif c[0] in EXCL:
                serial = True
        if fr is None or serial:
            continue
        depth = fr[3]
        if fr[0] in WORKSHARE and len(e.loops) > depth and (fr[2], "dom") not in doms:
            doms.add((fr[2], "dom"))
            d = e.loops[depth]
            bad = [x for x in subterms(d) if (x.op == "fld" and "number_of_threads" in fname(x)) or (x.op == "call" and str(x.a[0]).startswith("omp_get"))]
            ctx.ob("thread-free-domain", not bad, ctx.at(f, e), "the number of iterations of the parallel loop in %s depends on the number of threads (%s)" % (short(f["n"]), str(d)[:80]))
        iv = mk("iv", depth) if fr[0] in WORKSHARE and len(e.loops) > depth else None
        priv = per[fr[2]]
        for loc in S.of_effect(e):
            if loc.op == "lvar":
                continue
            if iv is None:
                v = "data shared by all threads" if chain(loc)[0].op != "loc" else "unknown"
            else:
                v = classify(ctx, loc, iv, priv, E, e.loops)
                if v == "private" and e.kind == "call" and e.t is chain(loc)[0] and e.t.op == "ctor":
                    # an object held by value in a variable: private only if the variable is
                    o = (e.node or {}).get("o")
                    while isinstance(o, dict) and o.get("k") in ("cast", "paren"):
                        o = o.get("e")
                    if isinstance(o, dict) and o.get("k") == "v" and o.get("id") not in priv and e.fn == f["n"]:
                        v = "the object %s shared by all iterations" % o.get("n")
            if v == "unknown":
                ctx.count("locations not classified")
                continue
            if v == "own":
                for i, t in enumerate(chain(loc)):
                    if t.op == "at" and isinstance(t.a[1], T) and injective(t.a[1], iv, e.loops):
                        rest = tuple(fname(y) for y in chain(loc)[i + 1:] if y.op == "fld")
                        own.setdefault(fr[2], set()).add((t.a[0], rest, iv, loc, e.loops))
                        blocks.setdefault((fr[2], t.a[0]), []).append((affine(t.a[1], iv, e.loops), e, loc))
                        break
            how = "writes" if e.kind == "write" else "calls %s, which modifies" % short(str(e.v))
            ctx.ob("own-slot", v in ("own", "private"), ctx.at(f, e), "a parallel iteration in %s %s %s: %s" % (short(f["n"]), how, str(loc)[:100], v), sample=str(loc)[:80])
    for (rid, X), bl in blocks.items():
        cs = {a[0] for a, _, _ in bl}
        lo, hi = min(a[1] for a, _, _ in bl), max(a[2] for a, _, _ in bl)
        ok = len(cs) == 1 and hi - lo < abs(min(cs))
        ctx.ob("disjoint-blocks", ok, ctx.at(f, bl[-1][1]), "the slots of %s that one parallel iteration in %s writes (%s) overlap those of another iteration" % (str(X)[:60], short(f["n"]), ", ".join(sorted({"%s*i+[%s,%s]" % a for a, _, _ in bl}))))
    for rid, o in own.items():
        eff = [e for e in E.effects if any(c[2] == rid for c in e.ctx)]
        bad = list(read_conflicts(ctx, f, eff, o))
        ctx.ob("own-read", not bad, ctx.at(f, bad[0][0] if bad else eff[0]), "a parallel iteration in %s reads %s while another iteration writes it" % (short(f["n"]), str(bad[0][1])[:90] if bad else ""))


def run(ctx):
    ctx.ftypes = {fd["n"]: fd.get("ft") or fd.get("t") or "" for r in ctx.P.records.values() for fd in r.get("fields", [])}
    S = Summary(ctx)
    todo = [f for f in ctx.P.fn.values() if any(True for _ in regions(f))]
    ctx.need(len(todo) >= 10, "parallel regions not found")
    for f in todo:
        ctx.section(analyse, f, S)
    ctx.rule("a location written by a parallel iteration is private to it or selected by its own index")
    ctx.rule("no shared container is restructured, no shared engine drawn from, no static local used below a parallel region")
    ctx.rule("no iteration reads a slot another iteration writes")
