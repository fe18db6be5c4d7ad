"""P06: option keys <-> fields <-> defaults <-> export <-> print; symbolic names one-to-one."""
from common import *


def strings(t):
    return {x.a[0] for x in subterms(t) if x.op == "s"}


def this_fields(t, cls):
    return {x.a[1] for x in subterms(t) if x.op == "fld" and x.a[1].startswith(cls + "::")}


def map_entries(g):
    """[(first, second)] of a map literal of pairs"""
    out = []
    for n in walk(g["i"]):
        if n.get("k") == "ctor" and n.get("n") == "std::pair" and len(n["a"]) == 2:
            out.append(tuple(lit(x) for x in n["a"]))
    return out


def lit(n):
    for x in walk(n):
        if x.get("k") == "str":
            return ("s", x["v"])
        if x.get("k") == "enum":
            return ("e", x["n"])
    return ("?", None)


def run(ctx):
    P = ctx.P
    ctx.rule("each option field is read from exactly one key in setup(), under the presence of that key only; initialised in initialize() "
             "to its own default; exported in to_json() under the key it is read from; printed under its own label; name maps are mutually inverse bijections covering the enum")
    classes = [n for n, r in P.records.items() if n.startswith("printemps::option::") and n.endswith("Option") and n != "printemps::option::Option"]
    ctx.need(len(classes) >= 11, "option structs (found %d)" % len(classes))
    for c in classes:
        fields = [f for f in P.records[c]["fields"]]
        names = [f["n"] for f in fields]
        short = {n: n.split("::")[-1] for n in names}
        fs = [f for f in ctx.fns(c.split("::")[-1] + "::setup", 1) if f.get("cls") == c]
        ctx.need(len(fs) == 1, c + "::setup")
        setup = fs[0]
        # ---------------- setup: read_json expanded, initialize kept opaque
        E = ctx.run(setup, inline=("read_json", "JsonObject::find"), opaque=(c.split("::")[-1] + "::initialize",))
        init_seq = [e.seq for e in E.effects if e.kind == "call" and e.v == c + "::initialize" and e.pc is TRUE and e.t is THIS]
        ctx.ob("defaults-before-keys", bool(init_seq), ctx.at(setup), "%s::setup does not reset all options to their defaults before reading keys" % c)
        i0 = init_seq[0] if init_seq else -1
        keys = {}
        for e in E.effects:
            if e.kind == "write" and e.t.op == "fld" and e.t.a[0] is THIS and e.t.a[1] in short:
                ks = strings(e.v) | strings(e.pc)
                keys.setdefault(e.t.a[1], []).append((e, ks))
        used = {}
        for n in names:
            ws = keys.get(n, [])
            at = "%s (%s)" % (n, setup["file"])
            if not ctx.ob("key-read", bool(ws), at, "option %s is never set from its key" % n):
                continue
            ks = set().union(*[k for _, k in ws])
            ctx.ob("key-name", ks == {short[n]}, at, "option %s is read from key(s) %s instead of '%s'" % (n, sorted(ks), short[n]),
                   sample="%s <- '%s'" % (n, short[n]))
            for k in ks:
                used.setdefault(k, set()).add(n)
            # presence of the key => the field is written (one way or another); absence => not written
            cover = FALSE
            for e, _ in ws:
                ctx.ob("read-after-defaults", e.seq > i0, ctx.at(setup, e), "option %s is set before the defaults are applied" % n)
                cover = or_(cover, e.pc)
                # the guard must contain presence of the key
                find = [a for a in atoms(e.pc) if a.op in ("eq0", "eq") and mentions(a, ".find(") and mentions(a, ".end()")]
                pres = any(safe_implies(e.pc, not_(a)) for a in find)
                ctx.ob("absent-key-keeps-default", pres, ctx.at(setup, e), "option %s is overwritten although its key is absent" % n)
                ctx.ob("value-from-key", any(x.op == "call" and "JsonObject::get" in x.a[0] and strings(mk("t", *x.a[2])) == {short[n]} for x in subterms(e.v)),
                       ctx.at(setup, e), "option %s is not set to the value stored under its key" % n)
                ctx.ob("value-untruncated", not contains(e.v, lambda x: x.op == "trunc"), ctx.at(setup, e), "option %s is truncated when read" % n)
            types = [a for a in atoms(cover) if mentions(a, "typeid:")]
            # all accepted JSON types covered: only type tests may remain besides presence
            other = [a for a in atoms(cover) if a not in types and not mentions(a, ".find(")]
            ctx.ob("presence-only", not other, at, "option %s is read only under an extra condition %s" % (n, [show(a) for a in other]))
            t = next(f["t"] for f in fields if f["n"] == n)
            got = {x.a[0] for e, _ in ws for x in subterms(e.v) if x.op == "call" and "JsonObject::get" in x.a[0]}
            tset = {g[g.index("<") + 1:-1] for g in got if "<" in g}
            if t == "int":
                ok = tset == {"int"}
            elif t == "bool":
                ok = tset == {"bool"}
            elif t == "double":
                ok = tset == {"int", "double"}
            elif t in P.enums:
                ok = tset == {"int", "std::basic_string"}
            else:
                ok = True
            ctx.ob("accepted-types", ok, at, "option %s (%s) accepts JSON types %s" % (n, t, sorted(tset)))
            for e, _ in ws:
                # which type is fetched under which type test
                for x in subterms(e.v):
                    if x.op == "call" and "JsonObject::get<" in x.a[0]:
                        ty = x.a[0][x.a[0].index("<") + 1:-1]
                        for a in types:
                            tt = "int" if "typeid:int" in show(a) else ("std::basic_string" if "typeid:std::basic_string" in show(a) else None)
                            if tt and safe_implies(e.pc, a):
                                ctx.ob("type-test-matches", tt == ty, ctx.at(setup, e), "option %s: value of type %s fetched when the stored type is %s" % (n, ty, tt))
                if t in P.enums:
                    maps = {x.a[0] for x in subterms(e.v) if x.op == "g" and x.a[0].endswith("Map")}
                    if maps:
                        ctx.ob("own-name-map", maps == {t + "Map"}, ctx.at(setup, e), "option %s is decoded with %s" % (n, maps))
        for k, ns in used.items():
            ctx.ob("key-unique", len(ns) == 1, c, "key '%s' sets several options %s" % (k, sorted(ns)))
        # ---------------- initialize
        init = [f for f in ctx.fns(c.split("::")[-1] + "::initialize", 0) if f.get("cls") == c]
        ctx.need(len(init) == 1, c + "::initialize")
        Ei = ctx.run(init[0])
        last = {}
        for e in Ei.effects:
            if e.kind == "write" and e.t.op == "fld" and e.t.a[0] is THIS:
                last[e.t.a[1]] = e
        for n in names:
            e = last.get(n)
            if not ctx.ob("default-set", e is not None and e.pc is TRUE, ctx.at(init[0]), "option %s has no unconditional default" % n):
                continue
            g = None
            for gn in P.globals:
                if gn.startswith("printemps::option::") and gn.endswith("::DEFAULT_" + short[n].upper()) and gn.split("::")[-2] == c.split("::")[-1] + "Constant":
                    g = gn
            if g is not None:
                dv = asnum(const_value(P, g))
                val = asnum(e.v)
                ctx.ob("default-own-constant", val is dv or (e.v.op == "g" and e.v.a[0] == g), ctx.at(init[0], e),
                       "option %s defaults to %s, not to its own default %s" % (n, e.v, dv))
        # ---------------- to_json
        tj = [f for f in ctx.fns(c.split("::")[-1] + "::to_json", 0) if f.get("cls") == c]
        ctx.need(len(tj) == 1, c + "::to_json")
        Et = ctx.run(tj[0])
        seen = {}
        for e in calls(Et, "JsonObject::emplace_back"):
            if len(e.args) == 2 and e.args[0].op == "s":
                seen.setdefault(e.args[0].a[0], []).append(e)
        for n in names:
            es = seen.get(short[n], [])
            if not ctx.ob("exported", len(es) == 1 and es[0].pc is TRUE, ctx.at(tj[0]), "option %s is exported %d times under key '%s'" % (n, len(es), short[n])):
                continue
            v = es[0].args[1]
            t = next(f["t"] for f in fields if f["n"] == n)
            me = mk("fld", THIS, n)
            if t in P.enums:
                ok = v is mk("at", mk("g", t + "InverseMap"), me) or v is me
            else:
                ok = v is me
            ctx.ob("exports-own-value", ok, ctx.at(tj[0], es[0]), "key '%s' is exported with value %s" % (short[n], v), sample="'%s' -> %s" % (short[n], v))
        # ---------------- print
        pr = [f for f in ctx.fns(c.split("::")[-1] + "::print", 0) if f.get("cls") == c]
        if pr:
            Ep = ctx.run(pr[0])
            for n in names:
                own = mk("fld", THIS, n)
                hits = [e for e in calls(Ep, "print") if e.args and contains(mk("t", *e.args), lambda x: x is own)]
                if not ctx.ob("printed", len(hits) >= 1, ctx.at(pr[0]), "option %s is not printed" % n):
                    continue
                for e in hits:
                    lab = "".join(sorted(strings(e.args[0])))
                    ctx.ob("print-label", any(s.rstrip(": ").endswith("." + short[n]) or s.rstrip(": ").endswith(short[n]) for s in strings(e.args[0])),
                           ctx.at(pr[0], e), "option %s is printed under label %r" % (n, lab))
    # ---------------- Option
    O = "printemps::option::Option"
    ofields = {f["n"]: f["t"] for f in P.records[O]["fields"]}
    setup = [f for f in ctx.fns("Option::setup", 1) if f.get("cls") == O][0]
    E = ctx.run(setup, inline=("JsonObject::find",))
    final = [e for e in E.effects if e.kind == "write" and e.t is THIS]
    for n, t in ofields.items():
        s = n.split("::")[-1]
        ws = [e for e in E.effects if e.kind == "write" and e.t.op == "fld" and e.t.a[1] == n and (e.t.a[0].op == "loc" or e.t.a[0] is THIS)]
        ok = len(ws) >= 1 and all((strings(e.v) | strings(e.pc)) == {s} and mentions(e.v, t) for e in ws)
        ctx.ob("section-read", ok, ctx.at(setup, ws[0] if ws else None), "option section '%s' is not read into %s from its own key" % (s, n))
        for e in ws:
            find = [a for a in atoms(e.pc)]
            ctx.ob("section-presence", len(find) == 1 and find[0].op in ("eq0", "eq") and mentions(find[0], ".find(") and safe_implies(e.pc, not_(find[0])), ctx.at(setup, e),
                   "section '%s' is read under condition %s" % (s, e.pc))
    if final:
        loc = final[-1].v
        ctx.ob("options-installed", loc.op == "loc" and final[-1].pc is TRUE and all(e.seq < final[-1].seq for e in E.effects if e.kind == "write" and e.t.op == "fld" and e.t.a[0] is loc),
               ctx.at(setup, final[-1]), "the options read are not installed as a whole")
    else:
        ctx.ob("options-installed", all(e.t.a[0] is THIS for e in E.effects if e.kind == "write" and e.t.op == "fld" and e.t.a[1] in ofields), ctx.at(setup), "the options read are not installed")
    # constructors: an option struct built from a JSON object must run setup
    for c in classes:
        ks = [f for f in P.fn.values() if f.get("cls") == c and f["n"].endswith("::(ctor)") and len(f["p"]) == 1 and f["p"][0]["t"].endswith("JsonObject")]
        for k in ks:
            Ek = ctx.run(k)
            ctx.ob("ctor-runs-setup", any(e.kind == "call" and e.v == c + "::setup" and e.pc is TRUE for e in Ek.effects), ctx.at(k), "%s built from JSON does not read it" % c)
        ks = [f for f in P.fn.values() if f.get("cls") == c and f["n"].endswith("::(ctor)") and len(f["p"]) == 0]
        for k in ks:
            Ek = ctx.run(k, opaque=("initialize",))
            ctx.ob("ctor-sets-defaults", any(e.kind == "call" and e.v == c + "::initialize" and e.pc is TRUE for e in Ek.effects), ctx.at(k), "%s is not default-initialised" % c)
    for meth, rule in (("initialize", "section-initialised"), ("to_json", "section-exported"), ("print", "section-printed")):
        f = [f for f in ctx.fns("Option::" + meth, 0) if f.get("cls") == O][0]
        Em = ctx.run(f, opaque=(meth,))
        for n, t in ofields.items():
            me = mk("fld", THIS, n)
            es = [e for e in Em.effects if e.kind == "call" and e.v == t + "::" + meth and e.t is me and e.pc is TRUE]
            ctx.ob(rule, len(es) >= 1, ctx.at(f), "section %s is skipped by %s" % (n, meth))
            if meth == "to_json":
                em = [e for e in calls(Em, "JsonObject::emplace_back") if e.args[0] is mk("s", n.split("::")[-1])]
                ctx.ob("section-key", len(em) == 1 and em[0].pc is TRUE and contains(em[0].args[1], lambda x: x is me), ctx.at(f), "section key '%s' does not carry its own options" % n.split("::")[-1])
    # ---------------- enum name maps
    nmaps = 0
    for en, consts in P.enums.items():
        m, inv = P.globals.get(en + "Map"), P.globals.get(en + "InverseMap")
        if m is None or inv is None or not en.startswith("printemps::option::"):
            continue
        nmaps += 1
        a = map_entries(m)
        b = map_entries(inv)
        for cst in consts:
            na = [x[0][1] for x in a if x[1] == ("e", cst)]
            nb = [x[1][1] for x in b if x[0] == ("e", cst)]
            ctx.ob("name-map", len(na) == 1 and nb == na, en, "mode %s is read as %s but exported as %s" % (cst, na, nb))
            ctx.ob("name-is-mode", na == [cst.split("::")[-1]] and nb == na, en, "mode %s has the name(s) %s/%s" % (cst, na, nb))
        keys_ = [x[0] for x in a]
        ctx.ob("name-map-unique", len(set(keys_)) == len(keys_) == len(consts) == len(b), en, "name map of %s is not one-to-one" % en)
    ctx.need(nmaps >= 6, "enum name maps")
    ctx.atleast("key-read", 120)
    ctx.atleast("exports-own-value", 120)
