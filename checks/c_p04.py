"""P04: all randomness comes from engines seeded by the options; the clock decides only about limits."""
from common import *
import re

ENGINES = ("mersenne_twister_engine", "linear_congruential_engine", "subtract_with_carry_engine", "discard_block_engine", "shuffle_order_engine", "independent_bits_engine", "default_random_engine")
ENTROPY = re.compile(r"(^|::)(random_device|rand|srand|random|srandom|drand48|lrand48|mrand48|rand_r|arc4random|getrandom|getentropy|time|clock|clock_gettime|gettimeofday|times|getpid|gettid|omp_get_wtime|omp_get_wtick|now|__rdtsc|_rdtsc|get_id|sched_getcpu|omp_get_thread_num|getenv|tmpnam|mkstemp|getrusage)$")
CLOCK_OWNERS = ("printemps::utility::TimeKeeper", "printemps::utility::date_time")
TIMEISH = re.compile(r"(^|_)(times?|elapsed|date|performance|speed|seconds?|parallelization|threads?|clock|interval)(_|$)", re.I)


def at(ctx, f, n):
    return "%s (%s:%s)" % (f["n"], f["file"], n.get("l") or f["l"])


def is_engine_type(t):
    return any(e in (t or "") for e in ENGINES)


def lib_calls(f):
    for n in walk([f.get("b"), f.get("inits", [])]):
        if n.get("k") in ("call", "ctor", "new") and isinstance(n.get("n"), str):
            yield n


def sources(ctx):
    n_calls = 0
    for f in ctx.P.fn.values():
        for n in lib_calls(f):
            n_calls += 1
            name = n["n"]
            if n.get("f") or name.startswith("printemps::"):
                continue
            if ENTROPY.search(re.sub(r"::\(ctor\)$", "", name)):
                own = any(f["n"].startswith(o) for o in CLOCK_OWNERS) and re.search(r"(time|now|clock|omp_get_wtime)$", name)
                if not own and re.search(r"(omp_get_thread_num|omp_get_wtime|now|clock|time)$", name):
                    own = clock_only(ctx, f, name)
                ctx.ob("entropy-source", bool(own), at(ctx, f, n), "%s draws on %s, which is not determined by the model and the options" % (short(f["n"]), name), sample="%s in %s" % (name, short(f["n"])))
    ctx.count("call sites inspected", n_calls)


def clock_only(ctx, f, name):
    """the clock may be read elsewhere as long as the value ends in time-like state"""
    E = ctx.run(f)
    s = name.split("::")[-1]
    for e in E.effects:
        if e.kind == "write" and s + "()" in str(e.v) and not TIMEISH.search(str(fname(e.t) or "")):
            return False
        if s + "()" in str(e.pc):
            return False
    return not (E.ret is not None and s + "()" in str(E.ret) and not TIMEISH.search(f["n"].split("::")[-1]))


def engine_of(t):
    """the engine object behind a term: ('field', name) / ('param', i) / ('local', ..)"""
    if t is None:
        return None
    while t.op in ("addr", "deref", "op&", "op*") and t.a:
        t = t.a[0]
    if t.op == "fld":
        return ("field", t.a[1])
    if t.op == "sym":
        return ("param", t.a[0])
    if t.op == "null" or is_null(t):
        return ("null", None)
    return ("local", t)


def is_null(t):
    return str(t) in ("null()", "null")


def draws(ctx):
    """every draw uses an engine member or an engine handed in by the caller"""
    fields = {}
    for r, v in ctx.P.records.items():
        for x in v["fields"]:
            if is_engine_type(x.get("ft") or x.get("t")) and "*" not in (x.get("t") or ""):
                fields[x["n"]] = r
    ctx.need(fields, "no random engine found")
    taking = {}            # function id -> engine parameter indices
    for f in ctx.P.fn.values():
        ix = [i for i, p in enumerate(f["p"]) if is_engine_type(p.get("t"))]
        if ix:
            taking[f["id"]] = ix
    used = {}              # engine field -> functions using it to draw
    nd = 0
    for f in ctx.P.fn.values():
        names = [n["n"] for n in lib_calls(f)]
        if not any(is_engine_type(n) or "distribution" in n or n.endswith(("::shuffle", "::sample", "generate_canonical")) or "operator()" in n for n in names) and not any(n.get("f") in taking for n in lib_calls(f)):
            continue
        for n in lib_calls(f):
            name, eng = n["n"], None
            if name.endswith("::seed") or name.endswith("(ctor)"):
                continue
            if is_engine_type(name) and name.endswith(("operator()", "discard")):
                eng = [n.get("o")]
            elif ("distribution" in name and name.endswith("operator()")):
                eng = n.get("a", [])[:1]
            elif name.endswith(("std::shuffle", "std::sample", "generate_canonical")):
                eng = n.get("a", [])[-1:]
            elif n.get("f") in taking:
                eng = [n["a"][i] for i in taking[n["f"]] if i < len(n.get("a", []))]
            if not eng:
                continue
            for x in eng:
                nd += 1
                x0 = alias(f, strip(x))
                if x0 is None:
                    ctx.ob("engine-used", False, at(ctx, f, n), "a random draw uses an engine that is created on the spot")
                elif x0.get("k") == "m":
                    ok = x0["f"] in fields
                    ctx.ob("engine-used", ok, at(ctx, f, n), "a random draw uses %s" % x0["f"], sample="%s draws from %s" % (short(f["n"]), short(x0["f"])))
                    used.setdefault(x0["f"], set()).add(f["id"])
                elif x0.get("k") == "v":
                    par = [p for p in f["p"] if p["id"] == x0.get("id")]
                    if par:
                        ctx.ob("engine-used", is_engine_type(par[0]["t"]), at(ctx, f, n), "a random draw uses the parameter %s" % par[0]["n"], sample="%s draws from its parameter" % short(f["n"]))
                    else:
                        ctx.ob("engine-used", local_seeded(ctx, f, x0), at(ctx, f, n), "a random draw uses the local engine '%s', which is not seeded from the options" % x0.get("n"))
                elif x0.get("k") in ("null", "nullptr", "int", "num"):
                    pass
                else:
                    ctx.ob("engine-used", False, at(ctx, f, n), "a random draw uses an engine that is neither a solver member nor handed in (%s)" % x0.get("k"))
    ctx.count("random draws and hand-overs", nd)
    return fields, used


def strip(x):
    while isinstance(x, dict) and (x.get("k") in ("un", "cast", "paren", "icast", "tmp", "bind") and x.get("op", "*") in ("*", "&", None, "")):
        x = x.get("e")
    if isinstance(x, dict) and x.get("k") in ("v", "m"):
        return x
    if isinstance(x, dict) and x.get("k") in ("ctor", "new", "call"):
        return {"k": "fresh"} if x.get("k") != "call" else x
    return x


def local_decl(f, v):
    for n in walk([f.get("b")]):
        if n.get("id") == v.get("id") and n is not v and n.get("k") != "v":
            return n
    return None


def alias(f, x, depth=0):
    """follow a reference or pointer local to the engine it denotes"""
    if x is not None and x.get("k") == "v" and depth < 4 and not any(p["id"] == x.get("id") for p in f["p"]):
        d = local_decl(f, x)
        if d is not None and not d.get("static") and (d.get("ref") or "*" in str(d.get("t")) or "&" in str(d.get("t"))):
            i = strip(d.get("i") if d.get("i") is not None else d.get("init"))
            if isinstance(i, dict) and i.get("k") in ("v", "m"):
                return alias(f, i, depth + 1)
    return x


def local_seeded(ctx, f, v):
    n = local_decl(f, v)
    if n is None or n.get("static"):
        return False
    return "seed" in str(n.get("i") or n.get("init") or "")


OWN = {"TabuSearchCore": "tabu_search", "LocalSearchCore": "local_search", "LagrangeDualCore": "lagrange_dual", "TabuSearchController": "general"}


def seeding(ctx, fields, used, flds):
    g = callgraph(ctx.P)
    for fld, rec in sorted(fields.items()):
        cls = rec.split("::")[-1]
        users = used.get(fld, set())
        if not users:
            ctx.count("engines never drawn from")
            continue
        ctx.need(cls in OWN, "owner of the engine %s" % fld)
        reach = set(users)          # methods that draw, directly or not
        ch = True
        while ch:
            ch = False
            for f in ctx.P.fn.values():
                if f.get("cls") == rec and f["id"] not in reach and g.get(f["id"], set()) & reach:
                    reach.add(f["id"])
                    ch = True
        f = ctx.fn1(cls + "::run", 0)
        E = ctx.run(f, inline=("preprocess",))
        seeds = [e for e in E.effects if e.kind == "call" and callee(e) == "seed" and e.t is not None and e.t.op == "fld" and e.t.a[1] == fld]
        first = None
        for e in E.effects:
            if e in seeds:
                continue
            touches = (e.kind == "call" and ((e.t is not None and contains(e.t, lambda x: x.op == "fld" and x.a[1] == fld)) or any(contains(a, lambda x: x.op == "fld" and x.a[1] == fld) for a in (e.args or ()))))
            if e.kind == "call" and not touches:
                m = [h for h in ctx.P.fn.values() if h["n"] == e.v and h["id"] in reach]
                touches = bool(m)
            if touches and (first is None or e.seq < first.seq):
                first = e
        if not seeds:
            ctx.ob("seeded", False, ctx.at(f, first), "%s draws random numbers from an engine that is not seeded at the start of the run" % cls)
            continue
        s = seeds[0]
        ctx.ob("seeded", s.pc is TRUE and not s.loops and (first is None or s.seq < first.seq), ctx.at(f, s), "%s seeds its engine only under a condition or after the first draw" % cls, sample="%s: seed before first draw (line %s)" % (cls, first.line if first else "-"))
        for e in seeds:
            a = e.args[0] if e.args else None
            ok = a is not None and a.op == "fld" and fname(a) == "seed" and has_field(a, "m_option") and fname(a.a[0]) == OWN[cls]
            ctx.ob("seed-option", ok, ctx.at(f, e), "%s seeds its engine with %s instead of the option %s.seed" % (cls, a, OWN[cls]), sample="%s.seed(%s)" % (cls, a))
        # nothing else reseeds
        for h in ctx.P.fn.values():
            if h.get("cls") != rec or not is_baseline(ctx.P, h):
                continue
            for e in ctx.run(h).effects:
                if e.kind == "call" and callee(e) == "seed" and e.t is not None and e.t.op == "fld" and e.t.a[1] == fld and h["n"].split("::")[-1] not in ("preprocess", "run"):
                    ctx.ob("reseed", h["n"].split("::")[-1] in ("initialize", "setup", "(ctor)") and e.args and (asnum(e.args[0]) is not None or fname(e.args[0]) == "seed"), ctx.at(h, e), "%s reseeds the engine with %s" % (short(h["n"]), e.args))
                if e.kind == "write" and e.t is not None and e.t.op == "fld" and e.t.a[1] == fld:
                    ctx.ob("reseed", False, ctx.at(h, e), "%s replaces the engine" % short(h["n"]))
    # seeds derived for inner searches
    for f in ctx.P.fn.values():
        if not f["file"].startswith("printemps/solver"):
            continue
        for e in ctx.run(f).effects:
            if e.kind == "write" and fname(e.t) == "seed":
                ok = not tainted(e.v, flds) and not pointerish(e.v) and all(x.op != "call" or x.a[0].split("::")[-1] in ("max", "min") for x in subterms(e.v))
                ctx.ob("derived-seed", ok, ctx.at(f, e), "the seed of an inner search is set to %s, which is not determined by the options and the progress of the run" % e.v, sample="inner seed := %s" % e.v)


CLOCKCALL = re.compile(r"(^|::)(clock|elapsed_time|measure|get_time|omp_get_wtime|now)$")


def pointerish(t):
    """an address used as a number: a pointer that is not merely dereferenced"""
    if t is None or not hasattr(t, "op"):
        return False
    if t.op == "fld":
        return (fname(t) or "").endswith("_ptr")
    if t.op in ("addr", "op&"):
        return True
    return any(pointerish(x) for x in t.a if hasattr(x, "op")) or any(pointerish(y) for x in t.a if isinstance(x, tuple) for y in x if hasattr(y, "op"))


def tparams(f):
    r = f.get("_tp")
    if r is None:
        r = f["_tp"] = {"$%d" % i for i, p in enumerate(f["p"]) if TIMEISH.search(re.sub("^a_", "", p["n"])) and p["t"] == "double"}
    return r


def tainted(t, flds, f=None):
    if t is None or not hasattr(t, "op"):
        return False
    ps = tparams(f) if f is not None else ()

    def p(x):
        if x.op == "sym" and x.a[0] in ps:
            return True
        if x.op == "fld" and x.a[1] in flds:
            return True
        return x.op == "call" and bool(CLOCKCALL.search(x.a[0]))
    return contains(t, p)


def clock(ctx):
    """values read from the clock reach only time, performance and thread-count state"""
    flds, E, fs, sites = taint(ctx)
    for n in sorted(flds):
        if n not in sites:
            continue
        f, e = sites[n]
        ctx.ob("clock-state", bool(TIMEISH.search(n.split("::")[-1])), ctx.at(f, e), "%s is computed from the clock" % short(n), sample="%s holds clock-derived data" % short(n))
    judge(ctx, flds, E, fs)


def taint(ctx):
    flds = {x["n"] for x in ctx.P.records["printemps::utility::TimeKeeper"]["fields"] if "time" in x["n"].split("::")[-1]}
    fs = [f for f in ctx.P.fn.values() if not f["n"].startswith("printemps::utility::") and not f["n"].startswith("printemps::option::")]
    E = {f["id"]: ctx.run(f) for f in fs}
    sites = {}
    ch = True
    while ch:
        ch = False
        for f in fs:
            for e in E[f["id"]].effects:
                if e.kind in ("write", "lwrite") and e.t is not None and e.t.op == "fld" and e.t.a[1] not in flds and tainted(e.v, flds, f):
                    flds.add(e.t.a[1])
                    sites[e.t.a[1]] = (f, e)
                    ch = True
    return flds, E, fs, sites


def judge(ctx, flds, E, fs):
    nb = 0
    for f in fs:
        for e in E[f["id"]].effects:
            bad = [c for c in cmps(e.pc) if tainted(c, flds, f) and not limit(c)]
            if not bad:
                continue
            nb += 1
            if e.kind == "call" and (callee(e).startswith("print") or callee(e) in ("to_string", "operator<<", "format")):
                continue
            if e.kind in ("loopexit", "continue", "init"):
                continue
            if e.kind in ("write", "lwrite") and TIMEISH.search(fname(e.t) or ""):
                continue
            # choice of thread counts from the measured speeds
            if all(has_field(c, "m_option") and not contains(c, lambda x: x.op == "lt0") for c in bad):
                continue
            if thread_choice(e, f):
                continue
            ctx.ob("clock-decision", False, ctx.at(f, e), "what happens here depends on the clock through %s, which is not a time-limit test" % bad[0])
        for e in E[f["id"]].effects:
            if e.kind == "ret" and e.v is not None and tainted(e.v, flds, f) and is_baseline(ctx.P, f):
                ctx.ob("clock-state", bool(TIMEISH.search(f["n"].split("::")[-1])) or only_limits(e.v, flds), ctx.at(f, e), "%s returns a value computed from the clock" % short(f["n"]))
    ctx.ob("clock-decision", True, None, "", sample="%d effects under clock-derived guards inspected" % nb)


def thread_choice(e, f):
    return bool(re.search(r"parallel|thread", f["n"].split("::")[-1]))


def cmps(pc):
    out = []
    for x in subterms(pc):
        if x.op in ("lt0", "eq0", "eq"):
            out.append(x)
        elif x.op in ("call", "fld") and x in conj(pc):
            out.append(x)
    return out


def limit(c):
    return contains(c, lambda x: x.op == "fld" and fname(x) in ("time_max", "is_enabled_print", "verbose"))


def only_limits(v, flds):
    if v.op in ("not", "and", "or", "ite", "lt0", "eq0"):
        return all(not tainted(c, flds) or limit(c) for c in cmps(v))
    return False


def run(ctx):
    ctx.rule("every call site of an entropy source, every random draw and the engine it uses, every seeding with its argument and position, and every value, guard and return derived from the clock")
    ctx.section(sources)
    st = {}

    def both(ctx):
        fields, used = draws(ctx)
        seeding(ctx, fields, used, taint(ctx)[0])
    ctx.section(both)
    ctx.section(clock)
