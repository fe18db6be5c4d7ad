"""P22: real-valued quantities are never silently truncated.

Every conversion of the type-checked program is visited: implicit and explicit conversions of a floating operand to an integral
type, compound assignments computed in floating point into an integral target, library folds and containers that store reals as
integers, and integer quotients used as reals. A conversion is accepted when its operand is integral-valued (rounded, built from
integers, or an integral constant; locals are resolved through all their definitions)."""
from common import *
from sym import walk

REAL = ("double", "float", "long double")
INT = ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char", "unsigned char", "long long", "unsigned long long", "bool")
ROUND = ("floor", "ceil", "round", "trunc", "rint", "nearbyint", "lround", "llround", "lrint", "floorf", "ceilf", "roundf")
KEEP = ("fabs", "abs", "max", "min", "clamp", "move", "forward")

# the places whose real operands are integral or are not model quantities (see the statement)
EXEMPT = {
    "Variable::update": "a dependent variable is defined by an integral expression (P28)",
    "ConstantSumIntegersMoveGenerator::setup": "value proposed for the partner variable",
    "ConstantDifferenceIntegersMoveGenerator::setup": "value proposed for the partner variable",
    "ConstantRatioIntegersMoveGenerator::setup": "value proposed for the partner variable",
    "GF2Solver::solve": "parity of integral data",
    "MPS::read_mps": "bounds are rounded inward by P07",
    "TabuSearchControllerStateManager::update_number_of_initial_modification": "count of search control",
    "TabuSearchControllerStateManager::update_iteration_max": "count of search control",
    "TabuSearchCore::update_memory": "count of search control",
    "TabuSearchCore::curtail_moves": "count of search control",
}


def base(n):
    return str(n.get("n", "")).split("::")[-1]


class Fn:
    def __init__(s, P, f):
        s.P, s.f = P, f
        s.defs = None

    def definitions(s):
        """local variable id -> defining expressions (None: defined in a way that is not followed)"""
        if s.defs is None:
            s.defs = {}
            for n in walk(s.f["b"]):
                k = n.get("k")
                if k == "decl":
                    for d in n["v"]:
                        if d.get("id") is not None and d.get("i") is not None:
                            s.defs.setdefault(d["id"], []).append(d["i"])
                elif k == "asg" and isinstance(n.get("a"), dict) and n["a"].get("k") == "v":
                    s.defs.setdefault(n["a"]["id"], []).append(n["b"])
                elif k == "casg" and isinstance(n.get("a"), dict) and n["a"].get("k") == "v":
                    s.defs.setdefault(n["a"]["id"], []).append(n["b"] if n.get("op") in ("+=", "-=", "*=") else None)
                elif k == "un" and n.get("op") == "&" and n.get("e", {}).get("k") == "v":
                    s.defs.setdefault(n["e"]["id"], []).append(None)
            for j, p in enumerate(s.f.get("p", ())):
                s.defs.setdefault(p["id"], []).append(("param", j))
        return s.defs

    def argument(s, j, depth):
        """a parameter of a new helper is integral when every caller passes an integral value"""
        P = s.P
        if is_baseline(P, s.f) or depth > 3:
            return False
        if not hasattr(P, "_callsites"):
            P._callsites = {}
            for g in P.fn.values():
                for n in walk([g["b"], g.get("inits", [])]):
                    if n.get("k") in ("call", "fn", "mfn") and n.get("f"):
                        P._callsites.setdefault(n["f"], []).append((g, n))
        cs = P._callsites.get(s.f["id"], [])
        return bool(cs) and all(n["k"] == "call" and len(n.get("a") or []) > j and Fn(P, g).integral(n["a"][j], (), depth + 1) for g, n in cs)

    def integral(s, e, seen=(), depth=0):
        if not isinstance(e, dict):
            return False
        k = e.get("k")
        if k == "cast":
            if e["c"] in ("i2f", "b2f") or e["c"] in ("f2i", "f2b", "i2i"):
                return True
            return s.integral(e["e"], seen, depth)
        if k in ("flt", "num", "int"):
            v = e.get("v")
            return isinstance(v, (int, float)) and float(v) == int(v)
        if "t" in e and e["t"] in INT:
            return True
        if k == "g" and isinstance(e.get("v"), (int, float)):
            return float(e["v"]) == int(e["v"])
        if k == "par":
            return s.integral(e["e"], seen, depth)
        if k == "call":
            b = base(e)
            if b in ROUND:
                return True
            if b in KEEP and e.get("a"):
                return all(s.integral(x, seen, depth) for x in e["a"])
            return False
        if k == "un" and e.get("op") in ("-", "+"):
            return s.integral(e["e"], seen, depth)
        if k == "bin" and e.get("op") in ("+", "-", "*"):
            return s.integral(e["a"], seen, depth) and s.integral(e["b"], seen, depth)
        if k in ("cond", "?:", "ite"):
            xs = [e.get(x) for x in ("a", "b", "t", "f", "e", "th", "el") if isinstance(e.get(x), dict)]
            return len(xs) >= 2 and all(s.integral(x, seen, depth) for x in xs)
        if k == "v":
            if e["id"] in seen:
                return True
            ds = s.definitions().get(e["id"])
            return bool(ds) and all(d is not None and (s.argument(d[1], depth) if isinstance(d, tuple) else s.integral(d, seen + (e["id"],), depth)) for d in ds)
        return False


def exempt(ctx, f):
    def one(g):
        n = g["n"]
        return any(n.endswith("::" + k) or ("::" + k + "::") in n for k in EXEMPT)
    if one(f):
        return True
    os_ = owners(ctx.P, f)
    return bool(os_) and all(one(g) for g in os_)


def conversions(ctx):
    ctx.rule("conversions: no real quantity becomes an integer unless it is rounded or integral")
    ctx.rule("accumulation: no compound assignment, fold or container stores a real sum or element in an integer")
    ctx.rule("quotients: no integer quotient is used as a real number")
    P = ctx.P
    seen = set()
    for f in P.fn.values():
        if f.get("b") is None:
            continue
        F = Fn(P, f)
        ctx.count("functions")
        for n in walk([f["b"], f.get("inits", [])]):
            k = n.get("k")
            bad = None
            if k == "cast" and n["c"] == "f2i":
                ctx.count("conversions")
                if "fv" in n and float(n["fv"]) == int(n["fv"]):
                    ok = True
                else:
                    ok = F.integral(n["e"])
                if not ok and not exempt(ctx, f):
                    bad = "%s conversion of a real value to %s" % ("implicit" if n.get("imp") else "explicit", n["t"])
                rule = "conversions"
            elif k == "cast" and n["c"] == "f2f" and n.get("imp") and n["t"] == "float" and n.get("st") == "double":
                ctx.count("conversions")
                rule = "conversions"
                if "fv" not in n:
                    bad = "double narrowed to float"
            elif k == "casg" and n.get("ct") in REAL and n.get("t") in INT:
                ctx.count("compound assignments")
                rule = "accumulation"
                if not (n.get("op") in ("+=", "-=", "*=") and F.integral(n["b"])) and not exempt(ctx, f):
                    bad = "a real result is stored in %s by %s" % (n["t"], n["op"])
            elif "fel" in n:
                ctx.count("library folds")
                rule = "accumulation"
                if n["fel"].replace("const ", "") in REAL and n["frt"] in INT:
                    bad = "%s of %s elements returns %s" % (base(n), n["fel"], n["frt"])
            elif n.get("nar"):
                rule = "accumulation"
                bad = "%s stores a real argument as an integer" % n.get("n")
            elif k == "cast" and n["c"] == "i2f" and n.get("imp"):
                e = n["e"]
                while e.get("k") in ("cast", "par"):
                    e = e["e"]
                rule = "quotients"
                if e.get("k") == "bin" and e.get("op") == "/":
                    bad = "an integer quotient is used as a real number"
                else:
                    continue
            else:
                continue
            at = "%s:%s" % (f["file"], n.get("l", f["l"]))
            key = "%s|%s|%s|%s" % (rule, f["file"], f["n"], n.get("l", f["l"]))
            if bad is None and key in seen:
                continue
            seen.add(key)
            ctx.ob(rule, bad is None, "%s (%s)" % (at, f["n"]), bad or "the value is integral", key=key)


def run(ctx):
    ctx.section(conversions)
