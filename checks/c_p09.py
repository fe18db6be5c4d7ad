"""P09: each neighborhood is governed by its own option in every phase."""
from common import *

NB = "printemps::neighborhood::Neighborhood::"
AMG = "printemps::neighborhood::AbstractMoveGenerator::"
SM = "TabuSearchControllerStateManager::"
DEFAULT = ("binary", "integer", "selection", "user_defined")


def camel(k):
    return "".join(w.capitalize() for w in k.split("_"))


def generators(ctx):
    """the move generators owned by Neighborhood: members x with an accessor x() that returns a *MoveGenerator"""
    out = []
    for f in ctx.P.fn.values():
        if f.get("cls") == NB[:-2] and not f["p"] and is_baseline(ctx.P, f):
            n = f["n"].split("::")[-1]
            if ctx.P.find(camel(n) + "MoveGenerator::setup") and n not in out:
                out.append(n)
    ctx.need(len(out) >= 18, "move generators of Neighborhood: %s" % out)
    return out


def gen_of(t):
    """generator name of a term that lies in / is a member m_x of a Neighborhood object"""
    while t.op in ("fld", "at"):
        if t.op == "fld" and t.a[1].startswith(NB) and fname(t) not in ("m_move_ptrs", "m_move_generator_ptrs", "m_number_of_updated_moves"):
            return fname(t)[2:]
        t = t.a[0]
    return None


def opt(t, k):
    """is t the enabling option of neighborhood k"""
    return fname(t) == "is_enabled_%s_move" % k


def foreign(pc, k, gens):
    """option or generator of another neighborhood consulted in pc"""
    for x in subterms(pc):
        n = fname(x)
        if n and n.startswith("is_enabled_") and n.endswith("_move") and n[len("is_enabled_"):-len("_move")] in gens and n != "is_enabled_%s_move" % k:
            return n
        if x.op == "fld" and x.a[1].startswith(NB):
            g = gen_of(x)
            if g in gens and g != k:
                return g
    return None


def opt_term(pc, k):
    if k == "selection":
        r = [x for x in subterms(pc) if x.op in ("eq", "eq0") and has_field(x, "selection_mode")]
        return not_(r[0]) if r else None
    r = [x for x in subterms(pc) if opt(x, k)]
    return r[0] if r else None


def size_terms(pc, k):
    return [x for x in subterms(pc) if x.op == "call" and x.a[0].split("::")[-1] in ("size", "empty") or x.op in ("size", "len")]


def nonempty(pc, k):
    """condition 'generator k has moves' as it occurs in pc (TRUE if absent)"""
    c = TRUE
    for x in subterms(pc):
        if x.op in ("eq", "eq0") and gen_of_in(x) == k and not has_field(x, "selection_mode"):
            c = and_(c, not_(x))
    return c


def gen_of_in(t):
    for x in subterms(t):
        g = gen_of(x) if x.op == "fld" else None
        if g:
            return g
    return None


def phase(ctx, f, E, gens, ks, on, exact):
    """every k in ks gets m_is_enabled := on exactly / at least when its option (and moves) say so"""
    ws = {}
    odd = False
    for e in writes(E, "m_is_enabled"):
        g = gen_of(e.t)
        if g is None or e.loops:
            odd = True
        else:
            ws.setdefault(g, []).append(e)
    if odd:
        raise Broken("generators are switched through an indirection in " + short(f["n"]))
    for k in ks:
        es = [e for e in ws.get(k, []) if e.v is on]
        ctx.ob("phase-covers", bool(es), ctx.at(f), "%s never %s the %s neighborhood" % (short(f["n"]), "enables" if on is TRUE else "disables", k))
        if not es:
            continue
        pc = or_(*[e.pc for e in es])
        fo = foreign(pc, k, gens)
        ctx.ob("own-option", fo is None, ctx.at(f, es[0]), "%s decides about the %s neighborhood by %s" % (short(f["n"]), k, fo))
        o = opt_term(pc, k)
        if exact:
            ctx.ob("enabled-iff-option", o is not None and safe_implies(pc, o) and safe_implies(and_(o, nonempty(pc, k)), pc), ctx.at(f, es[0]),
                   "%s enables the %s neighborhood when %s" % (short(f["n"]), k, pc), sample="%s: enabled iff %s" % (k, pc))
        else:
            # must be switched off whenever it may be on; it can only be on if its option is set
            ctx.ob("disabled-whenever-on", pc is TRUE or (o is not None and safe_implies(o, pc)), ctx.at(f, es[0]), "%s disables the %s neighborhood only when %s" % (short(f["n"]), k, pc))
    for k in ws:
        if k not in ks:
            ctx.ob("phase-scope", False, ctx.at(f), "%s switches the %s neighborhood" % (short(f["n"]), k))
        for e in ws[k]:
            ctx.ob("phase-direction", e.v is on, ctx.at(f, e), "%s sets the %s neighborhood to %s" % (short(f["n"]), k, e.v))


def lifecycle(ctx):
    gens = generators(ctx)
    special = [k for k in gens if k not in DEFAULT]
    ctx.count("neighborhoods", len(gens))
    for k in gens:
        for f in ctx.fns("Neighborhood::" + k, 0, pred=lambda g: g.get("cls") == NB[:-2]):
            r = ctx.run(f).ret
            ctx.ob("accessor", r is mk("fld", THIS, NB + "m_" + k), ctx.at(f), "Neighborhood::%s gives access to %s" % (k, r))
    # initialisation
    f = ctx.fn1("Neighborhood::initialize", 0)
    E = ctx.run(f)
    ini = {gen_of(e.t) for e in E.effects if e.kind == "call" and e.t is not None and callee(e) == "initialize" and e.pc is TRUE}
    ini |= {gen_of(e.t) for e in writes(E) if e.pc is TRUE and gen_of(e.t)}
    for k in gens:
        ctx.ob("initialised", k in ini, ctx.at(f), "Neighborhood::initialize does not reset the %s neighborhood" % k)
    lst = [e for e in E.effects if e.kind in ("write", "init", "call") and e.t is not None and fname(e.t) == "m_move_generator_ptrs"]
    members = []
    for e in lst:
        for v in ([e.v] if hasattr(e.v, "op") else []) + list(e.args or ()):
            for x in subterms(v):
                g = gen_of(x) if x.op == "fld" and x.a[1].startswith(NB) else None
                if g in gens:
                    members.append(g)
    if not members:
        raise Broken("list of move generators not recognised")
    for k in gens:
        ctx.ob("listed-once", members.count(k) == 1, ctx.at(f), "the %s neighborhood occurs %d times in the list of move generators" % (k, members.count(k)))


def defaults(ctx):
    gens = generators(ctx)
    f = ctx.fn1("Solver::enable_default_neighborhood", 0)
    phase(ctx, f, ctx.run(f), gens, DEFAULT, TRUE, True)
    f = ctx.fn1("Solver::preprocess", 0)
    E = ctx.run(f)
    en = list(calls(E, "Solver::enable_default_neighborhood"))
    su = list(calls(E, "Model::setup_neighborhood")) + list(calls(E, "Model::setup"))
    ctx.ob("enabled-before-search", bool(en) and not en[0].loops and bool(su) and max(e.seq for e in su) < en[0].seq, ctx.at(f), "default neighborhoods are not enabled after the moves have been set up")
    for e in en[:1]:
        thr = and_(*[not_(x.pc) for x in E.effects if x.kind == "throw" and not x.loops])
        ctx.ob("enabled-before-search", safe_implies(thr, e.pc), ctx.at(f, e), "default neighborhoods are enabled only when %s" % e.pc)


def specials(ctx, which):
    gens = generators(ctx)
    special = [k for k in gens if k not in DEFAULT]
    if which == "on":
        f = ctx.fn1(SM + "enable_special_neighborhood_moves", 0)
        phase(ctx, f, ctx.run(f), gens, special, TRUE, True)
    else:
        f = ctx.fn1(SM + "disable_special_neighborhood_moves", 0)
        phase(ctx, f, ctx.run(f), gens, special, FALSE, False)
    E = ctx.run(f)
    ws = [e for e in order(writes(E, "is_enabled_special_neighborhood_move")) if not e.loops]
    ctx.ob("state-flag", bool(ws) and ws[-1].pc is TRUE and ws[-1].v is (TRUE if which == "on" else FALSE), ctx.at(f), "%s does not record the state of special neighborhoods" % short(f["n"]))
    if which == "on":
        rs = list(calls(E, "Neighborhood::reset_special_neighborhood_moves_availability"))
        ok = bool(rs)
        if ok:
            pc = rs[0].pc
            # either unconditionally or whenever some special neighborhood is enabled
            ok = pc is TRUE or has_call(pc, "is_enabled_special_neighborhood_move") or all(any(gen_of(x) == k for x in subterms(pc) if fname(x) == "m_is_enabled") for k in special)
            en = [e.seq for e in writes(E, "m_is_enabled")]
            ok = ok and rs[0].seq > max(en + [0]) if not (pc is TRUE) else ok
        ctx.ob("reset-when-enabled", ok, ctx.at(f), "special moves are not made available again when the special neighborhoods are enabled")


def has_call(t, n):
    return any(x.op == "call" and x.a[0].split("::")[-1] == n for x in subterms(t))


def aggregate(ctx):
    gens = generators(ctx)
    special = [k for k in gens if k not in DEFAULT]
    f = ctx.fn1("Neighborhood::reset_special_neighborhood_moves_availability", 0)
    E = ctx.run(f)
    got = {}
    for e in E.effects:
        if (e.kind == "call" and e.t is not None and callee(e) == "reset_availability") or (e.kind == "write" and fname(e.t) == "is_available" and e.v is TRUE):
            g = gen_of(e.t)
            if g is None:
                if has_field(e.t, "m_move_generator_ptrs") and e.pc is TRUE:
                    for k in gens:
                        got[k] = TRUE
                    continue
                il = [x for x in subterms(e.t) if x.op == "at" and x.a[0].op == "ilist"]
                if il and e.pc is TRUE:
                    for x in il[0].a[0].a[0]:
                        got[gen_of(x)] = TRUE
                    continue
                raise Broken("availability reset through %s" % e.t)
            got[g] = or_(got.get(g, FALSE), e.pc)
    for k in special:
        ctx.ob("reset-covers", got.get(k) is TRUE, ctx.at(f), "availability of %s moves is not reset" % k)
    f = ctx.fn1("Neighborhood::is_enabled_special_neighborhood_move", 0)
    r = ctx.run(f).ret
    ctx.need(r is not None, "is_enabled_special_neighborhood_move has no value")
    en = {k: mk("fld", mk("fld", THIS, NB + "m_" + k), AMG + "m_is_enabled") for k in gens}
    if any(x.op in ("exists", "phi", "loopval") for x in subterms(r)):
        raise Broken("special-neighborhood test %s" % r)
    for k in special:
        ctx.ob("any-covers", safe_implies(en[k], r), ctx.at(f), "the test for enabled special neighborhoods overlooks %s" % k)
    ctx.ob("any-only-special", safe_implies(r, or_(*[en[k] for k in special])), ctx.at(f), "the test for enabled special neighborhoods holds although none is enabled")
    f = ctx.fn1("Neighborhood::number_of_special_neighborhood_moves", 0)
    r = ctx.run(f).ret
    if any(x.op in ("phi", "loopval", "sum") for x in subterms(r)):
        raise Broken("number of special moves %s" % r)
    p = poly_of(r)
    cnt = {}
    for m, c in p.items():
        g = gen_of_in(m[0]) if len(m) == 1 else None
        cnt[g] = cnt.get(g, 0) + c
    for k in special:
        ctx.ob("count-covers", cnt.get(k) == 1, ctx.at(f), "the number of special moves counts the %s moves %s times" % (k, cnt.get(k, 0)))
    ctx.ob("count-covers", set(cnt) == set(special), ctx.at(f), "the number of special moves also counts %s" % sorted(str(x) for x in set(cnt) - set(special)))


def setups(ctx):
    gens = generators(ctx)
    special = [k for k in gens if k not in DEFAULT]
    f = ctx.fn1("Model::setup_neighborhood", 2)
    E = ctx.run(f)
    got = {}
    for e in E.effects:
        if e.kind == "call" and e.t is not None and callee(e) == "setup" and gen_of(e.t):
            got.setdefault(gen_of(e.t), []).append(e)
    for k in gens:
        es = got.get(k, [])
        ctx.ob("setup-covers", len(es) >= 1, ctx.at(f), "the %s neighborhood is never set up" % k)
        if not es:
            continue
        pc = or_(*[e.pc for e in es])
        fo = foreign(pc, k, gens)
        ctx.ob("own-option", fo is None, ctx.at(f, es[0]), "%s sets up the %s neighborhood according to %s" % (short(f["n"]), k, fo))
        if k in ("binary", "integer", "selection"):
            # their enabling is decided later; setting up less than their option allows would lose moves
            o = opt_term(pc, k)
            ctx.ob("setup-enough", pc is TRUE or (o is not None and safe_implies(o, pc)), ctx.at(f, es[0]), "the %s neighborhood is set up only when %s" % (k, pc))
        else:
            o = opt_term(pc, k)
            sz = TRUE
            for x in subterms(pc):
                if x.op in ("eq", "eq0", "lt0") and not any(opt(y, k) for y in subterms(x)):
                    a = [y for e in es for y in (e.args or ())]
                    if any(is_part(y, x) for y in a):
                        sz = and_(sz, not_(x) if x.op != "lt0" else x)
            ctx.ob("setup-iff-option", (pc is TRUE) or (o is not None and safe_implies(and_(o, sz), pc)), ctx.at(f, es[0]), "the %s neighborhood is set up only when %s" % (k, pc))
        for e in es:
            if not e.args:
                continue
            a = e.args[0]
            want = {"binary": "binary_variable_ptrs", "integer": "integer_variable_ptrs", "selection": "selection_variable_ptrs", "two_flip": "m_flippable_variable_ptr_pairs"}.get(k, k + "_ptrs")
            if fname(a) is None:
                raise Broken("moves of %s built from %s" % (k, a))
            ctx.ob("own-source", fname(a) == want, ctx.at(f, e), "the %s moves are built from %s" % (k, a), sample="%s built from %s" % (k, fname(a)))
    # a later re-setup uses the same sources
    for g in ctx.P.fn.values():
        if g is f or not is_baseline(ctx.P, g) or not g["n"].startswith("printemps::model::Model::"):
            continue
        if not any(c["n"].endswith("MoveGenerator::setup") for c in direct_calls(g)):
            continue
        Eg = ctx.run(g)
        es = [e for e in Eg.effects if e.kind == "call" and e.t is not None and callee(e) == "setup" and gen_of(e.t)]
        for e in es:
            k = gen_of(e.t)
            if e.args:
                want = {"two_flip": "m_flippable_variable_ptr_pairs"}.get(k, k + ("_variable_ptrs" if k in DEFAULT else "_ptrs"))
                ctx.ob("own-source", fname(e.args[0]) == want, ctx.at(g, e), "%s rebuilds the %s moves from %s" % (short(g["n"]), k, e.args[0]))
        if es:
            ks = {gen_of(e.t) for e in es}
            for k in ("binary", "integer", "selection"):
                ctx.ob("resetup-covers", k in ks, ctx.at(g), "%s does not rebuild the %s moves" % (short(g["n"]), k))
            if len({e.pc for e in es}) > 1:
                ctx.ob("resetup-covers", all(safe_equiv(e.pc, es[0].pc) for e in es), ctx.at(g), "%s rebuilds only some of the default neighborhoods" % short(g["n"]))
    # sense labels written by each generator
    for k in gens:
        for g in ctx.fns(camel(k) + "MoveGenerator::setup"):
            Eg = ctx.run(g)
            for e in writes(Eg, "sense"):
                if e.v.op == "enum" and e.v.a[0].startswith("printemps::neighborhood::MoveSense::"):
                    ctx.ob("own-label", e.v.a[0].split("::")[-1] == camel(k), ctx.at(g, e), "%s moves are labelled %s" % (k, e.v))
            for e in writes(Eg, "is_special_neighborhood_move"):
                ctx.ob("special-label", e.v is (FALSE if k in DEFAULT else TRUE), ctx.at(g, e), "%s moves are marked special = %s" % (k, e.v))


def is_part(x, t):
    return any(y is x for y in subterms(t))


def base(ctx):
    for n, v in (("enable", TRUE), ("disable", FALSE)):
        f = ctx.fn1("AbstractMoveGenerator::" + n, 0)
        ws = list(writes(ctx.run(f), "m_is_enabled"))
        ctx.ob("switch", bool(ws) and ws[-1].pc is TRUE and ws[-1].v is v, ctx.at(f), "AbstractMoveGenerator::%s sets the state to %s" % (n, ws and ws[-1].v))
    f = ctx.fn1("AbstractMoveGenerator::is_enabled", 0)
    ctx.ob("switch", ctx.run(f).ret is mk("fld", THIS, AMG + "m_is_enabled"), ctx.at(f), "AbstractMoveGenerator::is_enabled returns another quantity")
    f = ctx.fn1("AbstractMoveGenerator::initialize", 0)
    ws = list(writes(ctx.run(f), "m_is_enabled"))
    ctx.ob("switch", bool(ws) and ws[-1].v is FALSE, ctx.at(f), "a fresh neighborhood is not switched off")
    f = ctx.fn1("AbstractMoveGenerator::reset_availability", 0)
    ws = list(writes(ctx.run(f), "is_available"))
    ok = bool(ws) and ws[-1].v is TRUE and ws[-1].pc is TRUE and len(ws[-1].loops) == 1 and has_field(ws[-1].loops[0], "m_moves")
    ctx.ob("reset-own", ok, ctx.at(f), "resetting availability does not make every move available")
    for n, w in (("moves", "m_moves"), ("flags", "m_flags")):
        for f in ctx.fns("AbstractMoveGenerator::" + n, 0):
            ctx.ob("accessor", ctx.run(f).ret is mk("fld", THIS, AMG + w), ctx.at(f), "AbstractMoveGenerator::%s returns another quantity" % n)
    # refreshing
    f = ctx.fn1("Neighborhood::update_moves", 5)
    E = ctx.run(f)
    lst = mk("fld", THIS, NB + "m_move_generator_ptrs")
    up = [e for e in E.effects if e.kind == "call" and e.t is not None and callee(e) == "update_moves"]
    ctx.need(up, "update_moves refreshes no generator")
    for e in up:
        own = mk("fld", e.t, AMG + "m_is_enabled")
        ctx.ob("refresh-enabled", e.t.op == "at" and e.t.a[0] is lst and len(e.loops) == 1 and e.loops[0].op == "idx" and e.loops[0].a[0] is ZERO, ctx.at(f, e), "update_moves does not refresh every generator of the list: %s over %s" % (e.t, e.loops))
        ctx.ob("refresh-enabled", safe_implies(own, e.pc), ctx.at(f, e), "an enabled neighborhood is refreshed only when %s" % e.pc)
        ctx.ob("refresh-arguments", tuple(e.args) == tuple(mk("sym", "$%d" % i) for i in range(5)), ctx.at(f, e), "update_moves hands on its arguments as %s" % (e.args,))
    col = [e for e in writes(E) if e.t.op == "at" and fname(e.t.a[0]) == "m_move_ptrs"] + [e for e in E.effects if e.kind == "call" and e.t is not None and fname(e.t) == "m_move_ptrs" and callee(e) in ("push_back", "emplace_back")]
    ctx.need(col, "update_moves collects no move")
    for e in col:
        v = e.v if e.kind == "write" else e.args[0]
        mv = [x for x in subterms(v) if x.op == "at" and fname(x.a[0]) == "m_moves"]
        if not mv:
            raise Broken("collected move %s" % v)
        g = mv[0].a[0].a[0]
        own = mk("fld", g, AMG + "m_is_enabled")
        fl = mk("at", mk("fld", g, AMG + "m_flags"), mv[0].a[1])
        ctx.ob("collect-enabled", safe_implies(e.pc, own), ctx.at(f, e), "moves of a disabled neighborhood are offered: collected when %s" % e.pc)
        ctx.ob("collect-flagged", safe_implies(e.pc, not_(eq(fl, ZERO))), ctx.at(f, e), "a move is offered although its own flag is off: collected when %s" % e.pc)
        ctx.ob("collect-complete", safe_implies(and_(own, not_(eq(fl, ZERO))), e.pc), ctx.at(f, e), "a flagged move of an enabled neighborhood is not offered: collected when %s" % e.pc)
    f = ctx.fn1("AbstractMoveGenerator::update_moves", 5)
    E = ctx.run(f)
    cs = [e for e in E.effects if e.kind == "call" and e.args and len(e.args) == 7]
    if cs:
        a = cs[-1].args
        ok = fname(a[0]) == "m_moves" and fname(a[1]) == "m_flags" and tuple(a[2:]) == tuple(mk("sym", "$%d" % i) for i in range(5))
        ctx.ob("refresh-arguments", ok, ctx.at(f), "a generator's updater receives %s" % (a,))


def flow(ctx):
    f = ctx.fn1(SM + "update", 2)
    E = ctx.run(f)
    d = list(calls(E, SM + "disable_special_neighborhood_moves"))
    e_ = list(calls(E, SM + "enable_special_neighborhood_moves"))
    ctx.need(d and e_, "update does not switch special neighborhoods")
    upd = [x for x in subterms(d[0].pc) if fname(x) == "is_global_augmented_incumbent_updated"]
    ctx.ob("special-off-on-improvement", bool(upd) and safe_implies(d[0].pc, upd[0]), ctx.at(f, d[0]), "special neighborhoods are disabled when %s" % d[0].pc)
    ctx.ob("special-exclusive", not safe_sat(and_(d[0].pc, e_[0].pc)), ctx.at(f, e_[0]), "special neighborhoods are enabled when %s" % e_[0].pc)
    for n in ("clear_chain_moves", "sort_and_deduplicate_chain_moves", "reduce_chain_moves"):
        for e in calls(E, SM + n):
            bad = [fname(x) for x in subterms(e.pc) if fname(x) and fname(x).startswith("is_enabled_") and fname(x).endswith("_move") and fname(x) not in ("is_enabled_chain_move",)]
            bad += [gen_of(x) for x in subterms(e.pc) if x.op == "fld" and x.a[1].startswith(NB) and gen_of(x) not in (None, "chain")]
            ctx.ob("chain-own", not bad, ctx.at(f, e), "%s is decided by %s" % (n, bad))
            g = ctx.fn1(SM + n)
            for c in ctx.run(g).effects:
                if c.kind == "call" and c.t is not None and gen_of(c.t):
                    ctx.ob("chain-own", gen_of(c.t) == "chain", ctx.at(g, c), "%s changes the %s moves" % (n, gen_of(c.t)))
                if c.kind == "call" and callee(c) == "reduce_moves":
                    ctx.ob("chain-capacity", fname(c.args[0]) == "chain_move_capacity", ctx.at(g, c), "chain moves are reduced to %s" % c.args[0])
    # recorded chain moves go to the chain neighborhood, only if its option is on
    f = ctx.fn1("TabuSearchCore::update_chain_moves", 0)
    E = ctx.run(f)
    for e in E.effects:
        if e.kind == "call" and callee(e) == "register_move":
            ctx.ob("chain-own", gen_of(e.t) == "chain", ctx.at(f, e), "a chain move is registered with %s" % e.t)
    for g in {h["id"]: h for g, n in callers(ctx.P, "TabuSearchCore::update_chain_moves") for h in owners(ctx.P, g)}.values():
        for e in calls(ctx.run(g), "TabuSearchCore::update_chain_moves"):
            ctx.ob("chain-own", any(fname(x) == "is_enabled_chain_move" for x in conj(e.pc)), ctx.at(g, e), "chain moves are recorded when %s" % e.pc)


def options(ctx):
    """the options that govern neighborhoods are changed only by their own rule"""
    gens = generators(ctx)
    for g in ctx.P.fn.values():
        if not is_baseline(ctx.P, g) or g["n"].startswith("printemps::option::") or g.get("dflt") or g["n"].split("::")[-1] == "(ctor)":
            continue
        if not any(n.get("k") == "member" and str(n.get("n", "")).startswith("is_enabled_") and str(n.get("n", "")).endswith("_move") for n in walk([g.get("b")])):
            continue
        Eg = ctx.run(g)
        for e in writes(Eg):
            n = fname(e.t)
            if n and n.startswith("is_enabled_") and n.endswith("_move") and n[11:-5] in gens and has_field(e.t, "neighborhood"):
                k = n[11:-5]
                if k == "chain":
                    # switched off exactly when the model has no constraint it can work on
                    ok = e.v is FALSE and any(has_call(x, "has_chain_move_effective_constraints") or fname(x) for x in [e.pc]) and foreign(e.pc, k, gens) is None
                    hc = [x for x in subterms(e.pc) if x.op == "call" and x.a[0].split("::")[-1] == "has_chain_move_effective_constraints"]
                    ctx.ob("chain-applicable", ok and (not hc or safe_implies(e.pc, not_(hc[0]))), ctx.at(g, e), "the chain move option is set to %s when %s" % (e.v, e.pc))
                else:
                    ctx.ob("option-writers", foreign(e.pc, k, gens) is None, ctx.at(g, e), "%s changes the option of %s according to another neighborhood" % (short(g["n"]), k))


def run(ctx):
    ctx.rule("for each of the move generators found in Neighborhood: initialised, listed once, set up from its own variables/constraints under its own option, enabled exactly under its own option and non-emptiness, disabled whenever it can be on, "
             "reset, tested and counted in each aggregate; an enabled generator is refreshed and exactly its flagged moves are offered")
    for f in (lifecycle, defaults, aggregate, setups, base, flow, options):
        ctx.section(f)
    ctx.section(specials, "on")
    ctx.section(specials, "off")
