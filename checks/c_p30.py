"""P30: search parameters adapt only as the options allow, and the adapted values reach the next search."""
from common import *
import c_p29 as R

SM = R.SM
MODE = "improvability_screening_mode::ImprovabilityScreeningMode::"
NEIGH = ("exclusive_or", "exclusive_nor", "inverted_integers", "balanced_integers", "constant_sum_integers", "constant_difference_integers", "constant_ratio_integers",
         "aggregation", "precedence", "variable_bound", "trinomial_exclusive_nor", "soft_selection", "chain", "two_flip")


def base(ctx):
    N = R.Names(ctx)
    f, E = R.summary(ctx)
    A = R.Atoms(ctx, N)
    return N, f, E, A, or_(A.simple, A.smart)


def table(ctx, f, v, rows, modes, what, rule):
    """v is the prescribed value in every case; rows: (name, condition, value)"""
    for name, c, ref in rows:
        pc = and_(modes, c)
        if not safe_sat(pc):
            continue
        ctx.ob(rule, same_under(v, ref, pc), ctx.at(f), "%s: %s becomes %s instead of %s" % (name, what, str(under(v, pc))[:200], str(ref)[:200]), key=what + name, sample="%s: %s := %s" % (name, what, str(ref)[:100]))


def chain_rows(rows):
    """cases tried one after another"""
    out, rest = [], TRUE
    for name, c, v in rows:
        out.append((name, and_(rest, c), v))
        rest = and_(rest, not_(c))
    return out


def tenure(ctx):
    N, f, E, A, modes = base(ctx)
    t0, to = N.s("initial_tabu_tenure"), N.o("tabu_search.initial_tabu_tenure")
    v = R.state_value(E, t0)
    mut = {x for x in subterms(v) if str(x).endswith("mutable_variable_ptrs.size()")}
    ctx.need(len(mut) <= 1, "number of mutable variables in the tenure")
    ctx.ob("tenure", len(mut) == 1, ctx.at(f), "the adapted tabu tenure is not limited by the number of mutable variables: %s" % str(v)[:200], key="limit")
    if not mut:
        return
    m = mut.pop()
    last = N.r("tabu_tenure")
    mem = N.cls("solver::Memory")
    up = or_(lt(N.s("current_primal_intensity"), N.fld(N.mem, mem, "m_primal_intensity")), lt(N.s("current_dual_intensity"), N.fld(N.mem, mem, "m_dual_intensity")))
    lo = mm("min", to, m)
    dec = mm("max", sub(t0, num(1)), lo)
    rows = chain_rows([
        ("automatic tenure adjustment is off", not_(N.o("tabu_search.is_enabled_automatic_tabu_tenure_adjustment")), t0),
        ("the global incumbent was updated", A.G, lo),
        ("no incumbent was updated", A.N, dec),
        ("the last search lengthened the tenure", lt(t0, last), mm("min", add(t0, num(1)), m)),
        ("the last search kept the tenure and a bias grew", and_(eq(last, t0), up), t0),
        ("otherwise", TRUE, dec)])
    table(ctx, f, v, rows, modes, "the initial tabu tenure", "tenure")


def modification(ctx):
    N, f, E, A, modes = base(ctx)
    n0 = N.s("number_of_initial_modification")
    v = R.state_value(E, n0)
    forced = R.state_value(E, N.s("is_enabled_forcibly_initial_modification"))
    on = N.o("tabu_search.is_enabled_initial_modification")
    table(ctx, f, v, chain_rows([
        ("initial modification is off", not_(on), n0),
        ("the global incumbent was updated", A.G, ZERO)]), modes, "the number of initial modifications", "modification")
    T = R.state_value(E, N.s("initial_tabu_tenure"))
    rate, rnd = N.o("tabu_search.initial_modification_fixed_rate"), N.o("tabu_search.initial_modification_randomize_rate")
    for name, cond, start, relax, fo in R.cases(A):
        for nm, c, fo2 in ((name, cond, fo),) if relax else ((name + ", no reset", and_(cond, not_(A.reset)), fo), (name + ", stagnation", and_(cond, A.reset), True)):
            pc = and_(c, on, not_(A.G))
            if not safe_sat(pc):
                continue
            w = under(v, pc)
            if not fo2:
                ctx.ob("modification", w is ZERO, ctx.at(f), "when %s, %s modifications are made to the next start instead of none" % (nm, str(w)[:150]), key=nm)
            else:
                ctx.ob("modification", w.op == "max" and any(x.op == "n" and x.a[0] >= 1 for x in w.a[0]) or (w.op == "n" and w.a[0] >= 1) or implies_split(pc, le(num(1), w)), ctx.at(f), "when %s, the next start may get %s modifications, possibly none" % (nm, str(w)[:150]), key=nm + "1")
                z = under(subst(w, {rnd: ZERO}), pc)
                prods = [x for x in subterms(z) if x.op == "poly" and any(y is rate for y in subterms(x))]
                ok = any(same_under(subst(x, {rate: num(1)}), T, pc) for x in prods)
                ctx.ob("modification", ok, ctx.at(f), "without randomisation, %s modifications are made when %s, which does not follow the fixed rate and the tenure" % (str(z)[:150], nm), key=nm + "2")


def iterations(ctx):
    N, f, E, A, modes = base(ctx)
    i0, io = N.s("iteration_max"), N.o("tabu_search.iteration_max")
    v = R.state_value(E, i0)
    rate = N.o("tabu_search.iteration_increase_rate")
    on = N.o("tabu_search.is_enabled_automatic_iteration_adjustment")
    same = eq(N.r("number_of_iterations"), i0)
    table(ctx, f, v, chain_rows([("automatic iteration adjustment is off", not_(on), i0), ("the last search did not use up its iterations", not_(same), i0)]), modes, "the iteration limit", "iterations")
    for nm, c, src in (("after an update of the global incumbent", A.G, N.r("last_local_augmented_incumbent_update_iteration")), ("without an update of the global incumbent", not_(A.G), i0)):
        pc = and_(modes, on, same, c)
        w = under(v, pc)
        prod = mul(src, rate)
        up = [x for x in subterms(w) if x.op == "trunc" and contains(x, lambda y: y is prod) and contains(x, lambda y: y.op == "call" and y.a[0].split("::")[-1] == "ceil")]
        ctx.need(w.op in ("max", "min", "ite", "fld", "n", "poly", "trunc"), "iteration limit %s" % str(w)[:100])
        ok = len(up) == 1
        if ok:
            ref = mm("max", N.o("tabu_search.initial_tabu_tenure"), mm("min", io, up[0]))
            ok = same_under(w, ref, pc)
        ctx.ob("iterations", ok, ctx.at(f), "%s the iteration limit becomes %s, which is not the scaled limit kept between the tenure and the option's limit" % (nm, str(w)[:200]), key=nm, sample="%s: %s" % (nm, str(w)[:150]))
    p = R.state_value(E, N.s("pruning_rate_threshold"))
    table(ctx, f, p, [("automatic iteration adjustment is off", not_(on), N.s("pruning_rate_threshold"))], modes, "the pruning threshold", "pruning")
    for nm, c in (("with the limit unchanged", and_(on, not_(same))),):
        fl = eq(i0, io)
        table(ctx, f, p, [(nm + " and full", and_(c, fl), N.o("tabu_search.pruning_rate_threshold")), (nm + " and reduced", and_(c, not_(fl)), num(1))], modes, "the pruning threshold", "pruning")
    # with the limit changed: the same decision on the new limit
    for k in (A.G, not_(A.G)):
        pc = and_(modes, on, same, k)
        w, q = under(v, pc), under(p, pc)
        fl = eq(w, io)
        ok = same_under(q, N.o("tabu_search.pruning_rate_threshold"), and_(pc, fl)) and same_under(q, num(1), and_(pc, not_(fl)))
        ctx.ob("pruning", ok, ctx.at(f), "with a new iteration limit the pruning threshold becomes %s" % str(q)[:200], key="new%s" % (k is A.G))


def relaxing_rate(ctx):
    N, f, E, A, modes = base(ctx)
    r0, ro = N.s("penalty_coefficient_relaxing_rate"), N.o("penalty.penalty_coefficient_relaxing_rate")
    v = R.state_value(E, r0)
    mem = N.cls("solver::Memory")
    narrow = and_(lt(N.s("current_primal_intensity_before_relaxation"), N.fld(N.mem, mem, "m_primal_intensity")), lt(N.s("current_dual_intensity_before_relaxation"), N.fld(N.mem, mem, "m_dual_intensity")))
    over = lt(mm("max", N.s("employing_local_solution_count_after_relaxation"), N.s("employing_global_solution_count_after_relaxation")), N.s("employing_previous_solution_count_after_relaxation"))
    root = [x for x in subterms(v) if x.op == "call" and x.a[0].split("::")[-1] == "sqrt"]
    root = root[0] if root else mk("call", "sqrt", None, (r0,))
    inc = N.o("penalty.penalty_coefficient_relaxing_rate_increase_rate")
    brk = N.o("penalty.is_enabled_outer_stagnation_breaker")
    for name, cond, start, relax, fo in R.cases(A):
        if not relax:
            table(ctx, f, v, [(name, cond, r0)], modes, "the relaxing rate", "relaxing-rate")
            continue
        rows = chain_rows([
            (name + ", breaker off", not_(brk), r0),
            (name + ", stagnation without diversification", and_(A.outer, narrow), mm("max", N.o("penalty.penalty_coefficient_relaxing_rate_min"), mul(r0, N.o("penalty.penalty_coefficient_relaxing_rate_decrease_rate")))),
            (name + ", feasible incumbent updated", A.Fi, ro),
            (name + ", over-relaxed", over, mm("min", N.o("penalty.penalty_coefficient_relaxing_rate_max"), root)),
            (name + ", otherwise", TRUE, add(r0, mul(inc, sub(ro, r0))))])
        table(ctx, f, v, [(n, and_(cond, c), x) for n, c, x in rows], modes, "the relaxing rate", "relaxing-rate")
    ctx.ob("relaxing-rate", root.a[2] == (r0,), ctx.at(f), "an over-relaxed rate is raised to the root of %s" % (root.a[2],), key="root")
    w = [e for e in writes(E) if e.t is N.s("penalty_coefficient_tightening_rate")]
    ctx.ob("relaxing-rate", not w, ctx.at(f, w[0] if w else None), "the outer loop changes the tightening rate", key="tight")


def screening(ctx):
    N, f, E, A, modes = base(ctx)
    m0 = N.s("improvability_screening_mode")
    v = R.state_value(E, m0)
    auto = eq(N.o("neighborhood.improvability_screening_mode"), R.enum(MODE + "Automatic"))
    st = [x for e in E.effects for x in subterms(e.pc) if x.op == "enum" and x.a[0].endswith("::NO_MOVE")]
    nomove = eq(N.r("termination_status"), st[0]) if st else eq(N.r("termination_status"), mk("enum", "printemps::solver::tabu_search::core::TabuSearchCoreTerminationStatus::NO_MOVE"))
    S, I, G = (R.enum(MODE + x) for x in ("Soft", "Intensive", "Aggressive"))
    even = eq(mk("op%", N.s("relaxation_count"), num(2)), ZERO)
    rows = chain_rows([
        ("the screening mode is fixed by the option", not_(auto), m0),
        ("the last search ran out of moves", nomove, S),
        ("the global incumbent was updated", A.G, I),
        ("few neighbours were permissible", N.r("is_few_permissible_neighborhood"), S),
        ("a new feasible solution was found", N.r("is_found_new_feasible_solution"), S),
        ("stagnation, even relaxation", and_(A.outer, even), I),
        ("no new feasible solution", TRUE, G)])
    for name, c, ref in rows:
        pc = and_(modes, c)
        w = under(v, pc)
        ctx.ob("screening", w is ref, ctx.at(f), "%s: the improvability screening mode becomes %s instead of %s" % (name, str(w)[:200], ref), key=name, sample="%s: %s" % (name, ref))


def neighborhoods(ctx):
    N, f, E, A, modes = base(ctx)
    used = eq(N.r("number_of_iterations"), N.o("tabu_search.iteration_max"))
    nb = [x for e in writes(E) for x in subterms(e.t) if fname(x) == "m_neighborhood"]
    ctx.need(nb, "the neighborhood")
    nb = nb[0]
    ncls = N.cls("neighborhood::Neighborhood")
    for k in NEIGH:
        g = N.fld(nb, ncls, "m_" + k)
        w = [e for e in writes(E) if fname(e.t) == "m_is_enabled" and e.t.a[0] is g]
        opt = N.o("neighborhood.is_enabled_%s_move" % k)
        if not w:
            ctx.ob("special", False, ctx.at(f), "the %s neighborhood is never switched by the outer loop" % k, key=k)
            continue
        t = w[0].t
        v = R.state_value(E, t)
        ms = {x for x in subterms(v) if str(x) == str(g) + ".m_moves.size()"}
        ctx.need(len(ms) <= 1, "size of the move list of " + k)
        full = lt(ZERO, ms.pop()) if ms else TRUE
        rows = [("the option does not ask for it", not_(opt), t), ("the global incumbent was updated", and_(opt, A.G), FALSE),
                ("the last search was cut short", and_(opt, not_(A.G), not_(used)), t),
                ("the search stagnates", and_(opt, not_(A.G), used, full), TRUE),
                ("it has no moves", and_(opt, not_(A.G), used, not_(full)), t)]
        for name, c, ref in rows:
            pc = and_(modes, c)
            ok = safe_implies(and_(pc, v), ref) and safe_implies(and_(pc, ref), v)
            ctx.ob("special", ok, ctx.at(f, w[-1]), "%s: the %s neighborhood is enabled iff %s" % (name, k, str(under(v, pc))[:200]), key=k + name, sample="%s, %s: %s" % (k, name, str(ref)[-60:]))
    # chain moves are forgotten with a new global incumbent and kept within the capacity
    ch = N.fld(nb, ncls, "m_chain")
    cap = N.o("neighborhood.chain_move_capacity")
    def cl(n):
        return [e for e in E.effects if e.kind == "call" and str(e.v).endswith("ChainMoveGenerator::" + n) and e.t is ch]
    c = cl("clear_moves")
    if not c:
        raise Broken("chain moves are not cleared by that name")
    ctx.ob("chain", safe_equiv(and_(modes, or_(*[e.pc for e in c])), and_(modes, A.G, N.o("neighborhood.is_enabled_chain_move"))), ctx.at(f, c[0]), "chain moves are not cleared exactly when the global incumbent was updated: %s" % str(c[0].pc)[:200], key="clear")
    r = cl("reduce_moves")
    if not r:
        raise Broken("chain moves are not reduced by that name")
    for e in r:
        ctx.ob("chain", e.args and e.args[0] is cap, ctx.at(f, e), "chain moves are reduced to %s, not to the capacity" % (e.args,), key="cap")
    sz = [x for e in r for x in subterms(e.pc) if str(x).endswith(".m_chain.m_moves.size()")]
    if sz:
        th = [e.pc for e in E.effects if e.kind == "throw" and contains(e.pc, lambda y: fname(y) == "chain_move_reduce_mode")]
        pc = and_(modes, lt(cap, sz[0]))
        ctx.ob("chain", safe_implies(pc, or_(*[e.pc for e in r], *th)), ctx.at(f, r[0]), "chain moves above the capacity are not always reduced: %s" % str(r[0].pc)[:200], key="over")


def threads(ctx):
    N, f, E, A, modes = base(ctx)
    for k in ("update", "evaluation"):
        en, n = "is_enabled_move_%s_parallelization" % k, "number_of_threads_move_" + k
        on, auto = N.o("parallel." + en), N.o("parallel.is_enabled_automatic_move_%s_parallelization" % k)
        okn = tail_value(E, N.s(n), not_(and_(on, auto)))
        oke = tail_value(E, N.s(en), not_(and_(on, auto)))
        ctx.ob("threads", okn is N.o("parallel." + n) or okn is N.s(n), ctx.at(f), "with a fixed degree of parallelism, the number of threads for move %s becomes %s" % (k, str(okn)[:200]), key=n)
        ctx.ob("threads", oke is on or oke is N.s(en), ctx.at(f), "with a fixed degree of parallelism, parallel move %s is switched to %s" % (k, str(oke)[:200]), key=en)
        a = tail_value(E, N.s(n), and_(on, auto))
        ctx.ob("threads", any(fname(x) == "parallelization_controller_move_" + k for x in subterms(a)), ctx.at(f), "the automatic number of threads for move %s becomes %s" % (k, str(a)[:200]), key=n + "a")


def tail_value(E, t, pc):
    """value of t after the last loop-free writes that hold under pc"""
    v = t
    for e in order(writes(E)):
        if e.t is t:
            if safe_implies(e.pc, pc):
                v = e.v
            elif safe_sat(and_(e.pc, pc)):
                v = under(e.v, pc)
    return v


CREATE = {"parallel.is_enabled_move_update_parallelization": None, "parallel.number_of_threads_move_update": None, "parallel.is_enabled_move_evaluation_parallelization": None,
          "parallel.number_of_threads_move_evaluation": None, "neighborhood.improvability_screening_mode": None, "tabu_search.iteration_max": None,
          "tabu_search.time_offset": "total_elapsed_time", "tabu_search.number_of_initial_modification": None, "tabu_search.initial_tabu_tenure": None,
          "tabu_search.pruning_rate_threshold": None}


def path_of(t, root):
    p = []
    while t is not root and t.op == "fld":
        p.append(t.a[1].split("::")[-1])
        t = t.a[0]
    return ".".join(reversed(p)) if t is root else None


def create(ctx):
    N = R.Names(ctx)
    f = ctx.fn1(SM + "create_option", 0)
    E = ctx.run(f)
    rets = [e for e in E.effects if e.kind == "ret"]
    ctx.need(len(rets) == 1, "one returned option")
    loc = rets[0].v
    ini = [e.v for e in E.effects if e.kind == "init" and e.t is loc]
    src = ini[0] if ini else None
    asg = [e for e in writes(E) if e.t is loc]
    if asg:
        src = asg[-1].v
    ctx.ob("options", src is N.O, ctx.at(f), "the options of the next search are taken from %s, not from the user's" % str(src)[:100], key="base")
    got = {}
    for e in order(writes(E)):
        p = path_of(e.t, loc)
        if p:
            ctx.need(e.pc is TRUE, "conditional option value")
            got[p] = e
    for p, s in CREATE.items():
        ref = N.s(s or p.split(".")[-1])
        e = got.pop(p, None)
        ctx.ob("options", e is not None and e.v is ref, ctx.at(f, e), "the next search's option %s is %s, not the adapted value %s" % (p, e.v if e else "the user's", ref), key=p, sample="%s := %s" % (p, ref))
    for p, e in got.items():
        if p == "tabu_search.seed":
            ok = any(fname(x) == "iteration" or fname(x) == "seed" for x in subterms(e.v))
            ctx.ob("options", ok, ctx.at(f, e), "the random seed of the next search is %s" % e.v, key=p)
        else:
            ctx.ob("options", e.v is N.o(p) if p.count(".") == 1 and p.split(".")[0] in ("tabu_search", "penalty", "restart", "neighborhood", "parallel") else False, ctx.at(f, e), "the user's option %s is replaced by %s for the next search" % (p, e.v), key=p)


def start(ctx):
    N = R.Names(ctx)
    f = ctx.fn1(SM + "setup", 3)
    E = ctx.run(f)
    o = mk("sym", "$2")
    for p in ("tabu_search.initial_tabu_tenure", "tabu_search.pruning_rate_threshold", "tabu_search.iteration_max", "penalty.penalty_coefficient_relaxing_rate", "penalty.penalty_coefficient_tightening_rate",
              "parallel.is_enabled_move_update_parallelization", "parallel.is_enabled_move_evaluation_parallelization", "parallel.number_of_threads_move_update", "parallel.number_of_threads_move_evaluation"):
        n = p.split(".")[-1]
        v = R.state_value(E, N.s(n))
        ref = subst(N.o(p), {N.O: o})
        k = p.split("_")[-1] if n.startswith("number_of_threads") else None
        pc = TRUE
        if k:
            pc = not_(and_(subst(N.o("parallel.is_enabled_move_%s_parallelization" % k), {N.O: o}), subst(N.o("parallel.is_enabled_automatic_move_%s_parallelization" % k), {N.O: o})))
        ctx.ob("initial", same_under(v, ref, pc), ctx.at(f), "the first search starts with %s = %s, not with the option's value" % (n, str(v)[:150]), key=n, sample="%s := option.%s" % (n, p))
    v = R.state_value(E, N.s("improvability_screening_mode"))
    om = subst(N.o("neighborhood.improvability_screening_mode"), {N.O: o})
    au = eq(om, R.enum(MODE + "Automatic"))
    ctx.ob("initial", under(v, not_(au)) is om, ctx.at(f), "the first search's screening mode is %s although the option fixes it" % str(under(v, not_(au)))[:150], key="mode")
    w = under(v, au)
    ctx.ob("initial", w is R.enum(MODE + "Intensive"), ctx.at(f), "with automatic screening the first search uses mode %s" % str(w)[:150], key="mode2")
    v = R.state_value(E, N.s("number_of_initial_modification"))
    ini = [e for e in E.effects if e.kind == "call" and str(e.v).endswith(SM + "initialize")]
    ctx.ob("initial", v is ZERO or (v is N.s("number_of_initial_modification") and bool(ini)), ctx.at(f), "the first search modifies its start %s times" % v, key="mod")
    v = R.state_value(E, N.O)
    ctx.ob("initial", v is o, ctx.at(f), "the outer loop works with options %s" % v, key="opt")


def run(ctx):
    ctx.rule("every search parameter left by TabuSearchControllerStateManager::update, in every case of the adaptation rules, has the value the options allow; setup and create_option carry option values over field by field")
    for s in (tenure, modification, iterations, relaxing_rate, screening, neighborhoods, threads, create, start):
        ctx.section(s)
