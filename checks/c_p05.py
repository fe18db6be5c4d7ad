"""P05: every search loop obeys its time, iteration and target limits."""
from common import *

HELP = ("next_iteration", "next_total_iteration", "reset_iteration", "reset_total_iteration", "set_elapsed_time", "set_termination_status", "state", "set_total_elapsed_time", "clock")
CORES = {"TabuSearchCore": ("tabu_search", "iteration", True), "LocalSearchCore": ("local_search", "iteration", True),
         "LagrangeDualCore": ("lagrange_dual", "iteration", True), "PDLPCore": ("pdlp", "total_iteration", False)}


def cb(g):
    n = g["n"].split("::")[-1]
    return True if n.startswith("satisfy_") or n in HELP else None


def option(t, *path):
    """is t an option field m_option.<path>?"""
    for p in reversed(path):
        if t.op != "fld" or fname(t) != p:
            return False
        t = t.a[0]
    return fname(t) == "m_option"


def find(E, pred, what):
    for e in E.effects:
        for t in (e.pc, e.v if isinstance(e.v, T) else None):
            if t is None:
                continue
            for s in subterms(t):
                if s.op == "fld" and pred(s):
                    return s
    raise Broken("no use of %s" % what)


def status(e):
    return e.v.a[0].split("::")[-1] if e.v.op == "enum" else None


def main_loop(E):
    """the outermost while-loop: (domain, effects inside)"""
    doms = {}
    for e in E.effects:
        if e.loops and e.loops[0].op == "whl":
            doms.setdefault(e.loops[0], []).append(e)
    if len(doms) != 1:
        raise Broken("%d main loops" % len(doms))
    return next(iter(doms.items()))


def common_part(ctx, name, counter, elapsed, tests, f, E):
    """tests: {label: condition builder}"""
    dom, effs = main_loop(E)
    exits = [e for e in effs if e.loops == (dom,) and e.kind in ("break", "loopexit")]
    exits += [e for e in effs if e.kind in ("ret",)]
    first_exit = min(e.seq for e in exits) if exits else 0
    # the clock is read in every iteration, before the tests
    now = [e for e in effs if e.kind == "write" and fname(e.t) == elapsed and e.loops == (dom,) and e.pc is TRUE and e.seq < first_exit]
    ctx.ob("clock", bool(now) and mentions(now[0].v, "omp_get_wtime()") and mentions(now[0].v, "m_start_time"), ctx.at(f), "%s: the elapsed time is not re-read from the clock at the start of every iteration" % name)
    if not now:
        raise Broken("no clock reading in %s" % name)
    left = or_(*[e.pc for e in exits]) if exits else FALSE
    goals = {}
    for label, cond in tests.items():
        c = cond(now[0].v)
        goals[label] = c
        ctx.ob("leaves-on-" + label, safe_implies(c, left), ctx.at(f), "%s: the loop can go on although its %s limit is met" % (name, label), sample="%s: %s => leaves" % (name, c))
    # the tests precede the work of an iteration: nothing but the tests happens when a limit is met
    return dom, effs, exits, left, goals


def progress(ctx, name, counter, f, E, dom, effs, exits, left):
    nxt = [e for e in effs if e.kind == "write" and fname(e.t) == counter and e.loops == (dom,)]
    other = [e for e in effs if e.kind == "write" and fname(e.t) == counter and e.loops != (dom,)]
    ok = bool(nxt) and not other and all(e.v is add(e.t, ONE) for e in nxt)
    ctx.ob("counts", ok and safe_implies(not_(left), or_(*[e.pc for e in nxt])), ctx.at(f), "%s: an iteration can pass without advancing %s by one" % (name, counter))
    rs = [e for e in writes(E, counter) if not e.loops and e.v is ZERO and e.pc is TRUE]
    ctx.ob("starts-at-zero", bool(rs) and all(e.seq > rs[0].seq for e in effs), ctx.at(f), "%s: %s is not reset before the loop" % (name, counter))


def core(ctx, cls):
    opt, counter, has_target = CORES[cls]
    f = ctx.fn1(cls + "::run", 0)
    E = ctx.run(f, cb=cb)
    it = None
    for e in E.effects:
        if e.kind == "write" and fname(e.t) == counter:
            it = e.t
    ctx.need(it is not None, "%s counter" % cls)
    O = lambda *p: find(E, lambda s: option(s, *p), "option " + ".".join(p))
    base = find(E, lambda s: option(s, opt), "options of " + opt)
    OPT = base.a[0]
    OP = base.a[1].rsplit("::", 1)[0] + "::"

    def of(sec, fld_):
        for s in all_fields(ctx, sec, fld_):
            return mk("fld", mk("fld", OPT, OP + sec), s)
        raise Broken("option %s.%s" % (sec, fld_))
    inc = find_incumbent(ctx)
    tests = {
        "own time": lambda el: lt(of(opt, "time_max"), el),
        "overall time": lambda el: lt(of("general", "time_max"), add(el, of(opt, "time_offset"))),
        "iteration": lambda el: le(of(opt, "iteration_max"), it),
    }
    if has_target:
        tests["target"] = lambda el: le(mk("fld", mk("fld", mk("fld", THIS, gs(E)), "printemps::solver::GlobalState::incumbent_holder"), inc), of("general", "target_objective_value"))
    dom, effs, exits, left, goals = common_part(ctx, cls, counter, "elapsed_time", tests, f, E)
    progress(ctx, cls, counter, f, E, dom, effs, exits, left)
    # statuses
    own = {"TIME_OVER": or_(goals["own time"], goals["overall time"]), "ITERATION_OVER": goals["iteration"]}
    if has_target:
        own["REACH_TARGET"] = goals["target"]
    ws = [e for e in effs if e.kind == "write" and fname(e.t) == "termination_status"]
    st_out = [e for e in writes(E, "termination_status") if not e.loops]
    for e in ws:
        s = status(e)
        if s in own:
            ctx.ob("status-truthful", safe_implies(e.pc, own[s]), ctx.at(f, e), "%s: status %s is set although that limit is not met" % (cls, s), sample="%s %s" % (cls, s))
    got = {status(e) for e in ws}
    for s in own:
        ctx.ob("status-used", s in got, ctx.at(f), "%s: no iteration ends with status %s" % (cls, s))
    for e in exits:
        # some status is written on every way out, and the last one written belongs to this way out
        prev = [w for w in ws if w.seq < e.seq and w.loops == (dom,)]
        here = [w for w in prev if safe_sat(and_(w.pc, e.pc))]
        cover = or_(*[w.pc for w in here]) if here else FALSE
        ctx.ob("status-on-exit", safe_implies(e.pc, cover), ctx.at(f, e), "%s: the loop can be left without a termination status" % cls)
    for s, c in own.items():
        # among the exits, the first limit met decides; the status of an exit where only this limit is met is its own
        only = and_(c, *[not_(d) for k, d in own.items() if k != s])
        wrong = [w for w in ws if status(w) in own and status(w) != s and safe_sat(and_(w.pc, only))]
        ctx.ob("status-own", not wrong, ctx.at(f), "%s: %s is reported when only the limit of %s is met" % (cls, status(wrong[0]) if wrong else "", s))
        mine = [w for w in ws if status(w) == s]
        cover = or_(*[w.pc for w in mine]) if mine else FALSE
        ctx.ob("status-own", safe_implies(only, cover), ctx.at(f), "%s: meeting only the limit of %s does not set that status" % (cls, s))
    # OPTIMAL is only claimed on grounds: closed gap, or nothing left to improve at a feasible state, or LP tolerances
    for e in ws:
        if status(e) != "OPTIMAL":
            continue
        if cls == "PDLPCore":
            ok = all(safe_implies(e.pc, le(x, of("pdlp", "tolerance"))) for x in pdlp_quantities(E))
        else:
            gap = [x for x in subterms(e.pc) if x.op == "abs" and has_field(x, "m_dual_bound") and has_field(x, "m_feasible_incumbent_objective")]
            feas = [x for x in subterms(e.pc) if fname(x) == "m_current_is_feasible"]
            nm = [x for x in subterms(e.pc) if fname(x) == "number_of_moves"]
            g = or_(*([lt(gap[0], num(Fraction(1, 10000)))] if gap else []), *([and_(feas[0], le(nm[0], ZERO))] if feas and nm else []))
            ok = safe_implies(e.pc, g)
        ctx.ob("optimal-grounds", ok, ctx.at(f, e), "%s: OPTIMAL is claimed without a closed gap or a feasible state without moves" % cls)


def pdlp_quantities(E):
    out = {}
    for e in E.effects:
        for s in subterms(e.pc):
            if s.op == "fld":
                n = fname(s)
                if n == "relative_violation_norm":
                    out[(fname(s.a[0]), n)] = s
                elif n == "relative_gap":
                    out[n] = s
    if len(out) != 3:
        raise Broken("PDLP quantities: %s" % list(out))
    return list(out.values())


def all_fields(ctx, sec, name):
    """qualified field names of the option section"""
    cls = "printemps::option::%sOption" % "".join(p.capitalize() for p in sec.split("_"))
    cls = {"printemps::option::PdlpOption": "printemps::option::PDLPOption"}.get(cls, cls)
    return [cls + "::" + name]


def find_incumbent(ctx):
    g = ctx.fn1("IncumbentHolder::feasible_incumbent_objective", 0)
    r = ctx.run(g).ret
    ctx.ob("target-quantity", r is mk("fld", THIS, "printemps::solution::IncumbentHolder::m_feasible_incumbent_objective"), ctx.at(g), "feasible_incumbent_objective() returns %s" % r)
    return "printemps::solution::IncumbentHolder::m_feasible_incumbent_objective"


def gs(E):
    for e in E.effects:
        for t in (e.pc, e.t, e.v):
            if isinstance(t, T):
                for s in subterms(t):
                    if fname(s) == "m_global_state_ptr":
                        return s.a[1]
    return "?::m_global_state_ptr"


def controller(ctx):
    cls = "TabuSearchController"
    f = ctx.fn1(cls + "::run", 0)
    E = ctx.run(f, cb=cb)
    it = None
    for e in E.effects:
        if e.kind == "write" and fname(e.t) == "iteration" and e.loops:
            it = e.t
    ctx.need(it is not None, "controller iteration counter")
    base = find(E, lambda s: option(s, "general"), "general options")
    of = lambda n: mk("fld", base, "printemps::option::GeneralOption::" + n)
    inc = find_incumbent(ctx)
    tests = {"overall time": lambda el: lt(of("time_max"), el), "iteration": lambda el: le(of("iteration_max"), it),
             "target": lambda el: le(mk("fld", mk("fld", mk("fld", THIS, gs(E)), "printemps::solver::GlobalState::incumbent_holder"), inc), of("target_objective_value"))}
    dom, effs, exits, left, goals = common_part(ctx, cls, "iteration", "total_elapsed_time", tests, f, E)
    progress(ctx, cls, "iteration", f, E, dom, effs, exits, left)
    # a limit that is not met does not end the loop: every exit is one of the limits or a proven optimum
    opt = [x for e in exits for x in subterms(e.pc) if x.op == "eq" and mentions(x, "TerminationStatus::OPTIMAL")]
    grounds = or_(*goals.values(), *opt[:1])
    for e in exits:
        ctx.ob("exit-grounds", safe_implies(e.pc, grounds), ctx.at(f, e), "%s: the loop ends although no limit is met and no optimum was reported" % cls)
    # no search is started once a limit is met
    runs = [e for e in effs if e.kind == "call" and e.v.endswith("TabuSearchCore::run")]
    ctx.ob("no-work-after-limit", bool(runs) and all(not safe_sat(and_(e.pc, or_(*goals.values()))) for e in runs), ctx.at(f), "%s: a tabu search is started although a limit is met" % cls)


def offsets(ctx):
    """time already spent before a stage is handed to it"""
    for cls, opt in (("PDLPController", "pdlp"), ("LocalSearchController", "local_search"), ("LagrangeDualController", "lagrange_dual")):
        f = ctx.fn1(cls + "::run", 0)
        E = ctx.run(f, cb=lambda g: True if g["n"].endswith("TimeKeeper::clock") else None)
        ws = [e for e in writes(E, "time_offset")]
        runs = [e for e in E.effects if e.kind == "call" and e.v.endswith("Core::run")]
        ctx.need(runs, "core run in " + cls)
        good = [e for e in ws if mentions(e.v, "omp_get_wtime()") and has_field(e.v, "m_time_keeper") and fname(e.t.a[0]) == opt]
        ctx.ob("time-offset", all(any(safe_implies(r.pc, w.pc) and w.seq < r.seq for w in good) for r in runs), ctx.at(f), "%s does not hand the time already spent to the %s core" % (cls, opt))
        # the core gets that option object
        ct = [e for e in E.effects if e.kind == "ctor" and e.v and "Core" in str(e.v)]
        for e in ct:
            pass
    f = ctx.fn1("TabuSearchControllerStateManager::create_option", 0)
    E = ctx.run(f)
    r = E.ret
    ws = [e for e in writes(E, "time_offset")]
    ctx.ob("time-offset", bool(ws) and ws[-1].pc is TRUE and fname(ws[-1].v) == "total_elapsed_time", ctx.at(f), "the tabu search option does not carry the time already spent")
    g = ctx.fn1("TimeKeeper::clock", 0)
    E = ctx.run(g, cb=lambda g: True)
    T_ = "printemps::utility::TimeKeeper::"
    want = sub(mk("call", "omp_get_wtime", None, ()), mk("fld", THIS, T_ + "m_start_time"))
    ctx.ob("clock-value", E.ret is not None and mentions(E.ret, "omp_get_wtime()") and sub(E.ret, want) is ZERO or show(E.ret) == show(want), ctx.at(g), "TimeKeeper::clock() is %s" % E.ret)
    g = ctx.fn1("TimeKeeper::set_start_time", 0)
    E = ctx.run(g, cb=lambda g: True)
    ws = {fname(e.t): e.v for e in writes(E) if e.pc is TRUE}
    ctx.ob("clock-value", "m_start_time" in ws and show(ws["m_start_time"]) == "omp_get_wtime()" and ws.get("m_is_started") is TRUE, ctx.at(g), "TimeKeeper::set_start_time does not start at the current time")
    for g in ctx.P.fn.values():
        if g.get("cls") == "printemps::utility::TimeKeeper" and is_baseline(ctx.P, g) and not g.get("dflt"):
            n = g["n"].split("::")[-1]
            if n in ("set_start_time", "initialize", "(ctor)"):
                continue
            for e in writes(ctx.run(g), "m_start_time"):
                ctx.ob("clock-value", False, ctx.at(g, e), "TimeKeeper::%s moves the start of the measurement" % n)
    # the core's own clock is started before its loop
    for cls in CORES:
        f = ctx.fn1(cls + "::run", 0)
        E = ctx.run(f, cb=cb)
        st = [e for e in E.effects if not e.loops and e.pc is TRUE and ((e.kind == "call" and e.v.endswith("TimeKeeper::set_start_time")) or (e.kind == "write" and fname(e.t) == "m_start_time" and mentions(e.v, "omp_get_wtime()")))]
        loop = [e.seq for e in E.effects if e.loops and e.loops[0].op == "whl"]
        ctx.ob("core-clock-started", bool(st) and bool(loop) and st[0].seq < min(loop), ctx.at(f), "%s does not start its clock before its loop" % cls)
        res = [e for e in E.effects if e.loops and e.kind == "write" and fname(e.t) == "m_start_time"] + [e for e in E.effects if e.loops and e.kind == "call" and e.v.endswith("TimeKeeper::set_start_time")]
        ctx.ob("core-clock-started", not res, ctx.at(f), "%s restarts its clock inside the loop" % cls)
    # the solver's clock
    f = ctx.fn1("Solver::preprocess", 0)
    E = ctx.run(f)
    st = [e for e in E.effects if e.kind == "call" and e.v.endswith("TimeKeeper::set_start_time")] + [e for e in writes(E, "m_start_time")]
    isst = [x for e in st for x in subterms(e.pc) if mentions(x, "is_started")]
    ok = bool(st) and all(not safe_sat(and_(e.pc, started(e))) for e in st if started(e) is not None)
    cov = or_(*[e.pc for e in st]) if st else FALSE
    s0 = next((started(e) for e in st if started(e) is not None), None)
    ok = ok and (safe_implies(not_(s0), cov) if s0 is not None else False)
    ctx.ob("solver-clock", ok, ctx.at(f), "the solver's clock is not started exactly when it has not been started yet")


def started(e):
    for x in subterms(e.pc):
        if fname(x) == "m_is_started" or (x.op == "call" and x.a[0].endswith("is_started")):
            return x
    return None


def run(ctx):
    ctx.rule("in every iteration of each main loop the elapsed time is re-read before the exit tests, and (limit met => loop left), (status written => that limit met), (only that limit met => that status), (not left => counter advanced by 1) hold as implications between path conditions")
    for c in CORES:
        ctx.section(core, c)
    ctx.section(controller)
    ctx.section(offsets)
