"""P19: optional solver stages and preprocessing steps run exactly when enabled and applicable."""
from common import *

STAGES = [("pdlp", "m_pdlp_controller", "PDLPController", "PDLPCore"),
          ("lagrange_dual", "m_lagrange_dual_controller", "LagrangeDualController", "LagrangeDualCore"),
          ("local_search", "m_local_search_controller", "LocalSearchController", "LocalSearchCore"),
          ("tabu_search", "m_tabu_search_controller", "TabuSearchController", "TabuSearchCore")]


def path(t):
    """['m_option', 'pdlp', 'is_enabled'] of a field chain on this"""
    out = []
    while t is not None and hasattr(t, "op") and t.op == "fld":
        out.insert(0, fname(t))
        t = t.a[0]
    return out


def atom(pool, *names):
    """the boolean field atom option...<names> as it occurs in the guards"""
    for t in pool:
        for x in subterms(t):
            if path(x)[-len(names):] == list(names):
                return x
    return None


def pipeline(ctx):
    f = ctx.fn1("solver::Solver::solve", 0)
    E = ctx.run(f, inline=("run_pdlp", "run_lagrange_dual", "run_local_search", "run_tabu_search"), opaque=("Solver::preprocess", "Solver::postprocess"))
    runs, setups = {}, {}
    for e in E.effects:
        if e.kind != "call" or e.t is None:
            continue
        n = fname(e.t)
        if callee(e) == "run":
            runs.setdefault(n, []).append(e)
        if callee(e) == "setup":
            setups.setdefault(n, []).append(e)
    pre = [e for e in calls(E, "preprocess")]
    post = [e for e in calls(E, "postprocess")]
    ctx.need(pre and post, "preprocess/postprocess calls of solve")
    pre, post = pre[0], post[-1]
    ctx.ob("order", pre.pc is TRUE and post.pc is TRUE and len(post.loops) == 0, ctx.at(f, pre), "preprocessing or postprocessing is conditional")
    last = pre.seq
    for opt, fld, cls, core in STAGES:
        rs = [e for e in runs.get(fld, [])]
        if not rs:
            ctx.ob("stage-runs", False, ctx.at(f), "the %s stage is never run" % opt)
            continue
        ctx.ob("stage-once", len(rs) == 1 and not rs[0].loops, ctx.at(f, rs[0]), "the %s stage may run more than once" % opt)
        r = rs[0]
        if opt == "tabu_search":
            ctx.ob("stage-runs", r.pc is TRUE, ctx.at(f, r), "the main search is run only when %s" % r.pc)
        else:
            a = [x for x in subterms(r.pc) if path(x)[-3:] == ["m_option", opt, "is_enabled"]]
            ctx.ob("stage-runs", bool(a) and r.pc is a[0], ctx.at(f, r), "the %s stage runs when %s instead of exactly when its option enables it" % (opt, r.pc), sample="%s runs iff %s" % (cls, r.pc))
        ctx.ob("order", last < r.seq < post.seq, ctx.at(f, r), "the %s stage runs out of order" % opt)
        last = r.seq
        ss = [e for e in setups.get(fld, []) if e.seq < r.seq and safe_implies(r.pc, e.pc)]
        if not ss:
            ctx.ob("stage-input", False, ctx.at(f, r), "the %s stage runs without being given its model, state and options" % opt)
            continue
        s = ss[-1]
        want = ["m_model_ptr", "m_global_state", "m_current_solution", "m_time_keeper", "m_option"]
        got = [(path(x.a[0]) if x.op in ("addr", "op&") else path(x)) for x in s.args] if s.args else []
        got = [g[-1] if g else "?" for g in got]
        for a in s.args:      # the hand-over writes are forwarded into the argument
            if all(fname(v) == "m_current_solution" or (has_field(v, "m_global_augmented_incumbent_solution") and "to_sparse" in str(v)) for _, v in leaves(a)):
                got.append("m_current_solution")
        for w in want:
            ctx.ob("stage-input", w in got, ctx.at(f, s), "the %s stage is not given the solver's %s" % (opt, w[2:]), sample="%s.setup(... %s ...)" % (cls, w))
        if opt == "pdlp":
            continue
        nxt = [runs[q][0].seq for _, q, _, _ in STAGES if q in runs and runs[q][0].seq > r.seq] + [post.seq]
        ws = [e for e in writes(E, "m_current_solution") if r.seq < e.seq < min(nxt)]
        ok = bool(ws) and safe_implies(r.pc, ws[-1].pc) and has_field(ws[-1].v, "m_global_augmented_incumbent_solution") and "to_sparse" in str(ws[-1].v)
        ctx.ob("hand-over", ok, ctx.at(f, ws[-1] if ws else r), "after the %s stage the next stage does not continue from the best solution found so far" % opt, sample="m_current_solution := best penalised incumbent after %s" % opt)
    for e in writes(E, "m_current_solution"):
        ctx.ob("hand-over", has_field(e.v, "m_global_augmented_incumbent_solution"), ctx.at(f, e), "the current solution becomes %s" % e.v)
    for e in E.effects:
        if e.kind == "write" and path(e.t)[:1] == ["m_option"]:
            ctx.ob("options-kept", False, ctx.at(f, e), "the pipeline changes the user's option %s" % ".".join(path(e.t)))


def first_state(ctx):
    """the state handed to the first stage is the initial solution"""
    f = ctx.fn1("solver::Solver::preprocess", 0)
    E = ctx.run(f, opaque=("Model::setup", "Model::update", "export_dense_solution", "evaluate"))
    ws = list(writes(E, "m_current_solution"))
    ups = [e for e in E.effects if e.kind == "call" and e.v.endswith("Model::update")]
    exp = [e for e in calls(E, "export_dense_solution")]
    norm = not_(or_(*[e.pc for e in E.effects if e.kind == "throw"]))
    ctx.ob("initial-state", bool(ws) and safe_implies(norm, ws[-1].pc) and "export_" in str(ws[-1].v), ctx.at(f, ws[-1] if ws else None), "the first stage does not start from the initial solution")
    ctx.ob("initial-state", bool(ups) and bool(exp) and ups[0].seq < exp[0].seq, ctx.at(f, exp[0] if exp else None), "the initial solution is taken before the model is evaluated")
    st = [e for e in E.effects if e.kind == "call" and e.v.endswith("Model::setup")]
    ctx.ob("initial-state", bool(st) and safe_implies(norm, st[0].pc), ctx.at(f, st[0] if st else None), "the model is set up only under a condition")
    if st and st[0].args:
        ctx.ob("initial-state", path(st[0].args[0])[-1:] == ["m_option"], ctx.at(f, st[0]), "the model is set up with %s instead of the options" % st[0].args[0])
    ib = [e for e in E.effects if e.kind == "call" and callee(e) == "try_update_incumbent"]
    ctx.ob("initial-state", bool(ib) and "export_dense_solution" in str(ib[0].args[0]), ctx.at(f, ib[0] if ib else None), "the initial solution is not offered as the first best solution")


INL = ("satisfy_not_applicable_skip_condition", "satisfy_time_over_skip_condition", "satisfy_reach_target_skip_condition", "satisfy_solved_skip_condition", "satisfy_nonsense_skip_condition",
       "update_feasible_solution_archive", "update_incumbent_solution_archive_and_search_tree", "number_of_selection_variables", "number_of_dependent_binary_variables", "number_of_dependent_integer_variables")


def cmp_atoms(pc):
    return [x for x in subterms(pc) if x.op in ("lt0", "eq0", "eq")]


def stage(ctx, opt, cls, core):
    f = ctx.fn1(cls + "::run", 0)
    E = ctx.run(f, inline=INL)
    rs = [e for e in E.effects if e.kind == "call" and e.v.endswith(core + "::run")]
    ctx.need(len(rs) >= 1, core + " is never run")
    pc = or_(*[e.pc for e in rs])
    ctx.ob("core-once", all(not e.loops for e in rs), ctx.at(f, rs[0]), "the %s core may run more than once" % opt)
    T = [x for x in subterms(pc) if path(x)[-3:] == ["m_option", "general", "time_max"]]
    now = None
    for x in subterms(pc):
        if x.op == "call" and x.a[0].endswith("clock") and fname(x.a[1]) == "m_time_keeper":
            now = x
    good = []      # under all of these, the stage must run
    if not T or now is None:
        ctx.ob("time-guard", False, ctx.at(f, rs[0]), "the %s stage starts although the time limit has been used up" % opt)
    else:
        over = lt(T[0], now)
        ctx.ob("time-guard", safe_implies(pc, not_(over)), ctx.at(f, rs[0]), "the %s stage can start although the elapsed time exceeds the time limit" % opt, sample="%s: %s" % (opt, not_(over)))
        good.append(lt(now, T[0]))
    if opt in ("lagrange_dual", "local_search"):
        O = [x for x in subterms(pc) if fname(x) == "m_feasible_incumbent_objective"]
        V = [x for x in subterms(pc) if path(x)[-3:] == ["m_option", "general", "target_objective_value"]]
        if not O or not V:
            ctx.ob("target-guard", False, ctx.at(f, rs[0]), "the %s stage starts although the target objective has been reached" % opt)
        else:
            ctx.ob("target-guard", safe_implies(pc, lt(V[0], O[0])), ctx.at(f, rs[0]), "the %s stage can start although the best feasible objective reaches the target" % opt, sample="%s: %s" % (opt, lt(V[0], O[0])))
            good.append(lt(V[0], O[0]))
    if opt == "lagrange_dual":
        for k, w in (("selection_variable_ptrs", "selection"), ("dependent_binary_variable_ptrs", "dependent binary"), ("dependent_integer_variable_ptrs", "dependent integer")):
            z = [x for x in subterms(pc) if x.op in ("eq", "eq0", "lt0") and has_field(x, k)]
            L = [y for x in z for y in subterms(x) if fname(y) == k]
            if not L:
                ctx.ob("applicable", False, ctx.at(f, rs[0]), "the Lagrange dual is run on a model with %s variables" % w)
                continue
            none = eq(size_of(L[0]), ZERO)
            ctx.ob("applicable", safe_implies(pc, none), ctx.at(f, rs[0]), "the Lagrange dual can be run on a model with %s variables" % w, sample="no %s variables" % w)
            good.append(none)
    if opt == "pdlp":
        L = [y for y in subterms(pc) if fname(y) == "mutable_variable_ptrs"]
        if not L:
            ctx.ob("applicable", False, ctx.at(f, rs[0]), "the LP stage is run on a model without free variables")
        else:
            ctx.ob("applicable", safe_implies(pc, not_(eq(size_of(L[0]), ZERO))), ctx.at(f, rs[0]), "the LP stage can be run on a model without free variables")
            good.append(not_(eq(size_of(L[0]), ZERO)))
        for k in ("number_of_columns", "number_of_rows"):
            L = [y for y in subterms(pc) if fname(y) == k]
            if not L:
                ctx.ob("applicable", False, ctx.at(f, rs[0]), "the LP stage is run on an LP whatever its %s" % k)
                continue
            ctx.ob("applicable", safe_implies(pc, lt(ZERO, L[0])), ctx.at(f, rs[0]), "the LP stage can be run on an empty LP (%s = 0)" % k)
            good.append(lt(num(1), L[0]))
    ctx.ob("not-skipped", safe_implies(and_(*good), pc), ctx.at(f, rs[0]), "the %s stage is skipped although it is enabled, applicable, in time and short of the target (it runs only when %s)" % (opt, pc), sample="%s runs under %s" % (opt, and_(*good)))
    # the core gets model, state, start solution and the options with nothing but the time offset changed
    r = rs[0]
    cargs = []
    for e in E.effects:
        if e.kind == "call" and e.seq < r.seq and (e.v.endswith(core + "::(ctor)") or e.v.endswith(core + "::setup")) and e.args:
            cargs = list(e.args)
    ctx.need(cargs, "arguments of " + core)
    names = [".".join(path(a)) if path(a) else str(a) for a in cargs]
    if opt != "pdlp":
        for w in ("m_model_ptr", "m_global_state_ptr", "m_initial_solution"):
            ctx.ob("core-input", any(n.split(".")[-1] == w for n in names), ctx.at(f, r), "the %s core is not given the controller's %s (gets %s)" % (opt, w[2:], names))
    else:
        ims = [e for e in E.effects if e.kind == "call" and e.v.endswith("Model::import_solution") and e.seq < r.seq and safe_implies(r.pc, e.pc)]
        ups = [e for e in E.effects if e.kind == "call" and e.v.endswith("Model::update") and e.seq < r.seq]
        exs = [e for e in E.effects if e.kind == "call" and callee(e) == "export_lp_instance"]
        ctx.ob("core-input", bool(ims) and fname(ims[-1].args[0]) == "m_initial_solution" and bool(ups) and bool(exs) and ims[-1].seq < ups[-1].seq < exs[0].seq, ctx.at(f, r), "the LP is not taken from the model at the current solution")
    ob = [a for a in cargs if (a.op == "loc") or path(a)[-1:] == ["m_option"]]
    ob = [a for a in ob if a.op == "fld" or any(e.kind == "init" and e.t is a and path(e.v)[-1:] == ["m_option"] for e in E.effects)]
    ctx.ob("core-options", bool(ob), ctx.at(f, r), "the %s core does not get the user's options" % opt)
    if ob:
        for e in E.effects:
            if e.kind == "write" and is_sub(e.t, ob[0]) and e.seq < r.seq:
                p = path(e.t)
                ctx.ob("core-options", p[-2:] == [opt, "time_offset"], ctx.at(f, e), "the %s core runs with the option %s changed to %s" % (opt, ".".join(p), e.v))
    # outcome
    res = [e for e in writes(E, "m_result") if e.seq > r.seq]
    if res:
        ctx.ob("outcome", safe_implies(pc, res[-1].pc) and "m_result" in str(res[-1].v) or "loc(" in str(res[-1].v), ctx.at(f, res[-1]), "the outcome of the %s stage is not kept" % opt)
    else:
        ctx.ob("outcome", False, ctx.at(f, r), "the outcome of the %s stage is not kept" % opt)
    if opt != "pdlp":
        ar = [e for e in E.effects if e.kind == "call" and callee(e) == "push" and fname(e.t) == "incumbent_solution_archive" and e.seq > r.seq]
        ok = False
        for e in ar:
            own = e.args[0]
            if fname(own) == "m_incumbent_solutions":
                # pushed whenever there is something to push
                ok = safe_implies(and_(pc, not_(eq(size_of(own), ZERO))), e.pc)
        ctx.ob("outcome", ok, ctx.at(f, ar[0] if ar else r), "the solutions found by the %s stage are not added to the shared record of best solutions" % opt, sample="incumbent_solution_archive.push(core incumbents)")
        tr = [e for e in E.effects if e.kind == "call" and callee(e) == "update" and fname(e.t) == "search_tree" and e.seq > r.seq]
        ctx.ob("outcome", bool(tr), ctx.at(f, r), "the %s stage does not update the search tree" % opt)
    if opt in ("pdlp", "lagrange_dual"):
        dual(ctx, f, E, opt, pc, r)


def dual(ctx, f, E, opt, pc, r):
    ws = [e for e in writes(E, "m_dual_bound") if e.seq > r.seq]
    if not ws:
        ctx.ob("dual-bound", False, ctx.at(f, r), "the dual bound computed by the %s stage is not recorded" % opt)
        return
    mi = [x for e in ws for x in subterms(e.pc) if fname(x) == "m_is_minimization"]
    ctx.need(mi, "direction test of the dual bound update")
    mi = mi[0]
    old = [x for e in ws for x in subterms(e.pc) if fname(x) == "m_dual_bound"]
    if not old:
        ctx.ob("dual-bound", False, ctx.at(f, ws[0]), "the %s stage replaces the dual bound without comparing it with the known one" % opt)
        return
    old = old[0]
    val = None
    for e in ws:
        for x in subterms(e.v):
            if fname(x) in ("lagrangian", "objective"):
                val = x
    ctx.need(val is not None, "dual value")
    if opt == "pdlp":
        ctx.ob("dual-bound", has_field(val, "dual") and not has_field(val, "primal"), ctx.at(f, ws[0]), "the LP stage records %s as dual bound" % val)
    else:
        ctx.ob("dual-bound", fname(val) == "lagrangian", ctx.at(f, ws[0]), "the Lagrange stage records %s as dual bound" % val)
    gate = TRUE
    if opt == "pdlp":
        a = [x for e in ws for x in subterms(e.pc) if x.op == "lt0" and has_field(x, "relative_violation_norm")]
        if a:
            vn = [x for x in subterms(a[0]) if fname(x) == "relative_violation_norm"][0]
            tol = [x for x in subterms(a[0]) if fname(x) == "tolerance"]
            ctx.ob("dual-bound", has_field(vn, "dual") and bool(tol) and a[0] is lt(vn, tol[0]), ctx.at(f, ws[0]), "the dual bound is taken when %s, not when the dual solution is feasible within the tolerance" % a[0], sample=str(a[0])[-120:])
            gate = a[0]
        ctx.ob("dual-bound", bool(a) and all(safe_implies(e.pc, a[0]) for e in ws), ctx.at(f, ws[0]), "the LP stage takes a dual bound from an infeasible dual solution")
    for e in ws:
        for p, v in leaves(e.v, e.pc):
            for m, want, better in ((mi, val, lt(old, val)), (not_(mi), neg(val), lt(neg(val), old))):
                q = and_(p, m)
                if q is FALSE or not safe_sat(q):
                    continue
                ctx.ob("dual-bound", v is want, ctx.at(f, e), "the dual bound is set to %s when %s" % (v, m), sample="dual bound := %s" % str(want)[-80:])
                ctx.ob("dual-bound", safe_implies(q, or_(better, eq(old, want))), ctx.at(f, e), "the %s stage replaces the dual bound by a weaker one" % opt)
    for m, better in ((mi, lt(old, val)), (not_(mi), lt(neg(val), old))):
        ctx.ob("dual-bound", safe_implies(and_(pc, gate, m, better), or_(*[e.pc for e in ws])), ctx.at(f, ws[0]), "a better dual bound found by the %s stage is not recorded" % opt)


def takes(ctx):
    """setup/constructors keep what they are given; cores start from the solution they are given"""
    for cls, n in (("AbstractSolverController", 5), ("PDLPController", 5), ("LocalSearchCore", 4), ("LagrangeDualCore", 4), ("TabuSearchCore", 4)):
        f = ctx.fn1(cls + "::setup", n)
        E = ctx.run(f)
        ws = {fname(e.t): e for e in order(writes(E))}
        par = {p["n"].strip("_").lower(): i for i, p in enumerate(f["p"])}
        for fld, key in (("m_model_ptr", "model"), ("m_global_state_ptr", "global_state"), ("m_option", "option"), ("m_time_keeper", "time_keeper")):
            idx = [i for k, i in par.items() if key in k]
            if not idx:
                continue
            e = ws.get(fld)
            ctx.ob("setup-keeps", e is not None and e.pc is TRUE and e.v.op == "sym" and e.v.a[0] == "$%d" % idx[0], ctx.at(f, e), "%s::setup does not keep the given %s" % (cls, key), sample="%s := argument" % fld)
        e = ws.get("m_initial_solution")
        if cls.endswith("Core"):
            im = [x for x in calls(E, "import_solution")]
            i = [k for n_, k in par.items() if "initial_solution" in n_]
            ok = e is not None and (("export_dense_solution" in str(e.v) and bool(im) and im[0].args[0].op == "sym" and im[0].args[0].a[0] == "$%d" % i[0] and im[0].seq < e.seq))
            ctx.ob("setup-keeps", ok, ctx.at(f, e), "%s does not start from the solution it is given" % cls)
        else:
            i = [k for n_, k in par.items() if "initial_solution" in n_]
            ctx.ob("setup-keeps", e is not None and e.v.op == "sym" and e.v.a[0] == "$%d" % i[0], ctx.at(f, e), "%s::setup does not keep the given start solution" % cls)
    for cls in ("LocalSearchCore", "LagrangeDualCore", "TabuSearchCore"):
        f = ctx.fn1(cls + "::preprocess", 0)
        E = ctx.run(f, opaque=("Model::import_solution", "Model::update", "StateManager::setup"))
        im = [x for x in calls(E, "import_solution")]
        up = [x for x in E.effects if x.kind == "call" and x.v.endswith("Model::update")]
        st = [x for x in E.effects if x.kind == "call" and x.v.endswith("StateManager::setup")]
        ok = bool(im) and fname(im[-1].args[0]) == "m_initial_solution" and im[-1].pc is TRUE and bool(up) and up[-1].pc is TRUE and up[-1].seq > im[-1].seq
        ctx.ob("core-start", ok, ctx.at(f, im[-1] if im else None), "%s does not evaluate the model at its start solution" % cls)
        ctx.ob("core-start", bool(st) and ok and st[0].seq > up[-1].seq, ctx.at(f, st[0] if st else None), "%s records its state before the model is evaluated at the start solution" % cls)
    f = ctx.fn1("TabuSearchController::run", 0)
    E = ctx.run(f, inline=("preprocess",), opaque=("TabuSearchControllerLogger::setup",))
    ini = [e for e in E.effects if e.kind == "write" and fname(e.t) == "current_solution" and not e.loops]
    ini += [e for e in E.effects if e.kind == "call" and callee(e) in ("set_current_solution",) and not e.loops]
    cs = [e for e in E.effects if e.kind == "call" and e.v.endswith("TabuSearchCore::(ctor)")]
    ok = bool(ini) and bool(cs) and has_field(ini[0].v if ini[0].kind == "write" else ini[0].args[0], "m_initial_solution")
    ctx.ob("core-start", ok, ctx.at(f, ini[0] if ini else None), "the tabu search does not start from the best solution of the earlier stages")
    if cs:
        ctx.ob("core-start", any(fname(a) == "current_solution" or has_field(a, "current_solution") or has_field(a, "m_initial_solution") for a in cs[0].args), ctx.at(f, cs[0]), "the tabu search core is not given the current solution")


STEPS = [("extract_implicit_equality_constraints", "is_enabled_extract_implicit_equality_constraints"),
         ("remove_redundant_set_constraints", "is_enabled_remove_redundant_set_constraints"),
         ("remove_redundant_set_variables", "is_enabled_remove_redundant_set_variables"),
         ("remove_duplicated_constraints", "is_enabled_remove_duplicated_constraints"),
         ("reduce_problem_size", None)]


def presolve(ctx):
    f = ctx.fn1("model::Model::setup", 2)
    E = ctx.run(f, inline=("is_enabled_extract_dependent",), opaque=("setup_structure", "set_is_preprocess") + tuple(s for s, _ in STEPS))
    pool = [e.pc for e in E.effects]
    on = atom(pool, "preprocess", "is_enabled_presolve")
    ctx.need(on is not None, "presolve option")
    found = {}
    for e in E.effects:
        if e.kind == "call" and "ProblemSizeReducer::" in e.v:
            found.setdefault(callee(e), []).append(e)
    structs = [e for e in calls(E, "setup_structure")]
    for step, opt in STEPS:
        es = found.get(step, [])
        o = atom(pool, "preprocess", opt) if opt else TRUE
        if not es:
            ctx.ob("presolve-step", False, ctx.at(f), "the presolve step %s is never run" % step)
            continue
        if o is None:
            ctx.ob("presolve-step", False, ctx.at(f, es[0]), "the presolve step %s ignores its option" % step)
            continue
        for e in es:
            ctx.ob("presolve-step", safe_implies(e.pc, and_(on, o)), ctx.at(f, e), "the presolve step %s can run although %s" % (step, "its option is off" if safe_implies(e.pc, on) else "presolve is off"), sample="%s only if %s" % (step, and_(on, o)))
        flat = [e for e in es if not e.loops]
        ctx.ob("presolve-step", bool(flat) and safe_implies(and_(on, o), or_(*[e.pc for e in flat])), ctx.at(f, es[0]), "the presolve step %s is skipped although it is enabled" % step)
    # dependents
    ex = [e for e in E.effects if e.kind == "call" and e.v.endswith("DependentVariableExtractor::extract")]
    kinds = ["exclusive_or", "exclusive_nor", "inverted_integers", "balanced_integers", "constant_sum_integers", "constant_difference_integers", "constant_ratio_integers", "intermediate"]
    if not ex:
        ctx.ob("presolve-step", False, ctx.at(f), "dependent variables are never extracted")
    else:
        g = ctx.fn1("PreprocessOption::is_enabled_extract_dependent", 0)
        R = ctx.run(g)
        need = []
        for k in kinds:
            a = [x for x in subterms(R.ret) if fname(x) == "is_enabled_extract_dependent_" + k] if R.ret is not None else []
            ctx.ob("extract-option", bool(a) and safe_implies(a[0], R.ret), ctx.at(g), "extraction of '%s' dependents is not attempted when only its option is on" % k, sample="%s => extraction attempted" % k)
            need += a[:1]
        ctx.ob("extract-option", bool(need) and safe_implies(R.ret, or_(*need)), ctx.at(g), "extraction of dependents is attempted although every such option is off")
        for e in ex:
            ctx.ob("presolve-step", safe_implies(e.pc, on), ctx.at(f, e), "dependent variables are extracted although presolve is off")
            rest = [x for x in conj(e.pc) if x is not on]
            ctx.ob("presolve-step", all(("is_enabled_extract_dependent" in str(x)) for x in rest), ctx.at(f, e), "extraction of dependent variables depends on %s" % rest)
            ctx.ob("presolve-step", bool(rest), ctx.at(f, e), "dependent variables are extracted although the extraction options are off")
    # selections
    sx = [e for e in E.effects if e.kind == "call" and e.v.endswith("SelectionExtractor::extract")]
    md = [x for t in pool for x in subterms(t) if x.op == "eq" and any(fname(y) == "selection_mode" for y in x.a) and "Off" in str(x)]
    if not sx:
        ctx.ob("selection-step", False, ctx.at(f), "selection constraints are never extracted")
    elif md:
        nv = [x for e in sx for x in subterms(e.pc) if x.op == "lt0"]
        ctx.ob("selection-step", all(safe_implies(e.pc, not_(md[0])) for e in sx), ctx.at(f, sx[0]), "selection constraints are extracted although the selection mode is off")
        ctx.ob("selection-step", all(path(e.args[0])[-2:] == ["neighborhood", "selection_mode"] for e in sx), ctx.at(f, sx[0]), "the extraction is given %s as its mode" % sx[0].args[0])
        extra = [c for c in conj(sx[0].pc) if c is not not_(md[0])]
        ctx.ob("selection-step", all(has_field(c, "variable_ptrs") or has_field(c, "m_variable_reference") or "number_of_variables" in str(c) for c in extra), ctx.at(f, sx[0]), "selection extraction depends on %s" % extra)
    # initial values
    for k in ("selection", "binary", "integer"):
        es = [e for e in E.effects if e.kind == "call" and callee(e) == "verify_and_correct_%s_variables_initial_values" % k]
        if not es:
            ctx.ob("initial-values", False, ctx.at(f), "the initial values of %s variables are never verified" % k)
            continue
        e = es[-1]
        ctx.ob("initial-values", e.pc is TRUE and path(e.args[0])[-2:] == ["preprocess", "is_enabled_initial_value_correction"], ctx.at(f, e), "correction of the initial values of %s variables is governed by %s" % (k, e.args[0]), sample="%s: correction iff its option" % k)
        lastx = max([x.seq for x in sx] + [x.seq for v in found.values() for x in v if callee(x) in dict(STEPS)] + [0])
        ctx.ob("initial-values", e.seq > lastx, ctx.at(f, e), "the initial values of %s variables are verified before the model takes its final form" % k)
    # parity systems
    gf = [e for e in E.effects if e.kind == "call" and e.v.endswith("GF2Solver::solve")]
    for e in gf:
        ctx.ob("presolve-step", safe_implies(e.pc, on), ctx.at(f, e), "parity constraints are solved although presolve is off")
    # penalty
    sh = [e for e in calls(E, "shrink_global_penalty_coefficient")]
    so = atom(pool, "penalty", "is_enabled_shrink_penalty_coefficient")
    if sh:
        ctx.ob("penalty-step", so is not None and all(safe_implies(e.pc, so) for e in sh), ctx.at(f, sh[0]), "the penalty coefficient is shrunk although its option is off")
    # extraction per kind
    h = ctx.fn1("DependentVariableExtractor::extract", 2)
    X = ctx.run(h)
    src = {}
    for e in X.effects:
        if e.kind == "call" and callee(e) in ("push_back", "emplace_back", "insert") and e.t is not None and e.t.op == "loc":
            fs = {fname(x) for a in e.args for x in subterms(a) if (fname(x) or "").endswith("_ptrs")}
            for n in fs:
                if n[:-5] in kinds:
                    src.setdefault(n[:-5], []).append(e)
    pool = [e.pc for e in X.effects]
    for k in kinds:
        o = atom(pool, "preprocess", "is_enabled_extract_dependent_" + k)
        es = src.get(k, [])
        if not es:
            ctx.ob("extract-kind", False, ctx.at(h), "'%s' constraints are never used for extraction" % k)
            continue
        ctx.ob("extract-kind", o is not None and all(safe_implies(e.pc, o) for e in es), ctx.at(h, es[0]), "'%s' constraints are used for extraction when %s instead of when their own option is on" % (k, es[0].pc), sample="%s constraints iff %s" % (k, o))
        others = [x for e in es for x in subterms(e.pc) if (fname(x) or "").startswith("is_enabled_") and x is not o and len(e.loops) < 3]
        ctx.ob("extract-kind", not others, ctx.at(h, es[0]), "extraction of '%s' depends on another option: %s" % (k, others[:1]))


MODES = {"Defined": "extract_by_defined_order", "Smaller": "extract_by_number_of_variables_order", "Larger": "extract_by_number_of_variables_order", "Independent": "extract_by_independent", "UserDefined": "extract_by_user_defined"}


def modes(ctx):
    f = ctx.fn1("SelectionExtractor::extract", 2)
    E = ctx.run(f, opaque=tuple(set(MODES.values())))
    atoms = {}
    for e in E.effects:
        for x in subterms(e.pc):
            if x.op in ("eq", "eq0") and "SelectionMode::" in str(x):
                atoms[str(x).split("SelectionMode::")[1].split("]")[0].split(")")[0].strip("} ").split(" ")[0]] = x
    ctx.need(len(atoms) >= 5, "selection modes %s" % sorted(atoms))
    for m, fn in MODES.items():
        a = atoms.get(m)
        ctx.need(a is not None, "selection mode " + m)
        world = and_(a, *[not_(b) for k, b in atoms.items() if k != m])
        es = [e for e in E.effects if e.kind == "call" and callee(e) in MODES.values() and safe_sat(and_(e.pc, world))]
        ok = len(es) == 1 and callee(es[0]) == fn and safe_implies(world, es[0].pc)
        if ok and fn == "extract_by_number_of_variables_order":
            ok = is_true(es[0].args[0]) if m == "Smaller" else is_false(es[0].args[0])
        ctx.ob("selection-mode", ok, ctx.at(f, es[0] if es else None), "selection mode %s runs %s" % (m, [callee(e) for e in es]), sample="%s -> %s" % (m, fn))
        th = [e for e in E.effects if e.kind == "throw" and safe_sat(and_(e.pc, world))]
        ctx.ob("selection-mode", not th, ctx.at(f, th[0] if th else None), "selection mode %s is rejected" % m)


def run(ctx):
    ctx.rule("each stage/step call's path condition equals (stage) or is implied by and implies (step) its own option's atom; stage controllers run their core exactly under 'in time, short of target, applicable'; argument and hand-over dataflow; dual-bound replacement table")
    ctx.section(pipeline)
    ctx.section(first_state)
    for opt, fld, cls, core in STAGES[:3]:
        ctx.section(stage, opt, cls, core)
    ctx.section(takes)
    ctx.section(presolve)
    ctx.section(modes)
