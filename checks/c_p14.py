"""P14: the returned result describes the returned solution."""
from common import *

SOL = "printemps::solver::"
MOD = "printemps::model::Model::"


def text(t):
    return show(t)


def field_map(ctx, rule, f, E, want, root, skip=()):
    """every field in want receives exactly that value, unconditionally"""
    for n, w in want.items():
        ws = [e for e in writes(E, n) if root(e.t)]
        if any(x.op in ("loc", "phi", "loopval", "unk") for e in ws for x in subterms(unloc(E, e.v))):
            raise Broken("%s: value of %s" % (short(f["n"]), n))
        bad = [e for e in ws if text(unloc(E, e.v)) not in (w if isinstance(w, tuple) else (w,))]
        ctx.ob(rule, not bad, ctx.at(f, bad[0]) if bad else ctx.at(f), "%s: %s receives %s" % (short(f["n"]), n, bad[0].v if bad else ""), sample="%s := %s" % (n, w))
        good = [e for e in ws if e not in bad]
        cov = or_(*[e.pc for e in good]) if good else FALSE
        if not bad:
            ctx.ob(rule, cov is TRUE or safe_implies(TRUE, cov), ctx.at(f), "%s: %s is not always set" % (short(f["n"]), n))


def postprocess(ctx):
    f = ctx.fn1("Solver::postprocess", 0)
    E = ctx.run(f)
    ih = "this.m_global_state.incumbent_holder."
    imp = [e for e in calls(E, "Model::import_solution")]
    ctx.need(imp, "import of the best solution in postprocess")
    want = "m_is_found_feasible_solution"
    for e in imp:
        for pc, v in leaves(unloc(E, e.args[0]), e.pc):
            if any(x.op in ("loc", "phi", "loopval", "unk") for x in subterms(v)):
                raise Broken("solution loaded into the model: %s" % v)
            flag = [x for x in subterms(pc) if fname(x) == want]
            ok = False
            if flag and text(flag[0]) == ih + want:
                if safe_implies(pc, flag[0]):
                    ok = text(v) == ih + "m_feasible_incumbent_solution"
                elif safe_implies(pc, not_(flag[0])):
                    ok = text(v) == ih + "m_global_augmented_incumbent_solution"
            ctx.ob("best-solution", ok, ctx.at(f, e), "when %s the result is built from %s" % (pc, v), sample="%s -> %s" % (pc, v))
    ctx.ob("best-solution", safe_implies(TRUE, or_(*[e.pc for e in imp])), ctx.at(f), "no solution is loaded into the model before the result is built")
    last = max(e.seq for e in imp)
    up = [e for e in calls(E, "Model::update") if not e.args and e.pc is TRUE and e.seq > last]
    ctx.ob("state-refreshed", bool(up), ctx.at(f), "the model is not re-evaluated after the best solution was loaded")
    useq = up[0].seq if up else 0
    ex = [e for e in calls(E, "Model::export_named_solution")]
    ctx.ob("state-refreshed", bool(ex) and all(e.seq > useq for e in ex), ctx.at(f), "the reported solution is exported before the model is re-evaluated")
    st = [e for e in E.effects if e.kind in ("call", "ctor") and isinstance(e.v, str) and e.v.endswith("Status::(ctor)")] + [e for e in calls(E, "Status::setup")]
    ctx.ob("state-refreshed", bool(st) and all(e.seq > useq for e in st), ctx.at(f), "the status is taken before the model is re-evaluated")
    late = [e for e in E.effects if e.seq > useq and e.kind == "call" and e.t is not None and fname(e.t) == "m_model_ptr" and callee(e) in ("import_solution", "set_value", "fix_variables", "unfix_variables")]
    ctx.ob("state-refreshed", not late, ctx.at(f), "the model is changed again after it was evaluated for the result")
    ck = [e for e in calls(E, "TimeKeeper::clock")]
    ctx.ob("elapsed-final", bool(ck) and bool(st) and min(e.seq for e in ck if e.pc is TRUE) < min(e.seq for e in st), ctx.at(f), "the elapsed time is not read before the status is built")
    r = E.ret
    ok = r is not None and r.op == "ctor" and r.a[0].endswith("solver::Result") and len(r.a[1]) == 3
    if not ok:
        raise Broken("shape of the returned result")
    a = r.a[1]
    ctx.ob("result-parts", a[0].op == "call" and a[0].a[0].endswith("export_named_solution") and fname(a[0].a[1]) == "m_model_ptr", ctx.at(f), "the result's solution is %s" % a[0])
    ctx.ob("result-parts", text(a[2]) == "this.m_global_state.feasible_solution_archive", ctx.at(f), "the result's archive is %s" % a[2])
    g = [h for h in ctx.fns("Result::(ctor)") if len(h["p"]) == 3]
    ctx.need(g, "Result constructor")
    field_map(ctx, "result-fields", g[0], ctx.run(g[0]), {"solution": "$0", "status": "$1", "feasible_solution_archive": "$2"}, lambda t: t.a[0] is THIS)


STATUS = {
    "model_ptr": "$0.m_model_ptr", "option": "$0.m_option_original", "is_found_feasible_solution": "$0.m_model_ptr.m_current_is_feasible",
    "start_date_time": "$0.m_start_date_time", "finish_date_time": "$0.m_finish_date_time", "name": "$0.m_model_ptr.m_name",
    "number_of_variables": "$0.m_model_ptr.m_variable_reference.variable_ptrs.size()", "number_of_constraints": "$0.m_model_ptr.m_constraint_reference.constraint_ptrs.size()",
    "elapsed_time": "$0.m_time_keeper.m_elapsed_time",
    "number_of_local_search_iterations": "$0.m_local_search_controller.m_result.core.number_of_iterations",
    "number_of_lagrange_dual_iterations": "$0.m_lagrange_dual_controller.m_result.core.number_of_iterations",
    "number_of_tabu_search_iterations": "$0.m_tabu_search_controller.m_result.state.total_number_of_inner_iterations",
    "number_of_tabu_search_loops": "$0.m_tabu_search_controller.m_result.state.iteration",
    "number_of_evaluated_moves": "$0.m_tabu_search_controller.m_result.state.total_number_of_evaluated_moves",
    "averaged_inner_iteration_speed": "$0.m_tabu_search_controller.m_result.state.averaged_inner_iteration_speed",
    "averaged_move_evaluation_speed": "$0.m_tabu_search_controller.m_result.state.averaged_move_evaluation_speed",
    "averaged_number_of_threads_move_update": "$0.m_tabu_search_controller.m_result.state.averaged_number_of_threads_move_update",
    "averaged_number_of_threads_move_evaluation": "$0.m_tabu_search_controller.m_result.state.averaged_number_of_threads_move_evaluation",
    "penalty_coefficients": "$0.export_named_penalty_coefficients()", "update_counts": "$0.export_named_update_counts()", "violation_counts": "$0.export_named_violation_counts()"}


def status(ctx):
    f = ctx.fn1("Status::setup", 1)
    E = ctx.run(f)
    field_map(ctx, "status-fields", f, E, STATUS, lambda t: t.a[0] is THIS)
    g = [h for h in ctx.fns("Status::(ctor)") if len(h["p"]) == 1 and "Solver" in h["p"][0]["t"]]
    ctx.need(g, "Status constructor")
    E = ctx.run(g[0])
    ctx.ob("status-fields", any(e.args and e.args[0] is mk("sym", "$0") and e.pc is TRUE for e in calls(E, "Status::setup")) or any(True for e in writes(E, "is_found_feasible_solution")), ctx.at(g[0]), "the status constructor does not set the status up")


def results(ctx):
    for cls, want in (("LocalSearchCoreResult", {"total_update_status": "$0.total_update_status", "number_of_iterations": "$0.iteration", "elapsed_time": "$0.elapsed_time", "termination_status": "$0.termination_status"}),
                      ("LagrangeDualCoreResult", {"total_update_status": "$0.total_update_status", "number_of_iterations": "$0.iteration", "elapsed_time": "$0.elapsed_time", "termination_status": "$0.termination_status",
                                                  "lagrangian": ("$0.lagrangian", "$0.lagrangian_incumbent"), "primal": "$0.primal_incumbent", "dual": "$0.dual_incumbent"}),
                      ("PDLPCoreResult", {"number_of_iterations": "$0.total_iteration", "elapsed_time": "$0.elapsed_time", "termination_status": "$0.termination_status", "primal": "$0.primal", "dual": "$0.dual"}),
                      ("LocalSearchControllerResult", {"core": "$0"}), ("LagrangeDualControllerResult", {"core": "$0"}), ("PDLPControllerResult", {"core": "$0"}),
                      ("TabuSearchControllerResult", {"state": "$0", "update_status": "$0.total_update_status"})):
        g = [h for h in ctx.fns(cls + "::(ctor)") if h["p"] and not h.get("dflt") and not h["p"][0]["t"].rstrip("& *").endswith(cls)]
        ctx.need(g, cls + " constructor")
        field_map(ctx, "stage-results", g[0], ctx.run(g[0]), want, lambda t: t.a[0] is THIS)
    f = ctx.fn1("TabuSearchCoreResult::setup", 2)
    E = ctx.run(f)
    for e in writes(E):
        if e.t.op == "fld" and e.t.a[0] is THIS and e.v.op == "fld" and e.v.a[0] is mk("sym", "$0"):
            a, b = fname(e.t), fname(e.v)
            alias = {"number_of_iterations": ("iteration",)}
            ctx.ob("stage-results", a == b or b in alias.get(a, ()), ctx.at(f, e), "tabu search result field %s receives the state's %s" % (a, b))


VT = ("binary", "integer", "selection", "dependent_binary", "dependent_integer")


def acceptable(key, v, E):
    """does value v carry the quantity named key?"""
    names = {key, "m_" + key, key + "_ptrs", key + "_variable_ptrs", key + "_constraint_ptrs"}
    if key == "all":
        names = {"variable_ptrs", "constraint_ptrs"}
    if key == "version":
        return "VERSION" in text(v)
    top = v
    if top.op == "call" and top.a[2] and len(top.a[2]) >= 1:
        top = top.a[2][-1] if top.a[1] is None or "operator()" in top.a[0] or top.a[0].split("::")[-1].startswith("create_json") else top.a[1]
    if fname(v) in names or fname(top) in names:
        return True
    # size of, or count over, the named list
    fs = {fname(x) for x in subterms(v) if x.op == "fld"}
    return bool(fs & names) and (v.op in ("size", "call", "count", "sum") or "size()" in text(v))


def status_json(ctx):
    n = 0
    for name in ("add_summary_json", "add_option_json", "add_variable_detail", "add_variable_type_detail", "add_constraint_detail", "add_constraint_type_detail", "add_nonzero_detail", "write_json_by_name", "write_json_by_array"):
        f = ctx.fn1("Status::" + name)
        E = ctx.run(f)
        keys = set()
        free = False
        for e in E.effects:
            if e.kind != "call" or callee(e) != "emplace_back" or not isinstance(e.v, str) or "JsonObject" not in e.v or len(e.args) != 2:
                continue
            k = e.args[0]
            v = e.args[1]
            if k.op != "s":
                # the pair of labels and the pair of sources run in the same order
                if "original" in text(k) and "presolved" in text(k):
                    order_ok = text(k).index("original") < text(k).index("presolved")
                    srcs = [x for g in E.effects if g.args for a in g.args if isinstance(a, T) for x in subterms(a) if x.op == "at" and "reference" in text(x)]
                    for x in srcs[:1] + srcs[-1:]:
                        t = text(x)
                        if "_original" in t:
                            import re
                            parts = re.findall(r"m_\w*reference\w*", t)
                            if len(parts) >= 2:
                                ctx.ob("json-label", order_ok == parts[0].endswith("_original") and parts[0].replace("_original", "") == parts[1].replace("_original", ""), ctx.at(f, e), "%s: the labels original/presolved do not match their sources %s" % (name, parts[:2]))
                else:
                    free = True
                continue
            key = k.a[0]
            keys.add(key)
            if e.pc is not TRUE and not safe_implies(TRUE, e.pc):
                ctx.ob("json-key", False, ctx.at(f, e), "%s: key %s is only written in some cases" % (name, key))
            if v.op == "loc" or key in ("density", "nonzero"):
                continue
            if key.endswith("_nonzero_mean"):
                lst = {"variable": "mutable_variable_ptrs", "constraint": "enabled_constraint_ptrs"}[key.split("_")[0]]
                d = [x for x in subterms(v) if x.op == "div"]
                ctx.ob("json-key", bool(d) and has_field(d[0].a[1], lst), ctx.at(f, e), "%s: %s is not the mean over its own list" % (name, key))
                continue
            if key.endswith("_min") or key.endswith("_max"):
                if fname(v) in ("m_min", "m_max") and v.a[0].op == "loc":
                    ups = [u for u in calls(E, "Range::update") if u.t is v.a[0]]
                    lst = {"variable": "variable_ptrs", "constraint": "constraint_ptrs"}[key.split("_")[0]]
                    ok = fname(v) == "m_" + key[-3:] and bool(ups) and all(lst in text(u.loops[-1]) for u in ups)
                    ctx.ob("json-key", ok, ctx.at(f, e), "%s: key %s carries %s" % (name, key, v))
                continue
            ctx.ob("json-key", acceptable(key, v, E), ctx.at(f, e), "%s: key %s carries %s" % (name, key, v), sample="%s: %s" % (key, v))
            n += 1
        need = {"add_summary_json": {k for k in STATUS if k not in ("model_ptr", "option", "penalty_coefficients", "update_counts", "violation_counts")},
                "add_option_json": {"option"}, "add_variable_detail": {"all", "fixed", "mutable"}, "add_variable_type_detail": set(VT), "add_constraint_detail": {"all", "enabled", "disabled"},
                "write_json_by_name": {"penalty_coefficients", "update_counts", "violation_counts"}, "write_json_by_array": {"penalty_coefficients", "update_counts", "violation_counts"}}.get(name, set())
        miss = need - keys
        if miss and free:
            raise Broken("%s writes its keys in an unrecognised way" % name)
        for k in sorted(miss):
            ctx.ob("json-complete", False, ctx.at(f), "%s does not write %s" % (name, k))
        ctx.count("json-complete", len(need) - len(miss))
        if name.startswith("write_json"):
            wr = [e for e in calls(E, "write_json_object") if e.pc is TRUE]
            ctx.ob("json-written", bool(wr) and wr[-1].args[1] is mk("sym", "$0"), ctx.at(f), "%s does not write its file" % name)
            for p in ("add_summary_json", "add_variable_detail", "add_variable_type_detail", "add_constraint_detail", "add_constraint_type_detail", "add_nonzero_detail", "add_option_json"):
                c = [e for e in calls(E, "Status::" + p) if e.pc is TRUE]
                ctx.ob("json-complete", bool(c) and bool(wr) and c[0].seq < wr[-1].seq, ctx.at(f), "%s omits %s" % (name, p))


VIOL = "sum(idx(0, this.m_constraint_proxies.size()), 0, sum(idx(0, this.m_constraint_proxies[#0].m_constraints.size()), 1, this.m_constraint_proxies[#0].m_constraints[#1].m_violation_value))"


def exports(ctx):
    for name, pre in (("export_named_solution", "m_"), ("export_dense_solution", ""), ("export_sparse_solution", "")):
        f = ctx.fn1("Model::" + name, 0)
        E = ctx.run(f)
        r = E.ret
        ctx.need(r is not None and r.op == "loc", "returned object of " + name)
        want = {pre + "objective": "this.m_objective.m_value", pre + "is_feasible": "this.m_current_is_feasible"}
        if pre:
            want.update({"m_name": "this.m_name", "m_number_of_variables": "this.m_variable_reference.variable_ptrs.size()", "m_number_of_constraints": "this.m_constraint_reference.constraint_ptrs.size()"})
        field_map(ctx, "export-scalars", f, E, want, lambda t: t.a[0] is r)
        ws = [e for e in writes(E, pre + "total_violation") if e.t.a[0] is r]
        ctx.need(ws, "total violation in " + name)
        v = ws[-1].v
        ok = v.op == "sum" and has_field(v, "m_violation_value") and text(v) == VIOL
        if not ok and not (v.op == "sum" or v.op == "n"):
            raise Broken("total violation of %s is %s" % (name, v))
        ctx.ob("export-violation", ok and ws[-1].pc is TRUE and not ws[-1].loops, ctx.at(f, ws[-1]), "%s: the total violation is %s" % (name, v))
        if name == "export_sparse_solution":
            vs = [e for e in writes(E) if e.t.op in ("at", "idx", "mapat") and "variables" in text(e.t)]
            ctx.ob("export-values", len(vs) == 1 and fname(vs[0].v) == "m_value" and len(vs[0].loops) == 2 and "m_extension.name" in text(vs[0].t) and text(vs[0].v.a[0]) in text(vs[0].t)
                   and safe_implies(not_(eq(vs[0].v, ZERO)), vs[0].pc), ctx.at(f), "a nonzero variable is not exported under its own name")
            continue
        for part, src, exp in (("variable_value_proxies", "m_variable_proxies", "export_values_and_names"), ("expression_value_proxies", "m_expression_proxies", "export_values_and_names"),
                               ("constraint_value_proxies", "m_constraint_proxies", "export_values_and_names"), ("violation_value_proxies", "m_constraint_proxies", "export_violations_and_names")):
            if pre:
                es = [(e, e.v) for e in writes(E) if e.t.op in ("at", "idx", "mapat") and fname(e.t.a[0]) == pre + part]
            else:
                es = [(e, e.args[0]) for e in E.effects if e.kind == "call" and callee(e) in ("push_back", "emplace_back") and fname(e.t) == part]
            ctx.need(es, "%s in %s" % (part, name))
            for e, v in es:
                ok = v.op == "call" and v.a[0].endswith("::" + exp) and len(e.loops) == 1 and text(v.a[1]) == "this.%s[#0]" % src and e.pc is TRUE
                if pre:
                    nm = src.replace("proxies", "names")
                    ok = ok and text(e.t.a[1]) == "this.%s[#0]" % nm
                ctx.ob("export-values", ok, ctx.at(f, e), "%s: %s receives %s" % (name, part, v), sample="%s <- %s" % (part, v))
    for cls, fns in (("VariableProxy", {"export_values_and_names": "m_value"}), ("ExpressionProxy", {"export_values_and_names": "m_value"}),
                     ("ConstraintProxy", {"export_values_and_names": "m_constraint_value", "export_violations_and_names": "m_violation_value"})):
        for fn, q in fns.items():
            f = ctx.fn1(cls + "::" + fn, 0)
            E = ctx.run(f, inline=("flat_indexed_values", "flat_indexed_names"))
            vals = [e for e in writes(E) if e.loops and fname(e.v) == q or (e.loops and "values" in text(e.t))]
            nms = [e for e in writes(E) if e.loops and "names" in text(e.t)]
            if not vals or not nms:
                raise Broken("shape of %s::%s" % (cls, fn))
            for e in vals:
                ok = fname(e.v) == q and e.pc is TRUE and e.v.a[0].op == "at" and e.t.op == "at" and e.v.a[0].a[1] is e.t.a[1]
                ctx.ob("proxy-export", ok, ctx.at(f, e), "%s::%s writes %s to %s" % (cls, fn, e.v, e.t))
            for e in nms:
                ok = fname(e.v) in ("name", "m_name") and e.pc is TRUE and e.t.op == "at" and any(x.op == "at" and x.a[1] is e.t.a[1] for x in subterms(e.v))
                ctx.ob("proxy-export", ok, ctx.at(f, e), "%s::%s names the element %s as %s" % (cls, fn, e.t, e.v))


def named_params(ctx):
    for fn, names, src in (("export_named_penalty_coefficients", "m_constraint_names", "export_local_penalty_coefficient_proxies"), ("export_named_update_counts", "m_variable_names", "export_update_count_proxies"),
                           ("export_named_violation_counts", "m_constraint_names", "export_violation_count_proxies")):
        f = ctx.fn1("Solver::" + fn, 0)
        E = ctx.run(f)
        ws = [e for e in writes(E) if e.loops]
        ctx.need(ws, fn)
        for e in ws:
            ok = e.pc is TRUE and names in text(e.t) and "#0" in text(e.t) and src in text(e.v) and text(e.v).endswith("[#0]")
            ctx.ob("named-parameters", ok, ctx.at(f, e), "%s stores %s under %s" % (fn, e.v, e.t))
        p = {"m_constraint_names": "m_constraint_proxies", "m_variable_names": "m_variable_proxies"}[names]
        ctx.ob("named-parameters", all(p in text(e.loops[0]) or names in text(e.loops[0]) for e in ws), ctx.at(f), "%s does not run over all of its proxies" % fn)
    for fn, q in (("export_update_count_proxies", "update_count"), ("export_violation_count_proxies", "violation_count"), ("export_local_penalty_coefficient_proxies", "local_penalty_coefficient")):
        f = ctx.fn1("Model::" + fn, 0)
        E = ctx.run(f, inline=("flat_indexed_values", "flat_indexed_names"))
        ws = [e for e in writes(E) if len(e.loops) == 2 and "values" in text(e.t)]
        ctx.need(ws, fn)
        for e in ws:
            ok = q in text(e.v) and e.pc is TRUE and e.t.op == "at" and any(x.op == "at" and x.a[1] is e.t.a[1] for x in subterms(e.v))
            ctx.ob("named-parameters", ok, ctx.at(f, e), "%s exports %s" % (fn, e.v))


def pipeline(ctx):
    f = ctx.fn1("Solver::solve", 0)
    E = ctx.run(f)
    def seq(n):
        r = [e for e in calls(E, "Solver::" + n)]
        return r
    pre, tabu, post = seq("preprocess"), seq("run_tabu_search"), seq("postprocess")
    ok = len(pre) == 1 and len(tabu) == 1 and len(post) == 1 and all(e.pc is TRUE for e in pre + tabu + post) and pre[0].seq < tabu[0].seq < post[0].seq
    ctx.ob("pipeline", ok, ctx.at(f), "solve() does not run preprocess, tabu search and postprocess once each, in this order")
    ctx.ob("pipeline", E.ret is not None and E.ret.op == "call" and E.ret.a[0].endswith("postprocess"), ctx.at(f), "solve() returns %s" % E.ret)
    for g in ctx.fns("solver::solve"):
        E = ctx.run(g)
        r = E.ret
        ok = r is not None and r.op == "call" and r.a[0].split("::")[-1] == "solve"
        ctx.ob("pipeline", ok, ctx.at(g), "%s returns %s" % (short(g["n"]), r))


def run(ctx):
    ctx.rule("postprocess loads ite(feasible found, feasible incumbent, penalised incumbent), re-evaluates the model and only then exports solution and status; every field of result, status, JSON summary and exported solution receives exactly the quantity it is named after")
    for s in (postprocess, status, results, status_json, exports, named_params, pipeline):
        ctx.section(s)
