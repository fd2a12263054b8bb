"""MERGE: which rows are changed, and at most once"""
from sa.mir import mk, walk, unmut, short, show
from rules import prop
from rules._h import *

OPS = ("Copy", "Delete", "Update", "Insert", "Noop", "MatchedDelete", "MatchedUpdate", "NotMatchedBySourceDelete", "NotMatchedBySourceUpdate", "SourceMetric")
WRITTEN = {"Copy", "Update", "Insert", "MatchedUpdate", "NotMatchedBySourceUpdate"}
DELETED = {"Delete", "MatchedDelete", "NotMatchedBySourceDelete"}


# functions of the expansion that have a meaning of their own (what else is found there is part of its caller)
OWN = set("""
merge_name_key merge_names_equal collision_free_source_alias validate_merge_internal_columns build_default_merge_expansion append_presence_projection
can_fast_append_insert_only insert_only_insert_filter apply_generation_projection apply_delta_check_constraint_filter row_level_data_operation_expr
is_merge_metadata_column merge_source_expr merge_default_expr merge_insert_value align_merge_value build_insert_only_projection
build_insert_only_noop_projection build_source_metric_plan should_check_cardinality source_is_unique_on_merge_join_keys source_join_key_column_names
schema_implies_unique_for_columns map_key_cols_through_projection aggregate_groups_exactly_on_columns same_column_set_case_insensitive
combine_conjunction combine_disjunction or_pred first_matching_clause_predicates build_merge_projection build_rewrite_predicates combine_rewrite_preds
merge_target_field resolve_target_column rewrite_merge_columns normalize_target_column_names rewrite_clauses rewrite_not_matched_by_source
rewrite_not_matched_by_target recover_field_names all_placeholder_schema try_new new""".split())


def own(p):
    return "closure" not in p and name(short(p)) in OWN


def op_in(e):
    """the operation whose code an expression is"""
    e = unmut(e)
    vs = {x.a[1] for x in walk(e) if x.op == "adt" and x.a[0].split("::")[-1] == "RowLevelOperationType"}
    return next(iter(vs)) if len(vs) == 1 and not any(x.op in ("bin", "phi") for x in walk(e)) else None


def code_is(v):
    """assumption: the operation code compared is that of `v`"""
    def f(k):
        if k[0] == "c":
            a, b = op_in(k[1]), op_in(k[2])
            if (a is None) != (b is None):
                return frozenset("=" if (a or b) == v else "<>")
        return None
    return f


@prop("M01")
def operations(rep):
    db = rep.db("sail_logical_plan", "sail_delta_lake", "sail_iceberg", "sail_common_datafusion")
    rep.rule("operations", "every writer treats every kind of row operation as what it is: rows to write are written, rows to delete are not")
    n = 0
    for short_, table in (("merge_row_projection::merge_operation_writes_data", {"Insert", "MatchedUpdate", "NotMatchedBySourceUpdate"}),
                          ("merge_row_projection::merge_operation_writes_position_delete", {"MatchedDelete", "MatchedUpdate", "NotMatchedBySourceDelete", "NotMatchedBySourceUpdate"})):
        f = db.find(short_)
        if not rep.need(f, short_):
            continue
        for v in OPS:
            if v in ("Copy", "Update", "Delete"):
                continue        # (a merge-on-read write copies nothing; the plain kinds come from other commands)
            n += 1
            t = fn_truth(rep, db, f, [code_is(v)])
            rep.ob(f"{name(short_)}:{v}", t == {v in table}, f"for a {v} row {name(short_)} is {sorted(t)}", f.loc())
    f = db.find("DeltaWriterExec::metric_only_filter_mask")
    rep.need(f, "DeltaWriterExec::metric_only_filter_mask")
    gs = [g for g in inner_fns(db, f) if any(x for x in OPS)] if f else []
    hit = 0
    for g in gs:
        if fn_truth(rep, db, g, [code_is("Noop")]) != {True}:
            continue
        hit += 1
        for v in OPS:
            t = fn_truth(rep, db, g, [code_is(v)])
            rep.ob(f"metric_only:{v}", t == {v not in WRITTEN}, f"a {v} row is {'left out of' if True in t else 'kept in'} the data written", f.loc())
    rep.floor("Delta row filter", hit, 1)
    f = db.find("DeltaWriterExec::filter_metric_only_operation_rows")
    if rep.need(f, "filter_metric_only_operation_rows"):
        for e, st in ret_states(rep.analyse(db, f, skip=lambda p: "metric_only_filter_mask" in p, assume=[av(lambda e: unmut(e).op in ("ok", "call") and "metric_only_filter_mask" in str(e) and unmut(e).op == "ok", "+")]), "+"):
            rep.ob("metric_only:applied", has_call(e, "filter_record_batch"), "rows that are not to be written are kept", f.loc())
    f = db.find("merge::row_level_data_operation_expr")
    if rep.need(f, "row_level_data_operation_expr"):
        for e, st in rep.analyse(db, f).rets:
            vs = {x.a[1] for x in walk(e) if x.op == "adt" and x.a[0].split("::")[-1] == "RowLevelOperationType"}
            rep.ob("checked", vs == WRITTEN, f"constraints are checked for {sorted(vs)} rows", f.loc())
            rep.ob("checked:or", {name(c) for c in calls(e)} <= {"or", "eq", "lit", "col", "as_i32", "clone"}, "the rows constraints are checked for are restricted", f.loc())
    # counts of the commit
    f = db.find("MergeRowMetrics::add_operation_value")
    if rep.need(f, "MergeRowMetrics::add_operation_value"):
        table = {"Copy": {"copied"}, "Insert": {"inserted"}, "Update": {"updated"}, "Delete": {"deleted"}, "Noop": {"noop"}, "MatchedUpdate": {"updated", "matched_updated"},
                 "NotMatchedBySourceUpdate": {"updated", "not_matched_by_source_updated"}, "MatchedDelete": {"deleted", "matched_deleted"},
                 "NotMatchedBySourceDelete": {"deleted", "not_matched_by_source_deleted"}, "SourceMetric": {"source_metric"}}
        al = set().union(*table.values())
        for v in OPS:
            an = rep.analyse(db, f, assume=[code_is(v)], assign_fields=al, assign=lambda s: True)
            got = {last_field(s.dest) for s in an.sites if s.kind == "assign"}
            rep.ob(f"metrics:{v}", got == table[v], f"a {v} row is counted as {sorted(got)}", f.loc())
            for s in an.sites:
                if s.kind == "assign":
                    rep.ob(f"metrics:{v}:{last_field(s.dest)}", last_field(s.dest) in fields(s.expr), "a count is replaced", s.loc)
    rep.floor("operation tables", n, 12)



@prop("M01")
def cardinality(rep):
    db = rep.db("sail_logical_plan", "sail_physical_plan", "sail_delta_lake", "sail_iceberg")
    rep.rule("cardinality", "two source rows never change the same target row: matches are checked unless there is nothing a second match could change")
    f = db.find("merge::should_check_cardinality")
    if rep.need(f, "should_check_cardinality"):
        emp = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "is_empty"
        ln = lambda e: unmut(e).op in ("call", "len") and (unmut(e).op == "len" or name(short(unmut(e).a[0])) == "len")
        act, cond = is_field("action"), is_field("condition")
        for nm, a, want in (("one unconditional delete", [num(ln, 1), ab(emp, False), av(act, "Delete"), av(cond, "-")], {True, False}),
                            ("a conditional delete", [num(ln, 1), ab(emp, False), av(act, "Delete"), av(cond, "+")], {True}),
                            ("an update of all columns", [num(ln, 1), ab(emp, False), av(act, "UpdateAll"), av(cond, "-")], {True}),
                            ("an update", [num(ln, 1), ab(emp, False), av(act, "UpdateSet")], {True}),
                            ("several clauses", [num(ln, 2), ab(emp, False)], {True})):
            t = fn_truth(rep, db, f, a)
            rep.ob(f"needed:{nm}", bool(t) and t <= want, f"with {nm} for matched rows the number of matches is not checked", f.loc())
        # a row that is matched twice and rewritten unchanged is written twice
        t = fn_truth(rep, db, f, [num(ln, 0), ab(emp, True)])
        rep.ob("needed:no matched clause", f.nargs > 1 or t == {True}, "without a clause for matched rows the number of matches is not checked; a matched row of a file that is rewritten is written once per match", f.loc())
    f = db.find("merge::schema_implies_unique_for_columns")
    if rep.need(f, "schema_implies_unique_for_columns"):
        for e, st in rep.analyse(db, f, skip=own).rets:
            if unmut(e).op == "k":
                rep.ob("unique:default", is_const(e, "false") or str(unmut(e)) == "false", "a source is taken to be unique without a reason", f.loc())
        okk = False
        for g in inner_fns(db, f):
            m = lambda e: is_field("mode")(e)
            rs = rep.analyse(db, g, skip=own).rets
            if not any("source_indices" in str(e) for e, st in rs):
                continue
            okk = True
            t = fn_truth(rep, db, g, [av(m, "Multi")])
            rep.ob("unique:single", t == {False}, "a dependency whose columns may occur more than once is taken to be unique", f.loc())
            for e, st in rep.analyse(db, g, assume=[av(m, "Single")], skip=own).rets:
                if "source_indices" in str(e):
                    rep.ob("unique:all", has_call(e, "all") and not has_call(e, "any"), "a source is taken to be unique by a part of the columns that make it unique", f.loc())
                else:
                    rep.ob("unique:true", str(unmut(e)) == "false", "a source is taken to be unique without a reason", f.loc())
        rep.ob("unique:anchor", okk, "how dependencies are compared is not found", f.loc())
    f = db.find("merge::aggregate_groups_exactly_on_columns")
    if rep.need(f, "aggregate_groups_exactly_on_columns"):
        col = lambda e: unmut(e).op == "elem"
        an = rep.analyse(db, f, assume=[av(col, "Alias", "Cast", "ScalarFunction", "GroupingSet", "Literal")], skip=own)
        rep.ob("unique:group", all(str(unmut(e)) == "false" or "same_column_set" in str(e) and not any(k[0] == "v" and v == frozenset("+") and "next" in str(k[1]) for k, v in st.items()) for e, st in an.rets), "a computed group key is taken for a column", f.loc())
        s = [x for x in rep.analyse(db, f, watch=shorts("push"), skip=own).sites]
        rep.ob("unique:group:all", bool(s), "the group keys are not collected", f.loc())
    f = db.find("merge::same_column_set_case_insensitive")
    if rep.need(f, "same_column_set_case_insensitive"):
        la = lambda i: (lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "len" and arg_is(i)(unmut(e).a[1][0]))
        for rel in "<>":
            t = fn_truth(rep, db, f, [ac(la(1), la(2), rel)])
            rep.ob(f"unique:columns:{rel}", t == {False}, "a part of the group keys is taken for all of them", f.loc())
    f = db.find("merge::source_is_unique_on_merge_join_keys")
    if rep.need(f, "source_is_unique_on_merge_join_keys"):
        an = rep.analyse(db, f, skip=own, watch=shorts("aggregate_groups_exactly_on_columns"))
        vs = set()
        for x in (x for s in an.sites for x in walk(s.args[0])):
            if x.op == "as":
                vs.add(x.a[1])
        rep.ob("unique:through", vs <= {"SubqueryAlias", "Filter", "Projection", "Aggregate"}, f"uniqueness is taken to survive {sorted(vs)}", f.loc())
        for e, st in an.rets:
            e = unmut(e)
            good = str(e) == "false" or e.op == "call" and name(short(e.a[0])) in ("aggregate_groups_exactly_on_columns", "schema_implies_unique_for_columns") or \
                str(e) == "true" and any(k[0] == "b" and "schema_implies_unique" in str(k[1]) and v == frozenset([True]) for k, v in st.items())
            rep.ob("unique:reason", good, "a source is taken to be unique without a reason", f.loc())
        # a computed column has no uniqueness of its own
    f = db.find("merge::map_key_cols_through_projection")
    if rep.need(f, "map_key_cols_through_projection"):
        an = rep.analyse(db, f, watch=shorts("push"), skip=own)
        for s in an.sites:
            vs = {x.a[1] for x in walk(s.args[1]) if x.op == "as"}
            rep.ob("unique:projection", vs <= {"Column", "Alias"}, "a computed column is taken for the column it is computed from", s.loc)
    f = db.find("merge::source_join_key_column_names")
    if rep.need(f, "source_join_key_column_names"):
        an = rep.analyse(db, f, watch=shorts("push"), skip=own)
        for s in an.sites:
            vs = {x.a[1] for x in walk(s.args[1]) if x.op == "as"}
            rep.ob("unique:keys", vs == {"Column"} and "1" in {x.a[1] for x in walk(s.args[1]) if x.op == "f"}, "the key columns are not those of the source", s.loc)
    rep.rule("check", "the check refuses the second match of a target row, over all batches of its partition, and passes every row on")
    f = db.find("MergeCardinalityCheckStream::poll_next")
    if rep.need(f, "MergeCardinalityCheckStream::poll_next"):
        def arr(nm):
            return lambda e: f"self.{nm}" in str(e) or nm in fields(e)

        def null(nm):
            return lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("is_null",) and arr(nm)(unmut(e).a[1][0])

        def val(nm):
            return lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "value" and arr(nm)(unmut(e).a[1][0])
        ins = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "insert"
        T, S, R = "target_present_idx", "source_present_idx", "row_id_idx"
        idn = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "is_null" and not arr(T)(e) and not arr(S)(e)
        base = [ab(null(T), False), ab(null(S), False), ab(val(T), True), ab(val(S), True)]
        an = rep.analyse(db, f, assume=base + [ab(idn, False)], watch=shorts("insert"))
        xs = [s for s in an.sites if "seen" in str(s.args[0])]
        rep.ob("insert", bool(xs) and all(has_call(s.args[1], "key", "value", "clone", "to_string") for s in xs), "a match is not recorded", f.loc())
        for s in xs:
            for i in {x.a[1][1] for x in walk(s.args[1]) if x.op == "call" and name(short(x.a[0])) in ("key", "value") and len(x.a[1]) == 2}:
                lo, hi = range_of(an, s, i)
                if lo is not None:
                    rep.ob("rows", str(unmut(lo)) == "0" and unmut(unmut(hi).a[1] if unmut(hi).op == "bin" else hi).op in ("call", "len") and
                           name(short(unmut(unmut(hi).a[1] if unmut(hi).op == "bin" else hi).a[0])) in ("num_rows", "len"), "not every row of a batch is checked", s.loc)
        cut_free(rep, db, f, "rows:all", "not every row of a batch is checked")
        an = rep.analyse(db, f, assume=base + [ab(idn, False), ab(ins, False)], watch=shorts("insert"))
        it = lambda k: k[0] == "v" and "Iterator::next" in str(k[1])
        bad = [e for e, st in an.rets if not errlike(e) and any(it(k) and v == frozenset("-") for k, v in st.items()) and any(k[0] == "b" and ins(k[1]) and v == frozenset([False]) for k, v in st.items())]
        got = [e for e, st in an.rets if any(k[0] == "b" and ins(k[1]) and v == frozenset([False]) for k, v in st.items())]
        rep.ob("refuse", bool(got) and all(errlike(e) for e in got) and not bad, "a second match of a target row is not refused", f.loc())
        for nm, a in (("target null", [ab(null(T), True)]), ("source null", [ab(null(S), True)]), ("no target", [ab(null(T), False), ab(val(T), False)]), ("no source", [ab(null(S), False), ab(val(S), False)])):
            an = rep.analyse(db, f, assume=a, watch=shorts("insert"))
            rep.ob(f"unmatched:{nm}", not [s for s in an.sites if "seen" in str(s.args[0])], "a row that is no match is counted as one", f.loc())
        an = rep.analyse(db, f, watch=shorts("clear", "remove", "drain", "take", "retain", "replace"))
        rep.ob("seen", not [s for s in an.sites if "seen" in str(s.args[0])], "matches that have been seen are forgotten", f.loc())
        ok_rets = [e for e, st in an.rets if any(x.op == "adt" and x.a[1] == "Ok" for x in walk(e)) or "poll_next" in str(e)]
        rep.ob("pass", bool(ok_rets) and all(not (calls(e) & {"RecordBatch::slice", "filter::filter_record_batch"}) for e in ok_rets), "rows are not passed on", f.loc())
    # the check sits on the join that all parts of the plan read
    f = db.find("merge::build_default_merge_expansion")
    if rep.need(f, "build_default_merge_expansion"):
        flag = lambda e: arg_is(4)(e)
        an = rep.analyse(db, f, assume=[ab(flag, True)], watch=shorts("new", "from", "filter"), skip=own)
        node = [s for s in an.sites if s.short == "MergeCardinalityCheckNode::new"]
        rep.ob("node", len(node) == 1, "the check is not part of the plan", f.loc())
        for s in node:
            rep.ob("node:columns", ["TARGET_ROW_ID_COLUMN" in str(s.args[1]), "TARGET_PRESENT_COLUMN" in str(s.args[2]), "SOURCE_PRESENT_COLUMN" in str(s.args[3])] == [True] * 3, "the check reads other columns", s.loc)
        for s in an.sites:
            if s.short.endswith("LogicalPlanBuilder::from") and "Join" in str(s.args[0]):
                rep.ob("node:read", "MergeCardinalityCheckNode" in str(s.args[0]), "a part of the plan reads the join without the check", s.loc)
    f = db.find("merge::expand_merge")
    if rep.need(f, "expand_merge"):
        an = rep.analyse(db, f, watch=shorts("build_default_merge_expansion", "should_check_cardinality", "try_new"), skip=own)
        s = [s for s in an.sites if name(s.short) == "build_default_merge_expansion"]
        for x in s:
            v = x.args[3]
            leafs = [str(y) for y in alts(an, v)]
            rep.ob("flag", all(("should_check_cardinality" in y) or y == "false" for y in leafs), f"whether the matches are checked is decided by {leafs}"[:160], x.loc)
        rep.ob("flag:anchor", bool(s), "", f.loc())
        # it is switched off only for a unique source
        uniq = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "source_is_unique_on_merge_join_keys"
        need = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "should_check_cardinality"
        an = rep.analyse(db, f, assume=[ab(uniq, False), ab(need, True)], watch=shorts("build_default_merge_expansion", "try_new"), skip=own)
        ids = [s for s in an.sites if s.short == "MonotonicIdNode::try_new"]
        rep.ob("row-id", len(ids) == 1 and "TARGET_ROW_ID_COLUMN" in str(ids[0].args[1]), "target rows are not told apart before the join", f.loc())


def errlike(e):
    return any(x.op == "adt" and x.a[1] == "Err" for x in walk(e)) or e.op == "call" and "from_residual" in e.a[0]


@prop("M01")
def clauses(rep):
    db = rep.db("sail_logical_plan", "sail_plan", "sail_common_datafusion")
    rep.rule("clauses", "the first clause whose condition is true decides what happens to a row; every clause can; a condition that is null is not true")
    f = db.find("merge::first_matching_clause_predicates")
    if rep.need(f, "first_matching_clause_predicates"):
        n = 0
        for g in inner_fns(db, f):
            prior = lambda e: unmut(e).op == "up" and "prior" in str(e)
            rets = rep.analyse(db, g).rets
            if not any("is_true" in str(e) for e, _ in rets):
                continue
            n += 1
            for e, st in rep.analyse(db, g, assume=[av(prior, "+")]).rets:
                nots = [x for x in walk(e) if x.op == "call" and name(short(x.a[0])) == "not"]
                rep.ob("first", bool(nots) and has_call(e, "and") and not has_call(e, "or"), "a clause decides although an earlier one did", f.loc())
            for e, st in rets:
                tr = [x for x in walk(e) if x.op == "call" and name(short(x.a[0])) == "is_true"]
                rep.ob("true", bool(tr) and all("base_predicate" in str(x) and "condition" in str(x) for x in tr), "a condition that is null counts as true or the kind of row is not regarded", f.loc())
        rep.ob("first:anchor", n == 1, "the selection of the first clause is not found", f.loc())
        for g in inner_fns(db, f):
            for e, st in rep.analyse(db, g).rets:
                if unmut(e).op == "call" and name(short(unmut(e).a[0])) == "lit":
                    rep.ob("no-condition", "true" in str(e), "a clause without a condition does not apply", f.loc())
    f = db.find("merge::build_rewrite_predicates")
    if rep.need(f, "build_rewrite_predicates"):
        an = rep.analyse(db, f, watch=shorts("push"))
        rep.ob("touched", len([s for s in an.sites if name(s.short) == "push"]) >= 2, "the files a clause touches are not found", f.loc())
        for nm in ("matched_clauses", "not_matched_by_source_clauses"):
            exhausts(rep, db, f, lambda e, nm=nm: nm in str(e), f"touched:{nm}", f"not every clause of {nm} touches files", pol=None)
            must = [s for s in an.sites if nm in str(s.args[1]) or (nm == "matched_clauses") == ("on_condition" in str(s.args[1]))]
            for s in must:
                rep.ob(f"touched:{nm}:cond", "condition" in str(s.args[1]) or "closure" in str(s.args[1]), "the condition of a clause is not regarded", s.loc)
    f = db.find("merge::build_merge_projection")
    if rep.need(f, "build_merge_projection"):
        tables = {"UpdateAll": "MatchedUpdate", "Delete": None, "UpdateSet": None}
        n = 0
        for g in inner_fns(db, f):
            act = is_field("action")
            an = rep.analyse(db, g)
            ops = {x.a[1] for e, _ in an.rets for x in walk(e) if x.op == "adt" and x.a[0].split("::")[-1] == "RowLevelOperationType"}
            if not ops:
                continue
            n += 1
            side = "NotMatchedBySource" if any(o.startswith("NotMatchedBySource") for o in ops) else "Matched"
            for v in ("UpdateAll", "UpdateSet", "Delete") if side == "Matched" else ("UpdateSet", "Delete"):
                want = side + ("Delete" if v == "Delete" else "Update")
                hit = rep.analyse(db, g, assume=[av(act, v)], adt_watch=lambda p, w: p.split("::")[-1] == "RowLevelOperationType").sites
                got = {s.short.split("::")[-1] if "::" in s.short else s.expr.a[1] for s in hit if s.kind == "adt"}
                rep.ob(f"operation:{side}:{v}", got == {want}, f"rows of a {side} {v} clause are marked {sorted(got)}", f.loc())
        rep.ob("operation:anchor", n == 2, f"the operations of clauses are not found ({n})", f.loc())
        # the values of a clause are used where its own predicate selects it
        an = rep.analyse(db, f, watch=shorts("push"), skip=own)
        m = 0
        for s in an.sites:
            t = unmut(s.args[1])
            if t.op != "tup" or len(t.a[0]) != 2 or "align_merge_value" not in str(t):
                continue
            m += 1
        rep.ob("values:anchor", m >= 4, f"the values of clauses are not found ({m})", f.loc())
        for x in (x for s in an.sites for x in walk(s.args[1]) if x.op == "call" and name(short(x.a[0])) == "zip" and "clauses" in str(x.a[1][0])):
            a, b = str(x.a[1][0]), str(x.a[1][1])
            for nm in ("not_matched_by_source", "not_matched_by_target"):
                rep.ob(f"values:{nm}", (nm in a) == (nm in b or nm.replace("_by", "_by") in b) or "first_matching" in b, f"clauses are paired with predicates of others ({a[:50]})", f.loc())
    f = db.find("merge::analyze_merge_join")
    if rep.need(f, "analyze_merge_join"):
        rep.rule("on", "every part of the ON condition is part of the join, as a key or as a filter")
        an = rep.analyse(db, f, watch=shorts("push"), skip=lambda p: "classify_expr_domain" in p)
        dom = lambda side: (lambda e: unmut(e).op == "call" and "classify_expr_domain" in unmut(e).a[0] and side in fields(unmut(e).a[1][0]))
        for l, r, key in (("TargetOnly", "SourceOnly", ("left", "right")), ("SourceOnly", "TargetOnly", ("right", "left"))):
            an = rep.analyse(db, f, assume=[av(dom("left"), l), av(dom("right"), r)], watch=shorts("push"), skip=lambda p: "classify_expr_domain" in p)
            ks = [s for s in an.sites if unmut(s.args[1]).op == "tup"]
            rep.ob(f"keys:{l}", len(ks) == 1 and tuple(next(iter({"left", "right"} & set(fields(x))), None) for x in unmut(ks[0].args[1]).a[0]) == key, "the sides of a join key are mixed up", f.loc())
        for l, r in (("TargetOnly", "TargetOnly"), ("SourceOnly", "SourceOnly"), ("Mixed", "SourceOnly"), ("TargetOnly", "Mixed"), ("None", "SourceOnly"), ("TargetOnly", "None")):
            a = [av(dom("left"), l), av(dom("right"), r)]
            an = rep.analyse(db, f, assume=a, watch=shorts("push"), skip=lambda p: "classify_expr_domain" in p)
            rep.ob(f"residual:{l}:{r}", not [s for s in an.sites if unmut(s.args[1]).op == "tup"], "an equality that is none between target and source is a join key", f.loc())
        # what is no key is a filter
        hot = [s for s in an.sites if "residual" in str(s.args[0])]
        rep.ob("residual", bool(hot), "conditions that are no join key are dropped", f.loc())


def form(an, e, T, S, C):
    """truth of a row predicate built from the presence columns, for a row that is (not) of the target / source and a
    clause condition that is (not) true: every possible value; None where the predicate is something else"""
    e = unmut(e)
    if e.op == "phi":
        r = set()
        for x in alts(an, e):
            y = form(an, x, T, S, C) if x.op != "phi" else None
            if y is None:
                return None
            r |= y
        return r
    if e.op == "f" and e.a[1] == "expr" and ("condition" in fields(e) or "on_condition" in fields(e)):
        return {C} if "on_condition" not in fields(e) else {True}
    if e.op == "up" or e.op == "arg":
        return None
    if e.op != "call":
        return None
    n, a = name(short(e.a[0])), e.a[1]
    if n in ("is_null", "is_not_null") and a:
        s = str(a[0])
        v = T if "TARGET_PRESENT" in s and "SOURCE" not in s else S if "SOURCE_PRESENT" in s and "TARGET" not in s else None
        return None if v is None else {v == (n == "is_not_null")}
    if n == "lit" and a:
        return {str(unmut(a[0])) == "true"} if str(unmut(a[0])) in ("true", "false") else None
    if n in ("is_true", "clone", "deref", "as_ref", "unalias") and a:
        return form(an, a[0], T, S, C)
    if n == "not" and a:
        r = form(an, a[0], T, S, C)
        return None if r is None else {not x for x in r}
    if n in ("and", "or") and len(a) == 2:
        x, y = form(an, a[0], T, S, C), form(an, a[1], T, S, C)
        if x is None or y is None:
            return None
        return {(p and q) if n == "and" else (p or q) for p in x for q in y}
    return None


ROWS = [(t, s, c) for t in (True, False) for s in (True, False) for c in (True, False)]
KIND = {"matched_clauses": (True, True), "not_matched_by_source_clauses": (True, False), "not_matched_by_target_clauses": (False, True)}


def kinds(an, e, cond):
    """which clause list a predicate selects rows for: those of the kind (and, with `cond`, for which the condition is true)"""
    out = []
    for nm, (t0, s0) in KIND.items():
        good = True
        for t, s, c in ROWS:
            if (t, s) == (False, False):
                continue            # (there is no such row)
            r = form(an, e, t, s, c)
            is_kind = (t, s) == (t0, s0)
            want = {is_kind} if c or not cond or not is_kind else {True, False}
            if r is None or not (r == want or (cond and is_kind and not c and r == {False})):
                good = False
        if good:
            out.append(nm)
    return out


def loop_of(st, names):
    """the clause lists an iteration is in"""
    return {nm for k, v in st.items() if k[0] == "v" and v == frozenset("+") and "Iterator::next" in str(k[1]) for nm in names if f"options.{nm}" in str(k[1])}


@prop("M01")
def expansion(rep):
    db = rep.db("sail_logical_plan", "sail_common_datafusion")
    skip = own
    rep.rule("expansion", "target and source are joined in full on the whole condition, rows are sorted into kinds by where they are present, and every clause is applied to the rows of its kind")
    f = db.find("merge::build_default_merge_expansion")
    if rep.need(f, "build_default_merge_expansion"):
        an = rep.analyse(db, f, skip=skip, watch=shorts("or_pred", "filter", "union", "try_new", "project", "build_rewrite_predicates", "aggregate"))
        js = [s for s in an.sites if s.short == "Join::try_new"]
        rep.ob("join", len(js) == 1 and "Full" in str(js[0].args[4]), "target and source are not joined in full", f.loc())
        for s in js:
            rep.ob("join:sides", arg_in(s.args[0], 2) and arg_in(s.args[1], 3) and not arg_in(s.args[0], 3) and not arg_in(s.args[1], 2) and "TARGET_PRESENT" in str(s.args[0]) and "SOURCE_PRESENT" in str(s.args[1]), "the sides of the join are mixed up", s.loc)
        joins(rep, js)
        seen = {}
        for s in (s for s in an.sites if name(s.short) == "or_pred"):
            ks = kinds(an, s.args[1], True)
            inl = loop_of(s.state, KIND)
            rep.ob(f"kind:{','.join(sorted(inl))}", len(ks) == 1 and inl == set(ks), f"rows of {sorted(inl)} are selected as {ks}", s.loc)
            cond = [form(an, s.args[1], *KIND[k], False) for k in ks]
            rep.ob(f"condition:{','.join(sorted(inl))}", bool(cond) and all(False in c for c in cond), "the condition of a clause is not regarded", s.loc)
            for k in ks:
                seen.setdefault(k, []).append(s)
        rep.ob("kind:all", set(seen) == set(KIND), f"clauses are applied for {sorted(seen)} only", f.loc())
        cut_free(rep, db, f, "all:cut", "not every clause is applied")
        for nm in KIND:
            exhausts(rep, db, f, lambda e, nm=nm: f"options.{nm}" in str(e), f"all:{nm}", f"not every clause of {nm} is applied", skip=skip)
        fl = [s for s in an.sites if s.short == "LogicalPlanBuilder::filter"]
        active = [s for s in fl if has_call(s.args[1], "or") and "or_pred" in str(s.args[1]) and "TARGET_PRESENT" in str(unmut(s.args[1]).a[1][0])]
        rep.ob("active", len(active) == 1, "rows of the target are not kept, or inserts not added", f.loc())
        for s in active:
            e = unmut(s.args[1])
            parts = e.a[1] if name(short(e.a[0])) == "or" else ()
            t = [p for p in parts if form(an, p, True, True, False) == {True} and form(an, p, True, False, False) == {True}]
            rest = [p for p in parts if p not in t]
            rep.ob("active:target", len(t) == 1, "rows of the target that no clause is for are dropped", s.loc)
            ks = {k for p in rest for x in walk(p) if x.op == "call" and name(short(x.a[0])) == "or_pred" for k in kinds(an, x.a[1][1], True)}
            rep.ob("active:insert", ks == {"not_matched_by_target_clauses"}, f"rows that are not of the target are kept for {sorted(ks)}", s.loc)
        orp = [s for s in fl if s not in active and "or_pred" in str(s.args[1])]
        rep.ob("deletes", bool(orp), "rows to be deleted are not found", f.loc())
        for s in orp:
            ks = {k for x in walk(s.args[1]) if x.op == "call" and name(short(x.a[0])) == "or_pred" for k in kinds(an, x.a[1][1], True)}
            rep.ob("deletes:kinds", ks == {"matched_clauses", "not_matched_by_source_clauses"}, f"old rows are deleted for {sorted(ks)}", s.loc)
        for s in (s for s in an.sites if name(s.short) == "build_rewrite_predicates"):
            rep.ob("touched:kinds", kinds(an, s.args[1], False) == ["matched_clauses"] and kinds(an, s.args[2], False) == ["not_matched_by_source_clauses"], "the files to be rewritten are found for other rows", s.loc)
        tf = [s for s in fl if "combine_rewrite_preds" in str(s.args[1])]
        rep.ob("touched:filter", len(tf) == 1 and "build_rewrite_predicates" in str(tf[0].args[1]) and str(tf[0].args[1]).count(".0") and ".1" in str(tf[0].args[1]), "the files to be rewritten are not found by all clauses", f.loc())
    f = db.find("merge::or_pred")
    if rep.need(f, "or_pred"):
        for v in "+-":
            for e, st in rep.analyse(db, f, assume=[av(arg_is(1), v)]).rets:
                rep.ob(f"or:{v}", arg_in(e, 2) and (v == "-" or arg_in(e, 1) and has_call(e, "or") and not has_call(e, "and")), "clauses are not joined by or", f.loc())
    for nm, op, other in (("combine_conjunction", "and", "or"), ("combine_disjunction", "or", "and")):
        f = db.find("merge::" + nm)
        if rep.need(f, nm):
            got = set()
            for g in [f] + list(inner_fns(db, f)):
                for b, p, gen, t in g.calls():
                    if name(short(p)) in ("and", "or"):
                        got.add(name(short(p)))
            rep.ob(f"{nm}", got == {op}, f"predicates are combined by {sorted(got)}", f.loc())
            used = {name(short(p)) for b, p, gen, t in f.calls()}
            rep.ob(f"{nm}:all", not (used & {"take", "filter", "skip", "last", "take_while", "step_by"}), "predicates are left out", f.loc())
    f = db.find("merge::combine_rewrite_preds")
    if rep.need(f, "combine_rewrite_preds"):
        for i in (1, 2):
            done, n = must_event(rep, db, f, lambda s, i=i: any(arg_in(x, i) for x in s.args), pol=None, hotp=shorts("extend", "append", "chain", "extend_from_slice", "concat", "push"), skip=skip)
            rep.ob(f"touched:{i}", done and n, "the files touched by some clauses are not found", f.loc())
        rep.ob("touched:or", all(has_call(e, "combine_disjunction") for e, st in rep.analyse(db, f, skip=skip).rets), "the clauses that touch files are not joined by or", f.loc())
    f = db.find("merge::build_rewrite_predicates")
    if rep.need(f, "build_rewrite_predicates"):
        cut_free(rep, db, f, "touched:all", "not every clause touches files")
        an = rep.analyse(db, f, watch=shorts("push"))
        for s in an.sites:
            arms = list(alts(an, s.args[1]))
            bare = [x for x in arms if not any(y.op == "f" and y.a[1] == "condition" for y in walk(x))]
            full = [x for x in arms if x not in bare]
            leaf = lambda x: {name(short(y.a[0])) for y in walk(x) if y.op == "call"} <= {"and", "clone"}
            rep.ob("touched:condition", bool(full) and all(map(leaf, arms)), "the condition by which rows of a clause are found is changed", s.loc)
            for x in arms:
                rep.ob("touched:base", arg_in(x, 2) != arg_in(x, 3), "the kind of row is not regarded", s.loc)
            rep.ob("touched:list", all(arg_in(x, 2) == (loop_of(s.state, KIND) == {"matched_clauses"}) for x in arms), "the files a clause touches are found for other rows", s.loc)
    f = db.find("merge::expand_merge")
    if rep.need(f, "expand_merge"):
        an = rep.analyse(db, f, skip=skip, watch=shorts("try_new", "union", "filter", "when", "otherwise"))
        js = [s for s in an.sites if s.short == "Join::try_new"]
        joins(rep, js)
        for s in js:
            rep.ob("insert-only:sides", "source" in fields(s.args[0]) and "target" not in fields(s.args[0]) and "target" in fields(s.args[1]) and "source" not in fields(s.args[1]), "the sides of the join are mixed up", s.loc)
        for s in (s for s in an.sites if name(s.short) == "otherwise"):
            ops = [x.a[1] for x in walk(s.args[1]) if x.op == "adt" and x.a[0].split("::")[-1] == "RowLevelOperationType"]
            rep.ob("insert-only:otherwise", ops == ["Noop"], f"rows no clause is for are marked {ops}", s.loc)
        for s in (s for s in an.sites if name(s.short) == "when"):
            ops = [x.a[1] for x in walk(s.args[1]) if x.op == "adt" and x.a[0].split("::")[-1] == "RowLevelOperationType"]
            rep.ob("insert-only:when", ops == ["Insert"] and "insert_only_insert_filter" in str(s.args[0]), "rows are inserted for another reason", s.loc)
    f = db.find("merge::build_merge_projection")
    if rep.need(f, "build_merge_projection"):
        an = rep.analyse(db, f, skip=skip, watch=shorts("first_matching_clause_predicates", "push", "extend"))
        got = []
        for s in (s for s in an.sites if name(s.short) == "first_matching_clause_predicates"):
            ks = kinds(an, s.args[0], False)
            got += ks
            rep.ob(f"kind:projection:{','.join(ks)}", len(ks) == 1 and f"options.{ks[0]}" in str(s.args[1]), "the clauses of a kind are applied to rows of another", s.loc)
        rep.ob("kind:projection", sorted(got) == sorted(KIND), f"rows are sorted into {sorted(got)}", f.loc())

        def pred_kinds(e):
            return {k for x in walk(e) if x.op == "call" and name(short(x.a[0])) == "first_matching_clause_predicates" for k in kinds(an, x.a[1][0], False)}
        vals = 0
        for s in (s for s in an.sites if name(s.short) == "push" and unmut(s.args[1]).op == "tup" and len(unmut(s.args[1]).a[0]) == 2):
            p = unmut(s.args[1]).a[0][0]
            vals += 1
            ks, inl = pred_kinds(p), loop_of(s.state, KIND)
            rep.ob(f"values:{','.join(sorted(inl))}", len(ks) == 1 and ks == inl, f"the values of {sorted(inl)} are used for rows of {sorted(ks)}", s.loc)
        rep.floor("values of clauses", vals, 5)
        ext = 0
        for s in (s for s in an.sites if name(s.short) == "extend"):
            for z in (z for z in walk(s.args[1]) if z.op == "call" and name(short(z.a[0])) == "zip"):
                ext += 1
                ks = pred_kinds(z.a[1][1])
                inl = {k for k in KIND if f"options.{k}" in str(z.a[1][0])}
                rep.ob(f"operations:{','.join(sorted(inl))}", len(ks) == 1 and ks == inl, f"rows of {sorted(ks)} are marked by the clauses {sorted(inl)}", s.loc)
        rep.floor("operations of clauses", ext, 2)
        for nm in KIND:
            exhausts(rep, db, f, lambda e, nm=nm: "zip" in str(e) and f"options.{nm}" in str(e), f"values:all:{nm}", f"not every clause of {nm} is applied", skip=skip)
        cut_free(rep, db, f, "values:cut", "not every clause is applied")
        # what no clause is for
        m = 0
        for s in (s for s in an.sites if name(s.short) == "push"):
            for c in (x for x in walk(s.args[1]) if x.op == "adt" and x.a[0].split("::")[-1] == "Case"):
                d = dict(c.a[2]) if isinstance(c.a[2], tuple) and c.a[2] and isinstance(c.a[2][0], tuple) else {}
                if "else_expr" not in d:
                    continue
                m += 1
                el = d["else_expr"]
                op = op_in(el)
                if "OPERATION_COLUMN" in str(s.args[1]):
                    rep.ob("else:operation", op == "Copy", f"rows no clause is for are marked {op}", s.loc)
                    first = [x for x in walk(d["when_then_expr"]) if x.op == "tup" and any(y.op == "adt" and y.a[1] == "Insert" for y in walk(x)) and len(x.a[0]) == 2]
                    ok_ = [x for x in first if all(form(an, x.a[0][0], t, s_, False) == {not t} for t, s_ in ((True, True), (True, False), (False, True)))]
                    rep.ob("else:insert", bool(ok_), "rows are marked as inserts that are rows of the target", s.loc)
                else:
                    rep.ob("else:value", "Some" in str(el) and "Name" not in str(el) and ("name" in str(el) or "Column" in str(el)), "columns of rows no clause is for do not keep their value", s.loc)
        rep.floor("cases", m, 2)
    f = db.find("merge::first_matching_clause_predicates")
    if rep.need(f, "first_matching_clause_predicates"):
        n = 0
        for g in inner_fns(db, f):
            an = rep.analyse(db, g, assign_fields=None, watch=shorts("or"))
            if not any("is_true" in str(e) for e, _ in an.rets):
                continue
            n += 1
            an = rep.analyse(db, g, assume=[av(lambda e: "prior" in str(e), "+")], watch=shorts("or"))
            o = [s for s in an.sites if "is_true" in str(s.args[1]) and "prior" in str(s.args[0]) or "is_true" in str(s.args[0]) and "prior" in str(s.args[1])]
            rep.ob("prior", bool(o), "a clause counts only the one before it as earlier", f.loc())
        rep.ob("prior:anchor", n == 1, "the selection of the first clause is not found", f.loc())
    f = db.find("merge::insert_only_insert_filter")
    if rep.need(f, "insert_only_insert_filter"):
        for e, st in rep.analyse(db, f, skip=skip).rets:
            rep.ob("insert-only:filter", has_call(e, "combine_disjunction") and "not_matched_by_target_clauses" in str(e) and not (({name(c) for c in calls(e)}) & {"take", "filter", "skip", "first"}), "not every clause inserts rows", f.loc())


def cut_free(rep, db, f, key, msg):
    """no iteration of the function leaves elements out"""
    cuts = {short(p) for g in [f] + list(inner_fns(db, f)) for b, p, gen, t in g.calls()} & {"Iterator::take", "Iterator::skip", "Iterator::step_by", "Iterator::take_while", "Iterator::skip_while", "Iterator::nth", "Iterator::map_while"}
    rep.ob(key, not cuts, msg + f" ({', '.join(sorted(cuts))})", f.loc())


def arg_in(e, i):
    return any(arg_is(i)(x) for x in walk(e))


def joins(rep, js):
    for s in js:
        kind = next((v for v in ("Full", "LeftAnti", "LeftSemi", "Inner", "Left", "Right") if v in str(s.args[4])), "?")
        rep.ob(f"join:{kind}:keys", "join_key_pairs" in str(s.args[2]) and not ({name(c) for c in calls(s.args[2])} & {"take", "filter", "skip", "first"}), "keys of the join are left out", s.loc)
        rep.ob(f"join:{kind}:filter", "residual_predicates" in str(s.args[3]) and has_call(s.args[3], "combine_conjunction"), "the parts of the condition that are no keys are left out", s.loc)
        rep.ob(f"join:{kind}:null", "NullEqualsNothing" in str(s.args[6]), "null keys match", s.loc)
        rep.ob(f"join:{kind}:on", "On" in str(s.args[5]), "the join is by other columns", s.loc)
