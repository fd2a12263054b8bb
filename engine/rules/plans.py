"""physical operators and logical nodes: rebuilding, partitions, distribution"""
from sa.mir import mk, mkt, walk, unmut, subst, short, show, split_top
from rules import prop
from rules._h import *

PLAN_CRATES = ("sail_delta_lake", "sail_telemetry", "sail_physical_optimizer", "sail_iceberg", "sail_execution", "sail_physical_plan", "sail_catalog_system", "sail_data_source")
NODE_CRATES = ("sail_delta_lake", "sail_logical_plan", "sail_iceberg", "sail_plan", "sail_data_source")
PLAN = "ExecutionPlan"
CHILD_TY = "dyn datafusion_physical_plan::execution_plan::ExecutionPlan"


def strip_ok(e):
    e = unmut(e)
    while True:
        if e.op in ("ok", "some") and e.a:
            e = unmut(e.a[0])
        elif e.op == "adt" and e.a[1] in ("Ok", "Some") and len(e.a[2]) == 1:
            e = unmut(e.a[2][0][1])
        else:
            return e


def ways_of(rep, db, f, adt, depth=0, **kw):
    """every way the function `f` builds a struct `adt`; fields that are assigned afterwards override those of the constructor"""
    own = set(fields_of(db, adt))
    an = rep.analyse(db, f, assign_fields=own, assign=lambda s: True, **kw)
    rets = ret_states(an, "+") or an.rets
    out = []
    hit = {s.path for s in rep.analyse(db, f, watch=lambda p, s: True, **{**kw, "skip": lambda p: True}).sites} if kw.get("assume") else None
    for e, st in rets:
        for x in (strip_ok(e).a[0] if strip_ok(e).op == "phi" else [e]):
            x, over = strip_ok(x), {}
            if hit is not None and x.op == "call" and x.a[0] not in hit:
                continue
            for s in an.sites:
                # (a callee that is still a call in the result is looked at on its own)
                if s.kind == "assign" and s.dest.op == "f" and str(strip_ok(s.dest.a[0])) == str(x) and (s.fn is f or s.fn.short not in calls(e)):
                    over[s.dest.a[1]] = s.expr
            for w in structs(rep, db, x, adt, depth):
                out.append({**w, **over} if isinstance(w, dict) else dict(over, **{"^self": x}) if w == "self" and over and depth else dict(over) if w == "self" and over else w)
    return out


def structs(rep, db, e, adt, depth=0):
    """every way `e` can be a struct `adt`: list of {field: expression}; None for a way that cannot be resolved; 'self' for a value passed through"""
    e = strip_ok(e)
    if e.op == "phi":
        return [s for x in e.a[0] for s in structs(rep, db, x, adt, depth)]
    if e.op == "adt":
        if e.a[0].split("::")[-1] == adt.split("<")[0].split("::")[-1]:
            return [dict(e.a[2])]
        return [None]
    if e.op == "arg":
        return ["self"] if e.a[0] == 1 else [None]
    if e.op == "call" and depth < 4:
        f = db.fn(e.a[0]) or db.find(short(e.a[0]))
        if f is None:
            return [None]

        def sub(x, args=e.a[1]):
            if x.op == "arg" and 1 <= x.a[0] <= len(args):
                return args[x.a[0] - 1]
            return None
        out = []
        for w in ways_of(rep, db, f, adt, depth + 1):
            if w == "self":
                out += structs(rep, db, e.a[1][0], adt, depth + 1)
            elif w and "^self" in w:
                new = {k: subst(v, sub) for k, v in w.items() if k != "^self"}
                out += [{**b, **new} if isinstance(b, dict) else dict(new, **{"^self": e.a[1][0]}) if b == "self" else b for b in structs(rep, db, e.a[1][0], adt, depth + 1)]
            else:
                out.append({k: subst(v, sub) for k, v in w.items()} if w else w)
        return out
    return [None]


def impls_of(db, trait):
    return sorted((i for i in db.impls if i[0] and i[0].split("::")[-1] == trait and "tests::" not in i[2]), key=lambda i: i[2])


def fields_of(db, path):
    a = db.adts.get(path.split("<")[0])
    return {x[0]: x[1] for x in a["v"][0][2]} if a else {}


def self_fields(e):
    """names of the fields of `self` that are read in e"""
    return {x.a[1] for x in walk(e) if x.op == "f" and unmut(x.a[0]).op == "arg" and unmut(x.a[0]).a[0] == 1}


def from_arg(e, i):
    return any(x.op == "arg" and x.a[0] == i for x in walk(e))


def child_index(e):
    """position in `children` an expression takes its input from; None if it does not say"""
    for x in walk(e):
        if x.op == "idx" and from_arg(x.a[0], 2) and x.a[1].op == "k":
            return int(str(x.a[1].a[0]).split("_")[0])
        if x.op == "f" and x.a[1].startswith("#") and from_arg(x.a[0], 2) and x.a[1][1:].isdigit():
            return int(x.a[1][1:])
        if x.op == "call" and name(short(x.a[0])) in ("swap_remove", "remove") and from_arg(x.a[1][0], 2) and x.a[1][1].op == "k":
            return int(str(x.a[1][1].a[0]).split("_")[0])
    return None


# fields that are computed together with another one
DERIVED = ("merge_distribution_keys",)
COMPUTED = ("PlanProperties", "ExecutionPlanMetricsSet", "PhantomData", "MutexGuard")


def rebuilt(rep, db, key, path, ways, is_input, where, other=()):
    """the struct built from the node's own fields and the new inputs keeps every field"""
    tys = fields_of(db, path)
    good = [w for w in ways if isinstance(w, dict)]
    rep.ob(f"{key}:resolved", bool(ways) and all(w is not None for w in ways), "how the operator is rebuilt cannot be followed", where)
    for w in good:
        for k, v in w.items():
            ty = tys.get(k, "")
            if any(c in ty for c in COMPUTED):
                continue
            if is_input(v):
                continue
            sf = self_fields(v)
            if k in sf:
                bad = {name(c) for c in calls(v)} & LOST | {str(x.a[0]) for x in walk(v) if x.op == "bin"}
                rep.ob(f"{key}:{k}", not bad, f"rebuilding the operator changes its field {k} ({sorted(bad)})", where)
                continue
            # a fixed value stands for the field on the path where the field has it
            if consts_only(v) and "DFSchema::empty" in calls(v):
                rep.ob(f"{key}:{k}", True, "", where)
                continue
            if consts_only(v) and len({str(o.get(k)) for o in good}) > 1:
                rep.ob(f"{key}:{k}", True, "", where)
                continue
            # a field that is computed from others which are kept
            ok = (k.strip("_") in ("schema", "cache", "state", "data_schema", "projected_schema") or any(s in ty for s in ("Mutex", "OnceLock", "OnceCell", "Arc<arrow_schema::schema::Schema>", "DFSchema"))) and (not consts_only(v) or "Mutex" in ty or "Once" in ty)
            rep.ob(f"{key}:{k}", ok, f"rebuilding the operator does not keep its field {k} ({show(v)[:60]})", where)
        for a in sorted({k for k, v in w.items() if self_fields(v)} & {k for k, v in w.items() if self_fields(v) and k not in self_fields(v) and not is_input(v) and len(self_fields(v)) == 1 and not any(c in tys.get(k, "") for c in COMPUTED) and self_fields(v) <= set(w)}):
            rep.ob(f"{key}:{a}:own", False, f"rebuilding the operator fills its field {a} from {sorted(self_fields(w[a]))}", where)


LOST = {"min", "max", "clamp", "saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add", "checked_add", "checked_sub", "default", "filter", "skip", "take_while", "truncate", "pop", "clear", "and_then", "zip"}


def consts_only(v):
    return not any(x.op in ("arg", "f") for x in walk(v))


@prop("Q01")
def operators(rep):
    db = rep.db(*PLAN_CRATES)
    ims = impls_of(db, PLAN)
    rep.rule("rebuild", "an operator rebuilt with new children keeps every other field, takes each child where its children() lists it, and never drops the new children")
    rep.floor("physical operators", len(ims), 45)
    for i in ims:
        nm = i[2].split("::")[-1].split("<")[0]
        f, g = db.fn(i[6].get("with_new_children")), db.fn(i[6].get("children"))
        if not rep.need(f, f"{nm}::with_new_children") or not rep.need(g, f"{nm}::children"):
            continue
        kids_ = [strip_ok(e) for e, st in rep.analyse(db, g).rets]
        leaf = bool(kids_) and all(e.op == "call" and short(e.a[0]) == "Vec::new" or e.op in ("tup", "arr") and not e.a[0] for e in kids_)
        ways = ways_of(rep, db, f, i[2])
        w = f.loc()
        if leaf:
            rep.ob(f"{nm}:leaf", all(x == "self" or isinstance(x, dict) for x in ways), "an operator without inputs is rebuilt as something else", w)
            if any(isinstance(x, dict) for x in ways):
                rebuilt(rep, db, nm, i[2], [x for x in ways if x != "self"], lambda v: False, w)
            continue
        owned = [k for k, t in fields_of(db, i[2]).items() if CHILD_TY in t]
        listed = {k for e in kids_ for x in walk(e) if x.op == "f" for k in [x.a[1]]}
        for k in owned:
            rep.ob(f"{nm}:children:{k}", k in listed, f"the input {k} of the operator is not among its children", g.loc())
        rep.ob(f"{nm}:children:new", "self" not in ways, "the new children of an operator are dropped", w)
        rebuilt(rep, db, nm, i[2], [x for x in ways if x != "self"], lambda v: from_arg(v, 2), w)
        tys = fields_of(db, i[2])
        for k, t in tys.items():
            if t == "bool" and any(isinstance(x, dict) and k in x and consts_only(x[k]) for x in ways):
                for val in ("true", "false"):
                    got = [x for x in ways_of(rep, db, f, i[2], assume=[ab(lambda e: last_field(e) == k and k in self_fields(e), val == "true")]) if isinstance(x, dict)]
                    rep.ob(f"{nm}:{k}:{val}", bool(got) and all(k in self_fields(x[k]) or is_const(x[k], val) for x in got), f"rebuilding the operator changes its field {k}", w)
            if t.startswith("core::option::Option") and k not in DERIVED and any(isinstance(x, dict) and k in x and consts_only(x[k]) for x in ways):
                pos, neg = ([x for x in ways_of(rep, db, f, i[2], assume=[av(lambda e: last_field(e) == k and k in self_fields(e), p)]) if isinstance(x, dict)] for p in "+-")
                rep.ob(f"{nm}:{k}:some", bool(pos) and all(k not in x or k in self_fields(x[k]) for x in pos), f"rebuilding the operator loses its field {k}", w)
                for k2, t2 in fields_of(db, i[2]).items():
                    if t2 == "bool" and any(k2 in x and consts_only(x[k2]) for x in pos):
                        rep.ob(f"{nm}:{k}:{k2}", not {str(x.get(k2)) for x in pos} & {str(x.get(k2)) for x in neg}, f"rebuilding the operator changes its field {k2}", w)
        for x in ways:
            if not isinstance(x, dict):
                continue
            rep.ob(f"{nm}:children:new", any(from_arg(v, 2) for v in x.values()), "the new children of an operator are dropped", w)
            pos = {}
            for k, v in x.items():
                for y in [v] if CHILD_TY in fields_of(db, i[2]).get(k, "") else [z for a in walk(v) if a.op == "adt" for kk, z in a.a[2] if not kk.isdigit()]:
                    ix = child_index(y)
                    if ix is not None and CHILD_TY in fields_of(db, i[2]).get(k, ""):
                        pos[k] = ix
            order = [[last_field(y) for y in e.a[0]] for e in kids_ if e.op in ("tup", "arr")]
            for k, ix in pos.items():
                rep.ob(f"{nm}:order:{k}", any(len(o) > ix and o[ix] == k for o in order), f"rebuilding the operator swaps its inputs ({k})", w)
            rep.ob(f"{nm}:order:distinct", len(set(pos.values())) == len(pos), "rebuilding the operator uses one child twice", w)
    rep.rule("partition", "each partition of an operator reads the same partition of its input; an operator that reads only the first partition requires its input to have one")
    n = 0
    for i in ims:
        nm = i[2].split("::")[-1].split("<")[0]
        f, d = db.fn(i[6].get("execute")), db.fn(i[6].get("required_input_distribution") or "")
        if not rep.need(f, f"{nm}::execute"):
            continue
        PART = lambda e: unmut(e).op == "arg" and unmut(e).a[0] == 2
        other = bool(ret_states(rep.analyse(db, f, assume=[ac(PART, lambda e: is_const(e, 0), ">")], skip=lambda p: True), "+"))
        ss = [s for s in rep.analyse(db, f, watch=shorts("execute"), skip=lambda p: True).sites if s.short.endswith("ExecutionPlan::execute")]
        owned = [k for k, t in fields_of(db, i[2]).items() if CHILD_TY in t]
        single = d is not None and all("SinglePartition" in str(e) and "Unspecified" not in str(e) and "HashPartitioned" not in str(e) for e, st in rep.analyse(db, d).rets)
        if owned and not other:
            rep.ob(f"{nm}:single", single, "an operator that reads one partition of its input does not require it to have one", f.loc())
        for s in ss:
            n += 1
            p = unmut(s.args[1])
            lab = last_field(s.args[0]) or "input"
            if p.op == "k":
                rep.ob(f"{nm}:{lab}:first", is_const(p, 0) and not other and single, "an operator reads a fixed partition of its input, although there can be others", s.where())
            elif PART(p):
                rep.ob(f"{nm}:{lab}:same", True, "", s.where())
            elif any(x.op == "elem" for x in walk(p)):
                rep.ob(f"{nm}:{lab}:range", not any(name(c) in ("skip", "take", "step_by", "filter") for c in calls(p)), "an operator skips partitions of its input", s.where())
            else:
                rep.ob(f"{nm}:{lab}:other", False, f"an operator reads another partition of its input ({show(p)[:60]})", s.where())
    rep.floor("reads of an input", n, 38)



def compared(rep, db, f):
    """fields of `self` and of `other` that a comparison reads"""
    got = [set(), set()]
    an = rep.analyse(db, f, watch=lambda p, s: True, skip=lambda p: True)
    ex = [a for s in an.sites for a in s.args] + [e for e, st in an.rets] + [k[1] for e, st in an.rets for k in st if len(k) > 1 and hasattr(k[1], "op")] + [k[2] for e, st in an.rets for k in st if len(k) > 2 and hasattr(k[2], "op")]
    for e in ex:
        for x in walk(e):
            if x.op == "f":
                r = unmut(x.a[0])
                if r.op == "arg" and r.a[0] in (1, 2):
                    got[r.a[0] - 1].add(x.a[1])
    return got


@prop("Q02")
def nodes(rep):
    db = rep.db(*NODE_CRATES)
    ims = impls_of(db, "UserDefinedLogicalNodeCore")
    rep.rule("rebuild", "a logical node rebuilt with new expressions and inputs takes them, and keeps every other field")
    rep.floor("logical nodes", len(ims), 22)
    for i in ims:
        nm = i[2].split("::")[-1]
        f = db.fn(i[6].get("with_exprs_and_inputs"))
        if not rep.need(f, f"{nm}::with_exprs_and_inputs"):
            continue
        ways, w = ways_of(rep, db, f, i[2]), f.loc()
        got = {}
        for m in ("inputs", "expressions"):
            g = db.fn(i[6].get(m))
            got[m] = [e for e, st in rep.analyse(db, g).rets] if g is not None else []
        lists = {m: {k for e in got[m] for k in self_fields(e)} for m in got}
        tys = fields_of(db, i[2])
        empty = not lists["inputs"] and not lists["expressions"]
        rep.ob(f"{nm}:self", empty or "self" not in ways, "new inputs or expressions of a logical node are dropped", w)
        hidden = HIDDEN.get(nm, ())
        for k, t in tys.items():
            if "logical_plan::plan::LogicalPlan" in t and k not in hidden:
                rep.ob(f"{nm}:inputs:{k}", k in lists["inputs"] or nm == "RowLevelWriteNode", f"the input {k} of a logical node is not among its inputs", w)
            if ("expr::Expr" in t or "expr::Sort" in t) and k not in hidden:
                rep.ob(f"{nm}:expressions:{k}", k in lists["expressions"], f"the expression {k} of a logical node is not among its expressions", w)
        rebuilt(rep, db, nm, i[2], [x for x in ways if isinstance(x, dict) or x is None] or ([{}] if empty else []), lambda v: from_arg(v, 3) or from_arg(v, 2), w)
        for x in ways:
            if not isinstance(x, dict):
                continue
            for k in sorted(lists["inputs"]):
                if k in x:
                    rep.ob(f"{nm}:input:{k}", from_arg(x[k], 3), f"the new input {k} of a logical node is dropped", w)
            for k in sorted(lists["expressions"]):
                if k in x:
                    rep.ob(f"{nm}:expression:{k}", from_arg(x[k], 2), f"the new expression {k} of a logical node is dropped", w)
    f, g = db.find("RowLevelWriteNode::with_exprs_and_inputs"), db.find("RowLevelWriteNode::inputs")
    if rep.need(f, "RowLevelWriteNode::with_exprs_and_inputs") and rep.need(g, "RowLevelWriteNode::inputs"):
        order = [next(iter(self_fields(s.args[1])), None) for s in sites_of(rep, db, g, "push")]
        rep.ob("RowLevelWriteNode:inputs", set(order) == {k for k, t in fields_of(db, "sail_logical_plan::merge::RowLevelWriteNode").items() if "plan::LogicalPlan" in t and not k.startswith("raw_")}, "a plan of a row level write is not among its inputs", g.loc())
        took = []
        for s in sites_of(rep, db, f, "Iterator::next", "pop_front", "remove"):
            sure = [k for k in order if any(k in self_fields(x) and vs in ({"+"}, {"Some"}) for x, vs in s.variants(lambda e: True)) or any(k in self_fields(x[1]) and v == {True} for x, v in s.items() if x[0] == "b" and has_call(x[1], "is_some"))]
            took.append([k for k in sure if k not in [y for t in took for y in t]] if len(sure) != 1 else sure)
        rep.ob("RowLevelWriteNode:order", [t[0] if len(t) == 1 else None for t in took] == order, f"rebuilding a row level write swaps its plans {took}", f.loc())
    rep.rule("pushdown", "a node asks for every column of its input that it needs, and lets filters and limits pass only if they do not change its result")
    n = 0
    for i in ims:
        nm = i[2].split("::")[-1]
        g = db.fn(i[6].get("necessary_children_exprs") or "")
        if g is not None:
            n += 1
            sch = db.fn(i[6].get("schema"))
            same = sch is not None and all("LogicalPlan::schema" in calls(e) and "input" in self_fields(e) for e, st in rep.analyse(db, sch).rets) and nm not in ("FileWriteNode",) and not any(x in nm for x in ("Limit", "Write", "Collector", "Stream"))
            for e, st in rep.analyse(db, g).rets:
                ok = adt_variant(e) == "None"
                if adt_variant(e) == "Some":
                    xs = strip_ok(e)
                    rg = [x for x in walk(xs) if x.op == "adt" and x.a[0].endswith("::Range")]
                    whole_ = bool(rg) and all(is_const(dict(r.a[2])["start"], 0) and self_fields(dict(r.a[2])["end"]) and has_call(dict(r.a[2])["end"], "fields") and not any(x.op == "bin" for x in walk(dict(r.a[2])["end"])) for r in rg) \
                        and not from_arg(xs, 2) and not {name(c) for c in calls(xs)} & {"filter", "skip", "take", "step_by"}
                    ok = whole_ or same and from_arg(xs, 2) and not {name(c) for c in calls(xs)} & {"filter", "skip", "take", "step_by", "filter_map"}
                rep.ob(f"{nm}:columns", ok, f"a logical node does not ask for all columns of its input that it needs ({show(e)[:80]})", g.loc())
        for m, what in (("prevent_predicate_push_down_columns", "filters"), ("supports_limit_pushdown", "limits")):
            g = db.fn(i[6].get(m) or "")
            if g is None or nm in PASS.get(m, ()):
                continue
            for e, st in rep.analyse(db, g).rets:
                ok = is_const(e, "false") if m == "supports_limit_pushdown" else has_call(e, "get_all_columns_from_schema")
                rep.ob(f"{nm}:{what}", ok, f"{what} are pushed below a node that they change the result of", g.loc())
    rep.floor("nodes that list the columns they need", n, 14)
    rep.rule("equality", "two nodes or functions are equal only when all their fields are (the optimizer merges equal ones), and equal ones have equal hashes")
    db = rep.db(*EQ_CRATES)
    subj = {i[2] for i in db.impls if i[0] and i[0].split("::")[-1] in EQ_TRAITS and "tests::" not in i[2]}
    rep.floor("types that the optimizer compares", len(subj), 100)
    by = {}
    for i in db.impls:
        if i[2] in subj and i[0] and i[0].split("::")[-1] in ("PartialEq", "Hash"):
            by.setdefault(i[2], {})[i[0].split("::")[-1]] = i
    n = 0
    for ty in sorted(subj):
        nm = ty.split("::")[-1].split("<")[0]
        im = by.get(ty, {})
        eq, ha = im.get("PartialEq"), im.get("Hash")
        if eq is None or eq[3] and (ha is None or ha[3]):
            continue
        n += 1
        fs = fields_of(db, ty)
        skip = {k for k, t in fs.items() if any(x in t for x in ("Signature", "PhantomData", "DFSchema", "OnceLock"))}
        a = b = set(fs)
        if not eq[3]:
            f = db.fn(eq[6].get("eq"))
            if not rep.need(f, f"{nm}::eq"):
                continue
            a, b = compared(rep, db, f)
            for k in sorted(set(fs) - skip - set(NOT_COMPARED.get(nm, ()))):
                rep.ob(f"{nm}:eq:{k}", k in a and k in b or whole(rep, db, f), f"two {nm} that differ in {k} are equal", f.loc())
        if ha is not None and not ha[3]:
            g = db.fn(ha[6].get("hash"))
            h, _ = compared(rep, db, g) if g is not None else (set(), set())
            bad = sorted((h & set(fs)) - (a if not eq[3] else set(fs)))
            rep.ob(f"{nm}:hash", not bad, f"equal {nm} have different hashes ({bad})", g.loc() if g is not None else "")
    rep.floor("comparisons written by hand", n, 3)


def whole(rep, db, f):
    """the values are compared as a whole (names or pointers of both)"""
    return False


# the expressions of a row level write are expanded into its plans; the filters of a source are its own
HIDDEN = {"RowLevelWriteNode": ("condition", "merge_options", "raw_target", "raw_source"), "StreamSourceWrapperNode": ("filters",)}
# a source has no equality of its own
NOT_COMPARED = {"StreamSourceWrapperNode": ("source",)}
# nodes that filters or limits may pass
PASS = {"prevent_predicate_push_down_columns": ("ExplicitRepartitionNode", "RequiredSortNode", "SortWithinPartitionsNode", "BarrierNode"), "supports_limit_pushdown": ("ExplicitRepartitionNode",)}
EQ_CRATES = NODE_CRATES + ("sail_function", "sail_python_udf", "sail_physical_plan", "sail_physical_optimizer", "sail_session", "sail_common_datafusion")
EQ_TRAITS = ("UserDefinedLogicalNodeCore", "ScalarUDFImpl", "AggregateUDFImpl", "WindowUDFImpl", "HigherOrderUDFImpl", "PhysicalExpr", "StreamUDF")


# fields of a physical operator and where the planner takes them from
PLANNED = {
    "ShowStringExec": dict(input=0, names="names", limit="limit", format="format", schema="schema"),
    "MapPartitionsExec": dict(input=0, udf="udf"),
    "MonotonicIdExec": dict(input=0, column_name="column_name", schema="schema"),
    "SparkPartitionIdExec": dict(input=0, column_name="column_name", schema="schema"),
    "StreamLimitExec": dict(input=0, skip="skip", fetch="fetch"),
    "StreamFilterExec": dict(input=0, predicate="predicate"),
    "StreamCollectorExec": dict(input=0),
    "StreamSourceAdapterExec": dict(input=0),
    "RangeExec": dict(range="range", num_partitions="num_partitions", original_schema="schema"),
    "SchemaPivotExec": dict(input=0, names="names", schema="schema"),
    "ExplicitRepartitionExec": dict(input=0),
    "CatalogCommandExec": dict(command="command", schema="schema"),
    "RemoteCheckpointCommitExec": dict(relation_id="relation_id", logical_schema="logical_schema"),
    "RemoteCheckpointWriteExec": dict(input=0),
}


@prop("Q01")
def planner(rep):
    db = rep.db(*(set(PLAN_CRATES) | {"sail_session", "sail_logical_plan"}))
    rep.rule("planner", "the physical operator made for a logical node takes each setting from the setting of that name of the node, and its input from the planned input")
    ex = {i[2].split("<")[0].split("::")[-1]: i[2].split("<")[0] for i in impls_of(db, PLAN)}
    f = co(db, "plan_extension", crate="sail_session", file="planner.rs")
    if not rep.need(f, "ExtensionPhysicalPlanner::plan_extension"):
        return
    an = rep.analyse(db, f, watch=lambda p, s: name(s) in ("new", "try_new") and s.split("::")[0] in ex,
                     skip=lambda p: name(p) in ("new", "try_new") or "Registry" in p or "sort" in p)
    NODE = lambda v: any(x.op == "call" and name(short(x.a[0])) == "downcast_ref" for x in walk(v))
    INPUT = lambda v: child_of(v, "physical_inputs")
    seen = set()
    for s in an.sites:
        nm = s.short.split("::")[0]
        for w in structs(rep, db, mk("call", s.path, tuple(s.args)), ex[nm]):
            if not rep.ob(f"{nm}:resolved", isinstance(w, dict), "how the operator is made cannot be followed", s.where()) and not isinstance(w, dict):
                continue
            seen.add(nm)
            for k, src in PLANNED.get(nm, {}).items():
                if k not in w:
                    rep.ob(f"{nm}:{k}", False, f"the operator has no field {k}", s.where())
                elif src == 0:
                    rep.ob(f"{nm}:{k}", INPUT(w[k]) == 0, f"the input of {nm} is not the planned input", s.where())
                else:
                    bad = {name(c) for c in calls(w[k])} & LOST | {str(x.a[0]) for x in walk(w[k]) if x.op == "bin"}
                    rep.ob(f"{nm}:{k}", NODE(w[k]) and (src in fields(w[k]) or any(name(c) == src for c in calls(w[k]))) and not bad,
                           f"{nm} does not take {k} from the {src} of the logical node ({show(w[k])[:80]})", s.where())
            if nm == "BarrierExec":
                last = lambda v, i: any(x.op == "f" and x.a[1] == i and has_call(x.a[0], "split_last") for x in walk(v))
                rep.ob("BarrierExec:plan", last(w["plan"], "0") and last(w["preconditions"], "1"), "the plan behind a barrier is not the last input", s.where())
    for nm in PLANNED:
        rep.ob(f"{nm}:planned", nm in seen, f"{nm} is not planned any more", f.loc())
    cs = rep.analyse(db, f, watch=shorts("with_fetch", "with_preserve_partitioning", "create_physical_sort_exprs", "create_physical_expr"), skip=lambda p: True).sites
    by = {}
    for s in cs:
        by.setdefault(name(s.short), []).append(s)
    rep.floor("sort operators", len(by.get("with_fetch", [])), 2)
    for s in by.get("with_fetch", []):
        rep.ob("SortExec:fetch", last_field(s.args[1]) == "fetch", "the limit of a sort is not that of the logical node", s.where())
    pp = by.get("with_preserve_partitioning", [])
    rep.ob("SortExec:preserve_partitioning", len(pp) >= 2 and all(is_const(s.args[1], "true") or last_field(s.args[1]) == "preserve_partitioning" for s in pp),
           "whether a sort keeps the partitions is not taken from the logical node", f.loc())
    for s in by.get("create_physical_sort_exprs", []):
        rep.ob("SortExec:expr", any(x.op == "f" and x.a[1] in ("sort_expr", "sort_exprs") for x in walk(s.args[0])) and not {name(c) for c in calls(s.args[0])} & LOST,
               "the order of a sort is not that of the logical node", s.where())
    rep.rule("distribution", "an operator that keeps the order of its input reads one partition of one input in order; operators that match rows by key get all rows of a key in one partition")
    n = 0
    for i in impls_of(db, PLAN):
        nm = i[2].split("::")[-1].split("<")[0]
        m, f = db.fn(i[6].get("maintains_input_order") or ""), db.fn(i[6].get("execute"))
        if m is None or f is None:
            continue
        yes = any(is_const(x, "true") for e, st in rep.analyse(db, m).rets for x in walk(e))
        if not yes:
            continue
        n += 1
        PART = lambda e: unmut(e).op == "arg" and unmut(e).a[0] == 2 or is_const(e, 0)
        ss = [s for s in rep.analyse(db, f, watch=shorts("execute"), skip=lambda p: True).sites if s.short.endswith("ExecutionPlan::execute")]
        rep.ob(f"{nm}:order", bool(ss) and all(PART(s.args[1]) for s in ss), "an operator that mixes partitions says that it keeps the order of its input", m.loc())
    rep.floor("operators that keep the order of their input", n, 9)
    f = db.find("MergeCardinalityCheckExec::required_input_distribution")
    if rep.need(f, "MergeCardinalityCheckExec::required_input_distribution"):
        rs = rep.analyse(db, f).rets
        rep.ob("MergeCardinalityCheckExec:key", bool(rs) and all(single_or_hash(e, "target_row_id_col") for e, st in rs),
               "matches of one target row can be counted in different partitions", f.loc())
    f = db.find("IcebergWriterExec::required_input_distribution")
    if rep.need(f, "IcebergWriterExec::required_input_distribution"):
        rs = rep.analyse(db, f, assume=[av(is_field("merge_distribution_keys"), "+")]).rets
        rep.ob("IcebergWriterExec:key", bool(rs) and all(single_or_hash(e, "merge_distribution_keys") for e, st in rs),
               "rows of one merge key can be written by different partitions", f.loc())
    f = db.find("DeletionVectorRowsWriterExec::required_input_distribution")
    if rep.need(f, "DeletionVectorRowsWriterExec::required_input_distribution"):
        es = [e for g in [f] + inner_fns(db, f) for e, st in rep.analyse(db, g).rets if "Distribution" in str(e)]
        rep.ob("DeletionVectorRowsWriterExec:key", bool(es) and not any("UnspecifiedDistribution" in str(e) for e in es), "deleted rows of one file can be collected in different partitions", f.loc())


def child_of(e, root):
    """position in the captured list `root` an expression takes its value from"""
    for x in walk(e):
        if x.op == "idx" and root in str(x.a[0]) and x.a[1].op == "k":
            return int(str(x.a[1].a[0]).split("_")[0])
        if x.op == "f" and x.a[1].startswith("#") and x.a[1][1:].isdigit() and root in str(x.a[0]):
            return int(x.a[1][1:])
    return None


def single_or_hash(e, key):
    if "UnspecifiedDistribution" in str(e):
        return False
    return "SinglePartition" in str(e) or "HashPartitioned" in str(e) and key in fields(e)
