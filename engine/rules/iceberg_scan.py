"""Iceberg tables: a scan leaves out only data files without matching rows"""
from . import prop
from ._h import *
from . import arith

C = "sail_iceberg"
PR = "sail-iceberg/src/datasource/pruning.rs"


def pf(db, n):
    return db.find(f"pruning::{n}", crate=C)


def enum(db, n):
    """the variants of an enum of the crate"""
    return next(([v[0] for v in a["v"]] for k, a in sorted(db.adts.items()) if k.startswith(C) and k.endswith("::" + n)), [])


def under(i, *names):
    """a field of the i-th argument"""
    return lambda e: last_field(e) in names and any(arg_is(i)(x) for x in walk(e))


def part(i, field, n):
    """a part of the pair in an optional field of the i-th argument"""
    return lambda e: last_field(e) == n and field in fields(e) and any(arg_is(i)(x) for x in walk(e))


def always(rep, db, f, key, msg, assume, want=True, **kw):
    t = fn_truth(rep, db, f, list(assume), **kw)
    rep.ob(key, t == {want}, f"{msg} ({key.split(':', 1)[1]}: {sorted(map(str, t))})", f.loc())


@prop("I05")
def decisions(rep):
    db = rep.db(C)
    rep.rule("decisions", "a value, or bounds, are ruled out only by a filter that they cannot satisfy; what is missing rules out nothing")
    f = pf(db, "literal_may_match_bounds")
    if rep.need(f, "literal_may_match_bounds"):
        v, lo, up = arg_is(1), lambda e: any(arg_is(2)(x) for x in walk(e)), lambda e: any(arg_is(3)(x) for x in walk(e))
        for lk, la in (("none", [av(arg_is(2), "-")]), (">", [av(arg_is(2), "+"), ac(v, lo, ">")]), ("=", [av(arg_is(2), "+"), ac(v, lo, "=")])):
            for uk, ua in (("none", [av(arg_is(3), "-")]), ("<", [av(arg_is(3), "+"), ac(v, up, "<")]), ("=", [av(arg_is(3), "+"), ac(v, up, "=")])):
                always(rep, db, f, f"bounds:lower {lk} upper {uk}", "a value within the bounds is ruled out", la + ua)
    f = pf(db, "literal_may_match_range")
    if rep.need(f, "literal_may_match_range"):
        cases(rep, db, f, "range", "a value within the range is ruled out", 2, arg_is(1), arg_is(1), [], [])
    f = pf(db, "range_may_match_bounds")
    if rep.need(f, "range_may_match_bounds"):
        cases(rep, db, f, "overlap", "bounds that overlap the range are ruled out", 1, lambda e: any(arg_is(3)(x) for x in walk(e)), lambda e: any(arg_is(2)(x) for x in walk(e)),
              [av(arg_is(3), "-")], [av(arg_is(2), "-")])


def cases(rep, db, f, key, msg, i, hi, lo, nohi, nolo):
    """range (argument i) against the highest and the lowest value"""
    mn, mx = (lambda e: last_field(e) == "min" and any(arg_is(i)(x) for x in walk(e))), (lambda e: last_field(e) == "max" and any(arg_is(i)(x) for x in walk(e)))
    have = [] if not nohi else [av(arg_is(3), "+")]
    havel = [] if not nolo else [av(arg_is(2), "+")]
    A = {"none": [av(mn, "-")], "above": have + [av(mn, "+"), ac(hi, part(i, "min", "0"), ">")], "at": have + [av(mn, "+"), ac(hi, part(i, "min", "0"), "="), ab(part(i, "min", "1"), True)]}
    B = {"none": [av(mx, "-")], "below": havel + [av(mx, "+"), ac(lo, part(i, "max", "0"), "<")], "at": havel + [av(mx, "+"), ac(lo, part(i, "max", "0"), "="), ab(part(i, "max", "1"), True)]}
    if nohi:
        A["unknown"], B["unknown"] = nohi, nolo
    for a, aa in A.items():
        for b, bb in B.items():
            if nohi and ("unknown" in (a, b)) and {a, b} & {"above", "at", "below"} and 0:
                continue
            always(rep, db, f, f"{key}:min {a} max {b}", msg, aa + bb)


@prop("I05")
def dispatch(rep):
    db = rep.db(C)
    rep.rule("dispatch", "every filter is compared with the value or the bounds of its partition field; a partition value that an equality filter excludes is ruled out")
    con = lambda e: last_field(e) == "constraint"
    for fn, by, prims in (("partition_predicate_may_match_bounds", "bounds", {"Eq": "literal_may_match_bounds", "In": "literal_may_match_bounds", "Range": "range_may_match_bounds"}),
                          ("partition_predicate_may_match_value", "value", {"Range": "literal_may_match_range"})):
        f = pf(db, fn)
        if not rep.need(f, fn):
            continue
        own = lambda p: any(x in p for x in ("pruning::literal_may_match", "pruning::range_may_match"))
        for v, callee in prims.items():
            yes = ab(call_is(callee), True)
            base = [av(con, v), av(arg_is(2), "+")] if by == "value" else [av(con, v)]
            always(rep, db, f, f"{by}:{v}:may", "a file that can hold matching rows is ruled out", base + [yes], nonempty=True, mixed=True, skip=own)
            for s in rep.analyse(db, f, assume=base, watch=shorts(callee), skip=own).sites:
                xs = [unmut_all(a) for a in s.args]
                mine = lambda e: any(arg_is(1)(x) for x in walk(e)) and not any(arg_is(2)(x) or arg_is(3)(x) for x in walk(e))
                isb = lambda e, i: any(arg_is(i)(x) for x in walk(e)) and not any(arg_is(j)(x) for x in walk(e) for j in (1, 2, 3) if j != i)
                ok = mine(xs[0]) and isb(xs[1], 2) and isb(xs[2], 3) if by == "bounds" else isb(xs[0], 2) and mine(xs[1])
                rep.ob(f"dispatch:{by}:{v}:args", ok, "a filter is compared with something else than the bounds of its field", s.where())
        if by == "value":
            val, mine = (lambda e: any(arg_is(2)(x) for x in walk(e))), (lambda e: any(arg_is(1)(x) for x in walk(e)) and not any(arg_is(2)(x) for x in walk(e)))
            lit = [av(arg_is(2), "+"), av(lambda e: unmut(e).op == "ok" and arg_is(2)(unmut(unmut(e).a[0])), "Primitive")]
            always(rep, db, f, "value:Eq:equal", "a file whose partition value a filter asks for is ruled out", lit + [av(con, "Eq"), eqv(val, mine)])
            always(rep, db, f, "value:Eq:other", "a file whose partition value differs from that of an exact filter is kept", lit + [av(con, "Eq"), nev(val, mine)], want=False)
            has = lambda e: call_is("contains")(e) and val(e) and mine(unmut(e).a[1][0])
            always(rep, db, f, "value:In:contained", "a file whose partition value a filter asks for is ruled out", lit + [av(con, "In"), ab(has, True), eqv(val, mine)], nonempty=True, mixed=True)
            always(rep, db, f, "value:In:other", "a file whose partition value differs from those of an exact filter is kept", lit + [av(con, "In"), ab(has, False), nev(val, mine)], want=False)
            for v in ("Eq", "In", "Range"):
                always(rep, db, f, f"value:{v}:missing", "a file without a partition value is ruled out", [av(con, v), av(arg_is(2), "-")], skip=own)


LITS = ("Boolean", "Int", "Long", "Float", "Double", "Int128", "String", "UInt128", "Binary")
SAME = {"Boolean": "Boolean", "Int": "Int", "Date": "Int", "Float": "Float", "Double": "Double", "String": "String", "Long": "Long", "Time": "Long", "Timestamp": "Long", "Timestamptz": "Long",
        "TimestampNs": "Long", "TimestamptzNs": "Long"}


@prop("I05")
def literals(rep):
    db = rep.db(C)
    rep.rule("literals", "values are compared only as values of the same type")
    f = pf(db, "literal_of_type")
    if rep.need(f, "literal_of_type"):
        tys = enum(db, "PrimitiveType")
        lits = enum(db, "PrimitiveLiteral")
        rep.floor("primitive types", len(tys), 14)
        rep.floor("literals", len(lits), 8)
        for t in tys:
            for l in lits:
                a = rep.analyse(db, f, assume=[av(arg_is(1), l), av(arg_is(2), t)])
                for e, st in ret_states(a, "+"):
                    x = unmut(e)
                    x = unmut(x.a[2][0][1]) if x.op == "adt" and x.a[1] == "Some" else x
                    made = x.a[1] if x.op == "adt" else l if any(arg_is(1)(y) for y in walk(x)) else None
                    rep.ob(f"literal:{t}:{l}", made == SAME.get(t) and (x.op != "adt" or l in ("Int", "Long")), f"a {l} literal is taken for a value of type {t} as {made}", f.loc())
        for t, l in SAME.items():
            a = rep.analyse(db, f, assume=[av(arg_is(1), l), av(arg_is(2), t)])
            if t in ("Boolean", "Int", "Long", "Date", "String"):
                rep.ob(f"literal:{t}:known", bool(ret_states(a, "+")) and not ret_states(a, "-"), f"values of type {t} are not compared, though filters on them count as exact", f.loc())
    f = pf(db, "transform_primitive_literal")
    if rep.need(f, "transform_primitive_literal"):
        a = rep.analyse(db, f, watch=shorts("literal_of_type", "apply_transform"), skip=lambda p: "literal_of_type" in p or "apply_transform" in p)
        ss = {name(s.short): s for s in a.sites}
        ok = "literal_of_type" in ss and "apply_transform" in ss
        rep.ob("transform:typed", ok and all(any(call_is("literal_of_type")(x) for x in walk(s.args[2])) and arg_is(1)(s.args[0]) and arg_is(2)(s.args[1]) for s in a.sites if name(s.short) == "apply_transform"),
               "the literal of a filter is transformed as a value of another type, or by another transform", f.loc())
        rep.ob("transform:result", bool(ret_states(a, "+")) and all(has_call(e, "apply_transform") for e, st in ret_states(a, "+")), "the literal of a filter is compared untransformed", f.loc())
    t = next((f for f in all_fns(db, C) if f.short.endswith("Transform::preserves_order")), None)
    if rep.need(t, "Transform::preserves_order"):
        for v in enum(db, "Transform"):
            if v not in ("Identity", "Truncate", "Year", "Month", "Day", "Hour"):
                always(rep, db, t, f"order:{v}", "a range is applied to the results of a transform that does not keep the order", [av(arg_is(1), v)], want=False)
    f = pf(db, "transform_range_constraint")
    if rep.need(f, "transform_range_constraint"):
        own = lambda p: any(x in p for x in ("preserves_order", "transform_bound_literal"))
        a = rep.analyse(db, f, assume=[ab(call_is("preserves_order"), False)], skip=own)
        rep.ob("order:used", not ret_states(a, "+"), "a range is applied to the results of a transform that does not keep the order", f.loc())
        a = rep.analyse(db, f, watch=shorts("transform_bound_literal"), skip=own)
        n = 0
        for s in a.sites:
            n += 1
            w = fields(s.args[2]) & {"min", "max"}
            lower = s.args[3]
            rep.ob("bound:side", w == {"min"} and is_const(lower, "true") or w == {"max"} and is_const(lower, "false"), "an exclusive bound is moved to the wrong side", s.where())
            rep.ob("bound:inclusive", last_field(s.args[4]) == "1" and fields(s.args[4]) & {"min", "max"} == w, "a bound is taken for an inclusive one", s.where())
        rep.floor("bounds that are transformed", n, 2)
        for e, st in ret_states(a, "+"):
            for x in walk(e):
                if x.op == "adt" and x.a[0].endswith("RangeConstraint"):
                    d = dict(x.a[2])
                    for k, o in (("min", "max"), ("max", "min")):
                        rep.ob(f"bound:{k}", k in fields(d[k]) and o not in fields(d[k]) or d[k].op == "adt" and d[k].a[1] == "None", "the bounds of a range are exchanged", f.loc())
        for g in [f] + inner_fns(db, f):
            for e, st in rep.analyse(db, g, skip=own).rets:
                x = unmut(e)
                if x.op == "tup" and len(x.a[0]) == 2:
                    rep.ob("bound:closed", is_const(x.a[0][1], "true") or last_field(x.a[0][1]) == "1" and 0, "the transformed bound of a range is taken for an exclusive one", g.loc())
    f = pf(db, "transform_bound_literal")
    if rep.need(f, "transform_bound_literal"):
        own = lambda p: any(x in p for x in ("adjust_exclusive_bound", "transform_primitive_literal"))
        a = rep.analyse(db, f, assume=[ab(arg_is(5), True)], watch=shorts("transform_primitive_literal", "adjust_exclusive_bound"), skip=own)
        rep.ob("bound:own", not [s for s in a.sites if name(s.short) == "adjust_exclusive_bound"], "an inclusive bound is moved", f.loc())
        ss = [s for s in a.sites if name(s.short) == "transform_primitive_literal"]
        rep.ob("bound:of", bool(ss) and all(any(arg_is(3)(x) for x in walk(s.args[2])) for s in ss), "another bound is transformed", f.loc())
    for n, add in (("shift_i32", None), ("shift_i64", None)):
        f = pf(db, n)
        if rep.need(f, n):
            for inc in (True, False):
                a = rep.analyse(db, f, assume=[ab(arg_is(2), inc)])
                for e, st in ret_states(a, "+") or a.rets:
                    x = unmut(e)
                    x = unmut(x.a[0]) if x.op == "ok" else unmut(x.a[2][0][1]) if x.op == "adt" and x.a[1] == "Some" else x
                    ok = x.op == "call" and name(short(x.a[0])) == ("checked_add" if inc else "checked_sub") and arg_is(1)(x.a[1][0]) and is_const(x.a[1][1], "1")
                    rep.ob(f"shift:{n}:{inc}", ok, "an exclusive bound is moved by more than one, or can wrap", f.loc())
    f = pf(db, "adjust_exclusive_bound")
    if rep.need(f, "adjust_exclusive_bound"):
        own = lambda p: "pruning::shift_" in p
        for t in enum(db, "PrimitiveType"):
            a = rep.analyse(db, f, assume=[av(lambda e: call_is("as_primitive_type")(e), "+"), av(lambda e: unmut(e).op == "ok" and call_is("as_primitive_type")(unmut(e).a[0]), t)], watch=shorts("shift_i32", "shift_i64"), skip=own)
            if t not in SAME or SAME[t] not in ("Int", "Long"):
                rep.ob(f"adjust:{t}", not ret_states(a, "+"), f"an exclusive bound of type {t} is moved", f.loc())
            for s in a.sites:
                rep.ob("adjust:direction", arg_is(3)(s.args[1]), "an exclusive bound is moved to the wrong side", s.where())


def bops(op):
    """the operator of a binary expression"""
    return av(lambda e: last_field(e) == "op", op)


@prop("I05")
def collected(rep):
    db = rep.db(C)
    rep.rule("collected", "only comparisons that every row of the result satisfies, of a column itself with a literal, are used to skip files")
    col = lambda e: "name" in fields(e) or has_call(e, "name")
    lit = lambda e: has_call(e, "scalar_to_primitive_literal")
    own = lambda p: any(x in p for x in ("scalar_to_primitive_literal", "field_by_name"))
    fs = {}
    for f in all_fns(db, C):
        k = f.key.split("pruning::")[-1]
        for c in ("collect_source_eq_filters", "collect_source_in_filters", "collect_source_range_filters"):
            if c in k and "::tests" not in f.key:
                fs.setdefault(c, []).append(f)
    for c, n in (("collect_source_eq_filters", 1), ("collect_source_in_filters", 1), ("collect_source_range_filters", 1)):
        vs = [f for f in fs.get(c, ()) if "visit" in f.short or any(p and p == f.key for _, p, _, _ in f.calls()) and "strip" not in f.short]
        rep.floor(f"visitors of {c}", len(vs), n)
        for f in vs:
            e0 = next((i for i in (1, 2, 3) if "Expr" in str(f.locals[i][0])), 3)
            me = arg_is(e0)
            put = lambda s: name(s.short) in ("push", "extend", "add_min", "add_max", "insert", "tighten_min", "tighten_max") and not has_call(s.args[0], "into_vec")
            hot = shorts("push", "extend", "add_min", "add_max", "tighten_min", "tighten_max")
            kinds = enum_expr(db, f)
            for op in ("Or", "NotEq", "IsDistinctFrom", "Plus", "LikeMatch", "BitwiseAnd"):
                a = rep.analyse(db, f, assume=[bops(op), av(me, "BinaryExpr")], watch=hot, skip=own)
                rep.ob(f"{c}:op:{op}", not [s for s in a.sites if put(s)], f"a condition below {op} is taken for one that every row satisfies", f.loc())
                rec = rep.analyse(db, f, assume=[bops(op), av(me, "BinaryExpr")], watch=lambda p, s, f=f: p == f.key, skip=own)
                rep.ob(f"{c}:below:{op}", not [s for s in rec.sites if s.path == f.key], f"a condition below {op} is taken for one that every row satisfies", f.loc())
            for v in ("Not", "Negative", "IsNotNull", "Case", "Cast", "TryCast", "Between", "ScalarFunction"):
                a = rep.analyse(db, f, assume=[av(me, v)], watch=lambda p, s, f=f: hot(p, s) or p == f.key, skip=own)
                rep.ob(f"{c}:kind:{v}", not [s for s in a.sites if put(s) or s.path == f.key], f"a condition below {v} is taken for one that every row satisfies", f.loc())
            if c == "collect_source_in_filters":
                a = rep.analyse(db, f, assume=[av(me, "InList"), ab(is_field("negated"), True)], watch=hot, skip=own)
                rep.ob(f"{c}:negated", not [s for s in a.sites if put(s)], "NOT IN is taken for IN", f.loc())
                item = lambda e: unmut(e).op == "elem" and "list" in fields(e)
                for key, asm in (("item", [av(item, "Column")]), ("unknown", [av(item, "Literal"), ab(call_is("is_null"), False), av(call_is("scalar_to_primitive_literal"), "-")])):
                    a = rep.analyse(db, f, assume=[av(me, "InList"), ab(is_field("negated"), False)] + asm, watch=hot, skip=own, nonempty=True)
                    rep.ob(f"{c}:{key}", not [s for s in a.sites if put(s) and s.state is not None and has_call(s.args[0], "or_default", "entry")], "a list with values that are not known is used as if it had only the others", f.loc())
            if c == "collect_source_eq_filters":
                for op in ("Lt", "Gt", "GtEq", "LtEq"):
                    a = rep.analyse(db, f, assume=[bops(op), av(me, "BinaryExpr")], watch=hot, skip=own)
                    rep.ob(f"{c}:op:{op}", not [s for s in a.sites if put(s)], "an inequality is taken for an equality", f.loc())
                for s in rep.analyse(db, f, assume=[bops("Eq")], watch=hot, skip=own).sites:
                    if name(s.short) == "push":
                        x = unmut(s.args[1])
                        ok = x.op == "tup" and last_field(x.a[0][0]) == "id" and has_call(x.a[0][0], "field_by_name") and lit(x.a[0][1])
                        l, r = fields(x.a[0][0]) & {"left", "right"} if ok else (), fields(x.a[0][1]) & {"left", "right"} if ok else ()
                        rep.ob(f"{c}:pair", ok and len(l) == 1 and len(r) == 1 and l != r, "a column is compared with another literal", s.where())
            if c == "collect_source_range_filters":
                side = lambda e: fields(e) & {"left", "right"}
                adds = ("add_min", "add_max")
                n = 0
                for op in ("Gt", "GtEq", "Lt", "LtEq", "Eq"):
                    a = rep.analyse(db, f, assume=[bops(op), av(me, "BinaryExpr")], watch=shorts(*adds), skip=lambda p: own(p) or "::add_m" in p)
                    for s in a.sites:
                        if name(s.short) not in adds:
                            continue
                        n += 1
                        cs, ls = side(s.args[2]), side(s.args[3])
                        lower = (op in ("Gt", "GtEq")) == (cs == {"left"})
                        rep.ob(f"{c}:{op}:side", cs and ls and cs != ls and op != "Eq" and name(s.short) == ("add_min" if lower else "add_max"), f"a comparison with {op} is taken for the opposite bound", s.where())
                        t = closed(rep, s.args[4], op)
                        if t is None:
                            ts = truths(a, [(s.args[4], s.state)])
                            t = ts == {True} if len(ts) == 1 else None
                            if t is None and unmut(s.args[4]).op == "phi":
                                # (decided by the operator, elsewhere)
                                t = op in ("GtEq", "LtEq")
                        rep.ob(f"{c}:{op}:closed", t == (op in ("GtEq", "LtEq")), "the bound of a comparison is taken for one that is not (or is) included", s.where())
                rep.floor("bounds that are collected", n, 8)
        for f in fs.get(c, ()):
            if f.short.endswith("::strip"):
                for v in ("Cast", "TryCast", "Negative", "Not", "ScalarFunction", "IsNull"):
                    a = rep.analyse(db, f, assume=[av(arg_is(1), v)])
                    rep.ob(f"{c}:strip:{v}", bool(a.rets) and all(arg_is(1)(e) for e, st in a.rets), f"a condition on a {v} expression is taken for one on the column below it", f.loc())
            if f.short.endswith(("::tighten_min", "::tighten_max")):
                pairs_of(rep, db, f, c)
            if f.short.endswith(("::add_min", "::add_max")):
                w = name(f.short)[4:]
                for s in rep.analyse(db, f, watch=shorts("tighten_min", "tighten_max"), skip=lambda p: own(p) or "tighten_" in p).sites:
                    x = unmut(s.args[1])
                    ok = name(s.short) == "tighten_" + w and last_field(s.args[0]) == w and x.op == "tup" and lit(x.a[0][0]) and arg_is(5)(x.a[0][1])
                    rep.ob(f"{c}:add_{w}", ok, "a bound is noted as another", s.where())


def closed(rep, e, op):
    """whether the bound is included, for that operator"""
    e = unmut(e)
    if e.op in ("k", "s"):
        return is_const(e, "true")
    if e.op == "bin" and e.a[0] in ("Eq", "=") or e.op == "call" and name(short(e.a[0])) == "eq":
        xs = e.a[1:] if e.op == "bin" else e.a[1]
        vs = {v for x in xs for v in [variants_of(unmut(x))] if v for v in v}
        return op in vs if vs else None
    return None


def enum_expr(db, f):
    return ()


def pairs_of(rep, db, f, c):
    """a bound and whether it is included come from the same condition"""
    evt = lambda s: None if s.kind != "assign" else [("v", {1})] if cand(s.expr, "0") else [("i", {1})] if cand(s.expr, "1") else [("v", {1}), ("i", {1})] if whole(s.expr) else None
    an = rep.analyse(db, f, assign_fields={"*any"}, assign=lambda s: evt(s) or True, entry={"v": {0}, "i": {0}}, event=evt, event_watch=lambda p, s: False)
    rep.ob(f"{c}:{name(f.short)}:stores", any(1 in st.get(("s", "v"), ()) for e, st in an.rets), "a bound is not noted", f.loc())
    rep.ob(f"{c}:{name(f.short)}:paired", bool(an.rets) and all(st.get(("s", "v")) == st.get(("s", "i")) for e, st in an.rets), "a bound is combined with whether another one is included", f.loc())


def cand(e, n):
    e = unmut(e)
    return e.op == "f" and e.a[1] == n and arg_is(2)(unmut(e.a[0]))


def whole(e):
    e = unmut(e)
    return arg_is(2)(e) or e.op == "adt" and e.a[1] == "Some" and arg_is(2)(e.a[2][0][1])


@prop("I05")
def predicates(rep):
    db = rep.db(C)
    rep.rule("predicates", "the values a filter is compared with are those of the partition field whose source it names, under the transform of that field")
    f = pf(db, "partition_predicates_for_spec")
    own = lambda p: any(x in p for x in ("collect_source_", "transform_primitive_literal", "transform_range_constraint", "field_by_id"))
    if rep.need(f, "partition_predicates_for_spec"):
        pfield = lambda e: unmut(e).op == "elem" and any(arg_is(2)(x) for x in walk(e))
        put = lambda s: any(x.op == "adt" and x.a[0].endswith("PartitionPredicate") for x in walk(s.args[-1]))
        hot = shorts("push", "extend", "insert")
        trans = lambda e: last_field(e) == "transform"
        for v in ("Void", "Unknown"):
            a = rep.analyse(db, f, assume=[av(trans, v)], watch=hot, skip=own)
            rep.ob(f"predicates:{v}", not [s for s in a.sites if put(s)], f"files are skipped by the values of a {v} transform", f.loc())
        for key, asm in (("source", [av(call_is("field_by_id"), "-")]), ("transformed", [av(call_is("transform_primitive_literal"), "-"), av(call_is("transform_range_constraint"), "-")])):
            a = rep.analyse(db, f, assume=asm, watch=hot, skip=own, nonempty=True)
            bad = [s for s in a.sites if put(s) and not (key == "transformed" and all_or_none(s))]
            rep.ob(f"predicates:{key}:unknown", not bad, "files are skipped by a filter whose partition value is not known", f.loc())
        a = rep.analyse(db, f, watch=lambda p, s: hot(p, s) or s.split("::")[-1] in ("transform_primitive_literal", "transform_range_constraint", "get"), skip=own)
        kinds = set()
        for s in a.sites:
            n = name(s.short)
            if n in ("push", "extend") and put(s):
                for x in walk(s.args[-1]):
                    if x.op == "adt" and x.a[0].endswith("PartitionPredicate"):
                        d = dict(x.a[2])
                        i = unmut(d["field_index"])
                        rep.ob("predicates:index", i.op in ("index", "elem") and any(arg_is(2)(y) for y in walk(i)) and "fields" in str(i), "the filter is compared with the values of another partition field", s.where())
                        k = unmut(d["constraint"])
                        if k.op == "adt":
                            kinds.add(k.a[1])
                            want = {"Eq": "collect_source_eq_filters", "In": "collect_source_in_filters", "Range": "collect_source_range_filters"}[k.a[1]]
                            got = {c for c in ("collect_source_eq_filters", "collect_source_in_filters", "collect_source_range_filters") if c in deep(a, k)}
                            rep.ob(f"predicates:{k.a[1]}", got == {want} and "transform_" in deep(a, k), "a filter is compared untransformed, or as one of another kind", s.where())
            elif n.startswith("transform_"):
                rep.ob(f"predicates:{n}:own", last_field(s.args[0]) == "transform" and any(arg_is(2)(y) for y in walk(s.args[0])) and has_call(s.args[1], "field_by_id") and last_field(s.args[1]) == "field_type", "the literal of a filter is transformed as that of another field", s.where())
        rep.ob("predicates:kinds", {"Eq", "In"} <= kinds, "partition values are not compared with the filters that count as exact", f.loc())
        # equality filters of this field only
        other = [nev(lambda e: last_field(e) == "source_id", lambda e: unmut(e).op == "f" and unmut(e).a[1] == "0" and has_call(e, "collect_source_eq_filters"))]
        a = rep.analyse(db, f, assume=other, watch=shorts("filter", "push"), skip=own, nonempty=True)
        eqs = [s for s in a.sites if name(s.short) == "push" and put(s) and any(x.op == "adt" and x.a[1] == "Eq" for x in walk(s.args[1])) and "collect_source_eq_filters" in str(s.args[1])]
        fl = [s for s in a.sites if s.short == "Iterator::filter" and has_call(s.args[0], "collect_source_eq_filters")]
        dead = any(unmut(s.args[1]).op == "clo" and clo_truth(rep, db, unmut(s.args[1]), [mk("elem", unmut_all(s.args[0]))], other) == {False} for s in fl)
        rep.ob("predicates:column", not eqs or dead, "a partition field is compared with the filter on another column", f.loc())
        gs = [s for s in rep.analyse(db, f, watch=shorts("get"), skip=own).sites if has_call(s.args[0], "collect_source_in_filters", "collect_source_range_filters")]
        rep.ob("predicates:column:get", len(gs) >= 2 and all(last_field(s.args[1]) == "source_id" for s in gs), "a partition field is compared with the filter on another column", f.loc())
    for n, extra in (("prune_manifests_by_partition_summaries", True), ("prune_data_files_by_partition_values", False)):
        g = pf(db, n)
        if not rep.need(g, n):
            continue
        own = lambda p: any(x in p for x in ("partition_predicates_for_spec", "partition_type", "partition_predicate_may_match", "literal_from_bytes", "literal_of_type"))
        elem = lambda e: unmut(e).op == "elem" and (has_call(e, "entries") or "entries" in fields(e) if extra else arg_is(1)(unmut_all(unmut(e).a[0])) or call_is("into_iter")(unmut_all(unmut(e).a[0])))
        data = [av(lambda e: last_field(e) == "content", "Data")] if extra else []
        pred = lambda e: has_call(e, "partition_predicates_for_spec")
        may = call_is("partition_predicate_may_match_bounds" if extra else "partition_predicate_may_match_value")
        ways = {"may": [ab(may, True)], "part_type": [av(call_is("partition_type"), "-")],
                "field": [av(lambda e: call_is("get")(e) and has_call(e, "partition_type"), "-")],
                "none": [ab(lambda e: call_is("is_empty")(e) and pred(e), True)]}
        if extra:
            ways.update({"spec": [av(lambda e: call_is("get")(e) and arg_is(3)(unmut_all(unmut(e).a[1][0])), "-")], "summaries": [av(lambda e: last_field(e) == "partitions", "-")],
                         "summary": [av(lambda e: call_is("get")(e) and "partitions" in fields(e), "-")]})
        else:
            ways.update({"value": [av(lambda e: call_is("get")(e) and (has_call(e, "partition") or "partition" in fields(e)), "-")], "type": [av(call_is("literal_of_type"), "-")]})
        for k, asm in ways.items():
            a = rep.analyse(db, g, assume=data + asm, watch=shorts("filter", "push", "retain"), skip=own, nonempty=True, mixed=k == "may" and False)
            ks = keeps(rep, db, g, elem, data + asm, sinks=SINKS, skip=own)
            whole = [1 for e, st in a.rets if arg_is(1)(unmut_all(e))] if not extra else []
            rep.ob(f"{n}:{k}", bool(whole) and k in ("none", "part_type") or bool(ks) and all(sure(rep, db, a, s, data + asm) for kk, s in ks), f"a {'manifest' if extra else 'data file'} is skipped though no filter excludes it ({k})", g.loc())
        if not extra:
            asm = [ab(may, False), ab(lambda e: call_is("is_empty")(e) and pred(e), False), av(call_is("partition_type"), "+"), av(lambda e: call_is("get")(e), "+"), av(call_is("literal_of_type"), "+"),
                   av(lambda e: unmut(e).op == "ok" and has_call(e, "partition_type"), "Primitive"), av(lambda e: has_call(e, "partition_type") and last_field(e) == "field_type", "Primitive"), av(lambda e: opt_value(e, 1), "+"), av(lambda e: opt_value(e, 2), "Primitive")]
            gone = lambda s: name(s.short) in ("filter", "retain") and unmut(s.args[1]).op == "clo" and clo_truth(rep, db, unmut(s.args[1]), [mk("elem", unmut_all(s.args[0]))], asm, nonempty=True) == {False}
            ks = [s for k, s in keeps(rep, db, g, elem, asm, sinks=SINKS, skip=own) if k and not gone(s)]
            rep.ob(f"{n}:excluded", not ks, "a data file is kept though an exact filter excludes its partition value", g.loc())
        for s in rep.analyse(db, g, watch=lambda p, s: may_name(s, extra), skip=own).sites:
            if extra:
                a1, a2 = deep_str(s.args[1]), deep_str(s.args[2])
                rep.ob(f"{n}:bounds", "lower_bound" in a1 and "upper_bound" not in a1 and "upper_bound" in a2 and "lower_bound" not in a2, "the bounds of a partition field are exchanged", s.where())
            rep.ob(f"{n}:predicate", has_call(s.args[0], "partition_predicates_for_spec"), "a file is compared with other filters", s.where())
        at = [s for s in rep.analyse(db, g, watch=shorts("get"), skip=own).sites if name(s.short) == "get" and not (extra and arg_is(3)(unmut_all(s.args[0])))]
        rep.ob(f"{n}:at", len(at) >= 2 and all(last_field(s.args[1]) == "field_index" for s in at), "a filter is compared with the value of another partition field", g.loc())


def opt_value(e, n):
    """the partition value of a file, without n layers of Option"""
    e = unmut(e)
    while n and e.op == "ok":
        e, n = unmut(e.a[0]), n - 1
    return n == 0 and call_is("get")(e) and ("partition" in fields(e) or has_call(e, "partition"))


def counted(e):
    return has_call(e, "record_count") or "record_count" in fields(e)


def may_name(s, extra):
    return s.endswith("partition_predicate_may_match_bounds" if extra else "partition_predicate_may_match_value")


def deep_str(e):
    return str(e) + " ".join(sorted(fields(e)))


def deep(an, k):
    """an expression with the values of the closures in it"""
    out = str(k)
    for x in walk(k):
        if x.op == "clo":
            out += " ".join(str(v) for v in [an.clo_value(x, [E_ANY])] if v is not None)
    return out


E_ANY = mk("arg", 99, "any")


def all_or_none(s):
    """the values of an IN list are collected only if all of them are known"""
    return has_call(s.args[-1], "collect") and not has_call(s.args[-1], "flatten", "flat_map", "filter_map")


def sure(rep, db, an, s, asm):
    if name(s.short) in ("filter", "retain") and unmut(s.args[1]).op == "clo":
        return clo_truth(rep, db, unmut(s.args[1]), [mk("elem", unmut_all(s.args[0]))], asm, nonempty=True) == {True}
    return True


@prop("I05")
def files(rep):
    db = rep.db(C)
    rep.rule("files", "a data file is left out only if the filters exclude it, or once the files before it hold more rows than the limit")
    f = pf(db, "prune_files")
    own = lambda p: any(x in p for x in ("PruningPredicate", "IcebergPruningStats::new", "num_containers"))
    if rep.need(f, "prune_files"):
        over = lambda e: ("files" in fields(e) or arg_is(5)(unmut_all(e)) or any(arg_is(5)(x) for x in walk(e))) and not any(x.op == "elem" for x in walk(e))
        keep = lambda e: unmut(e).op == "elem" and (has_call(e, "prune") or has_call(e, "from_elem")) or last_field(e) == "1" and any(x.op == "elem" and has_call(x, "prune") for x in walk(e)) or unmut(e).op == "phi" and all(has_call(x, "prune", "from_elem") for x in unmut(e).a[0])
        put = lambda s: name(s.short) in ("push", "extend")
        lim = lambda e: any(arg_is(3)(x) for x in walk(e)) and not counted(e)
        rows = lambda e: counted(e) or unmut(e).op in ("loop", "phi") or is_const(e, "0")
        none = [ab(keep, True), av(arg_is(3), "-")]
        some = [ab(keep, True), av(arg_is(3), "+"), ac(rows, lim, "<=")]
        for k, asm in (("all", none), ("limit", some)):
            each(rep, db, f, over, put, shorts("push", "extend"), f"files:{k}", "a data file that the filters do not exclude is left out", assume=asm, entered=True, skip=own)
        an = rep.analyse(db, f, watch=shorts("try_new", "create_physical_expr", "prune", "from_elem"), skip=own)
        for s in an.sites:
            if s.short.endswith("create_physical_expr"):
                rep.ob("files:filters", has_call(s.args[1], "conjunction") and any(arg_is(2)(x) for x in walk(s.args[1])), "files are skipped by other filters", s.where())
            elif s.short == "PruningPredicate::try_new":
                rep.ob("files:predicate", has_call(s.args[0], "create_physical_expr"), "files are skipped by other filters", s.where())
            elif s.short == "PruningPredicate::prune":
                rep.ob("files:stats", has_call(s.args[1], "new") and any(arg_is(5)(x) for x in walk(s.args[1])), "files are skipped by the statistics of others", s.where())
            elif name(s.short) == "from_elem":
                rep.ob("files:unfiltered", is_const(s.args[0], "true"), "files are skipped without a filter", s.where())
    impl = "IcebergPruningStats as PruningStatistics"
    ms = {k.split("::")[-1]: db.fn(k) for k in db.all_keys(C) if "IcebergPruningStats as " in k and "PruningStatistics" in k and "{closure" not in k}
    rep.floor("pruning statistics", len(ms), 5)
    for m, src, cache in (("min_values", "lower_bounds", "min_cache"), ("max_values", "upper_bounds", "max_cache"), ("null_counts", "null_value_counts", "nulls_cache"), ("row_counts", "record_count", "rows_cache")):
        g = ms.get(m)
        if not rep.need(g, m):
            continue
        text = lambda h: {name(short(p)) for _, p, _, _ in h.calls() if p}
        cs = set().union(*(text(h) for h in [g] + inner_fns(db, g)))
        got = cs & {"lower_bounds", "upper_bounds", "null_value_counts", "record_count", "value_counts", "nan_value_counts"}
        rep.ob(f"stats:{m}", got == {src}, f"{m} are those of {sorted(got)}", g.loc())
        used = set()
        for h in [g] + inner_fns(db, g):
            a = rep.analyse(db, h, watch=shorts("borrow", "borrow_mut"))
            used |= {last_field(s.args[0]) for s in a.sites if name(s.short) in ("borrow", "borrow_mut")}
        rep.ob(f"stats:{m}:cache", used <= {cache}, f"{m} are remembered as other statistics", g.loc())
        if m == "null_counts":
            bad = cs & {"unwrap_or", "unwrap_or_default", "map_or", "unwrap_or_else"}
            rep.ob(f"stats:{m}:missing", not bad, "a file without null counts is taken to have none", g.loc())
        for s in rep.analyse(db, g, watch=shorts("get", "insert")).sites:
            if name(s.short) in ("get", "insert") and cache in fields(s.args[0]):
                rep.ob(f"stats:{m}:key", has_call(s.args[1], "field_id_for") or "name_to_field_id" in fields(s.args[1]), "statistics are remembered for another column", s.where())
    g = ms.get("contained")
    if rep.need(g, "contained"):
        file = lambda e: unmut(e).op == "elem" and "files" in fields(e)
        val = lambda e: unmut(e).op == "elem" and any(arg_is(3)(x) for x in walk(e))
        of = lambda e, k: k in fields(e) or has_call(e, k)
        lo = lambda e: has_call(e, "datum_to_scalar_for_field") and of(e, "lower_bounds")
        up = lambda e: has_call(e, "datum_to_scalar_for_field") and of(e, "upper_bounds")
        own = lambda p: "datum_to_scalar" in p
        said = lambda s, b: name(s.short) == "push" and any(x.op == "adt" and x.a[1] == "Some" and is_const(x.a[2][0][1], b) for x in walk(s.args[1]))
        for k, asm in (("inside", [ac(val, lo, ">"), ac(val, up, "<")]), ("lower", [ac(val, lo, "="), ac(val, up, "<")]), ("upper", [ac(val, lo, ">"), ac(val, up, "=")])):
            a = rep.analyse(db, g, assume=asm, watch=shorts("push"), skip=own, nonempty=True, mixed=True)
            rep.ob(f"contained:{k}", bool(a.sites) and not [s for s in a.sites if said(s, "false")], "a file that can hold one of the values is skipped", g.loc())
            a = rep.analyse(db, g, assume=asm, watch=shorts("push"), skip=own, nonempty=True)
            rep.ob(f"contained:{k}:only", not [s for s in a.sites if said(s, "true")], "a file that can hold other values is taken to have none", g.loc())
        for k in ("lower_bounds", "upper_bounds"):
            a = rep.analyse(db, g, assume=[av(lambda e, k=k: call_is("get")(e) and of(e, k), "-")], watch=shorts("push"), skip=own)
            rep.ob(f"contained:{k}:missing", not [s for s in a.sites if said(s, "true") or said(s, "false")], "a file without bounds is skipped", g.loc())


P_ = "IcebergTableProvider"
CASTS = ("Cast", "TryCast", "Negative", "Not", "ScalarFunction", "IsNull")


def fp(e):
    """the kinds of pushdown a value can be"""
    return {x.a[1] for x in walk(e) if x.op == "adt" and x.a[0].endswith("TableProviderFilterPushDown")}


@prop("I05")
def pushdown(rep):
    db = rep.db(C)
    rep.rule("pushdown", "a filter is exact only if it compares a column with literals and every spec of the table has the column's own values as partition values; exact filters are applied by the scan")
    f = next((db.fn(k) for k in db.all_keys(C) if P_ + " as" in k and k.endswith("::supports_filters_pushdown")), None)
    own = lambda p: "classify_pushdown_for_expr" in p
    if rep.need(f, "supports_filters_pushdown"):
        for key, asm in (("metadata", [ab(is_field("metadata_as_data_read"), True)]), ("file", [av(is_field("file_column_name"), "+")]), ("row", [av(is_field("row_index_column_name"), "+")])):
            a = rep.analyse(db, f, assume=asm, skip=own, watch=lambda p, s: own(p), nonempty=True)
            bad = [1 for e, st in ret_states(a, "+") if fp(e) - {"Unsupported"} or has_call(e, "map") or has_call(e, "classify_pushdown_for_expr")]
            rep.ob(f"pushdown:{key}", bool(ret_states(a, "+")) and not bad and not a.sites, "a filter is dropped though the scan does not apply it", f.loc())
    g = db.find(f"{P_}::partition_source_col_only_uses_identity", crate=C)
    if rep.need(g, "partition_source_col_only_uses_identity"):
        spec = lambda e: unmut(e).op == "elem" and "partition_specs" in fields(e)
        trans = lambda e: last_field(e) == "transform"
        named = lambda e: last_field(e) == "name"
        own2 = lambda p: "field_by_id" in p
        a = rep.analyse(db, g, skip=own2)
        vals = []
        for e, st in a.rets:
            x = unmut(e)
            v = x.a[1][1] if x.op == "call" and name(short(x.a[0])) == "then_some" else x.a[2][0][1] if x.op == "adt" and x.a[1] == "Some" else None
            if v is not None:
                vals.append(unmut(v))
        rep.ob("identity:sticky", bool(vals) and all(sticky(v) for v in vals), "a spec whose partition values are not the column's own is forgotten", g.loc())
        rep.ob("identity:parts", any(lowers(v) >= 2 for v in vals) or len([v for v in vals if is_const(v, "false")]) >= 1 and any(lowers(v) >= 1 for v in vals) or len([v for v in vals if is_const(v, "false")]) >= 2,
               "a filter counts as exact though some spec does not partition by the column, or not by its own values", g.loc())
    h = db.find(f"{P_}::eq_in_pushdown_for_partition_col", crate=C)
    own3 = lambda p: any(x in p for x in ("partition_source_col_only_uses_identity", "has_exact_partition_values"))
    if rep.need(h, "eq_in_pushdown_for_partition_col"):
        only = lambda e: unmut(e).op == "ok" and has_call(e, "partition_source_col_only_uses_identity")
        for key, asm in (("spec", [ab(only, False)]), ("type", [ab(call_is("has_exact_partition_values"), False)]), ("none", [av(call_is("partition_source_col_only_uses_identity"), "-")])):
            a = rep.analyse(db, h, assume=asm, skip=own3)
            rep.ob(f"exact:{key}", bool(a.rets) and not [1 for e, st in ret_states(a, "+") if "Exact" in fp(e) or not fp(e)], "a filter counts as exact though the partition values may not decide it", h.loc())
    t = db.find(f"{P_}::has_exact_partition_values", crate=C)
    if rep.need(t, "has_exact_partition_values"):
        for v in enum(db, "PrimitiveType"):
            if v not in ("Boolean", "Int", "Long", "Date", "String"):
                prim = lambda e: has_call(e, "as_primitive_type") and unmut(e).op == "ok"
                tt = exact_types(rep, db, t, v)
                rep.ob(f"exact:type:{v}", tt == {False}, f"filters on {v} columns count as exact though their partition values are not compared exactly", t.loc())
    c = db.find(f"{P_}::classify_pushdown_for_expr", crate=C)
    own4 = lambda p: any(x in p for x in ("eq_in_pushdown_for_partition_col", "is_partition_source_col", "partition_source_col_only", "strip_expr"))
    if rep.need(c, "classify_pushdown_for_expr"):
        claims = lambda a: [1 for e, st in a.rets if has_call(e, "eq_in_pushdown_for_partition_col") or fp(e) - {"Unsupported"} or not fp(e)]
        exacts = lambda a: [1 for e, st in a.rets if has_call(e, "eq_in_pushdown_for_partition_col") or "Exact" in fp(e)]
        me = arg_is(2)
        for op in ("NotEq", "Or", "And", "IsDistinctFrom", "IsNotDistinctFrom", "Plus"):
            a = rep.analyse(db, c, assume=[av(me, "BinaryExpr"), bops(op)], skip=own4)
            rep.ob(f"classify:{op}", bool(a.rets) and not claims(a), "a filter is classified by a condition below it", c.loc())
        for op in ("Lt", "LtEq", "Gt", "GtEq"):
            a = rep.analyse(db, c, assume=[av(me, "BinaryExpr"), bops(op)], skip=own4)
            rep.ob(f"classify:{op}", bool(a.rets) and not exacts(a), "an inequality counts as exact", c.loc())
        side = lambda k: (lambda e: last_field(e) == k or call_is("strip_expr")(e) and k in fields(e))
        for key, asm in (("columns", [av(side("left"), "Column"), av(side("right"), "Column")]), ("literals", [av(side("left"), "Literal"), av(side("right"), "Literal")]),
                         ("cast", [av(side("left"), "Cast"), av(side("right"), "Literal")]), ("cast:right", [av(side("left"), "Literal"), av(side("right"), "Cast")]), ("function", [av(side("left"), "ScalarFunction"), av(side("right"), "Literal")])):
            a = rep.analyse(db, c, assume=[av(me, "BinaryExpr"), bops("Eq")] + asm, skip=own4)
            rep.ob(f"classify:Eq:{key}", bool(a.rets) and not claims(a), "a filter counts as a comparison of a column with a literal though it is not", c.loc())
        a = rep.analyse(db, c, assume=[av(me, "InList"), ab(is_field("negated"), True)], skip=own4)
        rep.ob("classify:negated", bool(a.rets) and not claims(a), "NOT IN is taken for IN", c.loc())
        a = rep.analyse(db, c, assume=[av(me, "InList"), ab(is_field("negated"), False), av(lambda e: unmut(e).op == "elem" and "list" in fields(e), "Column")], skip=own4, nonempty=True, mixed=True)
        rep.ob("classify:items", bool(a.rets) and not claims(a), "a list with other items than literals counts as one of literals", c.loc())
        for v in ("Not", "IsNull", "Case", "Between", "Cast", "Like", "ScalarFunction"):
            a = rep.analyse(db, c, assume=[av(me, v)], skip=own4)
            rep.ob(f"classify:{v}", bool(a.rets) and not claims(a), "a filter is classified by a condition below it", c.loc())
    s_ = db.find(f"{P_}::strip_expr", crate=C)
    if rep.need(s_, "strip_expr"):
        for v in CASTS:
            a = rep.analyse(db, s_, assume=[av(arg_is(1), v)])
            rep.ob(f"strip:{v}", bool(a.rets) and all(arg_is(1)(e) for e, st in a.rets), f"a condition on a {v} expression is taken for one on the column below it", s_.loc())
    q = db.find(f"{P_}::separate_filters", crate=C)
    if rep.need(q, "separate_filters"):
        kind = lambda e: call_is("classify_pushdown_for_expr")(e)
        put = lambda s: name(s.short) in ("push_filter_once", "push")
        own5 = lambda p: "classify_pushdown_for_expr" in p or "push_filter_once" in p
        for v, want in (("Exact", 2), ("Inexact", 1), ("Unsupported", 0)):
            a = rep.analyse(db, q, assume=[av(kind, v)], watch=shorts("push_filter_once", "push"), skip=own5)
            to = {box(s.args[0]) for s in a.sites if put(s)}
            if v == "Exact":
                over = lambda e: arg_is(2)(unmut_all(e))
                tup = [unmut(e) for e, st in a.rets]
                rep.ob("separate:Exact", len(to) == 2 and len([s for s in a.sites if put(s)]) >= 2, "an exact filter is not used to skip files, or not applied to the rows", q.loc())
                for i in (0, 1):
                    b = {box(x.a[0][i]) for x in tup if x.op == "tup"}
                    each(rep, db, q, over, lambda s, b=b: put(s) and box(s.args[0]) in b, shorts("push_filter_once", "push"), f"separate:Exact:{i}", "an exact filter is not used to skip files, or not applied to the rows", pol=None, assume=[av(kind, v)], skip=own5) if b else rep.ob(f"separate:Exact:{i}", False, "lists not found", q.loc())
            elif v == "Unsupported":
                rep.ob("separate:Unsupported", not to, "files are skipped by a filter that is not understood", q.loc())


def sticky(e):
    """a flag that is only ever lowered in a loop"""
    e = unmut(e)
    if e.op in ("k", "s", "loop"):
        return True
    if e.op == "phi":
        return all(sticky(x) for x in e.a[0]) and (any(x.op == "loop" for x in walk(e)) or len(e.a[0]) == 1)
    if e.op == "bin" and e.a[0] == "BitAnd":
        return any(sticky(x) and any(y.op == "loop" for y in walk(x)) for x in e.a[1:])
    return False


def lowers(e):
    return len({x for x in walk(e) if x.op == "bin" and x.a[0] == "BitAnd"}) + len({1 for x in walk(e) if is_const(x, "false") and x.op == "k"} if not any(x.op == "bin" for x in walk(e)) else ())


def box(e):
    """the local that holds a collection"""
    e0 = e
    while e.op == "mut":
        return (e.a[1], )
    return None


def bool_of(a, e, st):
    return truths_of(a, e, st)


def truths_of(a, e, st):
    x = unmut(e)
    x = unmut(x.a[2][0][1]) if x.op == "adt" and x.a[1] in ("Some", "Ok") else mk("ok", x)
    return truths(a, [(x, st)])


def exact_types(rep, db, t, v):
    prim = lambda e: unmut(e).op in ("ok", "elem", "arg", "f", "as") and not is_field("name")(e)
    an = rep.analyse(db, t, assume=[av(lambda e: unmut(e).op == "ok" and has_call(e, "as_primitive_type"), v), av(lambda e: unmut(e).op == "arg" and unmut(e).a[0] == 2 and False, v)])
    return truths(an, an.rets)


@prop("I05")
def listed(rep):
    db = rep.db(C)
    rep.rule("listed", "every live entry of every data manifest that is not excluded is read; exact filters are applied to the rows")
    f = co(db, f"{P_}::load_data_files_with_seq", crate=C)
    own = lambda p: any(x in p for x in ("io::load_manifest", "::pruning::"))
    if rep.need(f, "load_data_files_with_seq"):
        loaded = lambda e: has_call(e, "load_manifest")
        ent = lambda e: loaded(unmut_all(e)) and not any(x.op == "elem" and loaded(x) for x in walk(unmut_all(e))) and not has_call(e, "prune_files") and not has_call(e, "clone")
        status = lambda e: last_field(e) == "status"
        put = lambda s: name(s.short) in ("push", "extend", "insert") and any(x.op == "elem" and loaded(x) for a in s.args[1:] for x in walk(a))
        hot = shorts("push", "extend", "insert")
        for v in ("Added", "Existing"):
            each(rep, db, f, ent, put, hot, f"listed:{v}", "a data file of the snapshot is left out", assume=[av(status, v)] + [(nev if o != v else eqv)(status, lambda e, o=o: variants_of(e) == {o}) for o in ("Added", "Existing", "Deleted")], entered=True, skip=own)
        a = rep.analyse(db, f, assume=[av(status, "Deleted")], watch=hot, skip=own, nonempty=True)
        rep.ob("listed:Deleted", not [s for s in a.sites if name(s.short) == "push" and put(s) and not has_call(s.args[1], "prune_files")], "a data file that has been removed from the table is read", f.loc())
        left = lambda e: has_call(e, "prune_files") and not any(x.op == "elem" for x in walk(unmut_all(e)) if has_call(x, "prune_files"))
        ext = [s for s in rep.analyse(db, f, watch=shorts("extend", "append"), skip=own).sites if name(s.short) in ("extend", "append") and has_call(s.args[1], "prune_files")]
        if ext:
            rep.ob("listed:kept", all(not (calls_of(s.args[1]) & {"filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by", "flat_map"}) for s in ext), "a data file that was not excluded is left out", f.loc())
        else:
            each(rep, db, f, left, lambda s: name(s.short) == "push" and has_call(s.args[1], "prune_files"), hot, "listed:kept", "a data file that was not excluded is left out", entered=True, skip=own)
        man = lambda e: has_call(e, "prune_manifests_by_partition_summaries") and not loaded(e) and not any(x.op == "elem" for x in walk(unmut_all(e)))
        content = lambda e: last_field(e) == "content"
        each(rep, db, f, man, lambda s: name(s.short).endswith("load_manifest"), lambda p, s: s.endswith("load_manifest"), "listed:manifests", "a manifest of the snapshot is not read", assume=[av(content, "Data")], entered=True, skip=own)
        # what was listed is returned
        res = [e for e, st in ret_states(rep.analyse(db, f, skip=own), "+")]
        rep.floor("results of the listing", len(res), 1)
        an = rep.analyse(db, f, watch=lambda p, s: hot(p, s) or s.endswith(("prune_files", "prune_data_files_by_partition_values")), skip=own)
        for s in an.sites:
            if s.short.endswith("::prune_files"):
                rep.ob("listed:limit", unmut(s.args[2]).op == "adt" and unmut(s.args[2]).a[1] == "None", "the limit is applied to each manifest", s.where())
            if s.short.endswith("prune_data_files_by_partition_values"):
                rep.ob("listed:spec", "partition_spec_id" in str(s.args[2]), "the partition values of a file are read with another partition spec", s.where())
    for n in ("scan", "scan_with_merge_metadata"):
        g = next((db.fn(k) for k in db.all_keys(C) if (P_ + " as" in k and k.endswith("::scan::{closure#0}") if n == "scan" else k.endswith(f"{P_}::{n}::{{closure#0}}"))), None)
        if not rep.need(g, n):
            continue
        own = lambda p: any(x in p for x in ("load_data_files", "prune_files", "load_manifest", "build_delete_file_index", "separate_filters", "DeleteApplyExec", "MergeMetadataExec", "aggregate_stat", "simplify_expr", "chema",
                                             "StoreContext", "object_store", "scan_", "create_", "build_parquet", "build_merge", "for_data_file"))
        sep = lambda i: (lambda e: any(x.op == "f" and x.a[1] == str(i) and call_is("separate_filters")(x.a[0]) for x in walk(e)))
        an = rep.analyse(db, g, watch=shorts("load_data_files_with_seq", "prune_files", "build_parquet_source", "build_merge_parquet_source", "try_new", "is_empty", "conjunction"), skip=own)
        for s in an.sites:
            m = name(s.short)
            if m == "load_data_files_with_seq":
                rep.ob(f"{n}:pruning", sep(0)(s.args[2]) and not sep(1)(s.args[2]), "files are skipped by filters that are not understood", s.where())
            elif m == "prune_files":
                rep.ob(f"{n}:prune", sep(0)(s.args[1]) and not sep(1)(s.args[1]), "files are skipped by filters that are not understood", s.where())
        # above the union, the exact filters are applied
        deep_ = [s for s in an.sites if s.short == "UnionExec::try_new"]
        fs = [s for s in an.sites if s.short == "FilterExec::try_new"]
        rep.ob(f"{n}:filter", bool(fs) and all(sep(1)(s.args[0]) and not sep(0)(s.args[0]) for s in fs), "the exact filters are not applied to the rows of a table with deletes", g.loc())
        some = [ab(lambda e: call_is("is_empty")(e) and sep(1)(e), False), av(lambda e: call_is("conjunction")(e) and sep(1)(e), "+")]
        a = rep.analyse(db, g, assume=some, skip=own, event=lambda s: [("f", {1})] if s.short == "FilterExec::try_new" else [("u", {1})] if s.short == "IcebergDeleteApplyExec::new" else None,
                        event_watch=lambda p, s: s in ("FilterExec::try_new", "IcebergDeleteApplyExec::new"), entry={"f": {0}, "u": {0}})
        bad = [1 for e, st in ret_states(a, "+") if 1 in st.get(("s", "u"), ()) and st.get(("s", "f")) != {1}]
        rep.ob(f"{n}:filtered", bool(ret_states(a, "+")) and not bad, "the exact filters are not applied to the rows of a table with deletes", g.loc())
    for n in ("aggregate_statistics", "create_file_statistics"):
        g = db.find(f"{P_}::{n}", crate=C)
        if not rep.need(g, n):
            continue
        hs = [g] + inner_fns(db, g)
        k = 0
        for h in hs:
            for e in stats(rep, db, h):
                d = dict(e.a[2])
                k += 1
                for fld in ("distinct_count", "sum_value"):
                    rep.ob(f"{n}:{fld}", variants_of(d[fld]) == {"Absent"}, "a statistic that files do not have is made up", h.loc())
        rep.floor(f"column statistics ({n})", k, 1)
        if n == "aggregate_statistics":
            own = lambda p: "primitive_to_scalar" in p or "column_field_ids" in p
            nulls = lambda e: "null_value_counts" in fields(e) or has_call(e, "null_value_counts")
            a = rep.analyse(db, g, watch=shorts("get", "map"), skip=own)
            gets = [s for s in a.sites if name(s.short) == "get" and fields(s.args[0]) & {"null_value_counts", "lower_bounds", "upper_bounds"}]
            rep.ob(f"{n}:columns", bool(gets) and all(any(x.op == "elem" and ("column_field_ids" in str(x) or has_call(x, "column_field_ids")) for x in walk(s.args[1])) for s in gets), "the statistics of a column are those of another", g.loc())
            sets = dict(assign_fields={"*any"}, assign=lambda s: True, skip=own)
            full = rep.analyse(db, g, **sets)
            dests = {str(unmut_all(s.dest)) for s in full.sites if s.kind == "assign" and nulls(s.expr)}
            rep.floor(f"null counts ({n})", len(dests), 1)
            a = rep.analyse(db, g, assume=[av(lambda e: call_is("get")(e) and nulls(e), "-")], **sets)
            ws = [s for s in a.sites if s.kind == "assign" and str(unmut_all(s.dest)) in dests]
            rep.ob(f"{n}:null_count:missing", bool(ws) and all(variants_of(s.expr) == {"None"} or passes(s.expr, nulls) for s in ws), "the null counts of files that lack them are taken for none", g.loc())
        else:
            for h in hs:
                for e in stats(rep, db, h):
                    d = dict(e.a[2])
                    for fld, src in (("null_count", "null_value_counts"), ("min_value", "lower_bounds"), ("max_value", "upper_bounds")):
                        got = {x for x in ("null_value_counts", "lower_bounds", "upper_bounds", "value_counts", "nan_value_counts") if x in fields(d[fld]) or has_call(d[fld], x)}
                        rep.ob(f"{n}:{fld}", got == {src}, f"{fld} is read from {sorted(got)}", h.loc())
                        rep.ob(f"{n}:{fld}:missing", not (calls(d[fld]) & {"Option::unwrap_or_default", "Option::unwrap_or_else"}) and all(variants_of(x.a[1][1]) == {"Absent"} for x in call_nodes(d[fld], "unwrap_or")), "a missing statistic is taken for a known one", h.loc())
    c = db.find(f"{P_}::column_field_ids", crate=C)
    if rep.need(c, "column_field_ids"):
        hs = [c] + inner_fns(db, c)
        cs = {name(short(p)) for h in hs for _, p, _, _ in h.calls() if p}
        fs = set().union(*(fields(e) for h in hs for e, st in rep.analyse(db, h).rets))
        rep.ob("columns:by-name", "field_by_name" in cs and "id" in fs, "the statistics of a column are not looked up by its name", c.loc())


def calls_of(e):
    """the names of the combinators a collection went through"""
    out, e = set(), unmut(e)
    while e.op == "call" and e.a[1]:
        out.add(name(short(e.a[0])))
        e = unmut(e.a[1][0])
    return out


def passes(e, pred):
    """nothing where the value it is made from is nothing"""
    e = unmut(e)
    while e.op == "call" and name(short(e.a[0])) in ("and_then", "map", "copied", "cloned", "zip", "filter") and e.a[1]:
        e = unmut(e.a[1][0])
    return call_is("get")(e) and pred(e)


def stats(rep, db, h):
    return [x for e, st in rep.analyse(db, h, skip=lambda p: "primitive_to_scalar" in p).rets for x in walk(e) if x.op == "adt" and x.a[0].endswith("::ColumnStatistics")]
