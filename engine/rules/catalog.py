"""the memory catalog"""
from . import prop
from ._h import *
from .execution import hot

C = "sail_catalog_memory"
P = "MemoryCatalogProvider::"
CHANGES = ("insert", "remove", "remove_entry", "retain", "clear", "drain", "insert_entry", "replace_entry", "extract_if", "swap_remove", "push", "truncate", "alter", "alter_all", "or_insert", "or_insert_with",
           "extend", "pop", "entry_ref", "remove_if", "append")
LOOK = ("get", "get_mut", "get_key_value", "remove", "remove_entry", "try_get")


def over(e, coll):
    """the collection itself, not something kept in it"""
    e = unmut(e)
    return e.op == "f" and e.a[1] == coll


def lookup(coll, *names):
    def p(e):
        e = unmut(e)
        return e.op == "call" and name(short(e.a[0])) in names and bool(e.a[1]) and over(e.a[1][0], coll)
    return p


def present(coll, yes):
    return [av(lookup(coll, *LOOK), "+" if yes else "-"), av(lookup(coll, "entry"), "Occupied" if yes else "Vacant"), ab(lookup(coll, "contains_key"), yes)]


def touches(e):
    """collections of the catalog in a value: the databases, or the tables and views of one"""
    return [x.a[1] for x in walk(e) if x.op == "f" and x.a[1] in ("databases", "tables", "views")]


def changes(an):
    """changes of a collection of the catalog or of something kept in it"""
    return [s for s in an.sites if name(s.short) in CHANGES and s.args and touches(s.args[0])]


def studied(rep, db, f, assume, also=(), **kw):
    return rep.analyse(db, f, assume=assume, watch=lambda p, s: name(s) in CHANGES + tuple(also), entry={"w": {0}},
                       event=lambda s: [("w", {1})] if s.args and touches(s.args[0]) and name(s.short) in CHANGES else None, event_watch=lambda p, s: name(s) in CHANGES, **kw)


def outcome(rep, db, f, key, assume, want, what):
    """keep: succeeds without a change; fail: fails without a change; put: succeeds only with the change"""
    an = studied(rep, db, f, assume)
    pos = ret_states(an, "+")
    done = changes(an)
    if want == "fail":
        rep.ob(f"{key}:fails", bool(an.rets) and not pos, f"{what} succeeds", f.loc())
    else:
        rep.ob(f"{key}:succeeds", bool(pos), f"{what} cannot succeed", f.loc())
    if want in ("fail", "keep"):
        rep.ob(f"{key}:unchanged", not done, f"{what} changes the catalog", done[0].where() if done else f.loc())
    if want == "keep":
        for e, _ in pos:
            e = unmut(e)
            new = e.op == "adt" and e.a[1] == "Ok" and any(x.op == "adt" and name(x.a[0]) in ("TableStatus", "DatabaseStatus") for x in walk(e))
            rep.ob(f"{key}:existing", not new, f"{what} does not answer with what is kept", f.loc())
    if want == "put":
        rep.ob(f"{key}:done", bool(pos) and all(st.get(("s", "w")) == {1} for _, st in pos), f"{what} can succeed without the change", f.loc())


def opt(nm):
    """an option of the statement"""
    def p(e):
        e = unmut(e)
        return e.op == "f" and e.a[1] == nm and any(arg_is(i)(unmut(e.a[0])) for i in (3, 4))
    return p


def deep(an, e, d=0):
    for x in walk(e):
        yield x
        if x.op == "clo" and d < 3:
            for r, _ in an.clo_results(x, [None, None]) or []:
                yield from deep(an, r, d + 1)


def targets(rep, db, f, m, key, database=True):
    """every access is to the object that the statement names; everything happens under one access of the database"""
    an = rep.analyse(db, f, watch=lambda p, s: s.split("::")[0] in ("DashMap", "HashMap"), entry={"d": {0}}, event=lambda s: [("d", {1})] if s.args and over(s.args[0], "databases") else None,
                     event_watch=lambda p, s: s.startswith("DashMap::"))
    n = 0
    for s in an.sites:
        if not s.args or name(s.short) in ("new", "with_capacity"):
            continue
        if over(s.args[0], "databases"):
            n += 1
            rep.ob(f"{m}:once", s.var("d") == {0}, f"{m} looks at the database and changes it in separate steps", s.where())
            if len(s.args) > 1:
                rep.ob(f"{m}:database", arg_is(2)(unmut_all(s.args[1])), f"{m} reaches another database", s.where())
        elif m != "drop_database" and (over(s.args[0], "tables") or over(s.args[0], "views")):
            rep.ob(f"{m}:kind", over(s.args[0], "views" if "view" in m else "tables"), f"{m} reaches objects of the other kind", s.where())
            if len(s.args) > 1 and name(s.short) in LOOK + CHANGES + ("entry", "contains_key"):
                rep.ob(f"{m}:object", arg_is(key)(unmut_all(s.args[1])), f"{m} reaches another object", s.where())
    rep.floor(f"{m}: database", n, 1)


@prop("C02")
def memory(rep):
    db = rep.db(C, "sail_common")
    rep.rule("names", "a statement reaches only the database and object that it names, in one access, so that no other statement comes between its check and its change")
    fns = {}
    for m in ("create_database", "get_database", "drop_database", "create_table", "get_table", "list_tables", "drop_table", "alter_table", "create_view", "get_view", "list_views", "drop_view"):
        f = db.find(P + m, crate=C)
        if rep.need(f, P + m):
            fns[m] = f
    for m, f in fns.items():
        targets(rep, db, f, m, 3)
    base = [av(lookup("databases", "get", "get_mut", "try_get", "try_get_mut"), "+")]
    nodb = [av(lookup("databases", "get", "get_mut", "try_get", "try_get_mut"), "-")]

    rep.rule("create", "what exists is kept, replaced or reported as the statement says; what does not exist is created unless it is to be replaced")
    f = fns.get("create_table")
    if f:
        mode = opt("mode")
        for v, there, gone in (("Create", "fail", "put"), ("CreateIfNotExists", "keep", "put"), ("CreateOrReplace", "put", "put"), ("Replace", "put", "fail")):
            outcome(rep, db, f, f"create_table:{v}:existing", base + present("tables", True) + [av(mode, v)], there, f"creating a table that exists ({v})")
            outcome(rep, db, f, f"create_table:{v}:missing", base + present("tables", False) + [av(mode, v)], gone, f"creating a table that does not exist ({v})")
        outcome(rep, db, f, "create_table:no-database", nodb, "fail", "creating a table in a database that does not exist")
    f = fns.get("create_view")
    if f:
        for ine, rp, want in ((True, False, "keep"), (False, True, "put"), (False, False, "fail")):
            outcome(rep, db, f, f"create_view:existing:{ine}:{rp}", base + present("views", True) + [ab(opt("if_not_exists"), ine), ab(opt("replace"), rp)], want,
                    f"creating a view that exists ({'if not exists' if ine else 'or replace' if rp else 'plain'})")
        outcome(rep, db, f, "create_view:missing", base + present("views", False), "put", "creating a view that does not exist")
        outcome(rep, db, f, "create_view:no-database", nodb, "fail", "creating a view in a database that does not exist")
    f = fns.get("create_database")
    if f:
        for ine, want in ((True, "keep"), (False, "fail")):
            outcome(rep, db, f, f"create_database:existing:{ine}", present("databases", True) + [ab(opt("if_not_exists"), ine)], want, f"creating a database that exists ({'if not exists' if ine else 'plain'})")
        outcome(rep, db, f, "create_database:missing", present("databases", False), "put", "creating a database that does not exist")

    rep.rule("stored", "what is stored for an object is what its statement said")
    for m, kind, fs in (("create_table", "Table", ("comment", "constraints", "location", "format", "partition_by", "sort_by", "bucket_by", "properties", "is_external", "columns")),
                        ("create_view", "View", ("definition", "comment", "properties", "columns"))):
        f = fns.get(m)
        if not f:
            continue
        an = rep.analyse(db, f, watch=lambda p, s: name(s) in ("insert", "or_insert", "insert_entry") and "Map" in s or name(s) == "insert")
        ins = [s for s in an.sites if s.args and touches(s.args[0])]
        rep.floor(f"{m}: insert", len(ins), 1)
        for s in ins:
            v = s.args[-1]
            st = [x for x in walk(v) if x.op == "adt" and name(x.a[0]) == "TableStatus"]
            rep.ob(f"{m}:status", bool(st), f"{m} stores something else", s.where())
            for x in st:
                d = dict((str(k), w) for k, w in x.a[2])
                rep.ob(f"{m}:name", arg_is(3)(unmut_all(d.get("name"))), f"{m} stores the object under another name", s.where())
                rep.ob(f"{m}:of-database", any(arg_is(2)(y) for y in walk(d.get("database"))), f"{m} stores the object for another database", s.where())
                kd = [y for y in walk(d.get("kind")) if y.op == "adt" and name(y.a[0]) == "TableKind"]
                rep.ob(f"{m}:kind", bool(kd) and all(y.a[1] == kind for y in kd), f"{m} stores an object of another kind", s.where())
                for y in kd:
                    k = dict((str(q), w) for q, w in y.a[2])
                    for n in fs:
                        w = k.get(n)
                        cs = {name(c) for c in calls(w)} if w is not None else set()
                        rep.ob(f"{m}:stored-{n}", w is not None and any(opt(n)(z) for z in walk(w)) and not (cs & {"filter", "take", "skip", "filter_map", "and", "xor", "rev", "step_by", "truncate"}),
                               f"{m} does not store the {n.replace('_', ' ')} of the statement", s.where())
                    for z in deep(an, k.get("columns")) if k.get("columns") is not None else ():
                        if z.op == "adt" and name(z.a[0]) == "TableColumnStatus":
                            for q, w in z.a[2]:
                                if str(q) in ("name", "data_type", "nullable", "comment") or m == "create_table" and str(q) in ("default", "generated_always_as", "identity"):
                                    rep.ob(f"{m}:column-{q}", unmut(w).op == "f" and unmut(w).a[1] == str(q), f"{m} does not store the {str(q).replace('_', ' ')} of a column", s.where())
    f = fns.get("create_database")
    if f:
        an = rep.analyse(db, f, watch=lambda p, s: name(s) in ("insert", "or_insert", "insert_entry"))
        for s in an.sites:
            for x in walk(s.args[-1]):
                if x.op == "adt" and name(x.a[0]) == "DatabaseStatus":
                    for k, w in x.a[2]:
                        if str(k) in ("comment", "location", "properties"):
                            rep.ob(f"create_database:stored-{k}", opt(str(k))(unmut_all(w)), f"create_database does not store the {k} of the statement", s.where())
                        if str(k) == "database":
                            rep.ob("create_database:name", any(arg_is(2)(y) for y in walk(w)), "create_database stores another name", s.where())

    rep.rule("drop", "what exists is removed, what does not is an error unless the statement allows for it; a database with tables or views is removed only by CASCADE")
    for m, coll in (("drop_table", "tables"), ("drop_view", "views"), ("drop_database", "databases")):
        f = fns.get(m)
        if not f:
            continue
        b = [] if coll == "databases" else base
        for ie in (True, False):
            more = [ab(opt("cascade"), True)] if coll == "databases" else []
            an = studied(rep, db, f, b + present(coll, True) + more + [ab(opt("if_exists"), ie)])
            pos = ret_states(an, "+")
            rep.ob(f"{m}:existing:{ie}", bool(pos) and not ret_states(an, "-") and all(st.get(("s", "w")) == {1} for _, st in pos), f"{m} of an object that exists can leave it in place", f.loc())
            an = studied(rep, db, f, b + present(coll, False) + more + [ab(opt("if_exists"), ie)])
            rep.ob(f"{m}:missing:{ie}", bool(an.rets) and not ret_states(an, "-" if ie else "+"), f"{m} of an object that does not exist {'fails in spite of' if ie else 'succeeds without'} IF EXISTS", f.loc())
            if coll != "databases":
                an = studied(rep, db, f, nodb + [ab(opt("if_exists"), ie)])
                rep.ob(f"{m}:no-database:{ie}", bool(an.rets) and not ret_states(an, "-" if ie else "+"), f"{m} in a database that does not exist {'fails in spite of' if ie else 'succeeds without'} IF EXISTS", f.loc())
        an = studied(rep, db, f, [])
        for s in changes(an):
            rep.ob(f"{m}:removes", name(s.short) in ("remove", "remove_entry", "remove_if", "swap_remove"), f"{m} changes something else", s.where())
    f = fns.get("drop_database")
    if f:
        for coll in ("tables", "views"):
            full = [ab(lookup(coll, "is_empty"), False), num(lookup(coll, "len"), 1)]
            outcome(rep, db, f, f"drop_database:{coll}", present("databases", True) + [ab(opt("cascade"), False)] + full, "fail", f"dropping a database that has {coll} without CASCADE")
        empty = [ab(lookup(c, "is_empty"), True) for c in ("tables", "views")]
        an = studied(rep, db, f, present("databases", True) + [ab(opt("cascade"), False)] + empty)
        rep.ob("drop_database:empty", bool(ret_states(an, "+")) and not ret_states(an, "-"), "an empty database cannot be dropped", f.loc())

    rep.rule("read", "reading an object gives what is stored for it, or says that there is none; a list has every object of the database")
    for m, coll in (("get_table", "tables"), ("get_view", "views"), ("get_database", "databases")):
        f = fns.get(m)
        if f:
            b = [] if coll == "databases" else base
            an = studied(rep, db, f, b + present(coll, True))
            pos = ret_states(an, "+")
            rep.ob(f"{m}:found", bool(pos) and not ret_states(an, "-") and all(any(lookup(coll, *LOOK)(x) for x in deep(an, e)) for e, _ in pos), f"{m} does not give what is stored", f.loc())
            an = studied(rep, db, f, b + present(coll, False))
            rep.ob(f"{m}:missing", bool(an.rets) and not ret_states(an, "+"), f"{m} gives an object that does not exist", f.loc())
            rep.ob(f"{m}:reads", not changes(an), f"{m} changes the catalog", f.loc())
    for m, coll in (("list_tables", "tables"), ("list_views", "views")):
        f = fns.get(m)
        if f:
            an = studied(rep, db, f, base)
            pos = ret_states(an, "+")
            rep.ob(f"{m}:lists", bool(pos) and not ret_states(an, "-"), f"{m} fails for a database that exists", f.loc())
            for e, _ in pos:
                cs = {name(c) for c in calls(e)}
                rep.ob(f"{m}:all", coll in fields(e) and not (cs & {"filter", "take", "skip", "filter_map", "step_by", "take_while", "skip_while", "find", "next", "empty"}), f"{m} leaves out objects", f.loc())
            an = studied(rep, db, f, nodb)
            rep.ob(f"{m}:no-database", bool(an.rets) and not ret_states(an, "+"), f"{m} succeeds for a database that does not exist", f.loc())


@prop("C02")
def altering(rep):
    db = rep.db(C, "sail_common")
    rep.rule("alter", "a change of properties is made only if the table still has the metadata location that it was based on; a statement that fails changes nothing")
    f = db.find(P + "alter_table", crate=C)
    base = [av(lookup("databases", "get", "get_mut", "try_get_mut"), "+")] + present("tables", True)
    if rep.need(f, P + "alter_table"):
        V = call_is("validate_metadata_location_precondition")
        sk = lambda p: "validate_metadata_location_precondition" in p
        op = lambda e: arg_is(4)(e)
        ss = sites_of(rep, db, f, "validate_metadata_location_precondition", skip=sk)
        rep.floor("precondition", len(ss), 1)
        for s in ss:
            rep.ob("precondition:current", "tables" in fields(s.args[1]) and "properties" in fields(s.args[1]), "the precondition is compared with something other than the table's properties", s.where())
            rep.ob("precondition:update", any(arg_is(4)(x) for x in walk(s.args[2])), "the precondition of another update is checked", s.where())
        hotc = lambda p, s: name(s) in CHANGES or "validate_metadata_location_precondition" in p
        asg = dict(assign_fields={"1", "*"}, assign=lambda s: True)

        def ev(s):
            if s.kind == "call" and name(s.short) == "validate_metadata_location_precondition":
                return [("v", {1})]
            return None
        an = rep.analyse(db, f, assume=base + [av(op, "SetTableProperties")], skip=sk, watch=lambda p, s: name(s) in CHANGES, entry={"v": {0}}, event=ev, event_watch=hotc, **asg)
        n = 0
        for s in an.sites:
            x = s.args[0] if s.args else s.expr
            if x is not None and "tables" in fields(x) and "properties" in fields(x):
                n += 1
                rep.ob("precondition:before", s.var("v") == {1}, "properties are changed before the precondition is checked", s.where())
        rep.floor("properties set", n, 1)
        an = rep.analyse(db, f, assume=base + [av(op, "SetTableProperties"), av(V, "-")], skip=sk, watch=lambda p, s: name(s) in CHANGES)
        rep.ob("precondition:error", bool(an.rets) and not ret_states(an, "+") and not [s for s in an.sites if s.args and touches(s.args[0])], "properties can be changed although the precondition does not hold", f.loc())
        for v in ("SetTableProperties", "UnsetTableProperties"):
            an = rep.analyse(db, f, assume=base + [av(op, v)], skip=sk, entry={"w": {0}}, event=lambda s: [("w", {1})] if s.args and touches(s.args[0]) and name(s.short) in CHANGES else None,
                             event_watch=lambda p, s: name(s) in CHANGES)
            rep.ob(f"{v}:atomic", all(st.get(("s", "w")) == {0} for _, st in ret_states(an, "-")), f"a statement ({v}) that fails can have changed some properties", f.loc())
            rep.ob(f"{v}:succeeds", bool(ret_states(an, "+")), f"{v} cannot succeed", f.loc())
        # one key is set or removed, the others are kept
        has = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("find", "position", "get", "get_mut") and "properties" in fields(e)
        an = rep.analyse(db, f, assume=base + [av(op, "UnsetTableProperties")], skip=sk, watch=lambda p, s: name(s) in CHANGES)
        for s in an.sites:
            if s.args and touches(s.args[0]):
                rep.ob("unset:removes", name(s.short) in ("retain", "remove", "swap_remove", "retain_mut"), "unsetting properties changes something else", s.where())
                c = clo_arg(s)
                if name(s.short) in ("retain", "retain_mut") and c is not None:
                    el = mk("arg", 90, "property")
                    key = lambda e: any(arg_is(90)(x) for x in walk(e)) and unmut_all(e).op == "f" and str(unmut_all(e).a[1]) == "0"
                    other = lambda e: not any(arg_is(90)(x) for x in walk(e)) and "keys" in fields(e)
                    many = [ab(lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("contains", "any"), True)]
                    few = [ab(lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("contains", "any"), False)]
                    rep.ob("unset:key", clo_truth(rep, db, c, [el], [eqv(key, other)] + many) == {False}, "an unset property is kept", s.where())
                    rep.ob("unset:others", clo_truth(rep, db, c, [el], [nev(key, other)] + few) == {True}, "another property is removed", s.where())
    g = db.find("managed_table::validate_metadata_location_precondition", crate=C)
    if rep.need(g, "validate_metadata_location_precondition"):
        exp = call_is("previous_metadata_location_update")
        new = call_is("metadata_location_update")
        cur = lambda e: has_call(e, "metadata_location_value") and not has_call(e, "previous_metadata_location_update")
        want = lambda e: has_call(e, "previous_metadata_location_update") and not has_call(e, "metadata_location_value")
        b = [av(exp, "+"), av(new, "+")]
        sk = lambda p: "sail_common_datafusion" in p
        for r, pol, msg in (("<>", "+", "an update based on another metadata location is accepted"), ("=", "-", "an update based on the current metadata location is refused")):
            held = [av(lambda e: cur(e) and unmut(e).op == "call", "+")] if r == "=" else []
            an = rep.analyse(db, g, assume=b + held + [ac(cur, want, r)], skip=sk)
            rep.ob(f"validate:{'stale' if r == '<>' else 'current'}", bool(an.rets) and not ret_states(an, pol), msg, g.loc())
        ss = sites_of(rep, db, g, "metadata_location_value", "previous_metadata_location_update", skip=sk)
        for s in ss:
            i = 2 if name(s.short) == "metadata_location_value" else 3
            rep.ob(f"validate:{name(s.short)}", any(arg_is(i)(x) for x in walk(s.args[0])), "the locations compared are not those of the table and the update", s.where())
