"""Iceberg tables: commits, clean-up after a failed commit, snapshots"""
from . import prop
from ._h import *
from .delta import WRITE_OPS, put_modes
from .streams import ret_variants, okval

C = "sail_iceberg"
# functions of the commit that are judged on their own
OWN = ("::validate_requirements", "::load_catalog_", "::try_commit_to_catalog", "::update_catalog_metadata_location", "::record_catalog_metadata_location", "::merge_writer_commit_meta",
       "::apply_schema_update", "::apply_partition_spec_update", "::unbound_partition_spec", "cleanup_uncommitted_task_files", "SnapshotProducer", "PreparedSnapshotCommit", "cleanup_created_paths",
       "::prepare_bootstrap_snapshot", "::bootstrap_first_snapshot", "::bootstrap_new_table", "::find_latest_metadata_file", "::load_metadata_file_bytes", "::decode_actions_and_meta_from_batch",
       "::metadata_files_for_version", "::catalog_requirements", "::write_version_hint", "::TableMetadata", "::write_metadata_version")
HEAVY = ("::spec::", "::metadata_loader::", "sail_common_datafusion::", "::operations::", "::utils::", "::schema::", "::io::", "serde", "sail_catalog")
own = lambda p: any(x in p for x in OWN + HEAVY)
CATALOG = "try_commit_to_catalog"
cat = call_is(CATALOG)
put = call_is("put_opts")
meta_put = lambda s: name(s.short) == "put_opts"


def commit_bodies(rep, db):
    """(body of the commit operator, the part of it that commits)"""
    f = db.find("IcebergCommitExec as ExecutionPlan::execute", crate=C) or next((db.fn(k) for k in db.all_keys(C) if "IcebergCommitExec as " in k and k.endswith("::execute")), None)
    if not rep.need(f, "IcebergCommitExec::execute"):
        return None, None
    ks = sorted((k for k in inner_fns(db, f) if k.kind == "coroutine"), key=lambda k: len(k.key))
    hit = [k for k in ks if any(p and name(short(p)) in ("put_opts", CATALOG) for _, p, _, _ in k.calls())]
    if not rep.need(hit[0] if hit else None, "the part of IcebergCommitExec that commits"):
        return None, None
    return ks[0], hit[0]


def ran(rep, db, g, **kw):
    kw.setdefault("skip", own)
    return rep.analyse(db, g, **kw)


def metadata_writes(db):
    """writes of table metadata files: (function, call expression, call)"""
    for f in all_fns(db, C):
        if "::tests::" in f.key:
            continue
        for b, p, g, t in f.calls():
            if p is None or name(short(p)) not in WRITE_OPS or not short(p).startswith(("ObjectStore::", "ObjectStoreExt::")):
                continue
            e = f.call_at(b)
            if any(has_call(a, "encode_metadata_file", "to_json") or "encode_metadata_file" in reached(db, a) for a in e.a[1]):
                yield f, e, (b, p, t)


def reached(db, e):
    """names of the functions called in closures inside e"""
    out = set()
    for x in walk(e):
        k = x.a[0] if x.op == "clo" else None
        if k is not None and k in db.where:
            out |= {name(short(p)) for _, p, _, _ in db.fn(k).calls() if p}
    return out


@prop("I01")
def commit(rep):
    db = rep.db(C, "sail_catalog", "sail_common_datafusion")
    rep.rule("create", "a metadata version of an Iceberg table is only ever created: every write of a metadata file refuses to replace an existing one")
    n = 0
    for h, e, (b, p, t) in metadata_writes(db):
        n += 1
        ok = name(short(p)) == "put_opts" and put_modes(rep, db, e.a[1][3] if len(e.a[1]) > 3 else mk("k", "?")) == {"Create"}
        rep.ob(f"create:{name(outer(db, h))}", ok, "a metadata version of an Iceberg table can be overwritten", h.loc(t[5]))
    rep.floor("writes of metadata files", n, 3)
    f, g = commit_bodies(rep, db)
    if f is None:
        return
    commit_flow(rep, db, g)
    alter_flow(rep, db)
    requirements(rep, db)
    catalog(rep, db)



def ev(**vs):
    """typestate assignments as a list"""
    return [(k, {v}) for k, v in vs.items()]


def reruns(s):
    return name(s.short) == "load_metadata_file_bytes"


def listings(an):
    """the awaited listings of the next version known where the metadata is written, and those known only later"""
    def of(st):
        return {x for k in st for k2 in [k[1] if k[0] == "stale" else k] for e in k2[1:] if hasattr(e, "op") for x in walk(e)
                if x.op in ("mut", "await", "ok", "elem", "err") and has_call(x, "metadata_files_for_version") and marks(x)}
    puts = [s for s in an.sites if meta_put(s)]
    before = {m for s in puts for x in of(s.state) for m in marks(x)}
    after = {m for e, st in ret_states(an, "+") for x in of(st) for m in marks(x)} - before
    return before, after


def marks(e):
    """which call of the listing an expression is the result of"""
    return {x for x in walk(e) if x.op == "mut" and call_is("metadata_files_for_version")(x.a[0]) and unmut(x.a[0]).op == "call"}


def version_rules(rep, R, g, label, others=(), only=()):
    """what holds for every writer of metadata versions"""
    an = R(watch=shorts("put_opts", "metadata_files_for_version"))
    ss = [s for s in an.sites if meta_put(s)]
    rep.floor(f"{label}: metadata writes", len(ss), 1)
    for s in [s for s in an.sites if not meta_put(s)]:
        vs = [unmut(x) for x in alts(an, s.args[1])]
        rep.ob(f"{label}:version", bool(vs) and all(is_add(v, lambda e: has_call(e, "metadata_file_version_from_path") and not any(x.op == "bin" for x in walk(e)), 1) for v in vs),
               "the version looked for is not the one after the version the change is based on", s.where())
    before, after = listings(an)
    rep.ob(f"{label}:listed-before", bool(before), "a metadata version is written without looking whether it exists under another name", g.loc())
    rep.ob(f"{label}:listed-after", bool(after), "a change succeeds without looking whether another writer wrote the same version", g.loc())
    of = lambda ms: lambda e: bool(marks(e) & ms)
    busy = lambda ms: [ab(lambda e: call_is("is_empty")(e) and of(ms)(e), False), ac(lambda e: call_is("len", "count")(e) and of(ms)(e), lambda e: is_const(e, 0), ">")]
    rep.ob(f"{label}:exists", not [s for s in R(assume=busy(before), watch=shorts("put_opts")).sites], "a metadata version is written although files of that version exist", g.loc())
    clash = [ac(lambda e: unmut(e).op == "elem" and of(after)(e), lambda e: not is_const(e, 0), "<>")] + busy(after)
    put_ok = [av(put, "+")]
    rep.ob(f"{label}:clash", not ret_states(R(assume=clash + put_ok + list(only), nonempty=True), "+"), "a change succeeds although another writer wrote the same version", g.loc())
    # an own file that lost is removed before the change is tried again
    w = dict(event=lambda s: ev(w=1) if meta_put(s) else ev(w=0) if name(s.short) == "delete" else None, event_watch=shorts("put_opts", "delete"), entry={"w": {0}}, watch=shorts("load_metadata_file_bytes", "put_opts", "delete"))
    an = R(assume=clash + put_ok, nonempty=True, **w)
    xs = [s for s in an.sites if reruns(s)]
    rep.floor(f"{label}: reads of the metadata", len(xs), 1)
    rep.ob(f"{label}:removed", all(s.var("w") == {0} for s in xs), "a change is tried again while its lost metadata file is still there", g.loc())
    path = {p for s in an.sites if meta_put(s) for p in [unmut(s.args[1])]}
    for s in an.sites:
        if name(s.short) == "delete":
            rep.ob(f"{label}:own-file", unmut(s.args[1]) in path, "another file than the own metadata file is removed after a conflict", s.where())
    # every further attempt looks for the newest metadata again
    LOOK = ("find_latest_metadata_file", "load_catalog_metadata_location", "load_catalog_table_info")
    w = dict(event=lambda s: ev(r=0) if name(s.short) in LOOK else ev(r=1), event_watch=shorts("put_opts", *LOOK, *others), entry={"r": {0}}, watch=shorts("load_metadata_file_bytes", "put_opts", *LOOK, *others))
    w["event"] = lambda s: ev(r=0) if name(s.short) in LOOK else ev(r=1) if not reruns(s) else None
    again = [ac(lambda e: is_add(e, lambda x: True, 1) and not calls(e), lambda e: is_const(e, 1), ">")]
    return w, again


def conflict_free(rep, R, g, label, asm, key, msg):
    rep.ob(f"{label}:{key}", not ret_states(R(assume=asm), "+"), msg, g.loc())


def commit_flow(rep, db, g):
    rep.rule("commit", "a commit succeeds only when its metadata version was created and no other writer created the same version, or when the catalog accepted it; otherwise it starts again from the newest metadata or fails")
    R = lambda **k: rep.analyse(db, g, **{"skip": own, **k})
    BOOT = ("bootstrap_first_snapshot", "bootstrap_new_table_with_style", "bootstrap_new_table")
    boot = call_is(*BOOT)
    WORK = BOOT + ("put_opts", CATALOG)
    rows = [ab(lambda e: call_is("is_empty")(e) and unmut(unmut(e).a[1][0]).op == "up", False)]
    w, again = version_rules(rep, R, g, "commit", BOOT + (CATALOG,), rows + [av(cat, "-"), av(boot, "-")])
    mode = lambda *v: av(lambda e: call_is("resolve")(e) or last_field(e) == "catalog_commit_mode", *v)
    for m in ("Filesystem", "CatalogCommit", "MetadataLocationCas"):
        asm = [mode(m), av(lambda e: last_field(e) == "lakehouse_table", "+"), av(call_is("load_catalog_table_info"), "+")]
        if m == "Filesystem":
            rep.ob("commit:own-location", not R(assume=asm, watch=shorts("load_catalog_metadata_location")).sites, "the newest metadata of a table committed through its file system is taken from the catalog", g.loc())
            asm.append(av(lambda e: unmut(e).op == "ok" and call_is("load_catalog_metadata_location")(unmut(e).a[0]), "-"))
        an = R(assume=again + asm, **w)
        xs = [s for s in an.sites if reruns(s)]
        rep.ob(f"commit:newest:{m}", bool(xs) and all(s.var("r") == {0} for s in xs), "a further attempt is based on the metadata of the attempt before", g.loc())
    none = [av(put, "-"), av(cat, "-"), av(boot, "-")]
    an = R(assume=rows + none)
    rep.ob("commit:failed", not ret_states(an, "+"), "a commit is reported although nothing was written", g.loc())
    done, n = must_event(rep, db, g, lambda s: name(s.short) in WORK, assume=rows, hotp=shorts(*WORK), skip=own)
    rep.ob("commit:written", done, "a commit is reported without writing anything", g.loc())
    rep.floor("commit: successful ends", n, 1)
    for bad in ("Conflict", "NotSupported"):
        c = av(lambda e: unmut(e).op == "ok" and cat(unmut(e).a[0]), bad)
        an = R(assume=rows + [c, av(cat, "+"), mode("CatalogCommit")])
        rep.ob(f"catalog:{bad}", not [1 for e, st in ret_states(an, "+") if any(k[0] == "v" and cat(k[1]) for k in st)], f"a commit is reported although the catalog answered {bad}", g.loc())
    an = R(assume=rows + [mode("CatalogCommit"), av(lambda e: last_field(e) == "lakehouse_table", "+")], watch=shorts("put_opts", *BOOT))
    rep.ob("catalog:only", not an.sites, "the metadata of a table that only its catalog may change is written past the catalog", g.loc())
    an = R(assume=[mode("Filesystem")], watch=shorts(CATALOG))
    rep.ob("catalog:never", not an.sites, "the catalog decides the commit of a table that is committed through its file system", g.loc())
    # requirements
    rep.rule("requirements", "the requirements of the writer, the snapshot a row-level change was planned on, and those of the new snapshot are validated against the metadata the commit is based on before anything is written, on every attempt")
    own_req = lambda e: has_call(e, "action_commit", "requirements") or "action_commit" in fields(e)
    val = lambda which: av(lambda e: call_is("validate_requirements")(e) and own_req(strip_await(e).a[1][1]) == which, "-")
    rep.ob("requirements:writer", not R(assume=[val(False)], watch=shorts(*WORK)).sites, "a commit goes on although a requirement of its writer is not met", g.loc())
    rep.ob("requirements:snapshot", not R(assume=[val(True)], watch=shorts("put_opts", CATALOG)).sites, "a commit goes on although the table is not at the snapshot it builds on", g.loc())
    def vev(s):
        n = name(s.short)
        if n == "load_metadata_file_bytes":
            return ev(a=0, b=0)
        if n == "validate_requirements":
            return ev(b=1) if own_req(s.args[1]) else ev(a=1)
        return None
    an = R(event=vev, event_watch=shorts("load_metadata_file_bytes", "validate_requirements"), entry={"a": {0}, "b": {0}}, watch=shorts("validate_requirements", *WORK))
    k = 0
    for s in an.sites:
        n = name(s.short)
        if n == "validate_requirements":
            k += 1
            m = unmut(s.args[0])
            ok = m.op == "adt" and (m.a[1] == "None" or has_call(m, "load_metadata_file_bytes"))
            rep.ob("requirements:current", ok, "requirements are validated against other metadata than the commit is based on", s.where())
            if not own_req(s.args[1]):
                rep.ob("requirements:all", "requirements" in fields(s.args[1]), "only some requirements are validated", s.where())
            continue
        rep.ob(f"requirements:validated:{n}", s.var("a") == {1}, "something is written before the requirements of the writer were validated on this attempt", s.where())
        if n in ("put_opts", CATALOG):
            rep.ob(f"requirements:built-on:{n}", s.var("b") == {1}, "a snapshot is written before it was validated that the table is at the snapshot it builds on", s.where())
        if n == CATALOG:
            q = [x for a in s.args for x in call_nodes(a, "catalog_requirements")]
            rep.ob("requirements:catalog", bool(q) and all("requirements" in fields(x.a[1][1]) and own_req(x.a[1][2]) for x in q), "the catalog is not told all requirements of a commit", s.where())
    rep.floor("validations of requirements", k, 3)
    # the snapshot a row-level change was planned on
    exp = lambda e: call_is("expected_snapshot_requirement")(e)
    h = db.find("commit_exec::expected_snapshot_requirement", crate=C)
    an = R(assume=[ab(lambda e: call_is("contains")(e), False), av(lambda e: exp(e), "+"), av(lambda e: unmut(e).op == "up" and "expected" in str(e), "+")],
           event=lambda s: ev(x=1) if name(s.short) == "push" and expected(s.args[1]) else None, event_watch=shorts("push"), entry={"x": {0}}, watch=shorts("validate_requirements"))
    rep.ob("requirements:expected", bool(an.sites) and all(s.var("x") == {1} for s in an.sites), "the snapshot a row-level change was planned on is not required", g.loc())
    if h is not None:
        an = rep.analyse(db, h, adt_watch=lambda p, v: p.endswith("TableRequirement"))
        rep.floor("requirements of row-level changes", len(an.sites), 1)
        for s in an.sites:
            d = dict(s.expr.a[2])
            rep.ob("requirements:expected-id", s.expr.a[1] == "RefSnapshotIdMatch" and "main" in str(d.get("ref")).lower(), "the requirement of a row-level change is not about the current snapshot", s.where())
            v = unmut(d.get("snapshot_id", s.expr))
            rep.ob("requirements:expected-value", v.op == "ok" and arg_is(1)(v.a[0]), "another snapshot is required than the one the change was planned on", s.where())


def expected(e):
    return any(x.op == "call" and name(short(x.a[0])) == "expected_snapshot_requirement" or x.op == "adt" and x.a[1] == "RefSnapshotIdMatch" or x.op == "up" and "expected" in str(x) for x in walk(e))


def alter_flow(rep, db):
    rep.rule("alter", "a change of table properties follows the rules of every metadata version: created, without another writer's version beside it, from the newest metadata")
    f = db.find("IcebergTableFormat::alter_table_properties", crate=C)
    g = co(db, "IcebergTableFormat::alter_table_properties", crate=C) if f is not None else None
    if not rep.need(g, "alter_table_properties"):
        return
    R = lambda **k: rep.analyse(db, g, **{"skip": own, **k})
    w, again = version_rules(rep, R, g, "alter")
    an = R(assume=again, **w)
    xs = [s for s in an.sites if reruns(s)]
    rep.ob("alter:newest", bool(xs) and all(s.var("r") == {0} for s in xs), "a further attempt is based on the metadata of the attempt before", g.loc())
    rep.ob("alter:failed", not ret_states(R(assume=[av(put, "-")]), "+"), "a change is reported although its metadata was not written", g.loc())
    done, n = must_event(rep, db, g, meta_put, hotp=shorts("put_opts"), skip=own)
    rep.ob("alter:written", done, "a change is reported without writing anything", g.loc())


# what a requirement compares with
NEEDS = {"LastAssignedFieldIdMatch": {"last_column_id"}, "CurrentSchemaIdMatch": {"current_schema_id"}, "RefSnapshotIdMatch": {"current_snapshot_id", "refs"}, "UuidMatch": {"table_uuid"},
         "LastAssignedPartitionIdMatch": {"last_partition_id"}, "DefaultSpecIdMatch": {"default_spec_id"}, "DefaultSortOrderIdMatch": {"default_sort_order_id"}}


def requirements(rep, db):
    rep.rule("requirement", "a requirement holds only when the metadata has exactly the value it names; without metadata only the requirement that the table does not exist holds")
    h = db.find("IcebergCommitExec::validate_requirements", crate=C)
    if not rep.need(h, "validate_requirements"):
        return
    ty = next((p for p in db.adts if p.endswith("::TableRequirement") and C in p), None)
    if not rep.need(ty, "TableRequirement"):
        return
    vs = [v[0] for v in db.adts[ty]["v"]]
    rep.floor("requirements", len(vs), 8)
    req = lambda v: av(lambda e: unmut(e).op == "elem" and arg_is(2)(unmut(unmut(e).a[0])), v)
    meta = lambda pol: av(lambda e: arg_is(1)(e), pol)
    el = lambda e, v: any(x.op == "elem" and arg_is(2)(unmut(x.a[0])) for x in walk(e)) and v in str(e)
    for v in vs:
        A = lambda *a: ret_states(rep.analyse(db, h, assume=[req(v), *a], skip=own, nonempty=True), "+")
        rep.ob(f"requirement:satisfiable:{v}", bool(A()), "a requirement can never hold", h.loc())
        if v == "NotExist":
            rep.ob(f"requirement:{v}", not A(meta("+")), "the requirement that a table does not exist holds for a table that exists", h.loc())
            continue
        rep.ob(f"requirement:missing:{v}", not A(meta("-")), "a requirement holds for a table without metadata", h.loc())
        fs = NEEDS.get(v)
        if fs is None:
            rep.ob(f"requirement:known:{v}", False, "a requirement the rule does not know", h.loc())
            continue
        side = lambda e: bool(fs & fields(e)) and any(x.op == "arg" and arg_is(1)(x) for x in walk(e))
        named = lambda e: el(e, v) and not side(e)
        rep.ob(f"requirement:{v}", not A(meta("+"), ac(named, side, "<>"), ac(side, named, "<>")), f"a requirement holds although the metadata has another {sorted(fs)}", h.loc())
        an = rep.analyse(db, h, assume=[req(v)], skip=own)
        rep.ob(f"requirement:whole:{v}", any(k[0] == "c" and fs <= fields(k[1]) | fields(k[2]) for e, st in ret_states(an, "-") for k in st), f"a requirement is not compared with {sorted(fs)}", h.loc())
    # the snapshot a row-level change was planned on
    rep.rule("row-level", "a row-level change (DELETE, MERGE) requires the snapshot its rows were read from")
    n = 0
    for f in all_fns(db, C):
        if "::tests::" in f.key:
            continue
        seen = {}
        for b, p, _, t in f.calls():
            if p is None:
                continue
            s = short(p)
            if s == "IcebergCommitExec::new":
                kinds = variants_of(f.call_at(b).a[1][3]) or {"?"}
                if kinds <= {"FastAppend", "FullOverwrite"} or f.key.endswith("::with_new_children"):
                    continue
                n += 1
                seen[b] = ("with_expected_snapshot_id", f.call_at(b), f.loc(t[5]), lambda e: call_is("expected_snapshot_id")(e) or last_field(e) == "expected_snapshot_id")
            elif s.startswith("RowLevelWriteNode::new"):
                n += 1
                seen[b] = ("with_expected_snapshot_id", f.call_at(b), f.loc(t[5]), planned_on)
        for b, p, _, t in f.calls() if seen else ():
            if p is not None and name(short(p)) == "with_expected_snapshot_id":
                e = f.call_at(b)
                for k in [k for k, v in seen.items() if v[1] in set(walk(e.a[1][0]))]:
                    w, c, loc, ok = seen.pop(k)
                    rep.ob(f"row-level:{name(outer(db, f))}", ok(e.a[1][1]), "a row-level change requires another snapshot than the one its rows were read from", loc)
        for w, c, loc, ok in seen.values():
            rep.ob(f"row-level:{name(outer(db, f))}", False, "a row-level change does not require the snapshot its rows were read from", loc)
    rep.floor("plans of row-level changes", n, 4)


def planned_on(e):
    """Some(id of the snapshot of the scanned table)"""
    e = unmut(e)
    return e.op == "adt" and e.a[1] == "Some" and (has_call(e, "current_snapshot") or has_call(e, "merge_target_snapshot_id"))


OUTCOMES = {"Committed": {"Committed"}, "Noop": {"Committed"}, "RetryableConflict": {"Conflict"}, "StateUnknown": set(), "Rejected": set()}


def catalog(rep, db):
    rep.rule("authority", "the catalog's answer to a commit is taken as it is: a conflict or an unknown or rejected commit is never reported as committed")
    g = co(db, "IcebergCatalogCommitCoordinator<'a, C>::commit", crate=C) or co(db, "IcebergCatalogCommitCoordinator::commit", crate=C)
    if not rep.need(g, "IcebergCatalogCommitCoordinator::commit"):
        return
    skip = lambda p: "sail_catalog" in p or "serde" in p or "::spec::" in p
    sent = call_is("commit_lakehouse_table")
    ty = next((p for p in db.adts if p.endswith("::LakehouseCommitOutcome")), None)
    vs = [v[0] for v in db.adts[ty]["v"]] if rep.need(ty, "LakehouseCommitOutcome") else []
    for v in vs:
        an = rep.analyse(db, g, skip=skip, assume=[av(sent, "+"), av(lambda e: unmut(e).op == "ok" and sent(unmut(e).a[0]), v)])
        got = ret_variants(an)
        rep.ob(f"authority:{v}", v in OUTCOMES and got == OUTCOMES[v], f"the answer {v} of the catalog is taken as {sorted(got)}", g.loc())
    rep.floor("answers of the catalog", len(vs), 5)
    err = lambda *v: [av(sent, "-"), av(lambda e: unmut(e).op == "err" and sent(unmut(e).a[0]), *v)]
    ety = next((p for p in db.adts if p.endswith("error::CatalogError")), None)
    es = [v[0] for v in db.adts[ety]["v"]] if rep.need(ety, "CatalogError") else []
    for v in es:
        got = ret_variants(rep.analyse(db, g, skip=skip, assume=err(v)))
        want = {"Conflict": {"Conflict"}, "NotSupported": {"NotSupported"}, "UnsupportedCapability": {"NotSupported"}}.get(v, set())
        rep.ob(f"authority:error:{v}", got <= want, f"the error {v} of the catalog is taken as {sorted(got)}", g.loc())
    an = rep.analyse(db, g, skip=skip, watch=shorts("commit_lakehouse_table"))
    n = 0
    for s in an.sites:
        n += 1
        d = dict(unmut(s.args[2]).a[2]) if unmut(s.args[2]).op == "adt" else {}
        for k, i in (("requirements", 3), ("updates", 4)):
            e = d.get(k)
            ok = e is not None and any(x.op == "up" and k in str(x) or x.op == "arg" and x.a[0] == i for x in walk(e)) and not has_call(e, "filter", "take", "skip", "filter_map", "truncate", "retain", "pop", "remove", "take_while", "skip_while", "step_by")
            rep.ob(f"authority:sent:{k}", ok, f"not all {k} of a commit are sent to the catalog", s.where())
        rep.ob("authority:sent:context", "context" in d and ("lakehouse_table" in str(d["context"])), "a commit is sent for another table", s.where())
    rep.floor("commits sent to the catalog", n, 1)
    # which commits are the catalog's
    r = db.find("IcebergCatalogCommitMode::resolve", crate=C)
    if rep.need(r, "IcebergCatalogCommitMode::resolve"):
        cty = next((p for p in db.adts if p.endswith("::CommitAuthority")), None)
        want = {"IcebergMetadataLocationCas": {"MetadataLocationCas"}, "IcebergRestCommit": {"CatalogCommit"}, "VersionedCatalogCommit": {"CatalogCommit"},
                "Filesystem": {"Filesystem", "MetadataLocationCas"}, "DeltaRatifiedCommit": {"Filesystem"}, "ReadOnly": {"Filesystem"}}
        auth = lambda *v: av(lambda e: last_field(e) == "commit", *v)
        here = av(lambda e: arg_is(1)(e), "+")
        for v in [v[0] for v in db.adts[cty]["v"]] if rep.need(cty, "CommitAuthority") else []:
            an = rep.analyse(db, r, assume=[here, auth(v)])
            got = {x for e, st in an.rets for x in (variants_of(e) or {"?"})}
            rep.ob(f"mode:{v}", got == want.get(v), f"commits of a table with the authority {v} use {sorted(got)}", r.loc())
        managed = lambda v: ab(lambda e: last_field(e) == "is_catalog_managed_iceberg_table", v)
        an = rep.analyse(db, r, assume=[here, auth("Filesystem"), managed(True)])
        rep.ob("mode:managed", {x for e, st in an.rets for x in (variants_of(e) or {"?"})} == {"MetadataLocationCas"}, "a table its catalog manages is committed past the catalog", r.loc())
        for m, props, w in ((True, None, "CompatibilityCatalogCommit"), (False, True, "CompatibilityCatalogCommit"), (False, False, "Filesystem")):
            asm = [av(lambda e: arg_is(1)(e), "-"), managed(m)]
            if props is not None:
                asm.append(ab(call_is("catalog_managed_iceberg_from_properties"), props))
            an = rep.analyse(db, r, assume=asm, skip=lambda p: "catalog_managed_iceberg_from_properties" in p)
            rep.ob(f"mode:without:{m}:{props}", {x for e, st in an.rets for x in (variants_of(e) or {"?"})} == {w}, "a table without a resolved authority is committed in another way than its properties say", r.loc())
    uses = {"uses_catalog_metadata": {"MetadataLocationCas", "CatalogCommit", "CompatibilityCatalogCommit"}, "uses_catalog_commit": {"CatalogCommit", "CompatibilityCatalogCommit"},
            "uses_metadata_location_update": {"MetadataLocationCas", "CompatibilityCatalogCommit"}}
    mty = next((p for p in db.adts if p.endswith("::IcebergCatalogCommitMode")), None)
    ms = [v[0] for v in db.adts[mty]["v"]] if rep.need(mty, "IcebergCatalogCommitMode") else []
    for u, w in uses.items():
        h = db.find(f"IcebergCatalogCommitMode::{u}", crate=C)
        if not rep.need(h, u):
            continue
        for m in ms:
            got = set(fn_truth(rep, db, h, [av(lambda e: arg_is(1)(e), m)]))
            rep.ob(f"mode:{u}:{m}", got == {m in w}, f"{u} is {sorted(map(str, got))} for {m}", h.loc())
    q = db.find("commit::catalog_requirements", crate=C)
    if rep.need(q, "catalog_requirements"):
        an = rep.analyse(db, q, watch=shorts("extend_from_slice", "extend", "push", "append", "chain", "collect", "concat", "to_vec"))
        got = {x.a[0] for s in an.sites for a in s.args for x in walk(a) if x.op == "arg"}
        rep.ob("authority:all", {2, 3} <= got, "the catalog is not told all requirements of a commit", q.loc())
        adts = [s for s in rep.analyse(db, q, adt_watch=lambda p, v: p.endswith("TableRequirement")).sites]
        rep.ob("authority:uuid", any(s.expr.a[1] == "UuidMatch" and "table_uuid" in fields(s.expr) for s in adts), "the catalog is not told which table is changed", q.loc())


# ---------------------------------------------------------------- I02
CLEAN = ("cleanup_uncommitted_task_files", "delete_stream", "delete")


def guard(rep, db, f, g):
    """the variable that keeps the data files of a commit that may have happened (its first value is a constant)"""
    an = rep.analyse(db, f, watch=shorts(*CLEAN), skip=lambda p: own(p) or p == g.key)
    of_g = lambda e: any(x.op == "clo" and x.a[0] == g.key for x in walk(e))
    after = [s for s in an.sites if any(k[0] == "v" and of_g(k[1]) for k in s.state)]
    before = [s for s in an.sites if s not in after]
    names = set()
    for s in after:
        rep.ob("task-files:failed", any(k[0] == "v" and of_g(k[1]) and unmut(k[1]).op == "await" and v == {"-"} for k, v in s.state.items()), "the data files of a commit are removed although it succeeded", s.where())
        on = {str(k[1].a[1]) for k, v in s.state.items() if k[0] == "b" and k[1].op == "mut" and unmut(k[1]).op == "k" and v == {False}}
        rep.ob("task-files:guarded", bool(on), "the data files of a failed commit are removed although it may have happened", s.where())
        names |= on
    rep.floor("removals of data files after a failed commit", len(after), 1)
    for s in before:
        rep.ob("task-files:input", any(k[0] == "v" and v == {"-"} and not of_g(k[1]) and unmut(k[1]).op == "await" for k, v in s.state.items()), "data files are removed although reading the results of the writers did not fail", s.where())
    return an, names


@prop("I02")
def cleanup(rep):
    db = rep.db(C)
    rep.rule("task-files", "the data files of a failed commit are removed, but only when the commit cannot have happened: never after its metadata was written, a conflicted metadata file could not be removed, or the catalog was asked and did not say that it refused")
    f, g = commit_bodies(rep, db)
    if f is None:
        return
    an, names = guard(rep, db, f, g)
    if not rep.need(len(names) == 1, "the variable that says a commit may have happened"):
        return
    flag = next(iter(names))
    of_g = lambda e: unmut(e).op == "await" and any(x.op == "clo" and x.a[0] == g.key for x in walk(e))
    off = ab(lambda e: e.op == "mut" and unmut(e).op == "k" and str(e.a[1]) == flag, False)
    sk = lambda p: own(p) or p == g.key
    for label, asm in (("after", [av(of_g, "-"), off]), ("input", [av(lambda e: unmut(e).op == "await" and not of_g(e) and unmut(unmut(e).a[0]).op == "clo", "-")])):
        done, n = must_event(
            rep, db, f, lambda s: name(s.short) in CLEAN, assume=asm + [av(call_is("get_object_store_from_context"), "+"), av(call_is("StoreContext::new"), "+")], pol="-", hotp=shorts(*CLEAN), skip=sk)
        rep.ob(f"task-files:removed:{label}", done, "the data files of a failed commit are left behind", f.loc())
        rep.floor(f"failed commits ({label})", n, 1)

    def asg(s):
        if str(s.dest).lstrip("^") != flag:
            return None
        v = unmut(s.expr).a[0] if unmut(s.expr).op == "k" else "?"
        return ev(c={"true": 1, "false": 0}.get(v, 2))
    BOOT = ("bootstrap_first_snapshot", "bootstrap_new_table_with_style", "bootstrap_new_table")
    boot = call_is(*BOOT)
    EV = ("put_opts", "load_metadata_file_bytes", CATALOG, "delete") + BOOT

    def happened(s):
        n = name(s.short)
        if n == "load_metadata_file_bytes":
            return ev(p=0, k=0, d=0)
        return ev(p=1) if n == "put_opts" else ev(k=1) if n == CATALOG else ev(d=1) if n == "delete" else ev(b=1)
    kw = dict(assign_fields=("^",), assign=asg, entry={"c": {0}, "p": {0}, "k": {0}, "d": {0}, "b": {0}}, event=happened, event_watch=shorts(*EV), skip=own)

    kept = "the data files of a commit are removed although it may have happened"
    lost = "the data files of a commit that did not happen are left behind"
    ok_cat = av(cat, "+")
    out = lambda *v: av(lambda e: unmut(e).op == "ok" and cat(unmut(e).a[0]), *v)
    pe = lambda e: unmut(e).op == "err" and put(unmut(e).a[0])
    # written, and not removed again
    a = rep.analyse(db, g, assume=[av(put, "+")], **kw)
    rs = [st for e, st in ret_states(a, "-") if 1 in st.get(("s", "p"), ()) and 1 not in st.get(("s", "d"), ())]
    rep.ob("flag:written", bool(rs) and all(st.get(("s", "c")) == {1} for st in rs), kept, g.loc())
    de = lambda e: unmut(e).op == "err" and call_is("delete")(unmut(e).a[0])
    a = rep.analyse(db, g, assume=[av(put, "+"), av(call_is("delete"), "-"), av(de, "Generic")], **kw)
    rs = [st for e, st in ret_states(a, "-") if 1 in st.get(("s", "d"), ())]
    rep.ob("flag:not-removed", bool(rs) and all(st.get(("s", "c")) == {1} for st in rs), kept, g.loc())
    a = rep.analyse(db, g, assume=[av(put, "+"), av(call_is("delete"), "+")], **kw)
    rs = [st for e, st in ret_states(a, "-") if st.get(("s", "d")) == {1}]
    rep.ob("flag:removed", bool(rs) and all(st.get(("s", "c")) == {0} for st in rs), lost, g.loc())
    for v in ("AlreadyExists", "Generic"):
        a = rep.analyse(db, g, assume=[av(put, "-"), av(pe, v)], **kw)
        rs = [st for e, st in ret_states(a, "-") if st.get(("s", "p")) == {1}]
        rep.ob(f"flag:refused:{v}", bool(rs) and all(st.get(("s", "c")) == {0} for st in rs), lost, g.loc())
    a = rep.analyse(db, g, assume=[av(boot, "+")], **kw)
    rs = [st for e, st in ret_states(a, "-") if 1 in st.get(("s", "b"), ())]
    rep.ob("flag:first", bool(rs) and all(st.get(("s", "c")) == {1} for st in rs), kept, g.loc())
    a = rep.analyse(db, g, assume=[av(boot, "-")], **kw)
    rs = [st for e, st in ret_states(a, "-") if st.get(("s", "b")) == {1} and any(k[0] == "v" and boot(k[1]) and v == {"-"} for k, v in st.items())]
    rep.ob("flag:first-failed", bool(rs) and all(st.get(("s", "c")) == {0} for st in rs), lost, g.loc())
    for what, asm, want in (("unknown", [av(cat, "-")], 1), ("Committed", [ok_cat, out("Committed")], 1), ("Conflict", [ok_cat, out("Conflict")], 0), ("NotSupported", [ok_cat, out("NotSupported"), av(call_is("resolve"), "CatalogCommit")], 0)):
        a = rep.analyse(db, g, assume=asm, **kw)
        rs = [st for e, st in ret_states(a, "-") if st.get(("s", "k")) == {1} and any(k[0] == "v" and cat(k[1]) for k in st)]
        if what == "Committed" and not rs:
            continue
        rep.ob(f"flag:catalog:{what}", bool(rs) and all(st.get(("s", "c")) == {want} for st in rs), kept if want else lost, g.loc())
    # manifests
    rep.rule("manifests", "the manifests written for a snapshot are removed when the snapshot is not committed, and kept when it may be")
    a = rep.analyse(db, g, watch=shorts("cleanup"), **kw)
    n = 0
    for s in a.sites:
        if "Prepared" in s.short:
            n += 1
            rep.ob("manifests:kept", s.var("c") == {0}, "the manifests of a snapshot that may be committed are removed", s.where())
    rep.floor("removals of manifests", n, 4)
    prep = co(db, "SnapshotProducer<'a>::prepare", crate=C) or co(db, "SnapshotProducer::prepare", crate=C)
    if rep.need(prep, "SnapshotProducer::prepare"):
        built = call_is("build_action_commit")
        sk2 = lambda p: "build_action_commit" in p or "cleanup_created_paths" in p
        a = rep.analyse(db, prep, assume=[av(built, "-")], watch=shorts("cleanup_created_paths", "delete_stream"), skip=sk2)
        rep.ob("manifests:removed", bool(a.sites) and not ret_states(a, "+"), "a failed snapshot is taken as prepared, or leaves its manifests behind", prep.loc())
        rs = [st for e, st in ret_states(rep.analyse(db, prep, assume=[av(built, "-")], event=lambda s: ev(x=1), event_watch=shorts("cleanup_created_paths", "delete_stream"), entry={"x": {0}}, skip=sk2), "-") if any(k[0] == "v" and built(k[1]) for k in st)]
        rep.ob("manifests:failed", bool(rs) and all(st.get(("s", "x")) == {1} for st in rs), "a failed snapshot leaves its manifests behind", prep.loc())
        a = rep.analyse(db, prep, assume=[av(built, "+")], watch=shorts("cleanup_created_paths", "delete_stream"), skip=sk2)
        rep.ob("manifests:prepared", not a.sites, "the manifests of a prepared snapshot are removed", prep.loc())
    b = co(db, "SnapshotProducer<'a>::build_action_commit", crate=C) or co(db, "SnapshotProducer::build_action_commit", crate=C)
    if rep.need(b, "SnapshotProducer::build_action_commit"):
        sk3 = lambda p: "::spec::" in p or "populate_retained" in p or "with_manifest_totals" in p or "manifest_inputs" in p or "summary_operation" in p or "ManifestWriter" in p
        isput = lambda s: name(s.short) == "put"
        a = rep.analyse(db, b, event=lambda s: ev(w=1) if isput(s) else ev(w=0) if s.args and last_name(s.args[0]) == "created_paths" else None, event_watch=shorts("put", "push"), entry={"w": {0}}, watch=shorts("put"), skip=sk3)
        n = 0
        for s in a.sites:
            n += 1
            rep.ob("manifests:recorded", s.var("w") == {0}, "a manifest is written without being recorded for removal", s.where())
        rep.floor("manifests written", n, 3)
        rs = ret_states(a, "+")
        rep.ob("manifests:all-recorded", bool(rs) and all(st.get(("s", "w")) == {0} for e, st in rs), "a manifest is written without being recorded for removal", b.loc())
        puts = {unmut(s.args[1]) for s in a.sites}
        got = {unmut(s.args[1]) for s in rep.analyse(db, b, watch=shorts("push"), skip=sk3).sites if last_name(s.args[0]) == "created_paths"}
        rep.ob("manifests:path", puts == got, "another path is recorded for removal than the one written", b.loc())
    # a failed first snapshot
    rep.rule("first", "a table whose first metadata could not be written leaves no manifests behind; once written it does not fail")
    for nm in ("bootstrap_new_table_with_style", "bootstrap_first_snapshot"):
        h = co(db, f"bootstrap::{nm}", crate=C)
        if not rep.need(h, nm):
            continue
        WR = ("write_metadata_version", "put_opts")
        wr = call_is(*WR)
        sk4 = lambda p: ("::spec::" in p or "SnapshotProducer" in p or "PreparedSnapshot" in p and "::cleanup" in p or "write_metadata_version" in p or "prepare_bootstrap_snapshot" in p or "::properties::" in p)
        k4 = dict(event=lambda s: ev(x=1) if name(s.short) == "cleanup" else ev(w=1), event_watch=shorts("cleanup", *WR), entry={"x": {0}, "w": {0}}, skip=sk4)
        rs = [st for e, st in ret_states(rep.analyse(db, h, assume=[av(wr, "-")], **k4), "-") if 1 in st.get(("s", "w"), ())]
        rep.ob(f"first:cleaned:{nm}", bool(rs) and all(st.get(("s", "x")) == {1} for st in rs), "a failed first snapshot leaves its manifests behind", h.loc())
        a = rep.analyse(db, h, assume=[av(wr, "+")], **k4)
        rs = [st for e, st in ret_states(a, "-") if 1 in st.get(("s", "w"), ())]
        rep.ob(f"first:written:{nm}", not rs, "a table whose metadata was written is reported as failed", h.loc())
        rs = [st for e, st in ret_states(a, "+")]
        rep.ob(f"first:kept:{nm}", bool(rs) and all(st.get(("s", "x")) == {0} for st in rs), "the manifests of a written table are removed", h.loc())
        rep.ob(f"first:failed:{nm}", not ret_states(rep.analyse(db, h, assume=[av(wr, "-")], **k4), "+"), "a table whose metadata could not be written is reported as written", h.loc())


def last_name(e):
    """name of the variable, capture or field an expression is rooted in"""
    while True:
        if e.op == "mut":
            return str(e.a[1]) if not isinstance(e.a[1], E) else last_name(e.a[0])
        if e.op == "f":
            return e.a[1]
        if e.op in ("arg", "up", "var"):
            return str(e).lstrip("^")
        return str(e)


@prop("I01")
def lookup(rep):
    db = rep.db(C)
    rep.rule("lookup", "the newest metadata of a table that has no catalog is the listed metadata file with the highest version, and a failed listing is an error")
    f = co(db, "metadata_loader::find_latest_metadata_file", crate=C)
    if not rep.need(f, "find_latest_metadata_file"):
        return
    an = rep.analyse(db, f, watch=shorts("sort_by", "sort_by_key", "sort_unstable_by", "max_by", "max_by_key", "try_filter_map", "filter_map", "reverse"))
    rs = ret_states(an, "+")
    n = 0
    files = lambda e: any(x.op == "call" and name(short(x.a[0])) == "list" for x in walk(e))
    for e, st in rs:
        e = okval(e) if okval(e) is not None else e
        n += 1
        if not rep.ob("lookup:listed", files(e), "another file than a listed metadata file is used", f.loc()):
            continue
        newest = any(x.op == "call" and name(short(x.a[0])) in ("last", "max_by", "max_by_key", "max", "pop") and files(x) for x in walk(e))
        newest = newest or any(k[0] == "c" and sum(any(x.op == "call" and name(short(x.a[0])) in ("last", "max", "max_by", "max_by_key") for x in walk(y)) for y in k[1:3]) and "<" not in v for k, v in st.items())
        how = "newest"
        if not newest:
            how = "filename" if any(k[0] == "b" and call_is("ends_with")(k[1]) for k in st) else "version" if any(k[0] == "c" and any(has_call(y, "parse") for y in k[1:3]) for k in st) else "other"
        rep.ob(f"lookup:hint:{how}" if not newest else "lookup:newest", newest, "an older metadata file than the newest one is used", f.loc())
    rep.floor("ways to find the newest metadata", n, 1)
    sorts = [s for s in an.sites if name(s.short) in ("sort_by", "sort_unstable_by", "max_by")]
    for s in sorts:
        c = clo_arg(s)
        r = rep.analyse(db, db.fn(c.a[0])) if c is not None else None
        ok = r is not None
        for e, st in (r.rets if r else ()):
            x = unmut(e)
            while x.op == "call" and name(short(x.a[0])) in ("then_with", "then"):
                x = unmut(x.a[1][0])
            ok = ok and x.op == "call" and name(short(x.a[0])) in ("cmp", "partial_cmp") and all(last_field(y) == "0" for y in x.a[1]) and "2" in root(x.a[1][0]) and "3" in root(x.a[1][1])
        rep.ob("lookup:order", ok, "metadata files are not ordered by their version", s.where())
    rep.ob("lookup:once", not [s for s in an.sites if name(s.short) == "reverse"], "metadata files are not ordered by their version", f.loc())
    for s in an.sites:
        if name(s.short) in ("try_filter_map", "filter_map"):
            c = clo_arg(s)
            h = [x for x in [db.fn(c.a[0])] + list(inner_fns(db, db.fn(c.a[0]))) if any(name(short(p)) == "parse_metadata_file_name" for _, p, _, _ in x.calls() if p)] if c is not None else []
            if rep.need(h[0] if h else None, "the filter of listed metadata files"):
                a = rep.analyse(db, h[0], assume=[av(call_is("parse_metadata_file_name"), "+"), av(call_is("next_back", "last", "filename"), "+")], skip=lambda p: "parse_metadata_file_name" in p)
                rep.ob("lookup:kept", bool(a.rets) and all(unmut(okval(e) if okval(e) is not None else e).op == "adt" and unmut(okval(e) if okval(e) is not None else e).a[1] == "Some" for e, st in a.rets), "a metadata file is left out", h[0].loc())
    a = rep.analyse(db, f, assume=[av(call_is("try_collect"), "-")])
    rep.ob("lookup:failed", not ret_states(a, "+"), "a listing that failed is taken as complete", f.loc())


def root(e):
    e = unmut(e)
    while e.op in ("f", "ok", "mut") :
        e = unmut(e.a[0])
    return str(e.a[0]) if e.op == "arg" else str(e)


FILE_KINDS = (("Data", "added_data_files"), ("Deletes", "added_delete_files"))
# parts of the snapshot producer that are judged on their own
PARTS = ("::spec::", "populate_retained", "with_manifest_totals", "manifest_inputs", "summary_operation", "ManifestWrite", "carries_parent_manifests", "delete_totals_base", "validate_delete_files")
parts = lambda p: any(x in p for x in PARTS)


@prop("I03")
def snapshot(rep):
    db = rep.db(C)
    rep.rule("kept-files", "an append or a row-level change keeps every manifest of the snapshot it builds on, an overwrite keeps none")
    b = co(db, "SnapshotProducer<'a>::build_action_commit", crate=C) or co(db, "SnapshotProducer::build_action_commit", crate=C)
    if not rep.need(b, "SnapshotProducer::build_action_commit"):
        return
    carries, empty = call_is("carries_parent_manifests"), lambda e: call_is("is_empty")(e) and "manifest_list" in str(e)
    boot = lambda e: last_field(e) == "is_bootstrap"
    t = db.find("SnapshotUpdateKind::carries_parent_manifests", crate=C)
    if rep.need(t, "SnapshotUpdateKind::carries_parent_manifests"):
        for v, want in (("FastAppend", True), ("RowDelta", True), ("FullOverwrite", False)):
            rep.ob(f"kept-files:kind:{v}", fn_truth(rep, db, t, [av(arg_is(1), v)]) == {want}, f"{v} {'drops' if want else 'keeps'} the files of the snapshot it builds on", t.loc())
    keep = [ab(boot, False), ab(carries, True), ab(empty, False)]
    LOAD = ("get", "bytes", "parse_with_version", "populate_retained_manifest_counts", "resolve")
    # the entries of the parent's manifest list: loaded, all kept
    parent = lambda e: has_call(e, "parse_with_version")
    moved = lambda s: name(s.short) in ("push", "append", "extend") and len(s.args) == 2 and any(parent(x) for x in s.args[1:])
    HOT = shorts("push", "append", "extend", "push_back")
    each(rep, db, b, parent, moved, HOT, "kept-files:all", "a manifest of the snapshot that is built on is dropped", assume=keep, skip=parts)
    done, n = must_event(rep, db, b, lambda s: True, assume=keep, hotp=shorts("parse_with_version"), skip=parts)
    rep.ob("kept-files:loaded", done, "the files of the snapshot that is built on are dropped", b.loc())
    for c in LOAD:
        a = rep.analyse(db, b, assume=keep + [av(lambda e: call_is(c)(e) and (c != "get" or "manifest_list" in str(e)), "-"), av(nexts(parent), "+") if c.startswith("populate") else av(lambda e: False, "+")], skip=parts)
        rep.ob(f"kept-files:failed:{c}", not ret_states(a, "+"), "a manifest list that could not be read is taken as empty", b.loc())
    for label, asm in (("overwrite", [ab(carries, False)]), ("first", [ab(boot, True)])):
        a = rep.analyse(db, b, assume=asm, watch=shorts("parse_with_version"), skip=parts)
        rep.ob(f"kept-files:none:{label}", not a.sites, "the replaced files are kept", b.loc())
    # everything collected goes into the new list
    an = rep.analyse(db, b, watch=shorts("push", "append", "put", "build", "to_bytes", "new", "with_manifest_totals"), skip=parts)
    boxes = {}
    for s in an.sites:
        if name(s.short) in ("push", "push_back") and (parent(s.args[1]) or has_call(s.args[1], "ManifestFile::builder")):
            boxes.setdefault(last_name(s.args[0]), s)
    rep.floor("collections of manifests", len(boxes), 1)
    listed = lambda s: name(s.short) in ("append", "extend") and ("ManifestListWriter" in (s.path or "") or "ManifestListWriter" in str(s.args[0]))
    EACH = ("for_each", "try_for_each")
    for bx, s0 in sorted(boxes.items()):
        over = lambda e: any(last_name(x) == bx and unmut(x).op == "call" and name(short(unmut(x).a[0])) in ("new", "with_capacity") for x in links(e))
        ns = [s for s in rep.analyse(db, b, watch=shorts("Iterator::next"), skip=parts).sites if over(s.args[0])]
        # loops that only read or number the entries do not list them
        o = {(s.fn.key, s.bb): f"o{i}" for i, s in enumerate(ns)}

        def evt(s):
            if s.short == "Iterator::next":
                k = o.get((s.fn.key, s.bb))
                return ev(**{k: 1}) if k else None
            return ev(l=1, **{k: 0 for k in o.values()}) if listed(s) else None
        a = rep.analyse(db, b, watch=shorts("Iterator::next", "to_bytes"), event=evt, event_watch=lambda p, s: s == "Iterator::next" or HOT(p, s), entry={"l": {0}, **{k: {0} for k in o.values()}}, skip=parts)
        each_done = []
        loops = [s for s in a.sites if (s.fn.key, s.bb) in o and s.var(o[(s.fn.key, s.bb)]) == {0} and 1 in s.var("l")]
        for s in rep.analyse(db, b, watch=lambda p, s: s.split("::")[-1] in EACH, skip=parts).sites:
            if name(s.short) in EACH and over(s.args[0]) and unmut(s.args[1]).op == "clo":
                c = rep.analyse(db, db.fn(unmut(s.args[1]).a[0]), event=lambda s: ev(l=1) if listed(s) else None, event_watch=HOT, entry={"l": {0}})
                each_done.append(bool(c.rets) and all(st.get(("s", "l")) == {1} for _, st in c.rets))
        whole = [s for s in a.sites if name(s.short) == "to_bytes" and s.args and any(x.op == "call" and name(short(x.a[0])) in ("chain", "extend") for x in walk(s.args[0]))]
        rep.ob("kept-files:listed", all(each_done) and bool(loops or whole or each_done), "a manifest is left out of the new manifest list", s0.where())
        outs = [s for s in a.sites if name(s.short) == "to_bytes" and "ManifestListWriter" in str(s.args[0])]
        rep.ob("kept-files:listed:all", bool(outs) and (bool(each_done) and not loops or all(any(k[0] == "v" and nexts(over)(k[1]) and v == {"-"} for k, v in s.state.items()) for s in outs)), "a manifest is left out of the new manifest list", s0.where())
    new_files(rep, db, b, HOT)
    snapshot_ids(rep, db, b)
    delete_formats(rep, db, b)


def links(e):
    """the collections a chain of iterators goes through"""
    u = unmut(e)
    if u.op == "call" and name(short(u.a[0])) == "chain" and len(u.a[1]) == 2:
        return links(u.a[1][0]) + links(u.a[1][1])
    return [e]


def summed(e, f):
    """a variable that starts at 0 and grows by that field in a loop"""
    e = unmut(e)
    ps = [unmut(x) for x in e.a[0]] if e.op == "phi" else []
    more = [x for x in ps if not is_const(x, "0")]
    return len(more) < len(ps) and bool(more) and all(x.op == "bin" and x.a[0] == "Add" and any(unmut(y).op == "loop" for y in x.a[1:]) and any(last_field(y) == f for y in x.a[1:]) for x in more)


def new_files(rep, db, b, HOT):
    rep.rule("new-files", "every data and delete file handed to a snapshot is listed in one new manifest of its kind and of the partition spec it was written with")
    for kind, field in FILE_KINDS:
        fn = "data_manifest_inputs" if kind == "Data" else "delete_manifest_inputs"
        one = lambda s: name(s.short) in (fn, "manifest_inputs")
        own_ = lambda e: any(x.op == "call" and name(short(x.a[0])) in (fn, "manifest_inputs") and last_field(x.a[1][2]) == field for x in walk(e))
        an = rep.analyse(db, b, watch=shorts(fn, "manifest_inputs", "add", "put", "push", "with_content", "with_file_counts", "with_row_counts", "with_partition_spec_id"), skip=parts)
        src = [s for s in an.sites if one(s) and last_field(s.args[2]) == field]
        rep.ob(f"new-files:all:{kind}", bool(src) and all(unmut_all(s.args[2]) == unmut(s.args[2]) and last_field(s.args[1]) == "partition_specs" for s in src), "a file handed to a snapshot is not listed", b.loc())
        a = rep.analyse(db, b, assume=[av(lambda e: any(call_is(c)(e) for c in (fn, "manifest_inputs")) and own_(e), "-")], skip=parts)
        rep.ob(f"new-files:failed:{kind}", not ret_states(a, "+"), "files that could not be assigned to a manifest are left out", b.loc())
        w = db.find(f"snapshot::{fn}", crate=C)
        if w is not None:
            c = rep.analyse(db, w, watch=shorts("manifest_inputs"), skip=parts)
            rep.ob(f"new-files:kind:{kind}", bool(c.sites) and all(adt_variant(s.args[3]) == kind and arg_is(3)(s.args[2]) and arg_is(2)(s.args[1]) for s in c.sites) and all(call_is("manifest_inputs")(e) for e, _ in c.rets), f"{kind} files are listed as files of another kind", w.loc())
        # groups of files: each becomes a manifest that lists each of its files
        group = lambda e: own_(e) and not any(x.op == "elem" for x in walk(e))
        files = lambda e: own_(e) and last_field(e) == "1"
        add = lambda s: name(s.short) == "add" and has_call(s.args[0], "ManifestWriterBuilder::build") and own_(s.args[1])
        each(rep, db, b, files, add, shorts("add"), f"new-files:added:{kind}", "a file is left out of its manifest", inner=True, skip=parts)
        listed = lambda s: name(s.short) == "push" and has_call(s.args[1], "ManifestFile::builder")
        each(rep, db, b, group, listed, HOT, f"new-files:listed:{kind}", "a new manifest is left out of the snapshot", skip=parts)
        putm = lambda s: name(s.short) == "put" and own_(s.args[2]) and has_call(s.args[2], "finish")
        each(rep, db, b, group, putm, shorts("put"), f"new-files:written:{kind}", "a new manifest is listed but not written", skip=parts)
        bad = rep.analyse(db, b, assume=[av(lambda e: call_is("put")(e) and own_(e), "-")], event=lambda s: ev(p=1) if putm(s) else None, event_watch=shorts("put"), entry={"p": {0}}, skip=parts)
        rep.ob(f"new-files:put:{kind}", not [1 for e, st in ret_states(bad, "+") if 1 in st.get(("s", "p"), ())], "a manifest that could not be written is listed", b.loc())
        # the entry of the manifest list
        n = 0
        for s in an.sites:
            if name(s.short) not in ("with_content", "with_file_counts", "with_row_counts", "with_partition_spec_id"):
                continue
            # which manifest an entry describes shows in the elements of the collection in scope
            mine = any(k[0] == "v" and nexts(group)(k[1]) and v == {"+"} for k, v in s.state.items())
            if not mine:
                continue
            n += 1
            w = name(s.short)
            if w == "with_content":
                rep.ob(f"new-files:entry:{kind}:content", adt_variant(s.args[1]) == kind, f"a manifest of {kind} files is listed as of another kind", s.where())
            elif w == "with_partition_spec_id":
                rep.ob(f"new-files:entry:{kind}:spec", own_(s.args[1]) and last_field(s.args[1]) == "spec_id", "a manifest is listed with another partition spec", s.where())
            elif w == "with_file_counts":
                rep.ob(f"new-files:entry:{kind}:files", is_count(s.args[1], own_) and is_const(s.args[2], "0") and is_const(s.args[3], "0"), "a manifest is listed with another number of files", s.where())
            else:
                rep.ob(f"new-files:entry:{kind}:rows", own_(s.args[1]) and (has_call(s.args[1], "sum") or has_call(s.args[1], "fold") or summed(s.args[1], "record_count")) and is_const(s.args[2], "0") and is_const(s.args[3], "0"), "a manifest is listed with another number of rows", s.where())
        rep.floor(f"entries of {kind} manifests", n, 4)
    h = db.find("snapshot::manifest_inputs", crate=C)
    if rep.need(h, "manifest_inputs"):
        arg3 = lambda e: arg_is(3)(e)
        each(rep, db, h, arg3, lambda s: name(s.short) in ("push", "extend", "push_back") and any(x.op == "elem" and arg3(x.a[0]) for a in s.args[1:] for x in walk(a)), shorts("push", "extend", "push_back"), "new-files:grouped", "a file is left out of its manifest")
        an = rep.analyse(db, h, watch=shorts("entry", "push"))
        es = [s for s in an.sites if name(s.short) == "entry"]
        rep.ob("new-files:grouped:spec", bool(es) and all(last_field(s.args[1]) == "partition_spec_id" and any(x.op == "elem" and arg3(x.a[0]) for x in walk(s.args[1])) for s in es), "a file is listed under another partition spec than the one it was written with", h.loc())
        ks = [k for k in inner_fns(db, h) if any(name(short(p)) in ("find", "spec_id") for _, p, _, _ in k.calls() if p)]
        finds = [k for k in ks if any(name(short(p)) == "find" for _, p, _, _ in k.calls() if p)]
        for k in finds:
            a = rep.analyse(db, k, watch=shorts("find"))
            rep.ob("new-files:spec:found", not ret_states(rep.analyse(db, k, assume=[av(call_is("find"), "-")]), "+"), "files of an unknown partition spec are listed under another one", k.loc())
            a = rep.analyse(db, k, assign_fields=("partition_spec", "content"), assign=lambda s: ev(**({"ps": 1} if last_field(s.dest) == "partition_spec" and has_call(s.expr, "find") or "elem" in str(s.expr) and last_field(s.dest) == "partition_spec" else {"ct": 1} if last_field(s.dest) == "content" and "content" in str(s.expr) else {"bad": 1})), entry={"ps": {0}, "ct": {0}, "bad": {0}})
            rs = ret_states(a, "+")
            rep.ob("new-files:spec:set", bool(rs) and all(st.get(("s", "ps")) == {1} and st.get(("s", "ct")) == {1} and st.get(("s", "bad")) == {0} for _, st in rs), "a manifest is written with another partition spec or content than its files have", k.loc())
        eqs = [k for k in ks if k not in finds]
        for k in eqs:
            same = eqv(lambda e: last_field(e) == "spec_id", lambda e: True)
            diff = nev(lambda e: last_field(e) == "spec_id", lambda e: True)
            rep.ob("new-files:spec:same", truths_of(rep, db, k, [same]) == {True} and truths_of(rep, db, k, [diff]) == {False}, "files are listed under another partition spec", k.loc())
        rep.floor("searches of the partition spec", min(len(finds), len(eqs)), 1)


def truths_of(rep, db, f, assume):
    a = rep.analyse(db, f, assume=assume)
    out = set()
    for e, st in a.rets:
        out |= {v for v in (True, False) if a.bool_con(e, v) is not None}
    return out


def is_count(e, own_):
    e = unmut(e)
    while e.op in ("cast", "ok") or e.op == "call" and name(short(e.a[0])) in ("from", "try_from", "try_into", "into"):
        e = unmut(e.a[0] if e.op != "call" else e.a[1][0])
    return e.op == "call" and name(short(e.a[0])) in ("len", "count") and own_(e)


def snapshot_ids(rep, db, b):
    rep.rule("ids", "a snapshot, the manifests it adds and its reference have one new id and the next sequence number of the table; the table must be at the snapshot it builds on")
    boot = lambda e: last_field(e) == "is_bootstrap"
    an = rep.analyse(db, b, watch=lambda p, s: name(s).startswith("with_") or name(s) == "build", adt_watch=lambda p, v: p.endswith(("TableUpdate", "TableRequirement")), skip=parts)
    want = {"with_sequence_number": "next_sequence_number", "with_min_sequence_number": "next_sequence_number", "with_added_snapshot_id": "generate_snapshot_id", "with_snapshot_id": "generate_snapshot_id"}
    n = dict.fromkeys(want, 0)
    for s in an.sites:
        w = name(s.short)
        if s.kind == "call" and w in want:
            n[w] += 1
            rep.ob(f"ids:{w}", strip_ok(s.args[1]).op == "call" and call_is(want[w])(strip_ok(s.args[1])), "a manifest or a snapshot gets another id or sequence number", s.where())
    for w, k in (("with_sequence_number", 3), ("with_min_sequence_number", 2), ("with_added_snapshot_id", 2), ("with_snapshot_id", 1)):
        rep.floor(f"ids ({w})", n[w], k)
    t = db.find("Transaction::next_sequence_number", crate=C)
    if rep.need(t, "Transaction::next_sequence_number"):
        a = rep.analyse(db, t)
        rs = [okval(e) for e, _ in ret_states(a, "+")]
        ok = bool(a.rets) and all(is_next(e) for e, _ in a.rets if ret_states(a, "+"))
        rep.ob("ids:next", ok, "the sequence number of a snapshot is not the one after the last", t.loc())
    for s in an.sites:
        if s.kind != "adt":
            continue
        d = dict(s.expr.a[2])
        v = s.expr.a[1]
        if v == "SetSnapshotRef":
            r = dict(unmut(d["reference"]).a[2]) if unmut(d["reference"]).op == "adt" else {}
            rep.ob("ids:ref", "MAIN_BRANCH" in str(d["ref_name"]) or "main" in str(d["ref_name"]), "another reference than the main branch is moved", s.where())
            rep.ob("ids:ref-id", "snapshot_id" in r and (call_is("generate_snapshot_id")(r["snapshot_id"]) or last_field(r["snapshot_id"]) == "snapshot_id" and has_call(r["snapshot_id"], "SnapshotBuilder::build") or call_is("snapshot_id")(r["snapshot_id"])), "the main branch is moved to another snapshot", s.where())
        elif v == "AddSnapshot":
            rep.ob("ids:added", has_call(d["snapshot"], "SnapshotBuilder::build"), "another snapshot is added than the one that was built", s.where())
        elif v == "RefSnapshotIdMatch":
            rep.ob("ids:required-ref", "MAIN_BRANCH" in str(d["ref"]) or "main" in str(d["ref"]), "the main branch is not required to be at the snapshot that is built on", s.where())
    for label, asm, some in (("first", ab(boot, True), False), ("next", ab(boot, False), True)):
        a = rep.analyse(db, b, assume=[asm], watch=shorts("with_parent_snapshot_id"), adt_watch=lambda p, v: v == "RefSnapshotIdMatch", skip=parts)
        here = lambda x: last_field(x) == "snapshot_id" and "tx" in str(x)
        for s in [s for s in a.sites if s.kind == "adt"]:
            xs = [y for y, _ in alts_of(a, s, dict(s.expr.a[2])["snapshot_id"])]
            rep.ob(f"ids:required:{label}", all(x.op == "adt" and (x.a[1] == "None" or here(x.a[2][0][1])) for x in xs) and any(x.a[1] == "Some" for x in xs), "a snapshot does not require the table to be at the snapshot it builds on", s.where())
        known = lambda s: any(x.op == "adt" and x.a[1] == "Some" and here(x.a[2][0][1]) for x in walk(s.expr)) and s.expr.a[1] == "Some"
        a2 = rep.analyse(db, b, assume=[asm], entry={"k": {0}}, adt_watch=lambda p, v: v == "Some", adt_event=lambda s: ev(k=1) if known(s) else None, skip=parts)
        rs = ret_states(a2, "+")
        rep.ob(f"ids:required:{label}:when", bool(rs) and all(st.get(("s", "k")) == {1 if some else 0} for _, st in rs), "a snapshot does not require the table to be at the snapshot it builds on", b.loc())
        ps = [s for s in a.sites if s.kind == "call"]
        rep.ob(f"ids:parent:{label}", bool(ps) == some and all(last_field(s.args[1]) == "snapshot_id" and "tx" in str(s.args[1]) for s in ps), "a snapshot names another parent than the snapshot it builds on", b.loc())
        done, k = must_event(rep, db, b, lambda s: True, assume=[asm], hotp=shorts("with_parent_snapshot_id"), skip=parts)
        if some:
            rep.ob("ids:parent:set", done, "a snapshot has no parent", b.loc())
    # both updates and the requirement leave the function
    a = rep.analyse(db, b, watch=shorts("ActionCommit::new", "new"), skip=parts)
    cs = [s for s in a.sites if s.short.endswith("ActionCommit::new")]
    rep.ob("ids:commit", bool(cs) and all(set(variants_in(s.args[0])) >= {"AddSnapshot", "SetSnapshotRef"} and "RefSnapshotIdMatch" in variants_in(s.args[1]) for s in cs), "a snapshot is added without its reference or without its requirement", b.loc())


def variants_in(e):
    return [x.a[1] for x in walk(e) if x.op == "adt"]


def alts_of(an, s, e):
    """values an expression can have at a site (alternatives that contradict the assumptions are left out)"""
    e = unmut(e)
    if e.op == "phi":
        return [y for x in e.a[0] for y in alts_of(an, s, x)]
    return [(e, None)]


def strip_ok(e):
    e = unmut(e)
    while e.op == "ok":
        e = unmut(e.a[0])
    return e


def is_next(e):
    e = unmut(e)
    if e.op == "call" and name(short(e.a[0])) in ("ok_or_else", "ok_or", "map_err", "checked_add"):
        if name(short(e.a[0])) != "checked_add":
            return is_next(e.a[1][0])
        return last_field(e.a[1][0]) == "last_sequence_number" and is_const(e.a[1][1], "1")
    if e.op == "adt" and e.a[1] == "Ok":
        return is_next(e.a[2][0][1])
    if e.op == "ok":
        return is_next(e.a[0])
    if e.op == "adt" and e.a[1] == "Err" or e.op == "call" and "from_residual" in e.a[0]:
        return True
    return is_add(e, lambda x: last_field(x) == "last_sequence_number", 1)


def delete_formats(rep, db, b):
    rep.rule("formats", "delete files are only added to tables whose format has them: no data files among them, none in version 1, no position delete files in version 3")
    v = db.find("snapshot::validate_delete_files_for_format", crate=C)
    if rep.need(v, "validate_delete_files_for_format"):
        ver = lambda x: [av(arg_is(1), x), *[ac(arg_is(1), lambda e, y=y: adt_variant(e) == y, "=" if x == y else "<>") for y in ("V1", "V2", "V3")]]
        isdata = lambda x: [av(lambda e: last_field(e) == "content", x), *[ac(lambda e: last_field(e) == "content", lambda e, y=y: adt_variant(e) == y, "=" if x == y else "<>") for y in ("Data", "PositionDeletes", "EqualityDeletes")]]
        some = ab(lambda e: call_is("is_empty")(e), False)
        for f, c, want in (("V1", "PositionDeletes", False), ("V1", "EqualityDeletes", False), ("V2", "Data", False), ("V3", "Data", False), ("V3", "PositionDeletes", False), ("V2", "PositionDeletes", True), ("V2", "EqualityDeletes", True), ("V3", "EqualityDeletes", True)):
            a = rep.analyse(db, v, assume=ver(f) + isdata(c) + [some], nonempty=True)
            got = bool(ret_states(a, "+")), bool(ret_states(a, "-"))
            rep.ob(f"formats:{f}:{c}", got == (want, not want), f"{c} files can{'' if not want else 'not'} be added as delete files to a table of format {f}", v.loc())
    a = rep.analyse(db, b, assume=[av(call_is("validate_delete_files_for_format"), "-")], watch=shorts("put"), skip=parts)
    rep.ob("formats:refused", not a.sites and not ret_states(a, "+"), "delete files are added to a table whose format does not have them", b.loc())
    an = rep.analyse(db, b, watch=shorts("validate_delete_files_for_format", "put"), event=lambda s: ev(v=1), event_watch=shorts("validate_delete_files_for_format"), entry={"v": {0}}, skip=parts)
    rep.ob("formats:checked", all(s.var("v") == {1} for s in an.sites if name(s.short) == "put"), "delete files are not checked against the format of the table", b.loc())
    vs = [s for s in an.sites if name(s.short) != "put"]
    rep.ob("formats:checked:files", bool(vs) and all(last_field(s.args[1]) == "added_delete_files" and "format_version" in str(s.args[0]) for s in vs), "other files are checked than those that are added", b.loc())


@prop("I03")
def applied(rep):
    db = rep.db(C)
    rep.rule("applied", "metadata that is written holds the new snapshot: in its list and log, as the current one and as the main branch, with its sequence number, and the log of the metadata it replaces")
    f, g = commit_bodies(rep, db)
    if f is None:
        return
    upd = lambda e: has_call(e, "action_commit") or "updates" in fields(e)
    snap = lambda e: any(x.op == "f" and x.a[1] in ("snapshot", "reference", "ref_name") for x in walk(e))

    def evt(s):
        n = name(s.short)
        if n == "load_metadata_file_bytes":
            return ev(list=0, log=0, meta=0, ref=0, cur=0, rows=0)
        if n == "push" and last_field(s.args[0]) in ("snapshots", "snapshot_log", "metadata_log"):
            return ev(**{{"snapshots": "list", "snapshot_log": "log", "metadata_log": "meta"}[last_field(s.args[0])]: 1})
        if n == "insert" and last_field(s.args[0]) == "refs":
            return ev(ref=1) if snap(s.args[1]) and snap(s.args[2]) else ev(ref=2)
        if n == "advance_next_row_id":
            return ev(rows=1)
        return None

    def asg(s):
        n = last_field(s.dest)
        if n == "current_snapshot_id":
            e = unmut(s.expr)
            return ev(cur=1) if e.op == "adt" and e.a[1] == "Some" and last_field(e.a[2][0][1]) == "snapshot_id" and snap(e) else ev(cur=2)
        return ev(time=1)
    kw = dict(event=evt, event_watch=shorts("load_metadata_file_bytes", "push", "insert", "advance_next_row_id"), assign_fields=("current_snapshot_id", "last_updated_ms"), assign=asg, entry={k: {0} for k in ("list", "log", "meta", "ref", "cur", "rows", "time")}, skip=own)
    elem_upd = lambda e: unmut(e).op == "elem" and upd(e)
    for v, need in (("AddSnapshot", ("list", "log", "cur")), ("SetSnapshotRef", ("ref",))):
        a = rep.analyse(db, g, assume=[av(elem_upd, v)], nonempty=True, watch=shorts("put_opts"), **kw)
        puts = [s for s in a.sites if name(s.short) == "put_opts"]
        rep.floor(f"metadata writes ({v})", len(puts), 1)
        for s in puts:
            for k in need:
                rep.ob(f"applied:{v}:{k}", s.var(k) == {1}, "metadata is written without the new snapshot", s.where())
    a = rep.analyse(db, g, watch=shorts("put_opts", "push", "encode_metadata_file", "to_json", "advance_next_row_id"), **kw)
    for s in a.sites:
        n = name(s.short)
        if n == "put_opts":
            rep.ob("applied:log", s.var("meta") == {1}, "metadata is written without a log of the metadata it replaces", s.where())
        elif n == "push" and last_field(s.args[0]) in ("snapshots", "snapshot_log"):
            rep.ob(f"applied:value:{last_field(s.args[0])}", snap(s.args[1]), "another snapshot is added than the new one", s.where())
        elif n == "push" and last_field(s.args[0]) == "metadata_log":
            e = unmut(s.args[1])
            d = dict(e.a[2]) if e.op == "adt" else {}
            rep.ob("applied:log:file", any(has_call(x, "find_latest_metadata_file", "load_catalog_metadata_location") or "meta" in str(x) for x in d.values()) and "last_updated_ms" in str(d.get("timestamp_ms")), "the log names other metadata than what is replaced", s.where())
    # the last sequence number follows the new snapshot
    seen = []
    a = rep.analyse(db, g, assign_fields=("last_sequence_number",), assign=lambda s: seen.append(s) or ev(q=1), entry={"q": {0}}, watch=shorts("put_opts"), skip=own, assume=[av(elem_upd, "AddSnapshot"), ac(lambda e: call_is("sequence_number")(e) or last_field(e) == "sequence_number" or "newest" in str(e), lambda e: last_field(e) == "last_sequence_number", ">")], nonempty=True)
    rep.ob("applied:sequence", bool(seen) and all("sequence_number" in str(s.expr) and "last_sequence_number" != last_field(s.expr) for s in seen), "the last sequence number is not that of the new snapshot", g.loc())
    # the first snapshot
    rep.rule("first-snapshot", "the first snapshot of a table is its current snapshot, in its list and log, and its main branch")
    h = co(db, "bootstrap::bootstrap_first_snapshot", crate=C)
    sk = lambda p: parts(p) or any(x in p for x in ("prepare_bootstrap_snapshot", "write_metadata_version", "PreparedSnapshot", "::utils::"))
    if rep.need(h, "bootstrap_first_snapshot"):
        def evt2(s):
            n = name(s.short)
            if n == "push":
                return ev(**{{"snapshots": "list", "snapshot_log": "log", "metadata_log": "meta"}.get(last_field(s.args[0]), "z"): 1})
            return ev(ref=1) if last_field(s.args[0]) == "refs" else None
        a = rep.analyse(db, h, event=evt2, event_watch=shorts("push", "insert", "entry"), assign_fields=("current_snapshot_id", "last_sequence_number"),
                        assign=lambda s: ev(cur=1) if last_field(s.dest) == "current_snapshot_id" and "snapshot_id" in str(s.expr) else ev(seq=1) if last_field(s.dest) == "last_sequence_number" and "sequence_number" in str(s.expr) else ev(bad=1),
                        entry={k: {0} for k in ("list", "log", "meta", "ref", "cur", "seq", "bad", "z")}, watch=shorts("write_metadata_version"), skip=sk)
        ws = [s for s in a.sites if name(s.short) == "write_metadata_version"]
        rep.floor("first snapshots of existing tables", len(ws), 1)
        for s in ws:
            for k in ("list", "log", "meta", "ref", "cur", "seq"):
                rep.ob(f"first-snapshot:existing:{k}", s.var(k) == {1} and s.var("bad") == {0}, "metadata is written without the first snapshot", s.where())
    h = co(db, "bootstrap::bootstrap_new_table_with_style", crate=C)
    if rep.need(h, "bootstrap_new_table_with_style"):
        a = rep.analyse(db, h, adt_watch=lambda p, v: p.endswith("TableMetadata"), skip=sk)
        rep.floor("metadata of new tables", len(a.sites), 1)
        for s in a.sites:
            d = dict(s.expr.a[2])
            new = lambda e: has_call(e, "prepare", "find_map") or "AddSnapshot" in str(e)
            for k in ("snapshots", "snapshot_log", "refs", "current_snapshot_id", "last_sequence_number"):
                rep.ob(f"first-snapshot:new:{k}", k in d and new(d[k]), "a new table is written without its first snapshot", s.where())
            for k, w in (("schemas", "schema"), ("current_schema_id", "schema"), ("partition_specs", "partition_spec"), ("default_spec_id", "partition_spec"), ("location", "table_url")):
                rep.ob(f"first-snapshot:new:{k}", k in d and w in str(d[k]), f"a new table is written with another {k}", s.where())
    for nm, w in (("bootstrap_new_table_with_style", True), ("prepare_bootstrap_snapshot", True)):
        h = co(db, f"bootstrap::{nm}", crate=C) or db.find(f"bootstrap::{nm}", crate=C)
        if not rep.need(h, nm):
            continue
        a = rep.analyse(db, h, watch=shorts("SnapshotProducer::new", "new", "with_bootstrap", "with_added_delete_files", "prepare"), skip=sk)
        for what, ok in (("data", any(name(s.short) == "new" and "SnapshotProducer" in s.short and last_name(s.args[1]).endswith("data_files") for s in a.sites)), ("deletes", any(name(s.short) == "with_added_delete_files" and last_name(s.args[1]).endswith("delete_files") for s in a.sites)),
                         ("first", any(name(s.short) == "with_bootstrap" and is_const(s.args[1], "true") for s in a.sites)), ("kind", any(name(s.short) == "prepare" and last_name(s.args[1]) == "snapshot_update_kind" for s in a.sites))):
            rep.ob(f"first-snapshot:{nm}:{what}", ok, "the first snapshot does not hold the files that were written", h.loc())
    a = rep.analyse(db, g, watch=shorts("SnapshotProducer::new", "new", "with_added_delete_files", "prepare", "with_bootstrap"), skip=own)
    for what, ok in (("data", any(name(s.short) == "new" and "SnapshotProducer" in s.short and last_name(s.args[1]).endswith("data_files") for s in a.sites)), ("deletes", any(name(s.short) == "with_added_delete_files" and last_name(s.args[1]).endswith("delete_files") for s in a.sites)),
                     ("kind", any(name(s.short) == "prepare" and last_name(s.args[1]) == "snapshot_update_kind" for s in a.sites)), ("next", not any(name(s.short) == "with_bootstrap" for s in a.sites))):
        rep.ob(f"applied:files:{what}", ok, "a snapshot does not hold the files that were written, or is committed as another kind of change", g.loc())
    tx = [s for s in a.sites if s.short == "Transaction::new"]
    rep.ob("applied:built-on", bool(tx) and all((has_call(s.args[1], "current_snapshot") or "snapshot" in str(s.args[1])) and last_field(s.args[2]) == "last_sequence_number" for s in tx), "a snapshot is built on another one than the current one", g.loc())
    rep.rule("operation", "the kind of change recorded for a snapshot follows from what it adds")
    t = db.find("SnapshotUpdateKind::summary_operation", crate=C)
    if rep.need(t, "SnapshotUpdateKind::summary_operation"):
        for kind, data, dels, want in (("FastAppend", None, None, "Append"), ("FullOverwrite", None, None, "Overwrite"), ("RowDelta", True, False, "Append"), ("RowDelta", False, True, "Delete"), ("RowDelta", True, True, "Overwrite")):
            asm = [av(arg_is(1), kind)]
            for fl, x in (("added_data_files", data), ("added_delete_files", dels)):
                if x is not None:
                    asm.append(num(lambda e, fl=fl: last_field(e) == fl, 3 if x else 0))
            a = rep.analyse(db, t, assume=asm)
            got = set()
            for e, _ in a.rets:
                got |= {x.a[1] for x, _ in alts_of(a, None, e) if x.op == "adt"}
            rep.ob(f"operation:{kind}:{data}:{dels}", got == {want}, f"a change that {kind} is recorded as {'/'.join(sorted(got))}", t.loc())
