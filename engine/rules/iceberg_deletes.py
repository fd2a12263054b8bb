"""Iceberg tables: delete files are applied to the rows they delete"""
from . import prop
from ._h import *
from . import arith

C = "sail_iceberg"
SINK = {"push", "push_back", "extend", "insert", "append"}
SOURCES = (("pos_by_path", "positional", "<="), ("pos_by_partition", "positional", "<="), ("eq_by_partition", "equality", "<"), ("global_eq", "equality", "<"))
BAD = {"<=": (">",), "<": (">", "=")}
GOOD = {"<=": ("<", "="), "<": ("<",)}


def of(src):
    """a delete file found in that part of the index"""
    return lambda e: unmut(e).op == "elem" and src in fields(e)


def lst(e):
    """the list of a result that is appended to"""
    return last_field(e) if last_field(e) in ("positional", "equality") else None


def taken(rep, db, f, elem, assume, sinks=SINK, dest=lambda e: True, **kw):
    """every element (satisfying elem) that f comes across is appended to a collection, under the assumptions"""
    hot = lambda p, s: s == "Iterator::next" or s.split("::")[-1] in sinks
    over = lambda e: elem(mk("elem", unmut_all(e)))
    mine = lambda s: name(s.short) in sinks and len(s.args) >= 2 and dest(s.args[0])

    def evt(s):
        if s.short == "Iterator::next":
            return [("owed", {1})] if over(s.args[0]) else None
        return [("owed", {0})] if mine(s) and any(elem(x) for a in s.args[1:] for x in walk(a) if x.op == "elem") else None
    an = rep.analyse(db, f, event=evt, event_watch=hot, entry={"owed": {0}}, watch=hot, assume=list(assume), **kw)
    n, ok = 0, True
    for s in an.sites:
        if s.short == "Iterator::next" and over(s.args[0]):
            n += 1
            ok = ok and s.var("owed") == {0}
        elif name(s.short) == "extend" and mine(s):
            x, d, all_ = unmut(s.args[1]), 0, True
            while x.op == "call" and x.a[1] and d < 12:
                d += 1
                m = short(x.a[0]).split("::")[-1]
                if m in ("filter", "filter_map", "take_while", "skip_while") and len(x.a[1]) == 2:
                    c = unmut(x.a[1][1])
                    all_ = all_ and c.op == "clo" and clo_truth(rep, db, c, [mk("elem", unmut_all(x.a[1][0]))], assume) == {True}
                elif m in ("take", "skip", "step_by"):
                    all_ = False
                x = unmut(x.a[1][0])
            if over(s.args[1]) or over(x):
                n += 1
                ok = ok and all_
    return n > 0 and ok


@prop("I04")
def index(rep):
    db = rep.db(C)
    rep.rule("match", "a position delete file applies to the data files of its path (or partition) that are not newer, an equality delete file to those of its partition (or of the table) that are older")
    f = db.find("DeleteFileIndex::for_data_file", crate=C)
    if rep.need(f, "DeleteFileIndex::for_data_file"):
        own = lambda p: "PartitionKey::new" in p
        seq = lambda e: arg_is(3)(e)
        for src, to, rel in SOURCES:
            dseq = lambda e, src=src: last_field(e) == "data_sequence_number" and src in fields(e)
            for r in BAD[rel]:
                ks = [(k, s) for k, s in keeps(rep, db, f, of(src), [ac(seq, dseq, r)], sinks=SINK, skip=own) if k]
                rep.ob(f"match:{src}:newer:{r}", not ks, f"a delete file is applied to a data file it does not cover (sequence number of the data file {r} that of the delete file)", f.loc())
            for r in GOOD[rel]:
                asm = [ac(seq, dseq, r), av(lambda e, src=src: call_is("get")(e) and src in fields(e), "+")]
                ks = [s for k, s in keeps(rep, db, f, of(src), asm, sinks=SINK, skip=own) if k]
                rep.ob(f"match:{src}:kept:{r}", bool(ks), f"a delete file that covers a data file is not applied (sequence number of the data file {r} that of the delete file)", f.loc())
                rep.ob(f"match:{src}:every:{r}", taken(rep, db, f, of(src), asm, skip=own), "a delete file that covers a data file can be passed over", f.loc())
                put = [s for s in ks if name(s.short) in SINK]
                rep.ob(f"match:{src}:kind:{r}", all(lst(s.args[0]) == to for s in put), f"a delete file is applied as another kind", f.loc())
        # all of the index is asked, with the path and the partition of the data file
        an = rep.analyse(db, f, watch=shorts("get", "new", "into_iter", "iter"), skip=own)
        for src, key in (("pos_by_path", lambda e: "file_path" in fields(e) and any(arg_is(2)(x) for x in walk(e))),
                         ("pos_by_partition", lambda e: has_call(e, "PartitionKey::new")), ("eq_by_partition", lambda e: has_call(e, "PartitionKey::new"))):
            gs = [s for s in an.sites if name(s.short) == "get" and src in fields(s.args[0])]
            done, n = must_event(rep, db, f, lambda s, src=src: src in fields(s.args[0]), hotp=shorts("get"), skip=own)
            rep.ob(f"asked:{src}:always", done, "a part of the index is not asked", f.loc())
            rep.ob(f"asked:{src}", bool(gs) and all(key(s.args[1]) for s in gs), "the delete files are looked up under another key than that of the data file", f.loc())
        done, n = must_event(rep, db, f, lambda s: s.args and any("global_eq" in fields(a) for a in s.args), hotp=shorts("next", "extend", "chain", *SINK), skip=own)
        rep.ob("asked:global_eq:always", done, "the delete files of the table are not asked", f.loc())
        ks = [s for s in an.sites if s.short == "PartitionKey::new"]
        rep.ob("asked:key", bool(ks) and all("partition_spec_id" in fields(s.args[0]) and any(arg_is(2)(x) for x in walk(s.args[0])) and last_field(s.args[1]) == "partition" and any(arg_is(2)(x) for x in walk(s.args[1])) for s in ks),
               "the partition of a data file is not that of the file", f.loc())
    rep.rule("index", "every delete file is put in the part of the index its kind and scope call for, and one that cannot be applied is refused")
    g = db.find("DeleteFileIndex::insert", crate=C)
    if rep.need(g, "DeleteFileIndex::insert"):
        own = lambda p: "PartitionKey::new" in p or "is_deletion_vector" in p
        content = lambda e: last_field(e) == "content"
        dv = call_is("is_deletion_vector")
        spec = lambda e: last_field(e) == "is_unpartitioned_spec"
        ref = lambda e: last_field(e) == "referenced_data_file"
        for label, asm, want in (("equality:global", [av(content, "EqualityDeletes"), ab(spec, True)], "global_eq"), ("equality:partition", [av(content, "EqualityDeletes"), ab(spec, False)], "eq_by_partition"),
                                 ("position:path", [av(content, "PositionDeletes"), av(ref, "+")], "pos_by_path"), ("position:partition", [av(content, "PositionDeletes"), av(ref, "-")], "pos_by_partition")):
            asm = asm + [ab(dv, False)]
            an = rep.analyse(db, g, assume=asm, watch=shorts(*SINK), skip=own)
            ps = [s for s in an.sites if any(arg_is(2)(x) or arg_is(2)(unmut(x)) for x in walk(s.args[-1]) if x.op == "arg")]
            got = {n for s in ps for n in ("global_eq", "eq_by_partition", "pos_by_path", "pos_by_partition") if n in fields(s.args[0])}
            rep.ob(f"index:{label}", got == {want}, f"a delete file is put in {sorted(got) or 'no part'} of the index instead of {want}", g.loc())
            done, n = must_event(rep, db, g, lambda s: name(s.short) in SINK, assume=asm, hotp=shorts(*SINK), skip=own)
            rep.ob(f"index:{label}:always", done, "a delete file is left out of the index", g.loc())
            for s in ps:
                k = [x for x in call_nodes(s.args[0], "entry")]
                for x in k:
                    kx = x.a[1][1]
                    ok = ("referenced_data_file" in fields(kx)) if want == "pos_by_path" else has_call(kx, "PartitionKey::new") and "partition" in fields(kx) and "partition_spec_id" in fields(kx)
                    rep.ob(f"index:{label}:key", ok, "a delete file is indexed under another key", s.where())
        for label, asm in (("vector", [ab(dv, True)]), ("data", [ab(dv, False), av(content, "Data")])):
            a = rep.analyse(db, g, assume=asm, skip=own)
            rep.ob(f"index:refused:{label}", not ret_states(a, "+"), "a file that cannot be applied is taken into the index", g.loc())


@prop("I04")
def emptiness(rep):
    db = rep.db(C)
    rep.rule("empty", "there are no deletes only if every part of the index is empty")
    for ty, parts in (("DeleteFileIndex", ("global_eq", "eq_by_partition", "pos_by_partition", "pos_by_path")), ("MatchedDeletes", ("positional", "equality"))):
        f = db.find(f"{ty}::is_empty", crate=C)
        if rep.need(f, f"{ty}::is_empty"):
            for q in parts:
                some = ab(lambda e, q=q: call_is("is_empty")(e) and last_field(unmut_call(e)) == q, False)
                none = ac(lambda e, q=q: call_is("len")(e) and last_field(unmut_call(e)) == q, lambda e: is_const(e, "0"), ">")
                rep.ob(f"empty:{ty}:{q}", fn_truth(rep, db, f, [some, none]) == {False}, "deletes are overlooked", f.loc())


def inside(e, *names):
    return any(has_call(e, n) for n in names)


@prop("I04")
def loaded(rep):
    db = rep.db(C)
    rep.rule("loaded", "every live entry of every delete manifest of the snapshot is in the index, under its own or its manifest's sequence number")
    own = lambda p: any(x in p for x in ("DeleteFileIndex::insert", "io::load_manifest", "is_deletion_vector", "is_unpartitioned"))
    f = co(db, "IcebergTableProvider::build_delete_file_index", crate=C)
    if rep.need(f, "IcebergTableProvider::build_delete_file_index"):
        entry = lambda e: unmut(e).op == "elem" and has_call(e, "load_manifest")
        man = lambda e: unmut(e).op == "elem" and not has_call(e, "load_manifest") and ("entries" in fields(e) or has_call(e, "entries")) and "manifest_list" in str(e)
        content = lambda e: last_field(e) == "content" and not has_call(e, "load_manifest")
        status = lambda e: last_field(e) == "status"
        dv = call_is("is_deletion_vector")
        hot = shorts("next", "insert", "load_manifest")
        over = lambda e: entry(mk("elem", unmut_all(e)))
        for v in ("Added", "Existing"):
            each(rep, db, f, over, lambda s: s.short == "DeleteFileIndex::insert", hot, f"loaded:{v}", "a delete file of the snapshot is left out", assume=[av(status, v), ab(dv, False), av(content, "Deletes")], inner=True, skip=own)
        for v in ("Deleted",):
            an = rep.analyse(db, f, assume=[av(status, v)], watch=shorts("insert"), skip=own)
            rep.ob(f"loaded:{v}", not [s for s in an.sites if s.short == "DeleteFileIndex::insert"], "a delete file that has been removed from the table is applied", f.loc())
        a = rep.analyse(db, f, assume=[ab(dv, True), av(status, "Added"), av(content, "Deletes"), av(nexts(over), "+")], skip=own, watch=shorts("insert"))
        rep.ob("loaded:vector", not a.sites or not ret_states(a, "+") or all(s.short != "DeleteFileIndex::insert" for s in a.sites), "a deletion vector is taken into the index", f.loc())
        mover = lambda e: man(mk("elem", unmut_all(e)))
        each(rep, db, f, mover, lambda s: name(s.short) == "load_manifest", hot, "loaded:manifests", "a delete manifest of the snapshot is not read", assume=[av(content, "Deletes")], skip=own)
        # a filter on the manifests keeps those with deletes
        for s in rep.analyse(db, f, watch=shorts("filter"), skip=own).sites:
            if mover(s.args[0]) and unmut(s.args[1]).op == "clo":
                rep.ob("loaded:filter", clo_truth(rep, db, unmut(s.args[1]), [mk("elem", unmut_all(s.args[0]))], [av(content, "Deletes")]) == {True}, "a delete manifest of the snapshot is not read", s.where())
        for c in ("load_manifest", "insert"):
            a = rep.analyse(db, f, assume=[av(lambda e, c=c: call_is(c)(strip_await(e)) and (c != "insert" or "DeleteFileIndex" in str(e)), "-"), av(nexts(over if c == "insert" else mover), "+"), av(status, "Added"), ab(dv, False), av(content, "Deletes")], skip=own, entry={"hit": {0}},
                            event=lambda s: [("hit", {1})], event_watch=lambda p, s, c=c: s.endswith("::" + c) and (c != "insert" or "DeleteFileIndex" in s))
            rep.ob(f"loaded:failed:{c}", all(st.get(("s", "hit")) == {0} for e, st in ret_states(a, "+")), "the deletes of a manifest that could not be used are ignored", f.loc())
        n = 0
        for s in rep.analyse(db, f, watch=shorts("insert"), skip=own).sites:
            if s.short != "DeleteFileIndex::insert":
                continue
            n += 1
            r = unmut(s.args[1])
            d = dict(r.a[2]) if r.op == "adt" else {}
            q = unmut(d.get("data_sequence_number", r))
            rep.ob("loaded:sequence", inherits(q, entry), "a delete file is given another sequence number than that of its entry, or else of its manifest", s.where())
            for k in ("partition_spec_id", ):
                rep.ob(f"loaded:{k}", last_field(d.get(k, r)) == k and not has_call(d[k], "load_manifest"), "a delete file is given another partition spec than that of its manifest", s.where())
            rep.ob("loaded:unpartitioned", any(has_call(x, "is_unpartitioned") or x.op == "clo" and "is_unpartitioned" in {name(short(p)) for _, p, _, _ in db.fn(x.a[0]).calls() if p} for x in walk(d.get("is_unpartitioned_spec", r))),
                   "whether the delete file applies to the whole table is not read from its partition spec", s.where())
            rep.ob("loaded:file", any(entry(x) for x in walk(d.get("data_file", r))) and "data_file" in fields(d["data_file"]), "another file is indexed than that of the entry", s.where())
        rep.floor("insertions into the index", n, 1)
    g = co(db, "IcebergTableProvider::load_data_files_with_seq", crate=C)
    if rep.need(g, "IcebergTableProvider::load_data_files_with_seq"):
        entry = lambda e: unmut(e).op == "elem" and has_call(e, "load_manifest")
        sk = lambda p: any(x in p for x in ("io::load_manifest", "::pruning::"))
        an = rep.analyse(db, g, watch=shorts("push"), skip=sk, assign_fields={"partition_spec_id"}, assign=lambda s: True)
        ps = [s for s in an.sites if s.kind == "call" and unmut(s.args[1]).op == "tup" and any(entry(x) for x in walk(unmut(s.args[1]).a[0][0]))]
        rep.floor("data files with their sequence numbers", len(ps), 1)
        for s in ps:
            if not has_call(s.args[1], "prune_files"):
                rep.ob("data:sequence", inherits(unmut(unmut(s.args[1]).a[0][1]), entry), "a data file is given another sequence number than that of its entry, or else of its manifest", s.where())
        ws = [s for s in an.sites if s.kind == "assign"]
        rep.ob("data:spec", bool(ws) and all(last_field(s.expr) == "partition_spec_id" and not has_call(s.expr, "load_manifest") for s in ws), "a data file is given another partition spec than that of its manifest", g.loc())


def inherits(q, entry):
    """the sequence number of the entry, or else that of its manifest"""
    q = unmut(q)
    mine = lambda e: last_field(e) == "sequence_number" and any(entry(x) for x in walk(e))
    theirs = lambda e: last_field(e) == "sequence_number" and not any(entry(x) for x in walk(e))
    if q.op == "call" and name(short(q.a[0])) == "unwrap_or" and len(q.a[1]) == 2:
        return mine(q.a[1][0]) and theirs(q.a[1][1])
    if q.op == "phi":
        xs = [unmut(x) for x in q.a[0]]
        return len(xs) == 2 and any(x.op == "ok" and mine(x.a[0]) for x in xs) and any(theirs(x) for x in xs)
    return False


PART = ("create_partitioned_files", "create_merge_partitioned_files")
APPLY = "IcebergDeleteApplyExec::new"
SCAN = ("::for_data_file", "create_partitioned_files", "create_merge_partitioned", "create_file_groups", "build_parquet_source", "build_merge_parquet", "load_data_files", "prune_files", "load_manifest_list",
        "build_delete_file_index", "separate_filters", "DeleteApplyExec", "MergeMetadataExec", "aggregate_stat", "simplify_expr", "expanded_projection", "chema", "StoreContext", "object_store", "scan_metadata_as_data", "scan_with_merge_metadata")


def box(e):
    """the local that holds a collection"""
    return (e.a[1], ) if e.op == "mut" else None


def boxes(e):
    """the locals a value was held in"""
    out = set()
    while e.op == "mut":
        out.add((e.a[1], ))
        e = e.a[0]
    return out


@prop("I04")
def scanned(rep):
    db = rep.db(C)
    rep.rule("scanned", "a data file is read without its deletes only if none applies to it; otherwise they are applied to all of its rows, in order, and before anything else")
    own = lambda p: any(x in p for x in SCAN)
    asked = [f for f in all_fns(db, C) if "::tests" not in f.key and any(p and short(p) == "DeleteFileIndex::for_data_file" for _, p, _, _ in f.calls())]
    rep.floor("scans that ask for deletes", len(asked), 2)
    makers = [f for f in all_fns(db, C) if "::tests" not in f.key and any(p and name(short(p)) in PART for _, p, _, _ in f.calls())]
    for f in makers:
        rep.ob(f"scanned:asks:{f.short}", f in asked or f.short.split("::{")[0].split("::")[-1] in PART or
               any(o in asked for o in callers(db, f)), "data files are read without asking for their deletes", f.loc())
    for f in asked:
        key = f.short.split("::{closure")[0]
        key = name(key)
        matched = lambda e: has_call(e, "for_data_file")
        empty = lambda kind: (lambda e: call_is("is_empty")(e) and matched(e) and kind in fields(e))
        hot = shorts("push", "new", *PART)
        an = rep.analyse(db, f, watch=hot, skip=own)
        applies = [s for s in an.sites if s.short == APPLY]
        rep.ob(f"{key}:applied", bool(applies), "the deletes of a data file are not applied", f.loc())
        parts = [s for s in an.sites if name(s.short) in PART]
        inner = {str(x) for s in applies for x in walk(s.args[0]) if x.op == "call" and name(short(x.a[0])) in PART}
        dirty = set()
        clean = {}
        for kind in ("positional", "equality"):
            a = rep.analyse(db, f, assume=[ab(empty(kind), False)], watch=hot, skip=own, nonempty=True)
            for s in a.sites:
                if name(s.short) == "push" and box(s.args[0]) and has_call(s.args[1], "load_data_files_with_seq") and (has_call(s.args[1], "for_data_file") or not has_call(s.args[1], "create_partitioned_files")):
                    if not has_call(s.args[1], *PART):
                        dirty.add(box(s.args[0]))
        a = rep.analyse(db, f, assume=[ab(empty("positional"), True), ab(empty("equality"), True)], watch=hot, skip=own, nonempty=True)
        for s in a.sites:
            if name(s.short) == "push" and box(s.args[0]) and has_call(s.args[1], "load_data_files_with_seq") and not has_call(s.args[1], *PART):
                clean.setdefault(box(s.args[0]), s)
        rep.floor(f"files with deletes ({key})", len(dirty), 1)
        for s in parts:
            e = s.args[-1]
            ok = str(mk_call(s)) in inner or box(e) in clean and box(e) not in dirty
            if not ok:
                # all files, where none has deletes
                ok = any(s.has_bool(lambda x, b=b: call_is("is_empty")(x) and box(unmut_call(x)) == b, True) for b in dirty)
            rep.ob(f"{key}:{name(s.short)}", ok, "a data file that deletes apply to is read without them", s.where())
        # every data file that deletes apply to is read
        files = lambda e: has_call(e, "load_data_files_with_seq") and not has_call(e, "for_data_file")
        took = lambda s: name(s.short) == "push" and matched(s.args[1]) and {"positional", "equality"} <= fields(s.args[1])
        for kind in ("positional", "equality"):
            each(rep, db, f, files, took, shorts("push"), f"{key}:kept:{kind}", "a data file that deletes apply to is left out, or read without its deletes", assume=[ab(empty(kind), False)], entered=True, skip=own)
        each(rep, db, f, files, lambda s: name(s.short) == "push" and has_call(s.args[1], "load_data_files_with_seq"), shorts("push"), f"{key}:kept:clean", "a data file is left out", assume=[ab(empty("positional"), True), ab(empty("equality"), True)], entered=True, skip=own)
        # each of them becomes a branch of the plan
        for s in applies:
            path = s.args[1]
            rep.ob(f"{key}:path", has_call(path, "file_path") or "file_path" in fields(path), "the deletes are looked up for another file", s.where())
            over = lambda e: bool(boxes(e) & dirty)
            each(rep, db, f, over, lambda t: name(t.short) == "push" and has_call(t.args[1], APPLY), shorts("push"), f"{key}:branch", "a data file that deletes apply to is left out", entered=True, skip=own)
            rep.ob(f"{key}:kinds", order(s, took, rep, db, f, own), "position deletes are applied as equality deletes, or the other way round", s.where())
            whole = s.args[0]
            for c in ("with_partitioned_by_file_group", "with_preserve_order"):
                cs = [x for x in walk(whole) if x.op == "call" and name(short(x.a[0])) == c]
                rep.ob(f"{key}:{c}", bool(cs) and all(is_const(x.a[1][1], "true") for x in cs), "the rows of a data file with deletes can be read in parts or out of order", s.where())
            bad = calls(whole) & {x for x in calls(whole) if name(x) in ("with_limit", "with_predicate", "with_range") or x.startswith(("FilterExec::", "GlobalLimitExec::", "LocalLimitExec::"))}
            src = [x for x in walk(whole) if x.op == "call" and name(short(x.a[0])) == "build_parquet_source"]
            rep.ob(f"{key}:unfiltered", not bad and bool(src) and all(nothing(x.a[1][3]) and nothing(x.a[1][4]) for x in src), "rows are dropped before the deletes are applied to their positions", s.where())
        lims = [s for s in rep.analyse(db, f, watch=shorts("with_limit", "new", "with_fetch"), skip=own).sites if s.short.endswith("::with_limit") or s.short.startswith(("GlobalLimitExec::", "LocalLimitExec::")) or name(s.short) == "with_fetch"]
        for s in lims:
            x = s.args[-1]
            rep.ob(f"{key}:whole", (nothing(x) or whole_limit(x)) and (len(s.args) < 3 or is_const(s.args[1], "0")), "a scan stops before it has read as many rows as were asked for", s.where())
        # rows that are counted may be deleted
        ps = rep.analyse(db, f, watch=shorts("prune_files"), skip=own)
        noidx = [ab(lambda e: call_is("is_empty")(e) and has_call(e, "build_delete_file_index"), False)]
        for s in ps.sites:
            if name(s.short) == "prune_files":
                e = unmut(s.args[2])
                a = rep.analyse(db, f, assume=noidx, watch=shorts("prune_files"), skip=own)
                no = e.op == "adt" and e.a[1] == "None" or opt_dead(rep, db, e, noidx)
                if not no and e.op == "phi":
                    no = all(some_dead(x, t, a) for t in a.sites if name(t.short) == "prune_files" for x in [t.args[2]])
                rep.ob(f"{key}:limit", no, "files are skipped once those before them hold enough rows, though their rows may be deleted", s.where())


@prop("I04")
def unaware(rep):
    db = rep.db(C)
    rep.rule("unaware", "a scan that cannot apply deletes is refused for a snapshot with delete manifests")
    fs = [f for f in all_fns(db, C) if "::tests" not in f.key and "physical_plan" not in f.file and any(p and short(p) in ("IcebergManifestScanExec::new", "IcebergScanByDataFilesExec::new") for _, p, _, _ in f.calls())]
    fs = [f for f in fs if any(p and short(p) == "IcebergScanByDataFilesExec::new" for _, p, _, _ in f.calls())]
    rep.floor("scans without deletes", len(fs), 1)
    for f in fs:
        dels = av(lambda e: last_field(e) == "content" and not has_call(e, "for_data_file"), "Deletes")
        a = rep.analyse(db, f, assume=[dels], nonempty=True)
        rep.ob(f"{name(f.short.split('::{closure')[0])}:refused", not ret_states(a, "+"), "a table with delete files is read without its deletes", f.loc())


def some_dead(e, site, an):
    """an Option that is none at the site"""
    c = an.var_con(e, frozenset(["+"]))
    return c is None or an.apply(site.state, c) is None


def mk_call(s):
    return mk("call", s.path, tuple(s.args), s.gen)


def unmut_call(e):
    e = unmut(e)
    return e.a[1][0] if e.op == "call" and e.a[1] else e


def whole_limit(e):
    """the limit that was asked for"""
    e = unmut_all(e)
    if e.op == "adt" and e.a[1] == "Some":
        e = unmut_all(dict(e.a[2]).get("0", e))
    if e.op == "ok":
        e = unmut_all(e.a[0])
    return e.op in ("arg", "up", "f") and not calls(e) and not any(x.op in ("bin", "phi", "k") for x in walk(e))


def nothing(e):
    e = unmut(e)
    return e.op == "tup" and not e.a[0] or e.op == "adt" and e.a[1] == "None" or e.op == "call" and name(short(e.a[0])) in ("new", "default") and not e.a[1] or e.op == "arr" and not e.a[0]


def callers(db, f):
    o = f.key.split("::{closure")[0]
    return [g for g in all_fns(db, C) if any(p == o or p and p.split("::{closure")[0] == o for _, p, _, _ in g.calls())]


def order(s, took, rep, db, f, own):
    """the two lists of deletes are handed to the operator in their places"""
    e2, e3 = unmut(s.args[2]), unmut(s.args[3])
    if "positional" in fields(e2) or "equality" in fields(e3):
        return last_field(e2) == "positional" and last_field(e3) == "equality"
    if not (e2.op == "f" and e3.op == "f" and e2.a[1].isdigit() and e3.a[1].isdigit()):
        return False
    an = rep.analyse(db, f, watch=shorts("push"), skip=own)
    ts = [unmut(t.args[1]) for t in an.sites if took(t)]
    return bool(ts) and all(t.op == "tup" and last_field(t.a[0][int(e2.a[1])]) == "positional" and last_field(t.a[0][int(e3.a[1])]) == "equality" for t in ts)


MASK = "delete_apply_exec::compute_delete_mask"


@prop("I04")
def masked(rep):
    db = rep.db(C)
    rep.rule("mask", "a row is dropped exactly if its position is among the deleted ones or its key is in a set of deleted keys")
    f = db.find(MASK, crate=C)
    if not rep.need(f, "compute_delete_mask"):
        return
    rows = lambda e: call_is("num_rows")(e) and arg_is(1)(unmut_call(e)) or call_is("len")(e) and has_call(e, "from_elem")
    off = arg_is(2)
    pos = lambda e: unmut(e).op == "elem" and any(arg_is(3)(x) for x in walk(e))
    hot = shorts("next", "contains")
    an = rep.analyse(db, f, watch=shorts("next", "contains", "from_elem"), assign_fields={"*any"}, assign=lambda s: True)
    nm = [(rows, "n"), (off, "off"), (pos, "p")]
    P = lambda e: str(arith.poly(an, e, nm))
    made = [s for s in an.sites if s.kind == "call" and name(s.short) == "from_elem"]
    rep.ob("mask:start", bool(made) and all(is_const(s.args[0], "true") and P(s.args[1]) == "n" for s in made), "the mask does not start with every row of the batch kept", f.loc())
    keep = lambda e: has_call(e, "from_elem")
    ws = [s for s in an.sites if s.kind == "assign" and keep(s.dest)]
    mine = lambda e: unmut(e).op in ("elem", "idx") and keep(e) and not has_call(e, "contains")
    hit = lambda e: call_is("contains")(e) and "deleted_rows" in fields(e)
    again = rep.analyse(db, f, assume=[ab(mine, False)], assign_fields={"*any"}, assign=lambda s: True)
    rep.ob("mask:only-drops", bool(ws) and all(is_const(s.expr, "false") for s in again.sites if s.kind == "assign" and keep(s.dest)), "a row that was dropped is kept again", f.loc())
    byp = [s for s in ws if any(pos(x) for x in walk(s.dest))]
    byk = [s for s in ws if s not in byp]
    rep.floor("rows dropped by position", len(byp), 1)
    rep.floor("rows dropped by key", len(byk), 1)
    for s in byp:
        d = unmut(s.dest)
        gm = list(call_nodes(d, "get_mut"))
        at = d.a[1] if d.op == "idx" else gm[0].a[1][1] if gm else None
        rep.ob("mask:position", at is not None and P(at) in ("p + -1*off", "-1*off + p"), "the position of a row in its file is not its position in the batch and that of the batch in the file", s.where())
    # all positions of the batch are visited
    loops = [s for s in an.sites if s.kind == "call" and s.short == "Iterator::next" and pos(mk("elem", unmut_all(s.args[0])))]
    rep.floor("visits of the deleted positions", len(loops), 1)
    whole = lambda e: arg_is(3)(unmut_all(e))
    for s in loops:
        it = unmut_all(s.args[0])
        ok = whole(it)
        if it.op == "idx" and whole(it.a[0]):
            r = unmut(it.a[1])
            d = dict(r.a[2]) if r.op == "adt" else {}
            ok = bound(rep, db, an, d.get("start"), nm, "off", True) and bound(rep, db, an, d.get("end"), nm, "n + off", r.op == "adt" and r.a[0].endswith(("RangeFrom", "RangeFull")))
        rep.ob("mask:positions", ok, "the deleted positions that are looked at are not those of the batch", s.where())
    within = [ac(lambda e: P(e) in ("p + -1*off", "-1*off + p"), lambda e: P(e) == "n", "<"), ac(lambda e: P(e) == "p", lambda e: P(e) == "off", ">="), ac(lambda e: P(e) == "p", lambda e: P(e) in ("n + off", "off + n"), "<"), av(lambda e: call_is("get_mut")(e) and keep(e), "+")]
    false = lambda e: is_const(e, "false") or unmut(e).op == "un" and any(hit(x) for x in walk(e)) and not any(x.op == "phi" for x in walk(e))
    dropped = lambda s: s.kind == "assign" and false(s.expr) and keep(s.dest)
    stores = dict(assign_fields={"*any"}, assign=lambda s: True)
    drops(rep, db, f, lambda e: pos(mk("elem", unmut_all(e))), dropped, "mask:positions:all", "a deleted position is passed over", within)
    # keys
    eqs = lambda e: any(arg_is(4)(x) for x in walk(e))
    kept = ab(mine, True)
    a = rep.analyse(db, f, assume=[ab(hit, False), kept], **stores)
    rep.ob("mask:key:only", not [s for s in a.sites if s.kind == "assign" and keep(s.dest) and not any(pos(x) for x in walk(s.dest)) and not (unmut(s.expr).op == "un" and false(s.expr))], "a row is dropped whose key is not deleted", f.loc())
    each_row = lambda e: keep(e) or range_n(e, P)
    drops(rep, db, f, each_row, dropped, "mask:key:all", "a row whose key is deleted is kept", [ab(hit, True), kept])
    exhausts(rep, db, f, each_row, "mask:key:end", "a row whose key is deleted is kept", entered=True)
    cs = [s for s in an.sites if s.kind == "call" and name(s.short) == "contains" and "deleted_rows" in fields(s.args[0])]
    rep.floor("lookups of keys", len(cs), 1)
    for s in cs:
        k = unmut(s.args[1])
        whole_k = str(k) + "".join(str(x) for x in closure_values(an, k))
        rep.ob("mask:key:row", same_row(an, k, byk, P), "the key of another row is looked up", s.where())
        rep.ob("mask:key:converter", "converter" in whole_k and "project_equality_key_columns" in whole_k, "the keys of the rows are not built the way the deleted keys were", s.where())
    over = lambda e: arg_is(4)(unmut_all(e))
    each(rep, db, f, over, lambda s: name(s.short) == "convert_columns", shorts("convert_columns"), "mask:sets", "a set of deleted keys is not applied")
    ps = rep.analyse(db, f, watch=shorts("project_equality_key_columns", "convert_columns"), skip=lambda p: "project_equality_key_columns" in p)
    for s in ps.sites:
        el = [x for x in walk(s.args[1] if name(s.short).startswith("project") else s.args[0]) if x.op == "elem" and eqs(x)]
        rep.ob(f"mask:own:{name(s.short)}", bool(el) and (name(s.short) == "convert_columns" or arg_is(1)(s.args[0]) and last_field(s.args[1]) == "key_fields"), "the keys of a set are looked up with the columns of another", s.where())
    for c in ("project_equality_key_columns", "convert_columns"):
        a = rep.analyse(db, f, assume=[av(lambda e, c=c: call_is(c)(e), "-"), av(nexts(over), "+")], skip=lambda p: "project_equality_key_columns" in p, event=lambda s: [("in", {1})] if over(s.args[0]) else None, event_watch=shorts("next"), entry={"in": {0}})
        rep.ob(f"mask:failed:{c}", not [1 for e, st in ret_states(a, "+") if 1 in st.get(("s", "in"), ())], "a set of deleted keys that could not be applied is passed over", f.loc())
    rep.ob("mask:result", all(keep(e) for e, st in ret_states(an, "+")) and bool(ret_states(an, "+")), "another mask is returned", f.loc())
    g = db.find("delete_apply_exec::project_equality_key_columns", crate=C)
    if rep.need(g, "project_equality_key_columns"):
        over = lambda e: arg_is(2)(unmut_all(e))
        each(rep, db, g, over, lambda s: name(s.short) == "push", shorts("push"), "key:all", "a column of the key is left out")
        for key, asm in (("missing", [av(call_is("column_by_name"), "-")]), ("type", [ac(call_is("data_type"), is_field("data_type"), "<>")])):
            a = rep.analyse(db, g, assume=asm, watch=shorts("push"))
            rep.ob(f"key:{key}", not [s for s in a.sites if s.short == "Vec::push"], "a key is built without one of its columns, or from a column of another type", g.loc())
        for s in rep.analyse(db, g, watch=shorts("column_by_name", "push")).sites:
            x = s.args[1]
            rep.ob(f"key:of:{name(s.short)}", last_field(x) == "data_column_name" if name(s.short) == "column_by_name" else has_call(x, "column_by_name"), "the key is built from other columns", s.where())


def range_n(e, P):
    e = unmut_all(e)
    d = dict(e.a[2]) if e.op == "adt" and e.a[0].endswith("::Range") else {}
    return bool(d) and is_const(d["start"], "0") and P(d["end"]) == "n"


def drops(rep, db, f, over, done, key, msg, assume):
    """each(..) for stores"""
    def evt(s):
        if s.kind == "call":
            # (leaving the loop early is judged below)
            return [("owed", {1 if over(s.args[0]) else 0})] if s.short == "Iterator::next" else None
        return [("owed", {0})] if done(s) else None
    an = rep.analyse(db, f, assume=list(assume), event=evt, event_watch=lambda p, s: s == "Iterator::next", assign_fields={"*any"}, assign=lambda s: evt(s) or True, entry={"owed": {0}}, watch=shorts("next"))
    ns = [s for s in an.sites if s.kind == "call" and s.short == "Iterator::next" and over(s.args[0])]
    rep.ob(key, bool(ns) and all(s.var("owed") == {0} for s in ns), msg, f.loc())
    exhausts(rep, db, f, over, key + ":end", msg, assume=assume, entered=True)


def bound(rep, db, an, e, nm, want, absent):
    """the number of deleted positions before one"""
    if e is None:
        return absent
    e = unmut(e)
    if is_const(e, "0"):
        return want == "off"
    if not (e.op == "call" and name(short(e.a[0])) == "partition_point" and arg_is(3)(unmut_all(e.a[1][0]))):
        return False
    c = unmut(e.a[1][1])
    p = mk("elem", unmut_all(e.a[1][0]))
    lim = lambda x: str(arith.poly(an, x, nm)) in (want, " + ".join(reversed(want.split(" + "))))
    isp = lambda x: unmut(x) is unmut(p) or unmut(x).op == "elem"
    return c.op == "clo" and all(clo_truth(rep, db, c, [p], [ac(isp, lim, r)]) == {v} for r, v in (("<", True), (">", False), ("=", False)))


def closure_values(an, e):
    out = []
    for x in walk(e):
        if x.op == "call" and short(x.a[0]) == "Iterator::map" and len(x.a[1]) == 2:
            v = an.clo_value(x.a[1][1], [an.norm_elem(x.a[1][0])])
            if v is not None:
                out.append(v)
    return out


def same_row(an, k, stores, P):
    """the key is that of the row that is dropped"""
    for s in stores:
        d = unmut(s.dest)
        if k.op == "idx":
            i = unmut(k.a[1])
            ks = closure_values(an, k.a[0])
            if not ks or not all(row_of(v) and unmut(row_of(v)).op == "elem" and range_n(unmut(row_of(v)).a[0], P) for v in ks):
                return False
        else:
            i = row_of(k)
            if i is None:
                return False
            i = unmut(i)
        if i.op == "index":
            if not (d.op == "elem" and unmut_all(d.a[0]) is unmut_all(i.a[0])):
                return False
        elif i.op == "elem":
            if not (d.op == "idx" and unmut_all(d.a[1]) is unmut_all(i)):
                return False
        else:
            return False
    return True


def row_of(e):
    for x in walk(e):
        if x.op == "call" and short(x.a[0]).split("::")[-1] == "row" and len(x.a[1]) == 2:
            return x.a[1][1]
    return None


LOADS = ("load_deleted_positions", "load_equality_deletes")
DEEP = ("type_converter", "try_into_json", "StoreContext", "read_parquet_all", "read_equality_delete_keys", "resolve_equality_key_fields")


@prop("I04")
def read(rep):
    db = rep.db(C)
    rep.rule("read", "every position of the data file in every delete file, and every key of every equality delete file, is collected")
    own = lambda p: any(x in p for x in DEEP)
    f = co(db, "delete_apply_exec::load_deleted_positions", crate=C)
    files = lambda e: unmut_all(e).op == "up" and "delete_files" in str(e) or arg_is(2)(unmut_all(e))
    if rep.need(f, "load_deleted_positions"):
        each(rep, db, f, files, lambda s: name(s.short) == "read_parquet_all", shorts("read_parquet_all"), "read:files", "a position delete file is not read", entered=True, skip=own)
        batches = lambda e: call_is("read_parquet_all")(strip_await(unmut_all(e)))
        each(rep, db, f, batches, lambda s: name(s.short) == "column_by_name", shorts("column_by_name"), "read:batches", "a batch of a position delete file is passed over", entered=True, skip=own)
        col = lambda c: (lambda e: has_call(e, "column_by_name") and c in str(e))
        path, posn = col("POS_DELETE_FILE_PATH_COL"), col("POS_DELETE_POS_COL")
        pathv = lambda e: call_is("value")(e) and path(e) and not posn(e)
        posv = lambda e: call_is("value")(e) and posn(e) and not path(unmut(e).a[1][0])
        mine = lambda e: "data_file_path" in str(e) and not has_call(e, "value") and unmut(e).op in ("up", "arg", "f")
        null = lambda c: (lambda e: call_is("is_null")(e) and c(unmut(e).a[1][0]))
        put = lambda s: name(s.short) in SINK and any(posv(x) for a in s.args[1:] for x in walk(a))
        an = rep.analyse(db, f, watch=shorts(*SINK), skip=own)
        rep.floor("positions collected", len([s for s in an.sites if put(s)]), 1)
        for s in an.sites:
            if put(s):
                rep.ob("read:position", posv(unmut(s.args[1])), "another position is collected than that of the row", s.where())
                v = [x for x in walk(s.args[1]) if posv(x)]
                rep.ob("read:row", all(pairs(s, x, pathv) for x in v), "the position of another row is collected", s.where())
        ok = [ab(null(path), False), ab(null(posn), False), eqv(pathv, mine), num_at_least(posv)]
        rows = lambda e: row_range(e, path) or row_range(e, posn)
        each(rep, db, f, rows, put, shorts(*SINK), "read:positions", "a position of the data file is passed over", assume=ok, entered=True, skip=own)
        exhausts(rep, db, f, rows, "read:positions:end", "a position of the data file is passed over", entered=True, skip=own)
        for key, asm in (("other", [nev(pathv, mine)]), ("null-path", [ab(null(path), True)]), ("null-position", [ab(null(posn), True)])):
            a = rep.analyse(db, f, assume=asm, watch=shorts(*SINK), skip=own)
            rep.ob(f"read:{key}", not [s for s in a.sites if put(s)], "a position of another data file is taken for one of this", f.loc())
        some = [ab(lambda e: call_is("is_empty")(e) and files(unmut_call(e)), False)]
        done, n = must_event(rep, db, f, lambda s: True, assume=some, hotp=lambda p, s: s.split("::")[-1].startswith("sort") or "BTreeSet" in s, skip=own)
        rep.ob("read:sorted", done, "the positions are not sorted, though those of a batch are found by binary search", f.loc())
        a = rep.analyse(db, f, watch=shorts(*SINK), skip=own, assume=some)
        box_ = {str(unmut_all(s.args[0])) for s in a.sites if put(s)}
        rep.ob("read:result", bool(ret_states(a, "+")) and all(any(str(unmut_all(x)) in box_ for x in walk(e)) for e, st in ret_states(a, "+")), "the collected positions are not returned", f.loc())
        for c in ("read_parquet_all", "column_by_name", "downcast_ref"):
            a = rep.analyse(db, f, assume=[av(lambda e, c=c: call_is(c)(strip_await(e)), "-"), av(nexts(batches if c != "read_parquet_all" else files), "+")], skip=own, event=lambda s: [("hit", {1})], event_watch=shorts(c), entry={"hit": {0}})
            rep.ob(f"read:failed:{c}", all(st.get(("s", "hit")) == {0} for e, st in ret_states(a, "+")), "a position delete file that could not be read is passed over", f.loc())
    g = co(db, "delete_apply_exec::load_equality_deletes", crate=C)
    if rep.need(g, "load_equality_deletes"):
        put = lambda s: name(s.short) in SINK and has_call(s.args[1], "row") and has_call(s.args[1], "convert_columns")
        whole = lambda s: name(s.short) in SINK and any(x.op == "adt" and x.a[0].endswith("LoadedEqualityDelete") for x in walk(s.args[1]))
        each(rep, db, g, files, whole, shorts(*SINK), "keys:files", "an equality delete file is not read", entered=True, skip=own)
        batches = lambda e: call_is("read_equality_delete_keys")(strip_await(unmut_all(e)))
        each(rep, db, g, batches, lambda s: name(s.short) == "convert_columns", shorts("convert_columns"), "keys:batches", "a batch of an equality delete file is passed over", entered=True, skip=own)
        rows = lambda e: row_range(e, lambda x: has_call(x, "convert_columns")) or has_call(e, "convert_columns") and unmut_all(e).op != "adt"
        each(rep, db, g, rows, put, shorts(*SINK), "keys:rows", "a deleted key is passed over", entered=True, skip=own)
        an = rep.analyse(db, g, watch=shorts("read_equality_delete_keys", "resolve_equality_key_fields", *SINK), skip=own)
        for s in an.sites:
            if name(s.short) == "resolve_equality_key_fields":
                rep.ob("keys:ids", last_field(s.args[1]) == "equality_ids" and any(x.op == "elem" and files(x.a[0]) for x in walk(s.args[1])), "the keys of a delete file are built with other columns", s.where())
            elif name(s.short) == "read_equality_delete_keys":
                rep.ob("keys:columns", has_call(s.args[3], "resolve_equality_key_fields"), "the keys of a delete file are built with other columns", s.where())
                rep.ob("keys:file", has_call(s.args[1], "resolve") and any(x.op == "elem" and files(x.a[0]) for x in walk(s.args[1])), "another file is read", s.where())
            elif whole(s):
                for x in walk(s.args[1]):
                    if x.op == "adt" and x.a[0].endswith("LoadedEqualityDelete"):
                        d = dict(x.a[2])
                        rep.ob("keys:with", has_call(d["key_fields"], "resolve_equality_key_fields") and has_call(d["converter"], "new") and unmut(d["deleted_rows"]).op == "call", "the set of deleted keys is matched with other columns", s.where())
            elif put(s):
                r = row_of(s.args[1])
                rep.ob("keys:row", r is not None and rows(mk_base(r)), "another key is collected", s.where())
        a = rep.analyse(db, g, assume=[ab(lambda e: call_is("is_empty")(e) and "equality_ids" in fields(e), True), av(nexts(files), "+")], skip=own, event=lambda s: [("in", {1})] if files(s.args[0]) else None, event_watch=shorts("next"), entry={"in": {0}})
        rep.ob("keys:none", not [1 for e, st in ret_states(a, "+") if 1 in st.get(("s", "in"), ())], "an equality delete file without columns is applied", g.loc())
        for c in ("read_equality_delete_keys", "resolve_equality_key_fields", "convert_columns"):
            a = rep.analyse(db, g, assume=[av(lambda e, c=c: call_is(c)(strip_await(e)), "-")], skip=own, event=lambda s: [("hit", {1})], event_watch=shorts(c), entry={"hit": {0}})
            rep.ob(f"keys:failed:{c}", all(st.get(("s", "hit")) == {0} for e, st in ret_states(a, "+")), "an equality delete file that could not be read is passed over", g.loc())
    h = db.find("delete_apply_exec::resolve_equality_key_fields", crate=C)
    if rep.need(h, "resolve_equality_key_fields"):
        own2 = lambda p: any(x in p for x in ("type_converter", "try_into_json", "Schema::field_by_id"))
        ids = lambda e: arg_is(2)(unmut_all(e))
        each(rep, db, h, ids, lambda s: name(s.short) == "push", shorts("push"), "fields:all", "a column of the key is left out", skip=own2)
        a = rep.analyse(db, h, assume=[av(call_is("field_by_id"), "-")], watch=shorts("push"), skip=own2)
        rep.ob("fields:unknown", not [s for s in a.sites if s.short == "Vec::push"], "a key is built without a column that is unknown", h.loc())
        for s in rep.analyse(db, h, watch=shorts("field_by_id", "push"), skip=own2).sites:
            if name(s.short) == "field_by_id":
                rep.ob("fields:id", unmut(s.args[1]).op == "elem" and any(arg_is(2)(x) for x in walk(s.args[1])), "a column of the key is looked up by another id", s.where())
            elif s.short == "Vec::push":
                x = unmut(s.args[1])
                d = dict(x.a[2]) if x.op == "adt" else {}
                rep.ob("fields:column", bool(d) and all(has_call(d[k], "field_by_id") for k in ("data_column_name", "data_type")) and unmut(d["field_id"]).op == "elem", "the columns of the key are not those of its ids", s.where())


def mk_base(e):
    """the collection an element or index runs over"""
    e = unmut(e)
    return e.a[0] if e.op in ("elem", "index") else e


def row_range(e, base):
    """0..number of rows of that"""
    e = unmut_all(e)
    d = dict(e.a[2]) if e.op == "adt" and e.a[0].endswith("::Range") else {}
    n = unmut(d["end"]) if d else None
    return bool(d) and is_const(d["start"], "0") and n.op == "call" and name(short(n.a[0])) in ("len", "num_rows") and base(n.a[1][0])


def pairs(s, v, pathv):
    """the row of a value is the row whose path was compared"""
    i = unmut(v.a[1][1])
    return any(pathv(x) and unmut(unmut(x).a[1][1]) is i for k in s.state for y in k[1:] if isinstance(y, E) for x in walk(y) if x.op == "call")


def num_at_least(pred):
    """the value is not negative"""
    zero = lambda e: is_const(e, "0") or str(unmut(e)).split("_")[0] == "0"
    return ac(pred, zero, ">=")


@prop("I04")
def applied(rep):
    db = rep.db(C)
    rep.rule("applied", "the operator looks at the rows of the whole file in their order, counts all of them, and hands on every row its mask keeps")
    own = lambda p: any(x in p for x in LOADS + ("compute_delete_mask", "StoreContext"))
    keys = [k for k in db.all_keys(C) if "IcebergDeleteApplyExec as" in k and "::execute" in k]
    body = [db.fn(k) for k in keys if any(p and name(short(p)) == "compute_delete_mask" for _, p, _, _ in db.fn(k).calls())]
    rep.floor("bodies of the operator", len(body), 1)
    f = [db.fn(k) for k in keys if k.endswith("::execute")]
    rep.floor("execute", len(f), 1)
    for g in f:
        a = rep.analyse(db, g, assume=[ac(arg_is(2), lambda e: is_const(e, "0"), "<>")], skip=own)
        rep.ob("applied:partition", not ret_states(a, "+"), "a data file is read once for each partition", g.loc())
        a = rep.analyse(db, g, watch=shorts("execute"), skip=own)
        es = [s for s in a.sites if s.short == "ExecutionPlan::execute"]
        rep.ob("applied:input", bool(es) and all(is_const(s.args[1], "0") or arg_is(2)(s.args[1]) for s in es), "another partition is read", g.loc())
    for m, want in (("required_input_distribution", "SinglePartition"),):
        ms = [db.fn(k) for k in db.all_keys(C) if "IcebergDeleteApplyExec as" in k and k.endswith("::" + m)]
        ok = bool(ms)
        for g in ms:
            a = rep.analyse(db, g)
            ok = ok and bool(a.rets) and all(any(x.op == "adt" and x.a[1] == want for x in walk(e)) for e, st in a.rets)
        rep.ob(f"applied:{m}", ok, "the rows of a data file can be spread over partitions before the deletes are applied", ms[0].loc() if ms else None)
    for g in body:
        an = rep.analyse(db, g, watch=shorts("compute_delete_mask", "filter_record_batch", "send", *LOADS), skip=own)
        batch = lambda e: call_is("try_next", "next")(strip_await(strip_err(unmut(e)))) or unmut(e).op == "elem"
        ms = [s for s in an.sites if name(s.short) == "compute_delete_mask"]
        for s in ms:
            rep.ob("applied:batch", batch(s.args[0]), "the deletes are applied to something else than the rows that were read", s.where())
            o = unmut(s.args[1])
            xs = [unmut(x) for x in o.a[0]] if o.op == "phi" else []
            P = lambda e: str(arith.poly(an, e, [(lambda x: unmut(x).op == "loop", "off"), (lambda x: call_is("num_rows")(x) and batch(unmut_call(x)), "n")]))
            rep.ob("applied:offset", len(xs) == 2 and any(P(x) == "0" for x in xs) and any(P(x) in ("n + off", "off + n") for x in xs), "the position of a batch in the file is not the number of rows before it", s.where())
            for i, (l, q) in ((2, ("load_deleted_positions", "positional")), (3, ("load_equality_deletes", "equality"))):
                e = strip_await(s.args[i])
                rep.ob(f"applied:{q}", call_is(l)(e) and q in str(e.a[1][1]), "other deletes are applied", s.where())
        for s in an.sites:
            if name(s.short) == "load_deleted_positions":
                rep.ob("applied:path", "data_file_path" in str(s.args[2]), "the deletes of another data file are applied", s.where())
            elif name(s.short) == "filter_record_batch":
                m = strip_err(unmut(s.args[1]))
                rep.ob("applied:filter", batch(s.args[0]) and has_call(s.args[1], "compute_delete_mask") and not any(x.op == "un" for x in walk(s.args[1])) and
                       all(unmut(x.a[1][0]) is unmut(s.args[0]) for x in call_nodes(s.args[1], "compute_delete_mask")), "a batch is filtered with the mask of another", s.where())
        # each batch is counted, filtered and handed on
        nx = lambda s: s.short in ("TryStreamExt::try_next", "StreamExt::next")
        sent = lambda s: name(s.short) in ("send", "push", "poll_ready") and has_call(s.args[-1], "filter_record_batch") and any(x.op == "adt" and x.a[1] == "Ok" for x in walk(s.args[-1]))
        some = [ac(lambda e: call_is("num_rows")(e) and has_call(e, "filter_record_batch"), lambda e: is_const(e, "0"), ">"), ab(lambda e: call_is("is_empty")(e) and has_call(e, "filter_record_batch"), False)]
        good = [av(lambda e: has_call(e, c) and call_is(c)(strip_await(strip_err(e))), "+") for c in ("compute_delete_mask", "filter_record_batch")]
        a = rep.analyse(db, g, assume=some + good + [av(lambda e: call_is("try_next", "next")(strip_await(e)), "+")], event=lambda s: [("owed", {1})] if nx(s) else [("owed", {0})] if sent(s) else None, entry={"owed": {0}},
                        event_watch=lambda p, s: s.split("::")[-1] in ("try_next", "next", "send"), watch=shorts("try_next", "next"), skip=own)
        ns = [s for s in a.sites if nx(s)]
        rep.ob("applied:handed", bool(ns) and all(s.var("owed") == {0} for s in ns), "rows that were not deleted are lost", g.loc())
        bad = [s for s in an.sites if name(s.short) == "send" and any(x.op == "adt" and x.a[1] == "Ok" for x in walk(s.args[-1])) and not has_call(s.args[-1], "filter_record_batch")]
        rep.ob("applied:only", not bad, "rows are handed on without the deletes", g.loc())
        for c in ("compute_delete_mask", "filter_record_batch", "try_next", *LOADS):
            ss = [s for s in an.sites if name(s.short) == "send" and any(x.op == "adt" and x.a[1] == "Err" for x in walk(s.args[-1])) and has_call(s.args[-1], c)]
            rep.ob(f"applied:error:{c}", bool(ss), "an error is dropped: the rows that were to follow are missing", g.loc())
