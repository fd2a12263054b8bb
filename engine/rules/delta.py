"""Delta Lake tables: commits, conflicts, log replay, clean-up, checkpoints"""
from . import prop
from ._h import *
from .streams import ret_variants, okval

C = "sail_delta_lake"
WRITE_OPS = {"put", "put_opts", "put_multipart", "put_multipart_opts", "copy", "copy_opts", "rename", "rename_opts", "copy_if_not_exists", "rename_if_not_exists"}
LEAVES = ("can_write_to_protocol", "check_can_write_timestamp_ntz_to_protocol", "check_can_write_variant_to_protocol", "check_can_write_variant_shredding_to_protocol")


def big(rep, db, f, **kw):
    """analysis of a large coroutine: functions that only read the log are not looked into"""
    kw.setdefault("skip", lambda p: any(x in p for x in ("::checkpoint::", "LogSegmentResolver", "load_replayed", "get_actions", "::snapshot::stats")))
    return rep.analyse(db, f, **kw)


def put_modes(rep, db, e):
    """modes of the PutOptions value, {'?'} when unknown"""
    out = set()
    for x in walk(e):
        if x.op == "adt" and x.a[0].endswith("PutOptions"):
            m = dict(x.a[2]).get("mode")
            out |= (variants_of(m) or {"?"}) if m is not None else {"?"}
        elif x.op == "adt" and x.a[0].endswith("PutMode"):
            out.add(x.a[1])
        elif x.op == "call" and x.a[0] in db.where:
            for k in db.all_keys(C):
                if k == x.a[0] or k.startswith(x.a[0] + "::"):
                    an = rep.analyse(db, db.fn(k), adt_watch=lambda p, v: p.endswith("PutOptions"))
                    for s in an.sites:
                        m = dict(s.expr.a[2]).get("mode")
                        out |= (variants_of(m) or {"?"}) if m is not None else {"?"}
    return out or {"?"}


@prop("D01")
def commits(rep):
    db = rep.db(C)
    rep.rule("create", "a file of the commit log is only ever created, never overwritten; a version that exists already is reported as such and any other failure as a failure")
    n = 0
    for f in all_fns(db, C):
        for b, p, g, t in f.calls():
            if p is None or short(p).split("::")[-1] not in WRITE_OPS or not short(p).startswith(("ObjectStore::", "ObjectStoreExt::")):
                continue
            e = f.call_at(b)
            if not any(has_call(a, "commit_path") for a in e.a[1]):
                continue
            n += 1
            ok = short(p).split("::")[-1] == "put_opts" and put_modes(rep, db, e.a[1][3] if len(e.a[1]) > 3 else mk("k", "?")) == {"Create"}
            rep.ob(f"create:{outer(db, f).split('::')[-1]}", ok, "a commit file can be overwritten", f.loc(t[5]))
    rep.floor("writes of commit files", n, 2)
    w = co(db, "DefaultLogStore::write_commit_entry")
    put = call_is("put_opts")
    if rep.need(w, "DefaultLogStore::write_commit_entry"):
        an = rep.analyse(db, w, assume=[av(put, "-")])
        rep.ob("create:error", not ret_states(an, "+"), "a commit counts as written although the store refused it", w.loc())
        an = rep.analyse(db, w, assume=[av(put, "-"), av(lambda e: unmut(e).op == "err" and has_call(e, "put_opts") and not has_call(e, "map_err"), "AlreadyExists")])
        vs = set()
        for e, st in an.rets:
            for r, s2 in errs(an, e):
                vs |= variants_of(r) or {"?"}
        rep.ob("create:exists", vs == {"VersionAlreadyExists"}, f"an existing version is reported as {sorted(vs)}", w.loc())
        an = rep.analyse(db, w, assume=[av(put, "-"), av(lambda e: unmut(e).op == "err" and has_call(e, "put_opts") and not has_call(e, "map_err"), "NotFound", "Generic", "Precondition")])
        vs = set()
        for e, st in an.rets:
            for r, s2 in errs(an, e):
                vs |= variants_of(r) or {"?"}
        rep.ob("create:other", "VersionAlreadyExists" not in vs, "a failed write is taken for a version that exists", w.loc())
        ss = sites_of(rep, db, w, "put_opts")
        rep.floor("commit writes", len(ss), 1)
        for s in ss:
            rep.ob("create:version", all(any(x.op in ("arg", "up") and "version" in str(x) for x in walk(c)) for c in call_nodes(s.args[1], "commit_path")), "a commit is written under another version", s.where())
    f = co(db, "PreparedCommit::into_future")
    rep.rule("commit", "a transaction commits at the version after the latest one of the log, only after it was validated, and succeeds only when the log store accepted exactly that version; only a version that was taken meanwhile is tried again")
    if not rep.need(f, "PreparedCommit::into_future"):
        return
    W = ("LogStore::write_commit_entry",)
    wr = call_is("write_commit_entry")
    latest = lambda e: has_call(e, "get_latest_version")
    an = big(rep, db, f, watch=shorts(*W), skip=lambda p: True)
    ss = [s for s in an.sites]
    rep.floor("commit sites", len(ss), 1)
    for s in ss:
        xs = alts(an, s.args[1])
        rep.ob("version:next", xs and all(is_add(x, latest, 1) or is_const(x, 0) for x in xs) and any(is_add(x, latest, 1) for x in xs), "a transaction does not commit at the version after the latest one", s.where())
        rep.ob("write:actions", has_call(s.args[2], "prepare_commit_or_bytes") or has_call(s.args[2], "actions_to_log_bytes", "to_writer"), "other bytes than the actions are written", s.where())
    an = big(rep, db, f, assume=[av(wr, "-")], adt_watch=lambda p, v: p.endswith("::PostCommit"))
    rep.ob("success:written", not ret_states(an, "+"), "a commit succeeds although the log store refused it", f.loc())
    an = big(rep, db, f, skip=lambda p: True, adt_watch=lambda p, v: p.endswith("::PostCommit"))
    rep.floor("finished commits", len(an.sites), 1)
    for s in an.sites:
        v = dict(s.expr.a[2]).get("version")
        rep.ob("success:version", v is not None and unmut(v) in [unmut(x.args[1]) for x in ss] or v is not None and all(is_add(x, latest, 1) or is_const(x, 0) for x in alts(an, v)), "a commit reports another version than the one written", s.where())
    e_wr = lambda e: unmut(e).op == "err" and wr(strip_err(e))
    an = big(rep, db, f, skip=lambda p: True, assume=[av(wr, "-"), lambda k: frozenset(["CommitConflict", "ObjectStore", "LogStoreError", "DeltaTableAlreadyExists", "MaxCommitAttempts"]) if k[0] == "v" and e_wr(k[1]) else None],
             watch=shorts(*W), event_watch=lambda p, s: False, event=lambda s: [("w", {1})] if name(s.short) == "write_commit_entry" else None, entry={"w": {0}})
    rep.ob("retry:only-taken", an.sites and all(1 not in (s.var("w") or ()) for s in an.sites if s.kind == "call"), "a commit is tried again after a failure that may have written it", f.loc())
    # everything that decides validity comes first
    for leaf in LEAVES:
        for nm, g, wn in (("commit", f, W), ("staged", co(db, "PreparedCommit::into_staged_commit_future_inner"), ("put_opts",))):
            if g is None:
                rep.ob(f"{nm}:found", False, "the catalog-managed commit is gone")
                continue
            an = big(rep, db, g, assume=[av(call_is(leaf), "-")], watch=shorts(*wn))
            rep.ob(f"validated:{nm}:{leaf}", not an.sites, f"a commit is written although {leaf} failed", g.loc())
    gle = lambda e: unmut(e).op == "err" and has_call(e, "get_latest_version")
    vers = lambda e: (last_field(e) == "version" or call_is("version")(e)) and unmut(e).op != "elem"
    newer = ac(lambda e: latest(e) and not vers(e), vers, ">")
    race = [newer, av(lambda e: latest(e) and unmut(e).op == "await", "+"), av(lambda e: unmut(e).op in ("up", "f", "phi", "arg", "loop") and ("table_data" in str(e) or "read_snapshot" in str(e)), "+")]
    for call, asm, ne in (("get_latest_version", [av(gle, "ObjectStore", "Generic")], False), ("read_commit_entry", race, True), ("parse_schema", [], False),
                          ("check_conflicts", race, True), ("previous_effective_commit_timestamp", [], False)):
        an = big(rep, db, f, assume=[av(call_is(call), "-")] + asm, watch=shorts(*W), nonempty=ne)
        rep.ob(f"error:{call}", not an.sites, f"a commit goes on although {call} failed", f.loc())
    # the versions between the snapshot and the latest one are all checked, which only appends may pass
    an = big(rep, db, f, assume=race + [av(call_is("find_map"), "-")], watch=shorts(*W), nonempty=True)
    rep.ob("conflict:append-only", not an.sites, "a transaction that removed files commits although the table changed since it was planned", f.loc())
    an = big(rep, db, f, watch=shorts("WinningCommitSummary::try_new"), skip=lambda p: True)
    rep.floor("conflict checks", len(an.sites), 1)
    for s in an.sites:
        lo, hi = range_of(an, s, s.args[2])
        rep.ob("conflict:from", lo is not None and is_add(lo, vers, 1), "the conflict check skips the first versions written since the snapshot", s.where())
        rep.ob("conflict:to", hi is not None and latest(hi) and not any(x.op == "bin" for x in walk(hi)), "the conflict check stops before the latest version", s.where())


@prop("D02")
def conflicts(rep):
    db = rep.db(C)
    f = db.find("ConflictChecker::check_conflicts", crate=C)
    rep.rule("conflict", "a commit that won the race and changed what this transaction read or is about to change makes the transaction fail: the protocol, the metadata, files it read, files it removes, domains it writes, application transactions it depends on, and files added that it should have read")
    if not rep.need(f, "ConflictChecker::check_conflicts"):
        return
    win = lambda e: unmut(e).op == "elem" and "winning_commit_summary" in fields(e)
    own = lambda e: unmut(e).op == "elem" and "txn_info" in fields(e)
    mine = lambda e: call_is("find_map", "metadata_action", "protocol_action")(e) and "txn_info" in fields(e)
    winner = lambda e: "winning_commit_summary" in fields(e) and unmut(e).op != "f"
    myself = lambda e: "txn_info" in fields(e) and has_call(e, "metadata_action", "protocol_action", "find_map")
    inter = lambda e: call_is("is_disjoint")(e) or (call_is("is_empty")(e) and has_call(e, "intersection"))
    iso = lambda e: last_field(e) == "isolation_level"
    blind = lambda e: last_field(e) == "is_blind_append" or call_is("is_blind_append")(e)
    whole = lambda v: ab(lambda e: last_field(e) == "read_whole_table" or call_is("read_whole_table")(e), v)

    def fails(key, msg, *assume, **kw):
        an = rep.analyse(db, f, assume=list(assume), nonempty=True, **kw)
        rep.ob(key, not ret_states(an, "+"), msg, f.loc())

    fails("metadata", "a transaction commits over a change of the metadata", av(win, "Metadata"), av(mine, "-"))
    fails("metadata:differs", "a transaction commits over another change of the metadata", av(win, "Metadata"), av(mine, "+"), ac(winner, myself, "<>"), mixed=True)
    fails("protocol", "a transaction commits over a change of the protocol", av(win, "Protocol"), av(mine, "-"))
    fails("protocol:differs", "a transaction commits over another change of the protocol", av(win, "Protocol"), av(mine, "+"), ac(winner, myself, "<>"), mixed=True)
    fails("remove:whole", "a transaction that read the whole table commits although files were removed", av(win, "Remove"), whole(True))
    fails("remove:read", "a transaction commits although a file it read was removed", av(win, "Remove"), whole(False), ab(call_is("HashSet::contains"), True))
    fails("remove:removed", "two transactions remove the same file", av(win, "Remove"), av(own, "Remove"), ab(inter, False))
    fails("txn", "a transaction commits although its application transaction was written by another one", av(win, "Txn"), ab(inter, False))
    fails("domain", "a transaction overwrites the domain metadata another one has written", av(win, "DomainMetadata"), av(own, "DomainMetadata"),
          ab(call_is("HashSet::is_empty"), False), av(lambda e: call_is("next")(e) and has_call(e, "intersection"), "+"))
    for lv in ("Serializable", "WriteSerializable"):
        fails(f"added:{lv}", "a transaction that read the whole table commits although another one wrote files", av(win, "Add"), whole(True), av(iso, lv), av(blind, "-"))
        fails(f"added:{lv}:not-blind", "a transaction that read the whole table commits although another one wrote files", av(win, "Add"), whole(True), av(iso, lv), av(blind, "+"), ab(lambda e: last_field(strip_await(e)) == "is_blind_append" or call_is("is_blind_append")(strip_await(e)), False))
        fails(f"added:{lv}:unknown", "a transaction that read the whole table commits although another one wrote files without saying that it was a blind append", av(win, "Add"), whole(True), av(iso, lv), av(lambda e: last_field(e) == "commit_info", "+"), av(lambda e: last_field(e) == "is_blind_append" and not call_is("is_blind_append")(e), "-"))
    an = rep.analyse(db, f, assume=[av(win, "Add"), av(own, "Add"), whole(True), av(iso, "Serializable"), av(blind, "+"), ab(lambda e: last_field(strip_await(e)) == "is_blind_append" or call_is("is_blind_append")(strip_await(e)), True)],
                     nonempty=True, watch=shorts("extend", "append", "chain"))
    rep.ob("added:Serializable:blind", not ret_states(an, "+") or any(has_call(a, "blind_append_added_files", "added_files") for s in an.sites for a in s.args),
           "a serializable transaction that read the whole table commits although another one appended files", f.loc())
    # what is compared is the identity of a file: its path and its deletion vector
    rep.rule("identity", "files are told apart by path and deletion vector, wherever reads and removals are compared")
    g = db.find("logical_file_key", crate=C)
    if rep.need(g, "logical_file_key"):
        an = rep.analyse(db, g, assume=[])
        es = [unmut(e) for e, st in an.rets]
        rep.ob("key", bool(es) and all(any(arg_is(1)(x) for x in walk(e)) and any(arg_is(2)(x) for x in walk(e)) for e in es), "the key of a file leaves out its path or its deletion vector", g.loc())
    g = db.find("DeletionVectorDescriptor::unique_id", crate=C)
    if rep.need(g, "DeletionVectorDescriptor::unique_id"):
        for v, need in (("+", {"storage_type", "path_or_inline_dv", "offset"}), ("-", {"storage_type", "path_or_inline_dv"})):
            an = rep.analyse(db, g, assume=[av(lambda e: last_field(e) == "offset", v)])
            rep.ob(f"key:dv{v}", bool(an.rets) and all(need <= fields(e) for e, st in an.rets), "different deletion vectors have the same key", g.loc())
    n = 0
    for h in all_fns(db, C):
        for b, p, gg, t in h.calls():
            if p is None or name(short(p)) != "logical_file_key":
                continue
            n += 1
            e = h.call_at(b)
            rep.ob(f"key:args:{outer(db, h).split('::')[-1]}", last_field(e.a[1][0]) == "path" and "deletion_vector" in fields(e.a[1][1]), "the key of a file leaves out its path or its deletion vector", h.loc(t[5]))
    rep.floor("keys of files", n, 8)
    n = 0
    for sub in ("contains", "intersection", "is_disjoint"):
        an = rep.analyse(db, f, watch=shorts("HashSet::" + sub))
        for s in an.sites:
            ks = [k for a in s.args for k in [a] if has_call(k, "removed_files")]
            if not ks and "Remove" not in str(s.args):
                continue
            n += 1
            for a in s.args:
                rep.ob(f"key:{sub}", has_call(a, "logical_file_key") or any(clo_calls(db, x, "logical_file_key") for x in walk(a) if x.op == "clo"), "files are compared by something else than their key", s.where())
    rep.floor("comparisons of removed files", n, 2)
    # which transactions may be retried on top of another commit at all
    rep.rule("blind", "only a plain append without predicate counts as blind: one that removes files, changes metadata or protocol, or read what it wrote over does not")
    g = db.find("is_blind_append", crate=C, file="transaction/mod.rs")
    if rep.need(g, "is_blind_append"):
        op = lambda e: unmut(e) == unmut(mk("arg", 2, "operation")) or arg_is(2)(e)
        pr = lambda e: last_field(e) == "predicate"
        act = lambda e: unmut(e).op == "elem"
        for v in ("Remove", "Metadata", "Protocol", "Cdc", "DomainMetadata"):
            rep.ob(f"blind:{v}", True not in fn_truth(rep, db, g, [av(act, v)], nonempty=True), f"a transaction with a {v} action counts as a blind append", g.loc())
        rep.ob("blind:predicate", True not in fn_truth(rep, db, g, [av(pr, "+")], nonempty=True), "an overwrite with a predicate counts as a blind append", g.loc())
        for v in ("Delete", "Update", "Merge", "Optimize"):
            rep.ob(f"blind:{v}", True not in fn_truth(rep, db, g, [av(op, v)], nonempty=True), f"a {v} counts as a blind append", g.loc())
        rep.ob("blind:append", fn_truth(rep, db, g, [av(op, "Write"), av(pr, "-"), av(act, "Add")], nonempty=True) == {True}, "a plain append is not recognised", g.loc())
    n = 0
    for h in all_fns(db, C):
        for at, e in h.assigns("is_blind_append") if hasattr(h, "assigns") else []:
            n += 1
    rep.rule("isolation", "the isolation level is lowered only for transactions that change no data and only when the winning commit changed none")
    g = db.find("can_downgrade_to_snapshot_isolation", crate=C)
    if rep.need(g, "can_downgrade_to_snapshot_isolation"):
        act = lambda e: unmut(e).op == "elem"
        dc = lambda v: ab(lambda e: last_field(e) == "data_change", v)
        lvl = lambda v: av(lambda e: arg_is(3)(e), v)
        for v in ("Add", "Remove"):
            for lv in ("Serializable", "WriteSerializable"):
                rep.ob(f"downgrade:{v}:{lv}", True not in fn_truth(rep, db, g, [av(act, v), dc(True), lvl(lv)], nonempty=True), f"isolation is lowered although the winning commit changed data ({v})", g.loc())
        for v in ("Metadata", "Protocol", "Txn", "DomainMetadata"):
            rep.ob(f"downgrade:{v}", True not in fn_truth(rep, db, g, [av(act, v)], nonempty=True), f"isolation is lowered although the winning commit has a {v} action", g.loc())
        rep.ob("downgrade:writer", True not in fn_truth(rep, db, g, [ab(call_is("changes_data"), True), lvl("WriteSerializable")], nonempty=True), "isolation is lowered for an operation that changes data", g.loc())


def clo_calls(db, c, *names):
    """the closure (or one nested in it) calls one of the names"""
    if c.a[0] not in db.where:
        return False
    h = db.fn(c.a[0])
    for b, p, g, t in h.calls():
        if p is not None and (short(p) in names or short(p).split("::")[-1] in names):
            return True
    return any(clo_calls(db, mk("clo", k.key, ()), *names) for k in inner_fns(db, h))


def hot(*names):
    ns = set(names)
    return lambda p, s: s in ns or s.split("::")[-1] in ns


def truthy(rep, db, f, assume, want, key, msg, **kw):
    t = fn_truth(rep, db, f, assume, **kw)
    rep.ob(key, bool(t) and t <= want, msg, f.loc())


@prop("D03")
def log_cleanup(rep):
    db = rep.db(C)
    rep.rule("boundary", "the clean-up boundary is a checkpoint at or before the latest commit that is both old enough and known to the table, and only files strictly before it go")
    f = db.find("LogRetentionWindow::includes_commit", crate=C)
    if rep.need(f, "LogRetentionWindow::includes_commit"):
        ver, ts = arg_is(3), arg_is(2)
        lv, ct = is_field("latest_version"), is_field("cutoff_timestamp")
        truthy(rep, db, f, [ac(ver, lv, ">")], {False}, "commit:newer", "a commit newer than the snapshot moves the clean-up boundary")
        truthy(rep, db, f, [ac(ts, ct, ">")], {False}, "commit:young", "a commit younger than the retention moves the clean-up boundary")
    f = db.find("LogRetentionWindow::includes_checkpoint", crate=C)
    if rep.need(f, "LogRetentionWindow::includes_checkpoint"):
        truthy(rep, db, f, [ac(arg_is(2), is_field("latest_version"), ">")], {False}, "checkpoint:newer", "a checkpoint newer than the snapshot becomes the clean-up boundary")
    f = db.find("RetentionCleanupBoundary::retention_checkpoint_version", crate=C)
    if rep.need(f, "retention_checkpoint_version"):
        an = rep.analyse(db, f, assume=[av(lambda e: last_field(e) == "cutoff_commit_version", "-")])
        rep.ob("none", not ret_states(an, "+"), "logs are cleaned up although no commit is old enough", f.loc())
        an = rep.analyse(db, f, watch=shorts("range"))
        rep.floor("checkpoint ranges", len(an.sites), 1)
        for s in an.sites:
            r = unmut(s.args[1])
            rep.ob("range", r.op == "adt" and r.a[0].endswith(("RangeToInclusive", "RangeTo")) and "cutoff_commit_version" in fields(r) and not any(x.op == "bin" for x in walk(r)),
                   "the clean-up boundary may be a checkpoint after the last commit that is old enough", s.where())
    f = db.find("RetentionCleanupBoundary::observe_commit", crate=C)
    if rep.need(f, "observe_commit"):
        an = rep.analyse(db, f, assign_fields={"cutoff_commit_version"}, assign=lambda s: True)
        rep.floor("moves of the boundary", len([s for s in an.sites if s.kind == "assign"]), 1)
        for k, o, g in (("version", "latest_version", 2), ("age", "cutoff_timestamp", 3)):
            an = rep.analyse(db, f, assume=[ac(arg_is(g), is_field(o), ">")], assign_fields={"cutoff_commit_version"}, assign=lambda s: True)
            rep.ob("observe:commit:" + k, not [s for s in an.sites if s.kind == "assign"], "a commit within the retention moves the boundary", f.loc())
    f = db.find("RetentionCleanupBoundary::observe_checkpoint", crate=C)
    if rep.need(f, "observe_checkpoint"):
        unreachable(rep, db, f, ["insert"], [ac(arg_is(2), is_field("latest_version"), ">")], "observe:checkpoint", "a checkpoint newer than the snapshot becomes the boundary")
    f = db.find("DeltaLogFile::expires_before", crate=C)
    if rep.need(f, "expires_before"):
        me = arg_is(1)
        for v in ("Commit", "Checksum", "Checkpoint", "Compaction"):
            pay = lambda e: any(me(x) for x in walk(e)) and not me(e)
            truthy(rep, db, f, [av(me, v), ac(pay, arg_is(2), "=>")], {False}, f"expires:{v}", f"a {v} file the boundary still needs is deleted")
        end = lambda e: any(me(x) for x in walk(e)) and bool({"1", "end"} & fields(e))
        truthy(rep, db, f, [av(me, "Compaction"), ac(end, arg_is(2), "=>")], {False}, "expires:end", "a compaction is judged by its first version")
    rep.rule("order", "nothing is deleted before the boundary checkpoint was made readable and every retained checkpoint was inspected, and never with another boundary than the one that was validated")
    f = co(db, "cleanup_expired_delta_log_files", file="cleanup.rs")
    DEL = ("delete", "delete_stream")
    if rep.need(f, "cleanup_expired_delta_log_files"):
        ss = sites_of(rep, db, f, *DEL)
        rep.floor("deletions", len(ss), 2)
        for call in ("find_retention_checkpoint_version", "ensure_v2_compat_classic_checkpoint", "collect_referenced_sidecars", "inspect_checkpoint_main_file", "list_delta_log_entries_from", "resolve_version_timestamp"):
            an = rep.analyse(db, f, assume=[av(call_is(call), "-")], watch=shorts(*DEL), nonempty=True)
            if call in ("list_delta_log_entries_from", "inspect_checkpoint_main_file"):
                # reached through the inspection of the retained checkpoints
                g = co(db, "collect_referenced_sidecars", file="cleanup.rs")
                if not rep.need(g, "collect_referenced_sidecars"):
                    continue
                a2 = rep.analyse(db, g, assume=[av(call_is(call), "-")], nonempty=True)
                rep.ob(f"error:{call}", not ret_states(a2, "+"), f"files are deleted although {call} failed", g.loc())
                continue
            if call == "resolve_version_timestamp":
                g = co(db, "find_retention_checkpoint_version", file="cleanup.rs")
                if rep.need(g, "find_retention_checkpoint_version"):
                    a2 = rep.analyse(db, g, assume=[av(call_is(call), "-"), av(nexts(), "+")])
                    rep.ob(f"error:{call}", not ret_states(a2, "+"), "the boundary is computed although the age of a commit is unknown", g.loc())
                continue
            rep.ob(f"error:{call}", not an.sites, f"files are deleted although {call} failed", f.loc())
        an = rep.analyse(db, f, assume=[av(lambda e: unmut(e).op == "ok" and has_call(e, "find_retention_checkpoint_version"), "-")], watch=shorts(*DEL))
        rep.ob("error:no-boundary", not an.sites, "files are deleted although there is no checkpoint to fall back to", f.loc())
        an = rep.analyse(db, f, watch=shorts("ensure_v2_compat_classic_checkpoint", "collect_referenced_sidecars", "delete_logs_before_checkpoint_version"))
        bs = {name(s.short): unmut(s.args[1]) for s in an.sites}
        rep.ob("boundary:same", len(bs) == 3 and len(set(bs.values())) == 1, "the files deleted are not those before the checkpoint that was validated", f.loc())
    rep.rule("deletes", "log files are deleted only when they parse as log files before the boundary; sidecars only when no retained checkpoint names them and they are older than a day")
    g = db.find("expired_log_location", crate=C)
    if rep.need(g, "expired_log_location"):
        an = rep.analyse(db, g, assume=[ab(call_is("expires_before"), False)])
        rep.ob("log:expired", not ret_states(an, "+"), "a log file the boundary still needs is deleted", g.loc())
        an = rep.analyse(db, g, assume=[av(call_is("from_meta"), "-")])
        rep.ob("log:unknown", not ret_states(an, "+"), "a file that is no log file is deleted", g.loc())
    g = co(db, "collect_referenced_sidecars", file="cleanup.rs")
    if rep.need(g, "collect_referenced_sidecars"):
        lim = lambda e: any(last_field(x) == "min_checkpoint_version" or x.op in ("arg", "up") for x in walk(e))
        ver = lambda e: has_call(e, "parse_checkpoint_version_from_location")
        for o in "=>":
            an = rep.analyse(db, g, assume=[ac(ver, lambda e: not ver(e) and e.op != "k", o)], watch=shorts("inspect_checkpoint_main_file"), skip=lambda p: "inspect_checkpoint_main_file" in p or "list_delta_log" in p)
            rep.ob(f"retained:{o}", bool(an.sites), "a checkpoint that is kept is not searched for the sidecars it refers to", g.loc())
    g = co(db, "find_retention_checkpoint_version", file="cleanup.rs")
    if rep.need(g, "find_retention_checkpoint_version"):
        an = rep.analyse(db, g, watch=shorts("observe_commit"), skip=lambda p: "resolve_version_timestamp" in p or "observe_" in p)
        for s in an.sites:
            rep.ob("observe:args", has_call(s.args[2], "resolve_version_timestamp") and not has_call(s.args[1], "resolve_version_timestamp"), "the age and the version of a commit are mixed up", s.where())
    g = co(db, "delete_orphaned_sidecars", file="cleanup.rs")
    if rep.need(g, "delete_orphaned_sidecars"):
        unreachable(rep, db, g, ["delete"], [ab(call_is("HashSet::contains"), True)], "sidecar:referenced", "a sidecar a checkpoint refers to is deleted")
        age = lambda e: "last_modified" in fields(e)
        unreachable(rep, db, g, ["delete"], [ac(age, lambda e: has_call(e, "now"), ">")], "sidecar:young", "a sidecar a checkpoint being written may refer to is deleted")
        an = rep.analyse(db, g, watch=shorts("delete"))
        ks = set()
        for s in an.sites:
            for a, b, r in s.cmps(age, lambda e: has_call(e, "now")):
                ks |= {int(str(x.a[0]).split("_")[0]) for x in walk(b) if x.op == "k" and str(x.a[0]).split("_")[0].isdigit()}
        rep.ob("sidecar:day", bool(ks) and max(ks) >= 86400000, "sidecars are deleted within a day of being written", g.loc())
    n = 0
    for h in all_fns(db, C):
        for b, p, gg, t in h.calls():
            if p is not None and short(p) in ("ObjectStore::delete", "ObjectStoreExt::delete", "ObjectStore::delete_stream"):
                o = outer(db, h).split("::")[-1]
                n += 1
                rep.ob(f"who:{o}", o in ("delete_orphaned_sidecars", "delete_logs_before_checkpoint_version", "abort_commit_entry") or not any("_delta_log" in str(x) or has_call(x, "commit_path", "checkpoint_path", "checksum_path") for x in h.call_at(b).a[1]),
                       "log files are deleted outside of the clean-up", h.loc(t[5]))
    rep.floor("deletions in the crate", n, 2)
    f = co(db, "PostCommit::into_future")
    rep.rule("trigger", "the log is cleaned up only after a checkpoint was written by this commit, with the table's own retention")
    if rep.need(f, "PostCommit::into_future"):
        sk = lambda p: not any(x in p for x in ("PostCommit",))
        an = rep.analyse(db, f, assume=[av(call_is("create_checkpoint_for"), "-")], watch=shorts("cleanup_expired_delta_log_files"), skip=sk)
        rep.ob("after:checkpoint", not an.sites, "the log is cleaned up although no checkpoint was written", f.loc())
        an = rep.analyse(db, f, watch=shorts("cleanup_expired_delta_log_files"), skip=sk)
        rep.floor("clean-ups", len(an.sites), 1)
        for s in an.sites:
            rep.ob("retention", has_call(s.args[2], "log_retention_duration") and has_call(s.args[2], "now"), "the clean-up ignores the retention of the table", s.where())


LOSSY = ("filter", "take", "skip", "take_while", "skip_while", "step_by", "filter_map", "retain", "dedup", "truncate", "pop", "drain", "split_off")


def built(db, f, suffix, through=()):
    """struct/enum values built in f, its closures and the workspace functions it calls: [(fn, at, expr)]"""
    out, todo, seen = [], [f], set()
    while todo:
        g = todo.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        todo += inner_fns(db, g)
        for b, p, gg, t in g.calls():
            if p in db.where and any(x in p for x in through):
                todo.append(db.fn(p))
        out += [(g, at, e) for at, e in g.aggregates(suffix)]
    return out


def elem_facts(s):
    """facts at a site about the loop or iterator element the site uses (what the site is conditional on)"""
    mine = {x for a in list(s.args or ()) + ([s.expr] if s.expr is not None else []) for x in walk(a) if x.op == "elem"}
    out = []
    for k, v in s.state.items():
        if k[0] == "v" and unmut(k[1]).op != "f":
            continue
        if k[0] in ("v", "b", "c") and any(x in mine for y in k[1:3] if isinstance(y, E) for x in walk(y)) and unmut(k[1]).op != "elem" and not call_is("next")(k[1]):
            out.append((k, v))
    return out


def error_kept(rep, db, f, call, key, msg, assume=(), pol="+", **kw):
    """once the call has failed the function does not return with that polarity"""
    an = rep.analyse(db, f, assume=[av(call_is(call), "-")] + list(assume), event=lambda s: [("er", {1})] if s.short == call or name(s.short) == call else None, event_watch=hot(call), entry={"er": {0}}, **kw)
    rep.ob(key, all(1 not in (st.get(("s", "er")) or {1}) for e, st in ret_states(an, pol)), msg, f.loc())


@prop("D04")
def checkpoints(rep):
    db = rep.db(C)
    rep.rule("complete", "a checkpoint is written only from a state with protocol and metadata, and contains every transaction, domain, tombstone and file of that state")
    for nm, f, need in (("classic", db.find("into_checkpoint_batch_iter", crate=C), {"protocol", "metadata", "txn", "domain_metadata", "remove", "add"}),
                        ("v2", co(db, "write_v2_checkpoint"), {"checkpoint_metadata", "protocol", "metadata", "txn", "domain_metadata", "remove", "add", "sidecar"})):
        if not rep.need(f, nm):
            continue
        got = {k for g, at, e in built(db, f, "CheckpointActionRow") for k, v in e.a[2] if "Some" in (variants_of(v) or ())}
        for k in sorted(need):
            rep.ob(f"{nm}:{k}", k in got, f"a {nm} checkpoint leaves out the {k} actions", f.loc())
        lossy = sorted({name(short(p)) for g in [f] + inner_fns(db, f) for b, p, gg, t in g.calls() if p is not None and name(short(p)) in LOSSY})
        rep.ob(f"{nm}:all", not lossy, f"a {nm} checkpoint leaves out some actions ({lossy})", f.loc())
        for part in ("protocol", "metadata"):
            an = rep.analyse(db, f, assume=[av(lambda e: last_field(e) == part, "-")])
            rep.ob(f"{nm}:needs:{part}", not ret_states(an, "+"), f"a checkpoint without {part} is written", f.loc())
        an = rep.analyse(db, f, adt_watch=lambda p, v: p.endswith("CheckpointActionRow"))
        rep.ob(f"{nm}:unconditional", not any(elem_facts(s) for s in an.sites), f"a {nm} checkpoint leaves out some actions", f.loc())
    f = db.find("CheckpointBatchIter::next_batch", crate=C)
    if rep.need(f, "next_batch"):
        an = rep.analyse(db, f, assume=[ab(call_is("is_empty"), False)])
        rep.ob("batch:rows", ret_variants(an) == {"Some"}, "rows are left out at the end of a checkpoint", f.loc())
        an = rep.analyse(db, f, assume=[av(call_is("encode_checkpoint_rows"), "-"), ab(call_is("is_empty"), False)])
        rep.ob("batch:encode", not ret_states(an, "+"), "rows that cannot be encoded are left out of a checkpoint", f.loc())
    w = co(db, "write_checkpoint_batches")
    if rep.need(w, "write_checkpoint_batches"):
        rows = av(lambda e: unmut(e).op == "ok" and has_call(e, "next_batch"), "+")
        nb = lambda p: any(x in p for x in ("next_batch", "ensure_schema", "encode_checkpoint"))
        for c in ("write", "close", "next_batch", "ensure_schema_supported_for_parquet", "head"):
            error_kept(rep, db, w, c, f"write:{c}", f"a checkpoint counts as written although {c} failed", skip=lambda p: nb(p) or c in p)
        an = rep.analyse(db, w, assume=[rows], watch=shorts("write"), skip=nb)
        rep.ob("write:all", not ret_states(an, "+"), "a checkpoint counts as written before every batch was", w.loc())
        rep.floor("batch writes", len(an.sites), 1)
        for s in an.sites:
            rep.ob("write:batch", has_call(s.args[1], "next_batch"), "something else than the rows is written", s.where())
        an = rep.analyse(db, w, skip=nb, event=lambda s: [("cl", {1})] if name(s.short) == "close" else None, event_watch=hot("close"), entry={"cl": {0}})
        some = [st for e, st in ret_states(an, "+") if variants_of(okval(e)) != {"None"}]
        rep.ob("write:closed", bool(some) and all(st.get(("s", "cl")) == {1} for st in some), "a checkpoint counts as written although its file was not finished", w.loc())
    rep.rule("published", "the checkpoint is announced only after it was written in full, a v2 manifest only after its sidecar; a state that could not be replayed is never written")
    heavy = lambda p: any(x in p for x in ("write_checkpoint_batches", "write_classic_checkpoint_file", "from_metadata", "encode_checkpoint", "new_v4"))
    hint = lambda s: any(has_call(a, "last_checkpoint_path") for a in s.args)
    for nm, fn, deps in (("classic", "write_v1_checkpoint", ("write_classic_checkpoint_file",)), ("v2", "write_v2_checkpoint", ("write_checkpoint_batches", "put", "encode_checkpoint_json_rows"))):
        f = co(db, fn)
        if not rep.need(f, fn):
            continue
        an = rep.analyse(db, f, watch=shorts("put", "put_opts"), skip=heavy)
        rep.floor(f"announcements of {nm} checkpoints", len([s for s in an.sites if hint(s)]), 1)
        for d in deps:
            m = (lambda e, d=d: call_is(d)(e) and not has_call(e, "last_checkpoint_path")) if d == "put" else call_is(d)
            an = rep.analyse(db, f, assume=[av(m, "-")], watch=shorts("put", "put_opts"), skip=heavy)
            bad = [s for s in an.sites if hint(s)]
            rep.ob(f"{nm}:{d}", not bad, f"a checkpoint is announced although {d} failed", f.loc())
            if d == "write_checkpoint_batches":
                rep.ob(f"{nm}:manifest", not an.sites, "a v2 checkpoint is written although its sidecar was not", f.loc())
        an = rep.analyse(db, f, adt_watch=lambda p, v: p.endswith("LastCheckpointHint"), skip=heavy)
        for s in an.sites:
            rep.ob(f"{nm}:version", s.field("version") is not None and "version" in str(s.field("version")) and not any(x.op == "bin" for x in walk(s.field("version"))), "the announced version is not the one of the checkpoint", s.where())
        an = rep.analyse(db, f, watch=shorts("checkpoint_path", "uuid_json_checkpoint_path"), skip=lambda p: heavy(p) and "write_classic" not in p or "into_checkpoint_batch_iter" in p)
        rep.floor(f"paths of {nm} checkpoints", len(an.sites), 1)
        for s in an.sites:
            rep.ob(f"{nm}:path", not any(x.op == "bin" for x in walk(s.args[0])) and "version" in str(s.args[0]), "a checkpoint is written under another version", s.where())
    f = co(db, "CheckpointManager::create_checkpoint")
    WR = ("write_v2_checkpoint", "write_v1_checkpoint")
    rd = lambda p: any(x in p for x in ("list_delta_log_entries_from", "read_last_checkpoint", "read_checkpoint_rows", "write_v", "resolve_commit_timestamp"))
    if rep.need(f, "create_checkpoint"):
        for pn in ("parse_commit_version_from_location", "parse_checkpoint_version_from_location"):
            mine = lambda e, pn=pn: has_call(e, pn)
            for rel, want in ((">", False), ("=", True)):
                ss = sites_of(rep, db, f, "push", "insert", assume=[ac(mine, vname("version"), rel)], skip=lambda p: rd(p) or "parse_" in p, nonempty=True)
                got = any(mine(a) for s in ss for a in s.args[1:])
                rep.ob(f"versions:{pn}:{rel}", got == want, "a checkpoint holds commits newer than its version" if not want else "a checkpoint leaves out the commit of its own version", f.loc())
        for c in ("list_delta_log_entries_from", "read_checkpoint_rows_from_checkpoint_file", "get_actions", "apply_checkpoint_row", "prune_expired_checkpoint_actions", "get", "bytes"):
            asm = [av(call_is(c), "-")]
            if c in ("read_checkpoint_rows_from_checkpoint_file", "apply_checkpoint_row"):
                asm.append(av(call_is("pop"), "+"))
            if c == "prune_expired_checkpoint_actions":
                asm = [av(lambda e: last_field(e) == "metadata", "-")]
            if c in ("get_actions", "get", "bytes"):
                g = co(db, "replay_commit_actions_for_state")
                if not rep.need(g, "replay_commit_actions_for_state"):
                    continue
                error_kept(rep, db, g, c, f"replay:{c}", f"a commit that cannot be read ({c}) is left out", skip=lambda p: True)
                continue
            an = rep.analyse(db, f, assume=asm, watch=shorts(*WR), skip=rd, nonempty=True)
            rep.ob(f"state:{c}", not an.sites, f"a checkpoint is written although {c} failed", f.loc())
        an = rep.analyse(db, f, assume=[av(call_is("replay_commit_actions"), "-")], watch=shorts(*WR), skip=rd)
        rep.ob("state:replay", not an.sites, "a checkpoint is written although the log could not be replayed", f.loc())
        an = rep.analyse(db, f, watch=shorts(*WR, "replay_commit_actions"), skip=rd)
        rep.floor("checkpoint writes", len([s for s in an.sites if name(s.short) in WR]), 2)
        for s in an.sites:
            v = s.args[1] if name(s.short) in WR else s.args[4]
            rep.ob(f"state:version:{name(s.short)}", "version" in str(unmut(v)) and unmut(v).op in ("arg", "up", "f"), "the checkpoint is not for the version it is named after", s.where())
        for s in an.sites:
            if name(s.short) != "replay_commit_actions":
                continue
            xs = alts(an, s.args[3])
            rep.ob("state:start", bool(xs) and all(is_const(x, 0) or is_add(x, lambda e: any(y.op == "call" and name(short(y.a[0])) == "pop" for y in walk(e)), 1) for x in xs), "commits between the previous checkpoint and this one are left out", s.where())
        # what is pushed to the candidates is not newer than the checkpoint
        v_ = lambda e: unmut(e).op in ("arg", "up", "f") and str(unmut(e)).rstrip(")'\"").endswith("version") and not has_call(e, "read_last_checkpoint_version_from_store")
        for kind, par in (("commits", "parse_commit_version_from_location"), ("checkpoints", "parse_checkpoint_version_from_location")):
            an = rep.analyse(db, f, assume=[ac(lambda e: has_call(e, par), lambda e: not has_call(e, par), ">")], watch=shorts("push"), skip=rd)
            rep.ob(f"state:{kind}", not [s for s in an.sites if has_call(s.args[1], par)], f"{kind} newer than the checkpoint are put into it", f.loc())
        an = rep.analyse(db, f, assume=[ab(call_is("has_writer_feature"), False)], watch=shorts("write_v2_checkpoint"), skip=lambda p: rd(p) or "has_writer_feature" in p)
        rep.ob("v2:feature", not an.sites, "a v2 checkpoint is written to a table without the feature", f.loc())
    rep.rule("pruned", "only transactions and tombstones with a timestamp older than the retention of the table are left out of a checkpoint")
    f = db.find("prune_expired_checkpoint_actions", crate=C)
    if rep.need(f, "prune_expired_checkpoint_actions"):
        an = rep.analyse(db, f, watch=shorts("retain"))
        rep.floor("pruned maps", len(an.sites), 2)
        seen = set()
        for s in an.sites:
            which = fields(s.args[0]) & {"txns", "removes", "adds", "domain_metadata"}
            seen |= which
            ts, cut = ("last_updated", "transaction_expiration_timestamp") if "txns" in which else ("deletion_timestamp", "deleted_file_retention_timestamp")
            c = clo_arg(s)
            tsf = lambda e: ts in fields(e)
            rep.ob(f"prune:{ts}:none", c is not None and clo_truth(rep, db, c, (), [av(lambda e: last_field(e) == ts, "-")]) == {True}, "an action without a timestamp is pruned", s.where())
            rep.ob(f"prune:{ts}:young", c is not None and clo_truth(rep, db, c, (), [av(lambda e: last_field(e) == ts, "+"), ac(tsf, lambda e: not tsf(e), ">")]) == {True}, "an action within the retention is pruned", s.where())
            other = {"transaction_expiration_timestamp", "deleted_file_retention_timestamp"} - {cut}
            txt = "" if c is None else "".join(str(h.up) + str(h.blocks) for h in [db.fn(c.a[0])] + inner_fns(db, db.fn(c.a[0])))
            rep.ob(f"prune:{ts}:cutoff", cut in txt and not any(o in txt for o in other), "an action is pruned by the retention of another kind", s.where())
        rep.ob("prune:only", seen == {"txns", "removes"}, f"other actions than transactions and tombstones are pruned: {sorted(seen)}", f.loc())
    f = db.find("CheckpointRetentionTimestamps::try_new", crate=C)
    if rep.need(f, "CheckpointRetentionTimestamps::try_new"):
        an = rep.analyse(db, f, adt_watch=lambda p, v: p.endswith("CheckpointRetentionTimestamps"), skip=lambda p: True)
        for s in an.sites:
            rep.ob("cutoff:removes", "deleted_file_retention_duration" in str(s.field("deleted_file_retention_timestamp")), "tombstones are pruned by another retention", s.where())
            rep.ob("cutoff:txns", "log_retention_duration" in str(s.field("transaction_expiration_timestamp")), "transactions are pruned by another retention", s.where())
    f = db.find("retention_cutoff_timestamp", crate=C)
    if rep.need(f, "retention_cutoff_timestamp"):
        an = rep.analyse(db, f)
        es = [okval(e) for e, st in ret_states(an, "+")]
        rep.ob("cutoff:past", bool(es) and all(any(x.op == "call" and name(short(x.a[0])) in ("checked_sub", "saturating_sub") and arg_is(1)(x.a[1][0]) or x.op == "bin" and x.a[0] == "Sub" and arg_is(1)(x.a[1]) for x in walk(e)) for e in es), "the retention does not reach into the past", f.loc())
    rep.rule("compaction", "a compacted log file holds the outcome of every commit of its range, tombstones of files and domains included, and replaces nothing that exists")
    f = co(db, "create_log_compaction_for")
    PUT = ("put_opts", "put", "put_multipart")
    if rep.need(f, "create_log_compaction_for"):
        rdl = lambda p: "read_commit_entry" in p or "get_actions" in p
        for c in ("read_commit_entry", "get_actions"):
            an = rep.analyse(db, f, assume=[av(call_is(c), "-")], watch=shorts(*PUT), skip=rdl, nonempty=True)
            rep.ob(f"compact:{c}", not an.sites, f"a compaction is written although {c} failed", f.loc())
        an = rep.analyse(db, f, assume=[av(lambda e: unmut(e).op == "ok" and call_is("read_commit_entry")(strip_await(e)), "-")], watch=shorts(*PUT), skip=rdl, nonempty=True)
        rep.ob("compact:missing", not an.sites, "a compaction is written although a commit of its range is missing", f.loc())
        an = rep.analyse(db, f, watch=shorts("read_commit_entry"), skip=rdl)
        for s in an.sites:
            lo, hi = range_of(an, s, s.args[1])
            rep.ob("compact:range", lo is not None and "start_version" in str(lo) and hi is not None and "end_version" in str(hi) and not any(x.op == "bin" for y in (lo, hi) for x in walk(y)), "a compaction does not cover its range", s.where())
        an = rep.analyse(db, f, adt_watch=lambda p, v: p.endswith("::Action"), skip=rdl)
        got = {}
        for s in an.sites:
            got.setdefault(s.expr.a[1], []).append(s)
        for v in ("Protocol", "Metadata", "Txn", "DomainMetadata", "Remove", "Add"):
            rep.ob(f"compact:{v}", v in got, f"a compaction leaves out the {v} actions", f.loc())
            for s in got.get(v, []):
                ef = [k for k, x in elem_facts(s) if not (v == "DomainMetadata" and k[0] == "b" and last_field(k[1]) == "removed")]
                rep.ob(f"compact:{v}:all", not ef, f"a compaction leaves out some {v} actions", s.where())
        lossy = sorted({name(short(p)) for g in [f] + inner_fns(db, f) for b, p, gg, t in g.calls() if p is not None and name(short(p)) in LOSSY})
        rep.ob("compact:lossless", not lossy, f"a compaction leaves out some actions ({lossy})", f.loc())
        # removals of domains survive although the reconciled state drops them
        act = lambda e: unmut(e).op == "elem" and has_call(e, "get_actions")
        rm = lambda v: ab(lambda e: last_field(e) == "removed" and has_call(e, "get_actions"), v)
        an = rep.analyse(db, f, assume=[av(act, "DomainMetadata"), rm(True)], watch=shorts("insert"), skip=lambda p: rdl(p) or "apply_action" in p)
        kept = {unmut(s.args[0]) for s in an.sites}
        rep.ob("compact:removed-domains", bool(kept), "the removal of a domain is lost in a compaction", f.loc())
        outs = [s for s in got.get("DomainMetadata", [])]
        rep.ob("compact:removed-domains:written", len({unmut_all(s.expr.a[2][0][1]) for s in outs}) >= 2, "the removal of a domain is lost in a compaction", f.loc())
        error_kept(rep, db, f, "ser::to_string", "compact:encode", "a compaction is written although an action could not be encoded", skip=rdl)
        an = rep.analyse(db, f, watch=shorts("apply_action"), skip=lambda p: rdl(p) or "apply_action" in p)
        rep.floor("applied actions", len(an.sites), 1)
        for s in an.sites:
            rep.ob("compact:applied", not [k for k, x in elem_facts(s) if k[0] == "v"] and has_call(s.args[1], "get_actions"), "an action of a compacted commit is skipped", s.where())
        for g in [f] + inner_fns(db, f):
            for b, p, gg, t in g.calls():
                if p is not None and name(short(p)) in PUT:
                    e = g.call_at(b)
                    rep.ob("compact:create", name(short(p)) == "put_opts" and put_modes(rep, db, e.a[1][3]) == {"Create"}, "a compaction can overwrite a file", g.loc(t[5]))
        an = rep.analyse(db, f, assume=[av(call_is("put_opts"), "-"), av(lambda e: unmut(e).op == "err" and has_call(e, "put_opts"), "Generic")], skip=rdl)
        rep.ob("compact:error", not ret_states(an, "+"), "a compaction counts as written although the store refused it", f.loc())


def effect_table(rep, db, f, subject, table, label, what):
    """for every variant of the action: exactly the effects of the table happen, always, with the payload of that action"""
    for v, conds in table.items():
        for extra, want in conds:
            a = [av(subject, v)] + list(extra)
            tag = f"{label}:{v}" + (f":{extra[0].tag}" if extra and hasattr(extra[0], "tag") else "")
            kw = dict(watch=shorts("insert", "remove"), assign_fields={"protocol", "metadata"}, assign=lambda s: True)
            an = rep.analyse(db, f, assume=a, **kw)
            got = set()
            for s in an.sites:
                if s.kind == "assign":
                    got.add(("set", last_field(s.dest)))
                    ok = v in str(s.expr) and any(subject(x) for x in walk(s.expr)) and "None" not in (variants_of(s.expr) or ())
                    rep.ob(f"{tag}:value", ok, f"{what}: a {v} action is not kept as it is", s.where())
                elif last_field(s.args[0]) is not None:
                    op = (name(s.short), last_field(s.args[0]))
                    got.add(op)
                    fs = fields(s.args[1])
                    key = {"adds": {"path", "deletion_vector"}, "removes": {"path", "deletion_vector"}, "txns": {"app_id"}, "domain_metadata": {"domain"}}.get(op[1], set())
                    rep.ob(f"{tag}:{op[0]}:{op[1]}:key", key <= fs and any(subject(x) for x in walk(s.args[1])), f"{what}: a {v} action is recorded under something else than its key", s.where())
                    if op[0] == "insert":
                        rep.ob(f"{tag}:{op[0]}:{op[1]}:value", any(subject(x) for x in walk(s.args[2])) and not any(x.op == "adt" for x in walk(s.args[2])), f"{what}: a {v} action is not kept as it is", s.where())
            rep.ob(f"{tag}:only", got <= want, f"{what}: a {v} action does {sorted(got - want)}", f.loc())
            for w in sorted(want):
                ok, n = must_event(rep, db, f, (lambda s, w=w: (w[0] == "set" and s.kind == "assign" and last_field(s.dest) == w[1]) or
                                                (s.kind == "call" and name(s.short) == w[0] and s.args and last_field(s.args[0]) == w[1])), assume=a, pol=None, hotp=hot("insert", "remove"), asg={"protocol", "metadata"})
                rep.ob(f"{tag}:{w[0]}:{w[1]}", ok, f"{what}: a {v} action does not always {w[0]} {w[1]}", f.loc())


def tagged(f, tag):
    f.tag = tag
    return f


def vname(n):
    return lambda e: str(unmut(e)) in (n, "^" + n)


@prop("D05")
def replay(rep):
    db = rep.db(C)
    rep.rule("apply", "replaying an action has exactly its effect: an add replaces the file and clears its tombstone, a remove drops the file and leaves a tombstone, the latest protocol, metadata, transaction and domain win")
    rem = lambda v: [tagged(ab(lambda e: last_field(e) == "removed", v), "removed" if v else "set")]
    common = {"Protocol": [([], {("set", "protocol")})], "Metadata": [([], {("set", "metadata")})], "Txn": [([], {("insert", "txns")})],
              "DomainMetadata": [(rem(True), {("remove", "domain_metadata")}), (rem(False), {("insert", "domain_metadata")})],
              **{v: [([], set())] for v in ("CommitInfo", "Cdc", "CheckpointMetadata", "Sidecar")}}
    full = dict(common, Add=[([], {("remove", "removes"), ("insert", "adds")})], Remove=[([], {("remove", "adds"), ("insert", "removes")})])
    head = dict(common, Add=[([], set())], Remove=[([], set())])
    for nm, t in (("ReconciledCheckpointState", full), ("ReconciledHeaderState", head)):
        f = db.find(nm + "::apply_action", crate=C)
        if rep.need(f, nm + "::apply_action"):
            effect_table(rep, db, f, arg_is(2), t, nm, "replay")
        for k in db.all_keys(C):
            if k.endswith("apply_replay_action") and nm in k:
                g = db.fn(k)
                ok, n = must_event(rep, db, g, lambda s: s.args and any(arg_is(2)(x) for x in s.args), pol=None, hotp=hot("apply_action"))
                rep.ob(f"{nm}:delegates", ok, "an action of a commit is not replayed", g.loc())
        g = db.find(nm + "::apply_checkpoint_row", crate=C)
        if rep.need(g, nm + "::apply_checkpoint_row"):
            ok, n = must_event(rep, db, g, lambda s: True, pol="+", assume=[av(call_is("checkpoint_row_action"), "+")], hotp=hot("apply_action"), skip=lambda p: "checkpoint_row_action" in p)
            rep.ob(f"{nm}:rows", ok, "a row of a checkpoint is not replayed", g.loc())
    f = db.find("checkpoint_row_action", crate=C)
    if rep.need(f, "checkpoint_row_action"):
        cols = {"add": "Add", "remove": "Remove", "metadata": "Metadata", "txn": "Txn", "protocol": "Protocol", "sidecar": "Sidecar", "checkpoint_metadata": "CheckpointMetadata", "domain_metadata": "DomainMetadata"}
        for c, v in cols.items():
            a = [av(lambda e, o=o: last_field(e) == o and arg_is(1)(unmut(unmut(e).a[0])), "+" if o == c else "-") for o in cols]
            an = rep.analyse(db, f, assume=a)
            vs = set()
            for e, st in ret_states(an, "+"):
                s = str(e)
                vs |= {x for x in cols.values() if f"Action::{x}" in s} or {"?"}
                rep.ob(f"row:{c}:payload", c in fields(e), f"the {c} column of a checkpoint row is lost", f.loc())
            rep.ob(f"row:{c}", vs == {v} and not [1 for e, st in ret_states(an, "-") if not has_call(e, "map")], f"the {c} column of a checkpoint row is replayed as {sorted(vs)}", f.loc())
    rep.rule("order", "every commit or compaction of the segment is replayed in version order, all of its actions, and an unreadable or missing one is an error")
    rd = lambda p: any(x in p for x in ("get_actions", "resolve_commit_timestamp", "build_replay_sequence"))
    for nm in ("replay_commit_actions_for_state", "replay_commit_actions_with_compactions_for_state"):
        f = co(db, nm)
        if not rep.need(f, nm):
            continue
        for c in ("get", "bytes", "get_actions", "resolve_commit_timestamp_from_actions"):
            error_kept(rep, db, f, c, f"{nm}:{c}", f"a commit that could not be read is skipped ({c})", skip=rd, nonempty=True)
        exhausts(rep, db, f, lambda e: not has_call(e, "get_actions"), f"{nm}:all", "the replay stops before the last commit", assume=[ac(vname("start_version"), vname("end_version"), "<=")], skip=rd)
        unreachable(rep, db, f, ["BTreeMap::insert"], [av(nexts(lambda e: has_call(e, "get_actions")), "+")], f"{nm}:actions", "the replay stops before the last action of a commit", skip=rd)
        an = rep.analyse(db, f, watch=shorts("apply_replay_action"), skip=rd)
        rep.floor(f"{nm} applications", len(an.sites), 1)
        for s in an.sites:
            rep.ob(f"{nm}:apply", has_call(s.args[1], "get_actions") and not any(name(x) in LOSSY for x in calls(s.args[1])), "something else than the actions of the commit is replayed", s.where())
            el = [k for k, v in elem_facts(s) if has_call(k[1], "get_actions")]
            rep.ob(f"{nm}:unconditional", not el, "some actions of a commit are not replayed", s.where())
    f = co(db, "replay_commit_actions_for_state")
    if f is not None:
        EL = lambda e: any(x.op == "elem" for x in walk(e)) and last_field(e) == "0"
        END, START = vname("end_version"), vname("start_version")
        unreachable(rep, db, f, ["apply_replay_action"], [ac(EL, START, ">"), ac(EL, lambda e: not EL(e) and not START(e) and not END(e), "<>")], "gap", "a gap in the sequence of commits goes unnoticed", skip=rd)
        a = [av(nexts(), "-"), ac(START, END, "<="), ac(lambda e: not EL(e) and not START(e) and not END(e), END, "<")]
        rep.ob("end", not ret_states(rep.analyse(db, f, skip=rd, assume=a), "+"), "a replay that did not reach the requested version is taken for complete", f.loc())
    f = db.find("build_replay_sequence", crate=C)
    if rep.need(f, "build_replay_sequence"):
        an = rep.analyse(db, f, adt_watch=lambda p, v: v in ("Commit", "Compaction") and "ReplayEntry" in p)
        vs = {s.expr.a[1] for s in an.sites}
        rep.ob("sequence:kinds", vs == {"Commit", "Compaction"}, "commits or compactions are left out of the replay", f.loc())
        for s in an.sites:
            if s.expr.a[1] == "Compaction":
                d = [v for k, v in s.expr.a[2]]
                rep.ob("sequence:compaction", len(d) == 3 and str(d[1]) != str(d[0]) and has_call(d[1], "get"), "a compaction is replayed for another range", s.where())
            else:
                at = lambda x: last_field(x) == "0" and not has_call(x, "get", "next_key_value")
                a2 = rep.analyse(db, f, assume=[ac(at, lambda e: not at(e), "<>")], adt_watch=lambda p, v: v == "Commit" and "ReplayEntry" in p)
                rep.ob("sequence:commit", not a2.sites, "a commit is replayed at another position than its version", s.where())
    f = db.find("first_replay_version", crate=C)
    if rep.need(f, "first_replay_version"):
        one = lambda i: av(lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "first" and any(x.op == "arg" and x.a[0] == i for x in walk(e)) or call_is("map")(e) and call_is("first")(unmut(unmut(e).a[1][0])) and any(x.op == "arg" and x.a[0] == i for x in walk(e)), "+")
        an = rep.analyse(db, f, assume=[one(1), one(2)])
        rs = [x for e, st in an.rets for x in (unmut(e).a[0] if unmut(e).op == "phi" else [e])]
        rep.ob("first", bool(rs) and all(has_call(e, "min") and not has_call(e, "max", "or", "or_else") and {1, 2} <= {x.a[0] for x in walk(e) if x.op == "arg"} for e in rs), "the replay starts after a compaction or commit on top of the checkpoint", f.loc())
        for i in (1, 2):
            an = rep.analyse(db, f, assume=[one(i)])
            rs = [x for e, st in an.rets for x in (unmut(e).a[0] if unmut(e).op == "phi" else [e])]
            rep.ob(f"first:{i}", bool(rs) and all(i in {x.a[0] for x in walk(e) if x.op == "arg"} and not has_call(e, "max", "or", "or_else") for e in rs), "the replay starts after a compaction or commit on top of the checkpoint", f.loc())
    rep.rule("complete", "a table state is returned only with protocol and metadata, from the rows of the checkpoint, its sidecars and every later commit")
    for nm, extra in (("load_replayed_table_state", ("read_checkpoint_rows_from_checkpoint_file", "replay_commit_actions_with_compactions", "resolve_for_full_state")),
                      ("load_replayed_table_header", ("read_checkpoint_header_from_checkpoint_file", "replay_commit_header_actions_with_compactions", "resolve_for_header"))):
        f = co(db, nm)
        if not rep.need(f, nm):
            continue
        sk = lambda p: any(x in p for x in ("LogSegmentResolver", "read_checkpoint", "replay_commit", "::apply_"))
        for c in extra + (("apply_checkpoint_row",) if "state" in nm else ()):
            error_kept(rep, db, f, c, f"{nm}:{c}", f"a table state is returned although {c} failed", skip=sk)
        for part in ("protocol", "metadata"):
            an = rep.analyse(db, f, assume=[av(lambda e: last_field(e) == part, "-")], skip=sk)
            bad = [e for e, st in ret_states(an, "+") if f"{part}:" in str(e)]
            rep.ob(f"{nm}:{part}", not bad, f"a table state without {part} is returned", f.loc())
        for at, e in [(at, e) for at, e in f.aggregates("ReplayedTableState" if "state" in nm else "ReplayedTableHeader")]:
            for k, v in e.a[2]:
                if k in ("version",):
                    rep.ob(f"{nm}:version", any(n in str(v) for n in ("target_version", "version")) and not any(x.op == "bin" for x in walk(v)), "a table state is labelled with another version", f.loc())
                elif k in ("txns", "domain_metadata", "adds", "removes"):
                    rep.ob(f"{nm}:field:{k}", k in fields(v) and not any(name(c) in LOSSY for c in calls(v)), f"the {k} of a table state are not those replayed", f.loc())
    f = co(db, "read_checkpoint_rows_from_checkpoint_file")
    if rep.need(f, "read_checkpoint_rows_from_checkpoint_file"):
        sk = lambda p: any(x in p for x in ("read_checkpoint_main_rows", "checkpoint_sidecar_file_rows", "decode_checkpoint_rows"))
        for c in ("read_checkpoint_main_rows_from_checkpoint_file", "get", "bytes"):
            error_kept(rep, db, f, c, f"sidecars:{c}", f"a checkpoint is read without a sidecar ({c} failed)", skip=sk)
        exhausts(rep, db, f, lambda e: True, "sidecars:all", "the read of a checkpoint stops before its last sidecar", assume=[ab(call_is("is_empty"), False)], skip=sk)
        an = rep.analyse(db, f, watch=shorts("extend", "append"), skip=sk)
        rep.floor("rows of sidecars", len([s for s in an.sites if has_call(s.args[1], "checkpoint_sidecar_file_rows")]), 1)
        an = rep.analyse(db, f, assume=[av(call_is("SpawnedTask::spawn_blocking", "spawn_blocking"), "-")], skip=sk, nonempty=True, watch=shorts("extend"))
        rep.ob("sidecars:decode", not an.sites, "a sidecar that cannot be decoded is skipped", f.loc())
    for nm in ("read_checkpoint_rows_from_checkpoint_file", "read_checkpoint_main_rows_from_checkpoint_file", "read_checkpoint_header_from_checkpoint_file"):
        f = co(db, nm)
        for g in inner_fns(db, f) if f is not None else ():
            if any(p is not None and name(short(p)) == "decode_checkpoint_rows" for b, p, gg, t in g.calls()):
                sk = lambda p: "decode_checkpoint_rows" in p or "::apply_" in p
                for c in ("try_new", "build", "decode_checkpoint_rows", "apply_checkpoint_row"):
                    error_kept(rep, db, g, c, f"{nm}:batches:{c}", f"a batch of a checkpoint is skipped ({c} failed)", skip=sk)
                an = rep.analyse(db, g, assume=[av(lambda e: unmut(e).op == "elem" or unmut(e).op == "ok" and has_call(e, "next"), "-")], watch=shorts("decode_checkpoint_rows"), skip=sk)
                rep.ob(f"{nm}:batches:read", not [1 for e, st in ret_states(an, "+") if not any(k[0] == "v" and call_is("next")(k[1]) and v == frozenset("-") for k, v in st.items())] and not an.sites, "a batch of a checkpoint that cannot be read is skipped", g.loc())
                exhausts(rep, db, g, lambda e: True, f"{nm}:batches:all", "the read of a checkpoint stops before its last batch", skip=sk)
    f = db.find("checkpoint_sidecar_file_rows", crate=C)
    if rep.need(f, "checkpoint_sidecar_file_rows"):
        for c in ("add", "remove"):
            others = [o for o in ("add", "remove") if o != c]
            an = rep.analyse(db, f, assume=[av(lambda e: last_field(e) == c, "+")] + [av(lambda e, o=o: last_field(e) == o, "-") for o in others], adt_watch=lambda p, v: p.endswith("CheckpointActionRow"))
            ks = {k for s in an.sites for k, v in s.expr.a[2] if "Some" in (variants_of(v) or ())}
            rep.ob(f"sidecar:{c}", ks == {c}, f"the {c} actions of a sidecar are replayed as {sorted(ks)}", f.loc())
    f = db.find("validate_checkpoint_main_summary", crate=C)
    if rep.need(f, "validate_checkpoint_main_summary"):
        ln = lambda e: has_call(e, "len") and "checkpoint_metadata" in fields(e)
        for nm, a in (("uuid", [ab(arg_is(2), True)]), ("sidecars", [ab(lambda e: has_call(e, "is_empty") and "sidecars" in fields(e), False)]), ("metadata", [ab(lambda e: has_call(e, "is_empty") and "checkpoint_metadata" in fields(e), False)])):
            an = rep.analyse(db, f, assume=a + [ac(ln, lambda e: is_const(e, 1), "<>")])
            rep.ob(f"v2:{nm}", not ret_states(an, "+"), "a v2 checkpoint without exactly one checkpointMetadata action is accepted", f.loc())
    for nm in ("read_checkpoint_main_rows_from_checkpoint_file", "inspect_checkpoint_main_file"):
        f = co(db, nm)
        if rep.need(f, nm):
            ok, n = must_event(rep, db, f, lambda s: True, pol="+", hotp=hot("validate_checkpoint_main_rows", "validate_checkpoint_main_summary", "read_checkpoint_main_rows_from_checkpoint_file"), skip=lambda p: "validate_" in p or "decode_" in p or "main_rows" in p)
            rep.ob(f"v2:{nm}", ok and n, "a checkpoint is read without checking that it is complete", f.loc())
            error_kept(rep, db, f, "validate_checkpoint_main_rows" if nm.startswith("read") else "validate_checkpoint_main_summary", f"v2:{nm}:error", "a checkpoint that is not complete is read", skip=lambda p: "validate_" in p or "decode_" in p or "main_rows" in p)
    exec_replay(rep, db)


def exec_replay(rep, db):
    rep.rule("newest", "the replay operators keep, for every file, the action with the highest version (the add at equal versions), whichever order the rows arrive in")
    ISREM = lambda e: call_is("BooleanArray::value")(e)
    KEYNULL = lambda e: call_is("Array::is_null")(e) and "0" in fields(e) or call_is("is_null")(e) and last_field(unmut(e).a[1][0]) == "0"
    REMNULL = lambda e: call_is("is_null")(e) and last_field(unmut(e).a[1][0]) == "1"
    VER = lambda e: has_call(e, "PrimitiveArray::value")
    OLD = lambda e: last_field(e) == "log_version"
    OLDREM = lambda e: last_field(e) == "is_remove" and has_call(e, "get", "entry", "get_mut")
    hit = [av(call_is("HashMap::get", "HashMap::get_mut"), "+"), ab(call_is("HashMap::contains_key"), True), av(call_is("HashMap::entry"), "Occupied")]
    miss = [av(call_is("HashMap::get", "HashMap::get_mut"), "-"), ab(call_is("HashMap::contains_key"), False), av(call_is("HashMap::entry"), "Vacant")]
    live = [ab(KEYNULL, False), ab(lambda e: call_is("is_null")(e) and last_field(unmut(e).a[1][0]) == "2", False)]
    isrem = lambda v: [ab(REMNULL, False), ab(ISREM, v)]
    f = db.find("HashReplayState::process_commits_batch", crate=C)
    if rep.need(f, "process_commits_batch"):
        stores = lambda a: [s for s in sites_of(rep, db, f, "HashMap::insert", "OccupiedEntry::insert", "VacantEntry::insert", assume=a, nonempty=True)]
        rep.ob("commit:older", not stores(live + hit + [ac(VER, OLD, "<")]), "an older action of a commit replaces a newer one", f.loc())
        rep.ob("commit:newer", bool(stores(live + hit + isrem(False) + [ac(VER, OLD, ">")])) and bool(stores(live + hit + isrem(True) + [ac(VER, OLD, ">")])), "a newer action of a commit is ignored", f.loc())
        rep.ob("commit:first", bool(stores(live + miss + isrem(True))) and bool(stores(live + miss + isrem(False))), "the first action of a file is ignored", f.loc())
        for old in (True, False):
            for new in (True, False):
                ss = stores(live + hit + isrem(new) + [ac(VER, OLD, "="), ab(OLDREM, old)])
                rep.ob(f"commit:equal:{'remove' if old else 'add'}:{'remove' if new else 'add'}", bool(ss) == (old and not new), "the add does not win over the remove of the same commit", f.loc())
        for v in (True, False):
            for s in stores(live + isrem(v)):
                for x in walk(s.args[-1]):
                    if x.op == "adt" and x.a[0].endswith("ReplayEntry"):
                        d = dict(x.a[2])
                        rep.ob("commit:version:none", all(VER(y) or is_const(y, 0) or "MIN" in str(y) for y in alts(rep.analyse(db, f, skip=lambda p: True), d["log_version"])), "an action without a version counts as the newest", s.where())
                        rep.ob("commit:version", VER(d["log_version"]), "an action is remembered with another version", s.where())
                        rep.ob("commit:kind", has_call(d["is_remove"], "BooleanArray::value") or is_const(d["is_remove"], "true" if v else "false"), "an action is remembered as another kind", s.where())
                rep.ob("commit:key", has_call(s.args[1] if len(s.args) > 2 else s.args[0], "GenericByteArray::value", "entry"), "an action is remembered under another file", s.where())
        exhausts(rep, db, f, lambda e: has_call(e, "num_rows") or True, "commit:all", "rows of a batch are left out of the replay", assume=[ac(lambda e: has_call(e, "num_rows"), lambda e: is_const(e, 0), ">")])
    f = db.find("HashReplayState::process_checkpoint_batch", crate=C)
    if rep.need(f, "process_checkpoint_batch"):
        pushes = lambda a: sites_of(rep, db, f, "push_payload_row", assume=a, nonempty=True)
        rep.ob("checkpoint:known", not pushes(live + hit), "a file of the checkpoint is read although a later commit decided about it", f.loc())
        rep.ob("checkpoint:remove", not pushes(live + isrem(True)), "a file removed in the checkpoint is read", f.loc())
        rep.ob("checkpoint:add", bool(pushes(live + miss + isrem(False))), "a file of the checkpoint is not read", f.loc())
        exhausts(rep, db, f, lambda e: has_call(e, "num_rows"), "checkpoint:all", "rows of a checkpoint are left out of the replay", assume=[ac(lambda e: has_call(e, "num_rows"), lambda e: is_const(e, 0), ">")])
    f = db.find("ReplayState::process_batch", crate=C)
    if rep.need(f, "ReplayState::process_batch"):
        OUT = dict(assign_fields={"current_removed", "current_row"}, assign=lambda s: True)
        cr, row = (lambda e: last_field(e) == "current_removed"), (lambda e: last_field(e) == "current_row")
        same = [av(lambda e: last_field(e) == "current_path", "+"), ac(lambda e: has_call(e, "GenericByteArray::value"), lambda e: "current_path" in fields(e), "=")]
        sets = lambda a: [s for s in rep.analyse(db, f, assume=live + a, nonempty=True, **OUT).sites if s.kind == "assign" and not (is_const(s.expr, "false") or "None" in (variants_of(s.expr) or ()))]
        rep.ob("sort:removed", not sets(same + [ab(cr, True)]), "an older action revives a file that was removed", f.loc())
        rep.ob("sort:added", not sets(same + [av(row, "+")]), "an older action replaces a newer one", f.loc())
        a = sets(same + [ab(cr, False), av(row, "-")] + isrem(True))
        rep.ob("sort:remove", {last_field(s.dest) for s in a} == {"current_removed"}, "a remove does not remove the file", f.loc())
        a = sets(same + [ab(cr, False), av(row, "-")] + isrem(False))
        rep.ob("sort:add", {last_field(s.dest) for s in a} == {"current_row"}, "an add does not add the file", f.loc())
        other = [av(lambda e: last_field(e) == "current_path", "+"), ac(lambda e: has_call(e, "GenericByteArray::value"), lambda e: "current_path" in fields(e), "<>")]
        an = rep.analyse(db, f, assume=live + other, nonempty=True, watch=shorts("flush_current_group"), skip=lambda p: "flush_current_group" in p)
        rep.ob("sort:flush", bool(an.sites), "the file of a finished group is not read", f.loc())
        an = rep.analyse(db, f, assume=live + other, skip=lambda p: "flush_current_group" in p, entry={"fl": {0}}, event=lambda s: [("fl", {1})], event_watch=hot("flush_current_group"), assign_fields={"current_path"}, assign=lambda s: True, nonempty=True)
        for s in [s for s in an.sites if s.kind == "assign"]:
            rep.ob("sort:flush:order", s.state.get(("s", "fl")) == {1}, "the group of a file is forgotten before it was read", s.where())
        an = rep.analyse(db, f, assume=live + other, entry={"rs": {0}}, assign_fields={"current_removed", "current_path"}, assign=lambda s: [("rs", {1 if is_const(s.expr, "false") else 0})] if last_field(s.dest) == "current_removed" else True)
        ss = [s for s in an.sites if s.kind == "assign" and last_field(s.dest) == "current_path"]
        rep.floor("groups", len(ss), 1)
        for s in ss:
            rep.ob("sort:reset", s.state.get(("s", "rs")) == {1}, "a file is left out because the file before it was removed", s.where())
        an = rep.analyse(db, f, assume=live + same, nonempty=True, watch=shorts("flush_current_group"), skip=lambda p: "flush_current_group" in p)
        rep.ob("sort:group", not an.sites, "the group of a file is closed while its rows still arrive", f.loc())
        exhausts(rep, db, f, lambda e: has_call(e, "num_rows"), "sort:all", "rows of a batch are left out of the replay", assume=[ac(lambda e: has_call(e, "num_rows"), lambda e: is_const(e, 0), ">")])
    rep.rule("stages", "files of the checkpoint are looked at only after every commit was, remembered files are emitted only after the checkpoint was, and errors of the inputs are passed on")

    EMPTYISH = lambda e: last_field(e) == "out_rows"
    f = next((db.fn(k) for k in db.all_keys(C) if "hash_replay_stream" in k and db.fn(k).kind == "coroutine"), None)
    if rep.need(f, "hash_replay_stream"):
        ST = lambda e: last_field(e) == "stage"
        sk = lambda p: any(x in p for x in ("process_", "take_output_batch", "begin_emit", "push_payload"))
        for stage, stream, proc, nxt in (("Build", "commits", "process_commits_batch", "Probe"), ("Probe", "checkpoint", "process_checkpoint_batch", "Emit")):
            mine = lambda e: call_is("try_next", "next")(e) and stream in fields(e)
            an = rep.analyse(db, f, assume=[av(ST, stage)], skip=sk, watch=shorts("process_commits_batch", "process_checkpoint_batch"), assign_fields={"stage"}, assign=lambda s: True)
            ps = {name(s.short) for s in an.sites if s.kind == "call"}
            rep.ob(f"stage:{stage}:rows", ps == {proc} and all(has_call(s.args[1], "try_next", "next") and stream in fields(s.args[1]) for s in an.sites if s.kind == "call"), f"the rows of the {stream} are replayed in another role", f.loc())
            to = {x for s in an.sites if s.kind == "assign" for x in (variants_of(s.expr) or {"?"})}
            rep.ob(f"stage:{stage}:next", to == {nxt}, f"the replay goes on to {sorted(to)} after the {stream}", f.loc())
            an = rep.analyse(db, f, assume=[av(ST, stage), av(lambda e: unmut(e).op == "ok" and has_call(e, "try_next", "next"), "+")], skip=sk, assign_fields={"stage"}, assign=lambda s: True)
            rep.ob(f"stage:{stage}:all", not [s for s in an.sites if s.kind == "assign"], f"the replay leaves the {stream} before their end", f.loc())
            error_kept(rep, db, f, proc, f"stage:{stage}:error", f"rows of the {stream} that cannot be replayed are skipped", assume=[av(ST, stage)], skip=sk)
        an = rep.analyse(db, f, assume=[av(ST, "Build", "Probe", "Emit"), ac(EMPTYISH, lambda e: True, "<")], skip=sk)
        rep.ob("stage:end", not [1 for e, st in ret_states(an, "+") if "None" in (variants_of(okval(e)) or ())], "the replay ends before every file was read", f.loc())
        an = rep.analyse(db, f, assume=[av(ST, "Done"), ac(EMPTYISH, lambda e: is_const(e, 0), ">"), ac(EMPTYISH, lambda e: not is_const(e, 0), "<")], skip=sk)
        rep.ob("stage:rest", not [1 for e, st in ret_states(an, "+") if "None" in (variants_of(okval(e)) or ())], "the last files are left out", f.loc())
        an = rep.analyse(db, f, assume=[av(ST, "Emit"), ab(lambda e: last_field(e) == "is_remove", True)], watch=shorts("push_payload_row"), skip=sk)
        rep.ob("emit:remove", not an.sites, "a removed file is read", f.loc())
        an = rep.analyse(db, f, assume=[av(ST, "Emit"), ab(lambda e: last_field(e) == "is_remove", False), av(lambda e: last_field(e) == "payload", "+")], watch=shorts("push_payload_row"), skip=sk)
        rep.ob("emit:add", bool(an.sites) and not any(name(c) in LOSSY for s in an.sites for a in s.args for c in calls(a)), "an added file is not read", f.loc())
        ext = [s for s in rep.analyse(db, f, assume=[av(ST, "Emit")], skip=sk, assign_fields={"stage"}, assign=lambda s: True).sites if s.kind == "assign"]
        an = rep.analyse(db, f, assume=[av(ST, "Emit"), av(lambda e: last_field(e) == "emit_entries" or has_call(e, "take"), "+"), ac(lambda e: has_call(e, "len"), lambda e: is_const(e, 0), ">")], skip=sk, assign_fields={"stage"}, assign=lambda s: True)
        rep.ob("emit:all", bool(ext) and not [s for s in an.sites if s.kind == "assign"], "the emission stops before the last file", f.loc())
    f = next((db.fn(k) for k in db.all_keys(C) if "DeltaLogReplayExec" in k and "::execute::" in k and db.fn(k).kind == "coroutine"), None)
    if rep.need(f, "DeltaLogReplayExec::execute"):
        sk = lambda p: any(x in p for x in ("process_batch", "take_output_batch", "flush_current_group"))
        fin = lambda e: last_field(e) == "finished"
        none = lambda an: [st for e, st in ret_states(an, "+") if "None" in (variants_of(okval(e)) or ())]
        an = rep.analyse(db, f, assume=[ab(fin, False)], skip=sk)
        rep.ob("sort:end", not none(an), "the replay ends before its input", f.loc())
        an = rep.analyse(db, f, assume=[ab(fin, True)], skip=sk, entry={"fl": {0}}, event=lambda s: [("fl", {1})], event_watch=hot("flush_current_group"))
        rep.ob("sort:last", bool(none(an)) and all(st.get(("s", "fl")) == {1} for st in none(an)), "the last file is left out", f.loc())
        an = rep.analyse(db, f, assume=[ab(fin, True), ac(EMPTYISH, lambda e: is_const(e, 0), ">"), ac(EMPTYISH, lambda e: not is_const(e, 0), "<")], skip=sk)
        rep.ob("sort:rest", not none(an), "the last files are left out", f.loc())
        an = rep.analyse(db, f, assume=[av(lambda e: unmut(e).op == "ok" and has_call(e, "try_next", "next"), "+")], skip=sk, assign_fields={"finished"}, assign=lambda s: True)
        rep.ob("sort:finish", not [s for s in an.sites if s.kind == "assign"], "the replay ends before its input", f.loc())
        error_kept(rep, db, f, "process_batch", "sort:error", "rows that cannot be replayed are skipped", skip=sk)
    rep.rule("inputs", "the rows of one file reach the same replay partition, sorted where the operator relies on it, and the operator keeps its kind and inputs when rebuilt")
    f = db.find("DeltaLogReplayExec as ExecutionPlan>::required_input_distribution", crate=C) or next((db.fn(k) for k in db.all_keys(C) if "DeltaLogReplayExec" in k and k.endswith("::required_input_distribution")), None)
    MODES = ("Sort", "HashCommits", "Hash")
    MODE = lambda e: last_field(e) == "mode"
    if rep.need(f, "required_input_distribution"):
        for m in MODES:
            an = rep.analyse(db, f, assume=[av(MODE, m), av(call_is("index_of"), "+")], adt_watch=lambda p, v: p.endswith("Distribution"))
            vs = {s.expr.a[1] for s in an.sites}
            rep.ob(f"distribution:{m}", vs == {"HashPartitioned"}, f"rows of one file reach different partitions ({m})", f.loc())
            cols = {x.a[0] for s in an.sites for y in [s.expr] for x in walk(y) if x.op in ("k", "s") and "COL_" in str(x)} | {str(y) for s in an.sites for y in call_nodes(s.expr, "Column::new")}
            rep.ob(f"distribution:{m}:key", bool(cols) and all("COL_REPLAY_PATH" in str(c) for c in cols), f"rows are distributed by something else than their file ({m})", f.loc())
    f = next((db.fn(k) for k in db.all_keys(C) if "DeltaLogReplayExec" in k and k.endswith("::required_input_ordering")), None)
    if rep.need(f, "required_input_ordering"):
        an = rep.analyse(db, f, assume=[av(MODE, "Sort"), av(call_is("index_of"), "+"), av(call_is("LexOrdering::new"), "+")], adt_watch=lambda p, v: p.endswith("PhysicalSortExpr"))
        order = []
        for s in an.sites:
            col = next((c for c in ("COL_REPLAY_PATH", "COL_LOG_VERSION", "COL_LOG_IS_REMOVE") if c in str(s.expr)), "?")
            d = [dict(x.a[2]).get("descending") for x in walk(s.expr) if x.op == "adt" and x.a[0].endswith("SortOptions")]
            order.append((col, str(d[0]) if d else "?"))
        rep.ob("ordering", order == [("COL_REPLAY_PATH", "false"), ("COL_LOG_VERSION", "true"), ("COL_LOG_IS_REMOVE", "false")], f"the replay of sorted rows gets them in another order ({order})", f.loc())
        rep.ob("ordering:none", not [1 for e, st in an.rets if "None" in str(e) and "Some" not in str(e)], "the replay of sorted rows does not ask for their order", f.loc())
    f = next((db.fn(k) for k in db.all_keys(C) if "DeltaLogReplayExec" in k and k.endswith("::with_new_children")), None)
    if rep.need(f, "with_new_children"):
        ctor = {"Sort": "new", "Hash": "try_new_hash", "HashCommits": "new_hash_commits"}
        for m in MODES:
            an = rep.analyse(db, f, assume=[av(MODE, m)], watch=shorts("DeltaLogReplayExec::new", "try_new_hash", "new_hash_commits"), skip=lambda p: "DeltaLogReplayExec" in p)
            got = {name(s.short) for s in an.sites}
            rep.ob(f"rebuild:{m}", got == {ctor[m]}, f"the replay operator changes its kind when rebuilt ({m})", f.loc())
            for s in an.sites:
                ix = [str(x.a[-1]) for a in s.args[:2] for x in walk(a) if x.op == "idx"] or [str(a) for a in s.args[:2]]
                if m == "Hash":
                    rep.ob("rebuild:Hash:order", "0" in ix[0] and "1" in ix[1] and str(s.args[0]) != str(s.args[1]), "checkpoint and commits are swapped when the operator is rebuilt", s.where())
                for k in ("version", "checkpoint_files", "commit_files"):
                    rep.ob(f"rebuild:{m}:{k}", any(last_field(a) == k for a in s.args), f"the replay operator loses its {k} when rebuilt", s.where())
    for k in db.all_keys(C):
        if "DeltaLogReplayExec" in k and k.endswith("::children"):
            an = rep.analyse(db, db.fn(k), assume=[av(MODE, "Hash")])
            for e, st in an.rets:
                t = str(e)
                rep.ob("children:order", "checkpoint" in t and "commits" in t and t.index("checkpoint") < t.index("commits"), "checkpoint and commits are swapped", db.fn(k).loc())
