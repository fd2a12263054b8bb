from sa.mir import E, mk, walk, unmut, short, show
from rules import prop
from rules._h import *
from rules.delta import C, hot, vname, error_kept, LOSSY, clo_calls


def isv(e):
    return any(x.op == "elem" for x in walk(e)) and last_field(e) in ("0", "version")


def tgt(e):
    return last_field(e) in ("target_version", "max_version") or vname("max_version")(e) or vname("version")(e) or vname("end_version")(e) or vname("target_version")(e)


def sort_dir(rep, db, s):
    """direction in which the first key of a sort is ordered: 'asc', 'desc' or '?'"""
    n = name(s.short)
    c = unmut(s.args[-1])
    if c.op != "clo":
        return "?"
    from sa import ip
    an = ip.Analyzer(db)
    byk = "key" in n
    el = [mk("elem", mk("k", "<left>"))] if byk else [mk("elem", mk("k", "<left>")), mk("elem", mk("k", "<right>"))]
    rs = an.run(db.fn(c.a[0]), [None] + el, list(c.a[1]), {}, 0, ()) or []
    out = set()
    for e, st in rs:
        d = 1
        e = unmut(e)
        while True:
            m = name(short(e.a[0])) if e.op == "call" else ""
            if m in ("then_with", "then", "reverse"):
                d = -d if m == "reverse" else d
                e = unmut(e.a[1][0])
            elif e.op == "adt" and e.a[0].endswith("Reverse"):
                d, e = -d, unmut(e.a[2][0][1])
            elif e.op == "call" and m == "Reverse":
                d, e = -d, unmut(e.a[1][0])
            elif m in ("cmp", "partial_cmp", "total_cmp"):
                l, r = str(e.a[1][0]), str(e.a[1][1])
                if "<left>" in l and "<right>" in r:
                    break
                if "<right>" in l and "<left>" in r:
                    d = -d
                    break
                return "?"
            elif byk:
                break
            elif e.op in ("tup", "arr") and e.a[0]:
                e = unmut(e.a[0][0])
            else:
                return "?"
        out.add("asc" if d > 0 else "desc")
    if "max" in n:
        out = {"desc" if x == "asc" else "asc" for x in out}
    return out.pop() if len(out) == 1 else "?"


@prop("D06")
def segment(rep):
    db = rep.db(C)
    seg = "delta_log/segment.rs"
    rep.rule("bounds", "only log files at or below the requested version are taken, and every commit after the checkpoint or base is")
    f = co(db, "list_log_files", crate=C)
    sk = lambda p: "parse_" in p or "read_last" in p or "list_delta_log_entries_from" in p or "select_checkpoint" in p
    if rep.need(f, "list_log_files"):
        for p in ("parse_checkpoint_version_from_location", "parse_commit_version_from_location", "parse_checksum_version_from_location", "parse_compacted_json_versions_from_location"):
            mine = lambda e, p=p: has_call(e, p)
            got = {}
            for rel in (">", "<="):
                ss = sites_of(rep, db, f, "push", "insert", assume=[ac(mine, vname("max_version"), rel)], skip=sk, nonempty=True)
                got[rel] = [s for s in ss if any(mine(a) for a in s.args[1:])]
            rep.ob(f"list:{p}:newer", not got[">"], f"a log file newer than the requested version is taken ({p})", f.loc())
            eq = sites_of(rep, db, f, "push", "insert", assume=[ac(mine, vname("max_version"), "=")], skip=sk, nonempty=True)
            got["="] = [s for s in eq if any(mine(a) for a in s.args[1:])]
            rep.ob(f"list:{p}:taken", bool(got["<="]) and bool(got["="]), f"a log file of the requested version is not taken ({p})", f.loc())
            for s in got["<="]:
                if "compacted" in p:
                    rep.ob("list:compaction:end", not [1 for a, b, r in s.cmps(mine, vname("max_version")) if last_field(a) == "0"] and any(last_field(a) == "1" for a, b, r in s.cmps(mine, vname("max_version"))), "a compaction is taken although it ends after the requested version", s.where())
        error_kept(rep, db, f, "list_delta_log_entries_from", "list:error", "an incomplete listing of the log is used", skip=sk)
        exhausts(rep, db, f, lambda e: has_call(e, "list_delta_log_entries_from"), "list:all", "some files of the log are not looked at", skip=sk)
    sk = lambda p: any(x in p for x in ("read_last_checkpoint", "list_log_files", "try_read_checksum", "validate_commit", "resolve_compactions", "merge_catalog", "filter_compactions", "resolve_catalog_managed", "has_catalog_managed", "validate_and_build", "inspect_checkpoint"))
    HINT = lambda e: has_call(e, "read_last_checkpoint_version_from_store", "read_last_checkpoint_hint_from_store")
    LL = lambda e: has_call(e, "list_log_files") and "2" in fields(e) and "3" not in fields(e)
    kernel = co(db, "list_log_segment_files", file="delta_log/segment_files.rs")
    for nm, f in (("resolve_for_header", co(db, "resolve_for_header", crate=C)), ("resolve_for_full_state", co(db, "resolve_for_full_state", crate=C)), ("list_log_segment_files", kernel)):
        if not rep.need(f, nm):
            continue
        newer = [ac(HINT, tgt, ">")]
        ss = sites_of(rep, db, f, "list_log_files", assume=newer, skip=sk)
        rep.floor(f"{nm} listings", len(ss), 1)
        for s in ss:
            rep.ob(f"{nm}:hint", not HINT(s.args[1]) or opt_dead(rep, db, s.args[1], newer), "an older version is resolved from a listing that starts at a newer checkpoint", s.where())
            rep.ob(f"{nm}:max", tgt(s.args[2]), "the log is listed up to another version", s.where())
        error_kept(rep, db, f, "list_log_files", f"{nm}:list:error", "a version is resolved from an incomplete listing", skip=sk)
        if nm.startswith("list"):
            continue
        for lab, a in (("newer", [ac(isv, tgt, ">")]), ("base", [ac(isv, lambda e: not tgt(e) and not isv(e), "<")])):
            ks = keeps(rep, db, f, LL, a, skip=sk)
            rep.ob(f"{nm}:commits:{lab}", bool(ks) and not any(k for k, s in ks), f"a commit {'newer than the requested version' if lab == 'newer' else 'older than the checkpoint'} is replayed", f.loc())
        ks = keeps(rep, db, f, LL, [ac(isv, tgt, "<="), ac(isv, lambda e: not tgt(e) and not isv(e), ">")], skip=sk)
        rep.ob(f"{nm}:commits:taken", bool(ks) and all(k for k, s in ks), "a commit of the segment is not replayed", f.loc())
        ks = keeps(rep, db, f, LL, [ac(isv, tgt, "="), ac(isv, lambda e: not tgt(e) and not isv(e), ">")], skip=sk)
        rep.ob(f"{nm}:commits:last", bool(ks) and all(k for k, s in ks), "the commit of the requested version is not replayed", f.loc())
        # the first version to replay
        CPV = lambda e: has_call(e, "cp_meta_version", "parse_checkpoint_version_from_location")
        for s in sites_of(rep, db, f, "filter_compactions_for_range", "resolve_catalog_managed_commit_files", skip=lambda p: sk(p) or "cp_meta_version" in p):
            lo = s.args[-2]
            an = rep.analyse(db, f, skip=lambda p: True)
            for x in alts(an, lo):
                ok = is_const(x, 0) or is_add(x, CPV, 1) or is_add(x, lambda e: last_field(e) == "version", 1)
                rep.ob(f"{nm}:start", ok, f"the replay starts at another version than the one after the checkpoint ({show(x)[:80]})", s.where())
            rep.ob(f"{nm}:end", tgt(s.args[-1]), "the replay ends at another version than the requested one", s.where())
    rep.rule("checkpoint", "the newest checkpoint at or below the requested version is used, the one the hint names among several of one version, and only complete ones")
    f = db.find("select_checkpoint_candidate", crate=C)
    if rep.need(f, "select_checkpoint_candidate"):
        ss = sites_of(rep, db, f, "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "max_by", "max_by_key", "sort_by_cached_key")
        rep.floor("orders of checkpoints", len(ss), 1)
        for s in ss:
            rep.ob("newest", sort_dir(rep, db, s) == "desc", "an older checkpoint is preferred to a newer one", s.where())
        ok = [e for e, st in rep.analyse(db, f).rets]
        rep.ob("newest:first", not any(has_call(e, "last", "nth", "pop", "rev", "min_by", "min_by_key") for e in ok), "an older checkpoint is preferred to a newer one", f.loc())
        HV = lambda e: last_field(e) == "version" and "elem" not in str(e)
        a = [ac(HV, lambda e: not HV(e), "<>"), av(call_is("v2_checkpoint_path_from_hint"), "+")]
        ss = sites_of(rep, db, f, "retain", "find", assume=[ac(HV, lambda e: not HV(e), "<>")], skip=lambda p: "v2_checkpoint_path" in p)
        rep.ob("hint:stale", not ss, "a hint about another version decides which checkpoint is used", f.loc())
        error_kept(rep, db, f, "v2_checkpoint_path_from_hint", "hint:error", "an invalid hint is used", skip=lambda p: "v2_checkpoint_path" in p)
    f = db.find("parse_checkpoint_version_from_location", crate=C)
    if rep.need(f, "parse_checkpoint_version_from_location"):
        an = rep.analyse(db, f, assume=[ab(lambda e: has_call(e, "is_partial_checkpoint_filename"), True)], skip=lambda p: "is_partial" in p)
        part = db.find("is_partial_checkpoint_filename", crate=C)
        if part is not None:
            rep.ob("parts", not ret_states(an, "+"), "one part of a multi-part checkpoint is taken for a checkpoint", f.loc())
    f = co(db, "read_last_checkpoint_version_from_store", crate=C)
    if rep.need(f, "read_last_checkpoint_version_from_store"):
        PARTS = lambda e: "parts" in fields(e)
        a = [ac(PARTS, lambda e: is_const(e, 1), ">"), av(lambda e: last_field(e) == "parts", "+")]
        an = rep.analyse(db, f, assume=a)
        bad = [e for e, st in ret_states(an, "+") if not opt_dead(rep, db, e, a)]
        rep.ob("parts:hint", not bad, "the listing starts at a checkpoint of several parts, which is never read", f.loc())
    f = db.find("v2_checkpoint_path_from_hint", crate=C)
    if rep.need(f, "v2_checkpoint_path_from_hint"):
        PV = lambda e: has_call(e, "parse_checkpoint_version_from_location")
        some = lambda an: [1 for e, st in ret_states(an, "+") if "Some" in str(e)]
        rep.ob("hint:path", not some(rep.analyse(db, f, assume=[ab(lambda e: has_call(e, "is_uuid_checkpoint_filename"), False)], skip=lambda p: "is_uuid" in p)), "a hint that is not a v2 checkpoint is used", f.loc())
        rep.ob("hint:version", not some(rep.analyse(db, f, assume=[ac(PV, lambda e: not PV(e), "<>")], skip=lambda p: "parse_checkpoint_version" in p)), "a hint whose file is of another version is used", f.loc())
    rep.rule("gaps", "a segment that lacks a commit between its checkpoint and the requested version is an error")
    vs = {"validate_commit_contiguity": [], "validate_commit_contiguity_with_compactions": []}
    for nm in vs:
        f = db.find(nm, crate=C)
        if not rep.need(f, nm):
            continue
        START, END = vname("start_version"), vname("end_version")
        EL = lambda e: any(x.op == "elem" for x in walk(e))
        EXP = lambda e: not EL(e) and not START(e) and not END(e)
        sk2 = (lambda p: "validate_commit_contiguity" in p and not p.endswith("with_compactions"))
        cont = [ac(START, END, "<="), ab(lambda e: has_call(e, "is_empty"), False)]
        inr = [ac(EL, START, ">"), ac(EL, END, "<=")]
        an = rep.analyse(db, f, assume=cont + inr + [ac(EL, EXP, "<>")], skip=sk2, nonempty=True)
        rep.ob(f"{nm}:gap", not ret_states(an, "+"), "a missing commit is not noticed", f.loc())
        an = rep.analyse(db, f, assume=cont + [av(nexts(), "-"), ac(lambda e: not START(e) and not END(e), END, "<>")], skip=sk2)
        rep.ob(f"{nm}:end", not ret_states(an, "+"), "a missing last commit is not noticed", f.loc())
        exhausts(rep, db, f, lambda e: True, f"{nm}:all", "some commits are not checked", assume=cont, skip=sk2)
    f = db.find("validate_commit_contiguity_with_compactions", crate=C)
    if f is not None:
        an = rep.analyse(db, f, assume=[ac(vname("start_version"), vname("end_version"), "<="), av(call_is("validate_commit_contiguity"), "-"), ab(lambda e: has_call(e, "is_empty"), True)], skip=sk2)
        an2 = rep.analyse(db, f, nonempty=True, steady=True, watch=shorts("saturating_add", "checked_add", "max"), skip=sk2)
        adds = [s for s in an2.sites if any(x.op == "elem" for x in walk(s.args[0]))]
        rep.ob("compaction:next", bool(adds) and all(last_field(s.args[0]) == "1" for s in adds), "after a compaction the search for gaps goes on before its end", f.loc())
        rep.ob("plain", not ret_states(an, "+") or all(has_call(e, "validate_commit_contiguity") for e, st in ret_states(an, "+")), "a missing commit is not noticed without compactions", f.loc())
    for nm, kind in (("resolve_for_header", "Incremental"), ("resolve_for_full_state", "FullReplay")):
        f = co(db, nm, crate=C)
        if f is None:
            continue
        an = rep.analyse(db, f, entry={"val": {0}}, event=lambda s: [("val", {1})], event_watch=hot("validate_commit_contiguity_with_compactions", "validate_commit_contiguity"), skip=sk, adt_watch=lambda p, v: v == kind and "ResolvedLogSegment" in p)
        rep.floor(f"{nm} segments", len(an.sites), 1)
        for s in an.sites:
            rep.ob(f"{nm}:validated", s.state.get(("s", "val")) == {1}, "a segment is used without checking that it has no gaps", s.where())
            d = dict(s.expr.a[2])
            rep.ob(f"{nm}:version", tgt(d["target_version"]), "a segment is labelled with another version", s.where())
        error_kept(rep, db, f, "validate_commit_contiguity_with_compactions", f"{nm}:gap:error", "a segment with a gap is used", skip=sk)
        for s in sites_of(rep, db, f, "validate_commit_contiguity_with_compactions", "validate_commit_contiguity", skip=sk):
            rep.ob(f"{nm}:validated:end", tgt(s.args[-1]), "the commits are checked up to another version", s.where())
            rep.ob(f"{nm}:validated:files", has_call(s.args[0], "resolve_compactions") and has_call(s.args[0], "list_log_files"), "other commits are checked than those replayed", s.where())
    f = co(db, "resolve_for_header", crate=C)
    if f is not None:
        CPV = lambda e: has_call(e, "parse_checkpoint_version_from_location", "cp_meta_version") or "cp_meta_version" in str(e)
        BASE = lambda e: last_field(e) == "version"
        CK = lambda e: adt_variant(e) == "Some" and "1" in fields(e) and has_call(e, "list_log_files") and not has_call(e, "validate_and_build_header")
        for rel in ("<=", ">"):
            an = rep.analyse(db, f, assume=[ac(CPV, BASE, rel)], skip=lambda p: sk(p) or "cp_meta_version" in p, adt_watch=lambda p, v: v == "Some")
            ck = [s for s in an.sites if CK(s.expr)]
            rep.ob(f"base:checkpoint:{rel}", bool(ck) == (rel == ">"), "a table header is rolled back to an older checkpoint" if rel == "<=" else "a checkpoint newer than the known state is ignored", f.loc())
        for s in rep.analyse(db, f, skip=sk, adt_watch=lambda p, v: v == "FullReplay" and "ResolvedLogSegment" in p).sites:
            rep.ob("header:full", has_call(dict(s.expr.a[2])["checkpoint"], "list_log_files"), "a table is replayed without its checkpoint", s.where())
    rep.rule("compactions", "a compaction replaces exactly the commits it covers, compactions that overlap are not both used, and commits known to the catalog win over what is in the log")
    S0 = lambda e: last_field(e) == "0"
    f = db.find("filter_compactions_for_range", crate=C)
    if rep.need(f, "filter_compactions_for_range"):
        ANY = lambda e: True
        for lab, a, want in (("before", [ac(S0, vname("start_version"), "<")], False), ("after", [ac(lambda e: last_field(e) == "1", vname("end_version"), ">")], False)):
            ks = keeps(rep, db, f, ANY, a)
            rep.ob(f"range:{lab}", bool(ks or keeps(rep, db, f, ANY, [])) and not any(k for k, s in ks), "a compaction that reaches outside the segment is used", f.loc())
    f = db.find("resolve_compactions", crate=C)
    plan = co(db, "resolve_log_segment_files", crate=C)
    psk = lambda p: any(x in p for x in ("list_log_segment_files", "merge_catalog_managed", "parse_"))
    for nm, f, kw in (("resolve_compactions", f, {}), ("resolve_log_segment_files", plan, {"skip": psk})):
        if not rep.need(f, nm):
            continue
        ST = lambda e: last_field(e) == "0" or has_call(e, "parse_compacted_json_versions") and last_field(e) == "0"
        # overlap: the end of a candidate reaches into what is covered already
        CEND = lambda e: any(x.op == "elem" for x in walk(e)) and last_field(e) == "1"
        BOUND = lambda e: not CEND(e) and not tgt(e)
        pushes = [s for s in sites_of(rep, db, f, "push", assume=[ac(CEND, BOUND, ">=")], nonempty=True, steady=True, **kw) if "elem" in str(s.args[1])]
        rep.ob(f"{nm}:overlap", not pushes, "two compactions that overlap are both used", f.loc())
        pushes = [s for s in sites_of(rep, db, f, "push", assume=[ac(CEND, BOUND, "<")], nonempty=True, **kw)]
        rep.ob(f"{nm}:used", bool(pushes), "compactions are not used", f.loc())
        # commits that are covered are dropped, others are kept
        CV = lambda e: not any(x.op == "k" for x in [e]) and (has_call(e, "parse_commit_version") or last_field(e) == "0" and not any(y.op == "f" and y.a[1] == "0" for y in walk(unmut(e).a[0]) if False))
        ss = sites_of(rep, db, f, "retain", **kw)
        rep.floor(f"{nm} retain", len(ss), 1)
        done = 0
        for s in ss:
            c = unmut(s.args[1])
            if c.op != "clo" or not any("selected" in str(x) or x.op in ("mut", "call") and "selected" in str(x) for cap in c.a[1] for x in walk(cap)):
                continue
            done += 1
            v = mk("elem", unmut_all(s.args[0]))
            CEL = lambda e, v=v: not any(x is v for x in walk(e)) and any(x.op == "elem" for x in walk(e))
            MINE = lambda e, v=v: any(x is v for x in walk(e))
            t = clo_truth(rep, db, c, [v], [ac(MINE, lambda e: CEL(e) and last_field(e) == "0", ">="), ac(MINE, lambda e: CEL(e) and last_field(e) == "1", "<="), av(lambda e: has_call(e, "parse_commit_version"), "+")], skip=lambda p: "parse_" in p, nonempty=True)
            rep.ob(f"{nm}:covered", t == {False}, "a commit that a compaction covers is replayed again", s.where())
            for lab, a in (("below", [ac(MINE, lambda e: CEL(e) and last_field(e) == "0", "<")]), ("above", [ac(MINE, lambda e: CEL(e) and last_field(e) == "1", ">")])):
                t = clo_truth(rep, db, c, [v], a, skip=lambda p: "parse_" in p)
                rep.ob(f"{nm}:outside:{lab}", False not in t, "a commit that no compaction covers is left out", s.where())
        rep.floor(f"{nm} covered commits", done, 1)
    f = db.find("filter_compactions_for_catalog_commits", crate=C)
    if rep.need(f, "filter_compactions_for_catalog_commits"):
        cs = sites_of(rep, db, f, "filter", "retain", "any", "all", "push")
        rep.floor("compactions shadowed by the catalog", len(cs), 1)
        for s in cs:
            c = clo_arg(s)
            if name(s.short) in ("any",) and c is not None:
                x = mk("elem", unmut_all(s.args[0]))
                MINE = lambda e, x=x: any(y is x for y in walk(e))
                ST, EN = (lambda e: not MINE(e) and last_field(e) == "0"), (lambda e: not MINE(e) and last_field(e) == "1")
                for lab, rel1, rel2, want in (("in", ">=", "<=", {True}), ("below", "<", "<=", {False}), ("above", ">=", ">", {False})):
                    t = clo_truth(rep, db, c, [x], [ac(MINE, ST, rel1), ac(MINE, EN, rel2)])
                    rep.ob(f"catalog:shadow:{lab}", t == want, "a compaction hides a commit recorded in the catalog, or is dropped without need", s.where())
            if name(s.short) in ("filter", "retain") and c is not None:
                x = mk("elem", unmut_all(s.args[0]))
                from sa import ip
                rs = ip.Analyzer(db).run(db.fn(c.a[0]), [None, x], list(c.a[1]), {}, 0, ()) or []
                pol = {(unmut(e).op == "un", tuple(sorted(name(n) for n in calls(e) if name(n) in ("any", "all")))) for e, st in rs}
                rep.ob("catalog:filter", pol <= {(True, ("any",)), (False, ("all",))}, "a compaction hides a commit recorded in the catalog, or is dropped without need", s.where())
    f = db.find("merge_catalog_managed_commits", crate=C)
    if rep.need(f, "merge_catalog_managed_commits"):
        ss = sites_of(rep, db, f, "BTreeMap::insert", "extend", nonempty=True)
        ar = lambda s: {x.a[0] for a in s.args[1:] for x in walk(a) if x.op == "arg"}
        rep.ob("catalog:wins", bool(ss) and ar(ss[-1]) == {2} and all(2 in ar(s) or i < len(ss) - 1 for i, s in enumerate(ss)), "a commit in the log wins over the one the catalog recorded", f.loc())
    rep.rule("planner", "the metadata scan of a query reads exactly the files of the segment")
    if rep.need(plan, "resolve_log_segment_files"):
        PS = lambda p: "parse_" in p
        for lab, fld, V in (("commits", "commit_files", lambda e: has_call(e, "parse_commit_version")), ("compactions", "compaction_files", lambda e: has_call(e, "parse_compacted_json_versions"))):
            base = [av(lambda e: has_call(e, "parse_commit_version", "parse_compacted_json_versions") and unmut(e).op == "call", "+")]
            mine = lambda e, fld=fld: fld in fields(e)
            ss = [s for s in sites_of(rep, db, plan, "retain", skip=psk) if fld in fields(s.args[0])]
            rep.floor(f"planner {lab} filters", len(ss), 2)
            old = [s for s in ss if unmut(s.args[1]).op == "clo" and any(has_call(c, "max") for c in unmut(s.args[1]).a[1])]
            rng = [s for s in ss if unmut(s.args[1]).op == "clo" and any("commit_version_range" in fields(c) for c in unmut(s.args[1]).a[1])]
            rep.floor(f"planner {lab} checkpoint filters", len(old), 1)
            rep.floor(f"planner {lab} range filters", len(rng), 1)
            for s in old:
                c = unmut(s.args[1])
                x = mk("elem", unmut_all(s.args[0]))
                MINE = lambda e, x=x: any(y is x for y in walk(e))
                for rel, want in (("<", {False}), ("=", {False}), (">", {True})):
                    t = clo_truth(rep, db, c, [x], base + [ac(MINE, lambda e: not MINE(e), rel)], skip=PS)
                    rep.ob(f"planner:{lab}:checkpoint:{rel}", t == want, f"a {lab[:-1]} {'after' if rel == '>' else 'in'} the checkpoint is {'not ' if rel == '>' else ''}read again", s.where())
            for s in rng:
                c = unmut(s.args[1])
                x = mk("elem", unmut_all(s.args[0]))
                MINE = lambda e, x=x: any(y is x for y in walk(e))
                LO = lambda e: not MINE(e) and last_field(e) == "0"
                HI = lambda e: not MINE(e) and last_field(e) == "1"
                pv = [av(lambda e: unmut(e).op == "call" and has_call(e, "parse_log_file_version", "parse_version_prefix", "parse_commit_version", "parse_compacted_json_versions"), "+")]
                for l2, a, want in (("below", [ac(MINE, LO, "<")], {False}), ("above", [ac(MINE, HI, ">")], {False}), ("in", [ac(MINE, LO, ">="), ac(MINE, HI, "<=")], {True}), ("first", [ac(MINE, LO, "="), ac(MINE, HI, "<=")], {True}), ("last", [ac(MINE, LO, ">="), ac(MINE, HI, "=")], {True})):
                    t = clo_truth(rep, db, c, [x], pv + a, skip=PS)
                    rep.ob(f"planner:{lab}:range:{l2}", t == want, f"a {lab[:-1]} {'in' if True in want else 'outside'} the requested range is {'not ' if True in want else ''}read", s.where())
        error_kept(rep, db, plan, "list_log_segment_files", "planner:error", "a query reads an incomplete log", skip=psk)
    f = co(db, "list_log_segment_files", file="physical_plan/planner/log_segment.rs")
    if rep.need(f, "planner list_log_segment_files"):
        an = rep.analyse(db, f, watch=shorts("get_cached_log_segment_files", "set_cached_log_segment_files", "list_log_segment_files", "kernel_list_log_segment_files"), skip=lambda p: True)
        rep.floor("planner listing", len(an.sites), 3)
        for s in an.sites:
            rep.ob(f"planner:cache:{name(s.short)}", any(vname("max_version")(a) for a in s.args[1:]), "the log files of another version are used", s.where())
        error_kept(rep, db, f, "list_log_segment_files", "planner:list:error", "a query reads an incomplete log", skip=lambda p: True)
    for nm in ("get_cached_log_segment_files", "set_cached_log_segment_files"):
        f = db.find(nm, crate=C)
        if rep.need(f, nm):
            ss = [s for s in sites_of(rep, db, f, "get", "insert", "entry", "contains_key") if "log_segment_files_cache" in fields(s.args[0]) or has_call(s.args[0], "lock")]
            rep.floor(f"{nm} accesses", len(ss), 1)
            for s in ss:
                rep.ob(f"planner:cache:{nm}", arg_is(2)(s.args[1]) or vname("version")(s.args[1]), "the log files of another version are used", s.where())
    if kernel is not None:
        an = rep.analyse(db, kernel, adt_watch=lambda p, v: p.endswith("LogSegmentFiles"), skip=lambda p: sk(p))
        rep.floor("kernel segments", len(an.sites), 1)
        for s in an.sites:
            d = dict(s.expr.a[2])
            for k, i in (("commit_files", "2"), ("compaction_files", "3")):
                ll = [x for x in walk(d[k]) if x.op == "f" and x.a[1] == i and has_call(x.a[0], "list_log_files")]
                rep.ob(f"kernel:{k}", bool(ll) and not any(name(c) in LOSSY and name(c) != "filter_map" and not c.startswith("Option") for c in calls(d[k])), f"the {k} of a segment are not those listed", s.where())
        error_kept(rep, db, kernel, "inspect_checkpoint_main_file", "kernel:sidecars:error", "a checkpoint is read without its sidecars", skip=sk)
        ss = [s for s in sites_of(rep, db, kernel, "push", skip=sk, nonempty=True)]
        rep.ob("kernel:sidecars", any(has_call(a, "inspect_checkpoint_main_file") for s in ss for a in s.args[1:]), "a checkpoint is read without its sidecars", kernel.loc())
        rep.ob("kernel:checkpoint", any("1" in fields(a) and has_call(a, "list_log_files") and not has_call(a, "inspect_checkpoint_main_file") for s in ss for a in s.args[1:]), "the checkpoint is not read", kernel.loc())
    rep.rule("checksum", "a checksum file stands in for the replay only when it is of the requested version, complete, and no commit is recorded in the catalog only")
    f = co(db, "resolve_for_header", crate=C)
    if f is not None:
        an = rep.analyse(db, f, assume=[ab(call_is("has_catalog_managed_commits_in_range"), True)], skip=sk, adt_watch=lambda p, v: v == "ExactChecksum")
        rep.ob("catalog", not an.sites, "a checksum in the log hides commits recorded in the catalog", f.loc())
        an = rep.analyse(db, f, skip=sk, adt_watch=lambda p, v: v == "ExactChecksum")
        rep.floor("exact checksums", len(an.sites), 1)
        for s in sites_of(rep, db, f, "try_read_checksum_header", skip=sk):
            rep.ob("version", tgt(s.args[1]), "the checksum of another version stands in for the table", s.where())
        CRC = lambda e: isv(e)
        for lab, a in (("newer", [ac(CRC, tgt, ">=")]), ("older", [ac(CRC, lambda e: not tgt(e) and not CRC(e), "<")])):
            ss = [s for s in sites_of(rep, db, f, "validate_and_build_header", assume=a, skip=sk)]
            rep.ob(f"base:{lab}", not ss, "a checksum that is newer than the table or older than the known state is taken for its base", f.loc())
        for s in sites_of(rep, db, f, "validate_and_build_header", skip=sk):
            rep.ob("base:label", isv(s.args[0]), "a checksum is labelled with another version", s.where())
    f = db.find("validate_and_build_header", crate=C)
    if rep.need(f, "validate_and_build_header"):
        for n in ("num_metadata", "num_protocol"):
            for rel in ("<", ">"):
                an = rep.analyse(db, f, assume=[ac(lambda e: last_field(e) == n, lambda e: is_const(e, 1), rel)])
                rep.ob(f"complete:{n}:{rel}", not ret_states(an, "+"), "a checksum without exactly one protocol and metadata is used", f.loc())
        for at, e in f.aggregates("ReplayedTableHeader"):
            d = dict(e.a[2])
            for k, src in (("txns", "set_transactions"), ("domain_metadata", "domain_metadata"), ("protocol", "protocol"), ("metadata", "metadata")):
                rep.ob(f"header:{k}", src in fields(d[k]) and not any(name(c) in LOSSY for c in calls(d[k])), f"the {k} of a checksum are lost", f.loc())
            rep.ob("header:version", vname("version")(d["version"]) or arg_is(1)(d["version"]), "a checksum is labelled with another version", f.loc())
    rep.rule("listing", "an error of the object store while listing the log is passed on, and the listing starts at the requested version")
    f = co(db, "list_delta_log_entries_from", crate=C)
    if rep.need(f, "list_delta_log_entries_from"):
        for n in ("try_collect", "list_with_delimiter"):
            an = rep.analyse(db, f, assume=[av(lambda e: has_call(e, n) and unmut(e).op != "err", "-"), av(lambda e: unmut(e).op == "err" and has_call(e, n), "NotFound", "Generic", "PermissionDenied", "Unauthenticated", "InvalidPath", "JoinError", "AlreadyExists", "Precondition", "NotModified", "UnknownConfigurationKey")], event=lambda s: [("er", {1})] if name(s.short) == n else None, event_watch=hot(n), entry={"er": {0}})
            rep.ob(f"error:{n}", all(1 not in (st.get(("s", "er")) or {1}) for e, st in ret_states(an, "+")), "a listing that failed is taken for an empty log", f.loc())
        a = [ac(lambda e: "location" in fields(e), lambda e: "location" not in fields(e), ">"), av(lambda e: has_call(e, "delta_log_top_level_filename", "strip_prefix") and unmut(e).op == "call", "+"), ab(lambda e: has_call(e, "is_some"), True), ac(lambda e: has_call(e, "as_ref") and "location" in fields(e), lambda e: True, ">")]
        ks = keeps(rep, db, f, lambda e: True, a, skip=lambda p: "delta_log_top_level" in p)
        rep.ob("all", bool(ks) and all(k for k, s in ks), "files of the log are not listed", f.loc())
        for s in sites_of(rep, db, f, "list_with_offset"):
            rep.ob("offset", has_call(s.args[2], "delta_log_prefix_path") and any(vname("offset_version")(x) for x in walk(s.args[2])), "the listing starts at another version", s.where())
    f = co(db, "latest_version_from_listing", crate=C)
    if rep.need(f, "latest_version_from_listing"):
        error_kept(rep, db, f, "list_delta_log_entries_from", "latest:error", "a listing that failed is taken for an empty log", skip=lambda p: "list_delta_log" in p or "read_last" in p)
        exhausts(rep, db, f, lambda e: has_call(e, "list_delta_log_entries_from"), "latest:all", "newer versions are not looked at", skip=lambda p: "list_delta_log" in p or "read_last" in p)
        an = rep.analyse(db, f, skip=lambda p: "list_delta_log" in p or "read_last" in p or "parse_" in p)
        rep.ob("latest:max", not any(has_call(e, "Ord::min", "min") for e, st in an.rets) and any(has_call(x, "max") for g in [f] + inner_fns(db, f) for e in [y for b, p, gg, t in g.calls() for y in [p]] for x in [mk("call", e, ())] if e), "an older version is taken for the latest", f.loc())
    f = db.find("parse_delta_log_entry_version", crate=C)
    if rep.need(f, "parse_delta_log_entry_version"):
        got = {name(short(p)) for g in [f] + inner_fns(db, f) for b, p, gg, t in g.calls() if p} | {name(short(p)) for p in f.fnrefs()} if hasattr(f, "fnrefs") else {name(short(p)) for g in [f] + inner_fns(db, f) for b, p, gg, t in g.calls() if p}
        rep.ob("kinds", {"parse_commit_version_from_location", "parse_checkpoint_version_from_location", "parse_compacted_json_versions_from_location"} <= got, "a kind of log file does not count as a version", f.loc())
