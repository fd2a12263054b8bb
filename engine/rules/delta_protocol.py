"""Delta tables are read and written only as far as their protocol is understood"""
from sa.mir import mk, walk, unmut, short, show
from sa import ip
from rules import prop
from rules._h import *
from rules.delta import LOSSY

CRATES = ("sail_delta_lake",)
# features whose rules the reader and the writer of this code base implement
READ = {"TimestampWithoutTimezone", "ColumnMapping", "DeletionVectors", "V2Checkpoint", "TypeWideningPreview", "TypeWidening", "VariantType", "VariantTypePreview", "VariantShredding",
        "VariantShreddingPreview", "CatalogManaged", "VacuumProtocolCheck"}
WRITE = READ | {"AppendOnly", "InCommitTimestamp", "Invariants", "CheckConstraints", "GeneratedColumns", "AllowColumnDefaults", "IdentityColumns"}

def isc(e, *names):
    return call_is(*names)(e)


rv = lambda e: isc(e, "Protocol::min_reader_version") or last_field(e) == "min_reader_version"
wv = lambda e: isc(e, "Protocol::min_writer_version") or last_field(e) == "min_writer_version"
rf = lambda e: isc(e, "Protocol::reader_features") or last_field(e) == "reader_features"
wf = lambda e: isc(e, "Protocol::writer_features") or last_field(e) == "writer_features"
read_list = lambda e: has_call(e, "Protocol::reader_features") or "reader_features" in fields(e)
write_list = lambda e: has_call(e, "Protocol::writer_features") or "writer_features" in fields(e)


ver = num


def of(e):
    """last call in an expression, without conversions"""
    return unmut(e)


def never(rep, db, f, key, msg, assume, pol="+", **kw):
    """the function does not return with that polarity under the assumption"""
    rs = ret_states(rep.analyse(db, f, assume=list(assume), **kw), pol)
    rep.ob(key, not rs, msg, f.loc())


def can(rep, db, f, key, msg, assume, pol="+", **kw):
    rs = ret_states(rep.analyse(db, f, assume=list(assume), **kw), pol)
    rep.ob(key, bool(rs), msg, f.loc())


def method(db, n):
    return db.find(f"ProtocolChecker::{n}", crate="sail_delta_lake")


SKIP = lambda p: "Protocol::" in p and "ProtocolChecker" not in p or "TableFeature::" in p


@prop("D07")
def lists(rep):
    db = rep.db(*CRATES)
    rep.rule("valid", "a protocol whose versions and feature lists contradict each other is refused")
    f = method(db, "validate_feature_lists")
    if not rep.need(f, "ProtocolChecker::validate_feature_lists"):
        return
    some = lambda l, v: av(lambda e: l(e) or l(unmut(e)), v)
    for key, a in (("reader:0", [ver(rv, 0)]), ("writer:0", [ver(wv, 0)]),
                   ("reader:legacy-list", [ver(rv, 2), some(rf, "+")]), ("reader:no-list", [ver(rv, 3), some(rf, "-")]), ("reader:3-writer-6", [ver(rv, 3), ver(wv, 6)]),
                   ("writer:legacy-list", [ver(wv, 6), some(wf, "+")]), ("writer:no-list", [ver(wv, 7), some(wf, "-")])):
        never(rep, db, f, key, f"a protocol of the kind {key} is accepted", a, skip=SKIP)
    can(rep, db, f, "accepts:legacy", "no legacy protocol is accepted", [ver(rv, 1), ver(wv, 2), some(rf, "-"), some(wf, "-")], skip=SKIP)
    can(rep, db, f, "accepts:features", "no protocol with feature lists is accepted", [ver(rv, 3), ver(wv, 7), some(rf, "+"), some(wf, "+")], skip=SKIP)
    # every listed feature is looked at
    has = lambda e, l: e.op == "call" and name(short(e.a[0])) == "contains" and l(e.a[1][0])
    isr = lambda e: isc(e, "TableFeature::is_reader_feature")
    for nm, over, bad in (("reader", read_list, [[ab(lambda e: has(e, write_list) and any(x.op == "elem" for x in walk(e.a[1][1])), False)], [ab(isr, False), nev2("Unknown")]]),
                          ("writer", write_list, [[ab(isr, True), ab(lambda e: has(e, read_list) and any(x.op == "elem" for x in walk(e.a[1][1])), False)]])):
        exhausts(rep, db, f, lambda e: over(e), f"{nm}:all-features", f"not every {nm} feature is looked at", assume=[ver(rv, 3), ver(wv, 7)], skip=SKIP)
        for i, a in enumerate(bad):
            never(rep, db, f, f"{nm}:feature:{i}", f"a {nm} feature that is not allowed there is accepted", a + [ver(rv, 3), ver(wv, 7)], skip=SKIP, nonempty=True)
    vs = lambda e, l, v: has(e, l) and any(x.op == "adt" and x.a[1] == v for x in walk(e.a[1][1]))
    for l, nm in ((read_list, "reader"), (write_list, "writer")):
        for l2, nm2 in ((read_list, "reader"), (write_list, "writer")):
            never(rep, db, f, f"shredding:{nm}:{nm2}", "shredded variants are accepted without the variant type", [ab(lambda e: vs(e, l, "VariantShredding"), True), ab(lambda e: vs(e, l2, "VariantType"), False)], skip=SKIP)


def nev2(v):
    """assumption: a feature is not the variant v"""
    return lambda k: frozenset(x for x in ALL if x != v) if k[0] == "v" and any(c.op == "elem" for c in walk(k[1])) and not k[1].op == "call" else None


ALL = READ | WRITE | {"ChangeDataFeed", "RowTracking", "DomainMetadata", "IcebergCompatV1", "IcebergCompatV2", "Clustering", "Unknown"}


@prop("D07")
def support(rep):
    db = rep.db(*CRATES)
    rep.rule("support", "a table is read or written only if every feature that its protocol requires is one that the reader or writer has")
    fs = {n: method(db, n) for n in ("required_reader_features", "required_writer_features", "unsupported_reader_features_for_valid_protocol", "unsupported_writer_features_for_valid_protocol",
                                     "unsupported_reader_features", "unsupported_writer_features", "can_read_from_protocol", "can_write_to_protocol", "can_commit", "new")}
    for n, f in fs.items():
        if not rep.need(f, f"ProtocolChecker::{n}"):
            return
    for nm, v, lst, top in (("reader", rv, read_list, 3), ("writer", wv, write_list, 7)):
        f = fs[f"required_{nm}_features"]
        never(rep, db, f, f"{nm}:newer", f"a {nm} version that is not known is accepted", [ver(v, top + 1)], skip=SKIP)
        rs = ret_states(rep.analyse(db, f, assume=[ver(v, top)], skip=SKIP), "+")
        ok = bool(rs) and all((lst(e) or f"{nm}_features" in fields(e)) and not ({name(c) for c in calls(e)} & {"filter", "take", "skip", "filter_map", "take_while", "skip_while", "step_by"}) and any(x.op == "adt" and x.a[1] == "Some" for x in walk(e)) for e, _ in rs)
        rep.ob(f"{nm}:listed", ok, f"not every feature listed for {nm}s is required", f.loc())
        f = fs[f"unsupported_{nm}_features_for_valid_protocol"]
        req = lambda e: any(isc(x, f"ProtocolChecker::required_{nm}_features") for x in walk(e))
        rs = [e for e, _ in ret_states(rep.analyse(db, f, assume=[av(lambda e: req(e) and e.op == "ok", "+")], skip=lambda p: "ProtocolChecker" in p), "+")]
        ds = [x for e in rs for x in walk(e) if x.op == "call" and name(short(x.a[0])) == "difference"]
        ok = bool(rs) and all(any(x in list(walk(e)) for x in ds) for e in rs) and all(req(x.a[1][0]) and last_field(x.a[1][1]) == f"{nm}_features" for x in ds) and not any({name(c) for c in calls(e)} & {"filter", "take", "skip", "retain"} for e in rs)
        rep.ob(f"{nm}:difference", ok, f"the {nm} features that are not supported are not all found", f.loc())
        never(rep, db, f, f"{nm}:unknown-version", f"an unknown {nm} version passes as supported", [av(lambda e: isc(e, f"ProtocolChecker::required_{nm}_features"), "-")], skip=lambda p: "ProtocolChecker" in p)
        f = fs[f"unsupported_{nm}_features"]
        never(rep, db, f, f"{nm}:unsupported:valid", "the feature lists are not checked first", [av(lambda e: isc(e, "ProtocolChecker::validate_feature_lists"), "-")], skip=lambda p: "ProtocolChecker" in p)
    un = lambda n: lambda e: has_call(e, f"unsupported_{n}_features_for_valid_protocol")
    one = lambda n: lambda e: isc(e, f"ProtocolChecker::unsupported_{n}_features_for_valid_protocol")
    skip = lambda p: "ProtocolChecker" in p or "Protocol::" in p
    for n, ls in (("can_read_from_protocol", ("reader",)), ("can_write_to_protocol", ("reader", "writer"))):
        f = fs[n]
        never(rep, db, f, f"{n}:valid", "the feature lists are not checked", [av(lambda e: isc(e, "ProtocolChecker::validate_feature_lists"), "-")], skip=skip)
        for l in ls:
            never(rep, db, f, f"{n}:{l}:version", f"an unknown {l} version is accepted", [av(one(l), "-")], skip=skip)
            never(rep, db, f, f"{n}:{l}:features", f"a table with {l} features that are not supported is accepted", [ab(lambda e: isc(e, "is_empty") and un(l)(e), False)], skip=skip)
        can(rep, db, f, f"{n}:accepts", "no table is accepted", [ab(lambda e: isc(e, "is_empty"), True)], skip=skip)
    # only the feature for which another path exists is let through when writing
    f = fs["can_write_to_protocol"]
    cm = lambda e: any(x.op == "adt" and x.a[1] == "CatalogManaged" for x in walk(e))
    for k, a in (("listed", [ab(lambda e: isc(e, "Protocol::has_writer_feature") and cm(e), False)]), ("supported", [ab(lambda e: name(short(e.a[0])) == "contains" and cm(e) if e.op == "call" else False, False)])):
        ss = sites_of(rep, db, f, "retain", "clear", "pop", "drain", "truncate", "remove", "swap_remove", assume=a, skip=skip)
        rep.ob(f"write:let-through:{k}", not ss, "reader features that are not supported are ignored when writing", f.loc())
    for s in sites_of(rep, db, f, "retain", "clear", "pop", "drain", "truncate", "remove", "swap_remove", skip=skip):
        c = unmut(s.args[1]) if len(s.args) > 1 else None
        ok = name(s.short) == "retain" and c is not None and c.op == "clo"
        if ok:
            a = rep.analyse(db, db.fn(c.a[0]))
            ok = any(cm(x) for e, _ in a.rets for x in walk(e)) and not any(x.op == "adt" and x.a[0].endswith("TableFeature") and x.a[1] != "CatalogManaged" for e, _ in a.rets for x in walk(e))
        rep.ob("write:let-through:only", ok, "other reader features than the catalog's are ignored when writing", s.where())
    # the features that there are
    g = next((db.fn(k) for k in db.all_keys("sail_delta_lake") if "transaction::protocol::INSTANCE" in k and fs["new"].short in {short(p) for _, p, _, _ in db.fn(k).calls() if p}), None)
    if rep.need(g, "the global protocol checker"):
        an = rep.analyse(db, g, watch=lambda p, s: s == "ProtocolChecker::new" or name(s) in ("insert", "extend", "from", "from_iter", "collect"), skip=lambda p: True)
        news = [s for s in an.sites if s.short == "ProtocolChecker::new"]
        for i, (nm, ok) in enumerate((("reader", READ), ("writer", WRITE))):
            got = {x.a[1] for s in news for x in walk(s.args[i]) if x.op == "adt" and x.a[0].endswith("TableFeature")}
            if not got:
                got = {x.a[1] for s in an.sites if name(s.short) == "insert" and news and s.args[0] == news[0].args[i] for x in walk(s.args[1]) if x.op == "adt"}
            rep.floor(f"{nm} features", len(got), 8)
            rep.ob(f"instance:{nm}", got <= ok, f"{sorted(got - ok)} is declared as supported for {nm}s, but not implemented", g.loc())



def gate(rep, db, f, key, msg, base, bad, good, **kw):
    """under the base assumptions the function refuses in the bad case, and not in the good one (so that the first is not vacuous)"""
    rs = ret_states(rep.analyse(db, f, assume=list(base) + list(bad), **kw), "+")
    ok = ret_states(rep.analyse(db, f, assume=list(base) + list(good), **kw), "+")
    rep.ob(key, not rs and bool(ok), msg if rs else f"{key}: not decided (nothing is accepted)", f.loc())


def never_true(rep, db, f, key, msg, bad, good, **kw):
    a = fn_truth(rep, db, f, list(good) + list(bad), **kw)
    b = fn_truth(rep, db, f, list(good), **kw)
    rep.ob(key, a <= {False} and True in b, msg, f.loc())


def ip_elem(s):
    return mk("elem", unmut(s.args[0]))


feat = lambda e, *vs: any(x.op == "adt" and x.a[0].endswith("TableFeature") and x.a[1] in vs for x in walk(e))
hasf = lambda kind, *vs: lambda e: isc(e, f"Protocol::has_{kind}_feature", *(("transaction::protocol_has_writer_feature",) if kind == "writer" else ())) and (not vs or feat(e, *vs))
rwf = lambda *vs: lambda e: isc(e, "transaction::protocol_has_reader_writer_feature") and feat(e, *vs)
wrf = lambda *vs: lambda e: isc(e, "transaction::protocol_has_writer_feature") and feat(e, *vs)
act = lambda e: e.op == "elem" or e.op == "call" and name(short(e.a[0])) == "from"
enabled = lambda key: lambda e: isc(e, "transaction::table_property_enabled") and any(key in str(x.a[0]) for x in walk(e) if x.op in ("k", "s"))


@prop("D07")
def features(rep):
    db = rep.db(*CRATES)
    rep.rule("features", "what a protocol feature governs is written only if the table's protocol has the feature")
    # truth of the predicates over the protocol
    F = lambda n: method(db, n) or db.find(f"transaction::{n}", crate="sail_delta_lake")
    opaque = lambda p: True
    lo, hi = [ver(rv, 3), ver(wv, 7)], None
    rdf, wrt = hasf("reader"), (lambda e: isc(e, "Protocol::has_writer_feature"))
    for n, parts in (("supports_timestamp_ntz_schema", ("r", "w", "rf", "wf")), ("protocol_has_reader_writer_feature", ("r", "w", "rf", "wf")), ("protocol_has_writer_feature", ("w", "wf")), ("supports_variant_schema", ("r", "w"))):
        f = F(n)
        if not rep.need(f, n):
            continue
        base = {"r": ver(rv, 3), "w": ver(wv, 7), "rf": ab(rdf, True), "wf": ab(wrt, True)}
        bad = {"r": ver(rv, 2), "w": ver(wv, 6), "rf": ab(rdf, False), "wf": ab(wrt, False)}
        for p in parts:
            never_true(rep, db, f, f"{n}:{p}", f"{n} holds for a protocol that does not have the feature", [], [base[q] if q != p else bad[q] for q in base], skip=opaque) if False else None
            a = fn_truth(rep, db, f, [base[q] if q != p else bad[q] for q in base], skip=opaque)
            rep.ob(f"{n}:{p}", a == {False} or a == frozenset([False]), f"{n} holds for a protocol that does not have the feature", f.loc())
        a = fn_truth(rep, db, f, list(base.values()), skip=opaque)
        rep.ob(f"{n}:holds", True in a, f"{n} never holds", f.loc())
        an = rep.analyse(db, f, skip=opaque, watch=shorts("any", "all"))
        for s in an.sites:
            c = clo_arg(s)
            if rep.need(c, f"{n}: predicate"):
                for l, a in (("rf", ab(rdf, False)), ("wf", ab(wrt, False))):
                    rep.ob(f"{n}:{l}", clo_truth(rep, db, c, [], [a], skip=opaque) <= {False}, f"{n} holds for a protocol that does not have the feature", s.where())
        if n == "supports_timestamp_ntz_schema":
            w = [x for e, st in an.rets for x in list(walk(e)) + [y for k in st for z in k[1:] if hasattr(z, "op") for y in walk(z)] if x.op == "adt" and x.a[0].endswith("TableFeature")]
            rep.ob(f"{n}:feature", bool(w) and all(x.a[1] == "TimestampWithoutTimezone" for x in w), "another feature stands for timestamps without time zone", f.loc())
        if n == "supports_variant_schema":
            w = {x.a[1] for s in an.sites for x in walk(s.args[0]) if x.op == "adt" and x.a[0].endswith("TableFeature")}
            rep.ob(f"{n}:feature", bool(w) and w <= {"VariantType", "VariantTypePreview"}, "another feature stands for variants", f.loc())
    for n, c, s in (("check_can_write_timestamp_ntz_to_protocol", "contains_timestampntz", "supports_timestamp_ntz_schema"), ("check_can_write_variant_to_protocol", "contains_variant", "supports_variant_schema")):
        f = F(n)
        if rep.need(f, n):
            has, sup = (lambda e: isc(e, c)), (lambda e: isc(e, s))
            gate(rep, db, f, n, "a type is written that the protocol of the table does not have", [ab(has, True)], [ab(sup, False)], [ab(sup, True)], skip=opaque)
    f = F("check_can_write_variant_shredding_to_protocol")
    if rep.need(f, "check_can_write_variant_shredding_to_protocol"):
        arg = lambda e: e.op == "v" or e.op == "p" or "enabled" in str(e)
        q = lambda l: lambda e: isc(e, "any", "is_variant_shredding_feature", "contains") and l(e)
        base = {"r": ver(rv, 3), "w": ver(wv, 7), "rf": ab(q(read_list), True), "wf": ab(q(write_list), True)}
        bad = {"r": ver(rv, 2), "w": ver(wv, 6), "rf": ab(q(read_list), False), "wf": ab(q(write_list), False)}
        on = ab(lambda e: not e.op == "call", True)
        for p in base:
            gate(rep, db, f, f"shredding:{p}", "shredded variants are written without the feature", [on], [base[x] if x != p else bad[x] for x in base], list(base.values()), skip=opaque, nonempty=True)
    # what is in a commit
    f = db.find("transaction::validate_effective_commit_target", crate="sail_delta_lake")
    if not rep.need(f, "validate_effective_commit_target"):
        return
    skip = lambda p: "Protocol" in p or "transaction::protocol_" in p or "table_property_enabled" in p or "timestamps::" in p or "Metadata::" in p or "validate_deletion" in p or "logical_file_key" in p
    for c in ("can_write_to_protocol", "check_can_write_timestamp_ntz_to_protocol", "check_can_write_variant_to_protocol", "check_can_write_variant_shredding_to_protocol", "validate_deletion_vector_add_stats",
              "resolve_effective_protocol_and_metadata"):
        h = lambda e: isc(e, c) or e.op == "call" and name(short(e.a[0])) in ("ok_or_else", "ok_or") and isc(e.a[1][0], c)
        gate(rep, db, f, f"commit:{c}", f"a commit is made although {c} refuses it", [], [av(h, "-")], [av(h, "+")], skip=skip)
    ss = rep.analyse(db, f, watch=shorts("resolve_effective_protocol_and_metadata", "any", "validate_deletion_vector_add_stats"), skip=skip).sites
    for s in ss:
        part = {name(c) for c in calls(s.args[0 if name(s.short) == "any" else -1])} & (set(LOSSY) | {"index", "get", "split_at", "first", "last", "split_first", "split_last", "chunks", "rev"}) or ["index" for x in walk(s.args[0 if name(s.short) == "any" else -1]) if x.op == "idx"]
        rep.ob(f"commit:all-actions:{name(s.short)}", not part, f"not every action of the commit is looked at ({sorted(part)})", s.where())
    rep.floor("looks at the actions of a commit", len(ss), 4)
    is_var = lambda v: av(act, v)
    dv = lambda v: av(lambda e: last_field(e) == "deletion_vector", v)
    off = lambda *ks: [ab(enabled(k), False) for k in ks]
    CDF, DV, RT, RS = "enableChangeDataFeed", "enableDeletionVectors", "enableRowTracking", "rowTrackingSuspended"
    for key, base, bad, good in (
            ("DomainMetadata", [is_var("DomainMetadata")] + off(CDF, DV, RT, RS), [ab(wrf("DomainMetadata"), False)], [ab(wrf("DomainMetadata"), True)]),
            ("Cdc", [is_var("Cdc"), ab(lambda e: isc(e, "protocol_supports_legacy_change_data_feed"), False)] + off(CDF, DV, RT, RS), [ab(wrf("ChangeDataFeed"), False)], [ab(wrf("ChangeDataFeed"), True)]),
            ("Add:deletion-vector", [is_var("Add"), dv("+"), ab(enabled(DV), True)] + off(CDF, RT, RS), [ab(rwf("DeletionVectors"), False)], [ab(rwf("DeletionVectors"), True)]),
            ("Remove:deletion-vector", [is_var("Remove"), dv("+")] + off(CDF, DV, RT, RS), [ab(rwf("DeletionVectors"), False)], [ab(rwf("DeletionVectors"), True)]),
            ("new-deletion-vector", [is_var("Add"), dv("+"), ab(rwf("DeletionVectors"), True)] + off(CDF, RT, RS), [ab(enabled(DV), False), ab(lambda e: isc(e, "HashSet::contains"), False)], [ab(enabled(DV), False), ab(lambda e: isc(e, "HashSet::contains"), True)]),
            ("change-data-feed", [is_var("Add"), dv("-")] + off(DV, RT, RS), [ab(enabled(CDF), True)], [ab(enabled(CDF), False)]),
            ("deletion-vectors", [is_var("Add"), dv("-")] + off(CDF, RT, RS), [ab(enabled(DV), True), ab(rwf("DeletionVectors"), False)], [ab(enabled(DV), True), ab(rwf("DeletionVectors"), True)]),
            ("row-tracking", [is_var("Add"), dv("-"), ab(wrf("DomainMetadata"), True)] + off(CDF, DV, RS), [ab(enabled(RT), True), ab(wrf("RowTracking"), False)], [ab(enabled(RT), True), ab(wrf("RowTracking"), True)]),
            ("row-tracking:suspended", [is_var("Add"), dv("-"), ab(wrf("DomainMetadata"), True)] + off(CDF, DV, RT), [ab(enabled(RS), True), ab(wrf("RowTracking"), False)], [ab(enabled(RS), True), ab(wrf("RowTracking"), True)]),
            ("row-tracking:domains", [is_var("Add"), dv("-"), ab(wrf("RowTracking"), True)] + off(CDF, DV, RS), [ab(enabled(RT), True), ab(wrf("DomainMetadata"), False)], [ab(enabled(RT), True), ab(wrf("DomainMetadata"), True)])):
        gate(rep, db, f, f"commit:{key}", f"a commit is made that needs a feature which the protocol does not have ({key})", base, bad, good, skip=skip, nonempty=True)


@prop("D07")
def commits(rep):
    db = rep.db(*CRATES)
    rep.rule("commits", "a commit is checked against the protocol before it is written, and a table's protocol before its data is read")
    f = method(db, "can_commit")
    if rep.need(f, "ProtocolChecker::can_commit"):
        skip = lambda p: "ProtocolChecker" in p or "Protocol::" in p
        w = lambda e: isc(e, "ProtocolChecker::can_write_to_protocol")
        gate(rep, db, f, "can-commit:protocol", "a commit is made to a table whose protocol is not supported", [], [av(w, "-")], [av(w, "+")], skip=skip)
        ops = next((a["v"] for p, a in db.adts.items() if p.endswith("operation::DeltaOperation")), None)
        if rep.need(ops, "DeltaOperation"):
            ops = [v[0] for v in ops]
            rep.floor("operations", len(ops), 6)
            op = lambda e: e.op in ("v", "p") or e.op not in ("call", "elem", "f", "ok") and "operation" in str(e)
            ao = lambda e: "append_only" in fields(e) or has_call(e, "TableProperties::append_only")
            base = [ab(ao, True), av(lambda e: last_field(e) == "append_only", "+"), av(lambda e: e.op == "elem", "Remove"), ab(lambda e: last_field(e) == "data_change", True), av(w, "+")]
            an = rep.analyse(db, f, skip=skip, watch=shorts("try_for_each"))
            closed = []
            for s in an.sites:
                c = clo_arg(s)
                a = ip.Analyzer(db, assume=[av(lambda e: e == ip_elem(s), "Remove"), ab(lambda e: last_field(e) == "data_change", True)])
                rs = a.run(db.fn(c.a[0]), [None, ip_elem(s)], list(c.a[1]), {}, 0, ()) if c is not None else None
                if rs and all(unmut(e).op == "adt" and unmut(e).a[1] == "Err" for e, _ in rs):
                    closed.append(c.a[0])
            base += [av(lambda e: isc(e, "try_for_each") and any(x.op == "clo" and x.a[0] in closed for x in unmut(e).a[1]), "-")]
            wf_ = lambda v: ab(lambda e: isc(e, "Protocol::has_writer_feature") and feat(e, "AppendOnly"), v)
            for o in ops:
                for v, extra in ((2, []), (6, []), (7, [wf_(True)])):
                    a = base + [av(op, o), ver(wv, v)] + extra
                    rs = ret_states(rep.analyse(db, f, assume=a, skip=skip, nonempty=True), "+")
                    if o in ("Restore", "FileSystemCheck"):
                        rep.ob(f"append-only:{o}:{v}", bool(rs), f"{o} is refused", f.loc())
                    else:
                        rep.ob(f"append-only:{o}:{v}", not rs, f"{o} removes data from an append-only table", f.loc())
            for v, extra in ((1, []), (7, [wf_(False)])):
                rs = ret_states(rep.analyse(db, f, assume=base + [av(op, "Delete"), ver(wv, v)] + extra, skip=skip, nonempty=True), "+")
                rep.ob(f"append-only:not:{v}", bool(rs), "a table that is not append-only is taken as such", f.loc())
    # nothing is written without the checks
    n = 0
    check = lambda e: isc(e, "validate_effective_commit_target", "transaction::validate_effective_commit_target")
    for k in sorted(db.all_keys("sail_delta_lake")):
        f = db.fn(k)
        if "test" in k:
            continue
        cs = {name(short(p)) for _, p, _, _ in f.calls() if p}
        if not cs & {"write_commit_entry", "staged_commit_path"} or short(f.key).startswith("DefaultLogStore"):
            continue
        if name(short(f.key).split("::{")[0]) in ("write_commit_entry",):
            continue
        n += 1
        big_ = lambda p: not check_name(p)
        ss = sites_of(rep, db, f, "write_commit_entry", "put_opts", "put", assume=[av(check, "-")], skip=lambda p: True)
        al = sites_of(rep, db, f, "write_commit_entry", "put_opts", "put", skip=lambda p: True)
        key = short(f.key).split("::{")[0]
        rep.ob(f"write:{key}", bool(al) and not ss and any(name(short(p)) == "validate_effective_commit_target" for _, p, _, _ in f.calls() if p), "a commit is written that was not checked", f.loc())
        an = rep.analyse(db, f, skip=lambda p: True, watch=shorts("validate_effective_commit_target", "prepare_commit_or_bytes", "actions_to_log_bytes", "get_commit_bytes"))
        vs = [s for s in an.sites if name(s.short) == "validate_effective_commit_target"]
        ws = [s for s in an.sites if s not in vs]
        ok = bool(vs) and bool(ws) and all(any(unmut_all(v.args[1]) == unmut_all(a) for v in vs for a in s.args) for s in ws)
        rep.ob(f"write:{key}:actions", ok, "the actions that are written are not those that were checked", f.loc())
    rep.floor("functions that write commits", n, 2)
    n = 0
    for k in sorted(db.all_keys("sail_delta_lake")):
        f = db.fn(k)
        if "test" in k or not any(p and short(p) == "ProtocolChecker::can_commit" for _, p, _, _ in f.calls()):
            continue
        n += 1
        c = lambda e: isc(e, "ProtocolChecker::can_commit")
        td = av(lambda e: e.op != "call" and str(e).endswith("table_data"), "+")
        gate(rep, db, f, f"prepare:{short(f.key).split('::{')[0]}", "a commit is prepared although the protocol does not allow it", [td], [av(c, "-")], [av(c, "+")], skip=lambda p: True)
    rep.floor("functions that prepare commits", n, 1)
    # reading
    f = db.find("DeltaSnapshot::ensure_data_read_supported", crate="sail_delta_lake")
    if rep.need(f, "ensure_data_read_supported"):
        skip = lambda p: "Protocol" in p or "StructType::" in p or "utils::" in p or "type_widening" in p
        fine = {"cm:r": ab(hasf("reader", "CatalogManaged"), False), "cm:w": ab(hasf("writer", "CatalogManaged"), False)}
        B = lambda c: (lambda v: ab(lambda e: isc(e, c), v))
        ntz, sntz, var, svar, wid, swid = (B(x) for x in ("contains_timestampntz", "supports_timestamp_ntz_schema", "contains_variant", "supports_variant_schema", "schema_contains_type_widening_metadata", "protocol_supports_type_widening"))
        none = [ntz(False), var(False), wid(False)]
        A = lambda c: (lambda v: av(lambda e: isc(e, c) or e.op == "call" and name(short(e.a[0])) == "map_err" and isc(e.a[1][0], c), v))
        rd, vw = A("can_read_from_protocol"), A("validate_type_widening_metadata")
        ctx = lambda v: av(lambda e: last_field(e) == "catalog_managed_commits", v)
        for key, base, bad, good in (
                ("protocol", list(fine.values()) + none, [rd("-")], [rd("+")]),
                ("catalog:reader", [rd("+"), fine["cm:w"], ab(hasf("reader", "CatalogManaged"), True)] + none, [ctx("-")], [ctx("+")]),
                ("catalog:writer", [rd("+"), fine["cm:r"], ab(hasf("writer", "CatalogManaged"), True)] + none, [ctx("-")], [ctx("+")]),
                ("timestamp-ntz", [rd("+"), ntz(True), var(False), wid(False)] + list(fine.values()), [sntz(False)], [sntz(True)]),
                ("variant", [rd("+"), ntz(False), var(True), wid(False)] + list(fine.values()), [svar(False)], [svar(True)]),
                ("type-widening", [rd("+"), ntz(False), var(False), wid(True)] + list(fine.values()), [swid(False)], [swid(True)]),
                ("type-widening:metadata", [rd("+"), ntz(False), var(False), wid(True), swid(True)] + list(fine.values()), [vw("-")], [vw("+")])):
            gate(rep, db, f, f"read:{key}", f"a table is read although its protocol does not allow it ({key})", base, bad, good, skip=skip)
    en = lambda e: isc(e, "DeltaSnapshot::ensure_data_read_supported") or e.op == "call" and name(short(e.a[0])) == "map_err" and isc(e.a[1][0], "DeltaSnapshot::ensure_data_read_supported")
    f = db.find("DeltaTableSource::try_new", crate="sail_delta_lake")
    if rep.need(f, "DeltaTableSource::try_new"):
        gate(rep, db, f, "source", "a table is scanned although its protocol does not allow it", [], [av(en, "-")], [av(en, "+")], skip=lambda p: True)
    f = co(db, "plan_delta_scan", crate="sail_delta_lake")
    if rep.need(f, "plan_delta_scan"):
        gate(rep, db, f, "scan", "a table is scanned although its protocol does not allow it", [], [av(en, "-")], [av(en, "+")], skip=lambda p: True)
    n = 0
    for k in sorted(db.all_keys("sail_delta_lake")):
        f = db.fn(k)
        if "scan_by_adds_exec" in k and "test" not in k and any(p and short(p) == "DeltaSnapshot::ensure_data_read_supported" for _, p, _, _ in f.calls()):
            opened = ab(lambda e: last_field(e) == "table_opened", False)
            gate(rep, db, f, "scan-by-adds", "a table is read although its protocol does not allow it", [opened], [av(en, "-")], [av(en, "+")], skip=lambda p: True)
            n += 1
    rep.floor("scans by adds", n, 1)
