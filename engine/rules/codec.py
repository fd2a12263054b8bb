"""plans sent to workers: what is encoded is decoded as the same thing"""
from sa.mir import mk, mkt, walk, unmut, subst, short, show, split_top
from rules import prop
from rules._h import *
from rules.plans import impls_of, structs, ways_of, strip_ok, fields_of, COMPUTED, consts_only, LOST

CRATES = ("sail_execution", "sail_delta_lake", "sail_iceberg", "sail_physical_plan", "sail_logical_plan", "sail_data_source", "sail_common_datafusion", "sail_python_udf", "sail_function",
          "sail_catalog_system", "sail_common", "sail_cache", "sail_catalog")
CODEC = "RemoteExecutionCodec"
# (a value that is the same in every instance, or is made from the other settings when it is needed)
OWN = ("Schema", "Signature", "LazyLock", "OnceLock", "OnceCell", "LazyPyObject", "datafusion")
# (settings that choose which value is built; see `choices`)
CHOICES = ("Parquet:timezone_mode", "SparkFirstLastValue:kind")
BY_CODEC = CODEC + " as "
OPEN = ("sail_execution::proto::codec::", "sail_execution::proto::encode", "sail_execution::proto::decode")


def codec_fn(db, nm):
    return next((db.fn(k) for k in db.all_keys("sail_execution") if CODEC in k and k.endswith("::" + nm)), None)


def own_type(e):
    """type that is looked for at the root of an encoded value: the one of downcast_ref::<T>(node)"""
    e = unmut(e)
    if e.op in ("ok", "some"):
        c = unmut(e.a[0])
        if c.op == "call" and name(short(c.a[0])) in ("downcast_ref", "downcast") and len(c.a) > 2 and c.a[2]:
            return c.a[2][0]
    return None


def chain(e, root):
    """path of fields from a root to e, or None"""
    out = []
    while True:
        if root(e):
            return tuple(reversed(out))
        u = unmut(e)
        if u is not e:
            e = u
            continue
        if e.op == "f":
            if not e.a[1].startswith("#") and not e.a[1].isdigit():
                out.append(e.a[1])
            e = e.a[0]
        elif e.op in ("ok", "some", "elem", "down", "as", "idx"):
            e = e.a[0]
        else:
            return None


def paths(e, root):
    """the longest field paths from a root that e reads; a method of a root that is not looked into is the path (method(),)"""
    got, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        c = chain(x, root)
        if c is not None:
            got.add(c)
            continue
        if x.op == "call" and x.a[1]:
            c = chain(x.a[1][0], root)
            if c == () and name(short(x.a[0])) not in ("clone", "as_ref", "deref"):
                got.add((name(short(x.a[0])) + "()",))
                todo += list(x.a[1][1:])
                continue
        todo += kids(x)
    return got


def kids(x):
    out = []
    def add(v):
        if hasattr(v, "op"):
            out.append(v)
        elif isinstance(v, tuple):
            for y in v:
                add(y)
    for v in x.a:
        add(v)
    return out


def flat(e, pre=()):
    """(path, value) of every field of nested structs"""
    e1 = strip_ok(e)
    if e1.op == "adt" and e1.a[1] in (None, "None_") and e1.a[2]:
        for k, v in e1.a[2]:
            yield from flat(v, pre + (k,))
    else:
        yield pre, e


def kept_calls(e):
    """calls in e; a value made from nothing stands for something that was not sent"""
    return {short(x.a[0]) for x in walk(e) if x.op == "call" and not (name(short(x.a[0])) == "default" and not x.a[1])}


def agree(rep, key, enc, root, ways, msg, tys, where, wd, again=None, late=None, given=lambda e: False):
    """every part of the message is read from and put back into the same part of the value"""
    good = [w for w in ways if isinstance(w, dict)]
    rep.ob(f"{key}:followed", bool(ways) and len(good) == len(ways), "how the value is rebuilt on the worker cannot be followed", wd)
    sinks, set_by = {}, {}
    for w in good:
        for k, v in w.items():
            for p, x in flat(v, (k,)):
                ms = {m[0] for m in paths(x, msg) if m}
                set_by.setdefault(p[0], []).append((p, x, ms))
                for m in ms:
                    sinks.setdefault(m, set()).add(p)
    src = {m: paths(x, root) for m, x in enc.items()}
    flags = {}
    for m, ps in src.items():
        k = next((p[0] for p in ps if len(p) == 1 and tys.get(p[0]) == "bool"), None)
        if k and m not in sinks and again:
            # a flag may choose what is built
            on, off = [{show(w[k], 3) if isinstance(w, dict) and k in w else None for w in again(ab(lambda e: chain(e, msg) == (m,), b))} for b in (True, False)]
            flags[m] = flags[k] = on == {"true"} and off == {"false"}
    for m, ps in src.items():
        ds = sinks.get(m, set())
        if not ps:
            continue
        meth = {p for p in ps if any(c.endswith("()") for c in p)}
        # (what can be told from another part that is sent)
        told = {"schema"} & {name(c) for c in calls(enc[m])} and all(any(q[:1] == p[:1] for o, qs in src.items() if o != m for q in qs) for p in ps)
        ok = any(p[:len(d)] == d or d[:len(p)] == p for p in ps - meth for d in ds) or bool(meth) and bool(ds) or flags.get(m) or told or late and late(m, {p[-1] for p in ps})
        rep.ob(f"{key}:part:{m}", ok, f"{m} is taken from {sorted('.'.join(p) for p in ps)} but put into {sorted('.'.join(d) for d in ds)}", where)
        rep.ob(f"{key}:kept:{m}", not {name(c) for c in calls(enc[m])} & LOST, f"{m} is changed when it is sent ({sorted({name(c) for c in calls(enc[m])} & LOST)})", where)
    sent = {p[0] for ps in src.values() for p in ps if p}
    for k, t in tys.items():
        if any(c in t for c in COMPUTED):
            continue
        xs = set_by.get(k, [])
        got = any(ms or any(given(y) for y in walk(x)) for _, x, ms in xs) or flags.get(k) or bool(xs) and all(consts_only(x) for _, x, _ in xs) and k not in sent and any(c in t for c in OWN) or f"{key}:{k}" in CHOICES
        rep.ob(f"{key}:field:{k}", got, f"the worker does not get {k}", wd)
        if got and k in sent and k not in flags:
            lost = {name(c) for _, x, ms in xs if ms for c in kept_calls(x)} & LOST
            rep.ob(f"{key}:field:{k}:kept", not lost, f"{k} is changed by the worker ({sorted(lost)})", wd)


def is_kind(e, f="node_kind"):
    e = unmut(e)
    while e.op in ("ok", "some"):
        e = unmut(e.a[0])
        if e.op == "call" and name(short(e.a[0])) in ("ok_or_else", "ok_or", "map_err"):
            e = unmut(e.a[1][0])
        if last_field(e) == f:
            return True
    return False


def messages(an, enum):
    """(variant, message fields, its site) of every message built for `enum`"""
    for s in an.sites:
        if s.expr.a[0].endswith(enum):
            m = unmut(s.expr.a[2][0][1])
            yield s.expr.a[1], dict(m.a[2]) if m.op == "adt" else None, m, s


@prop("X05")
def nodes(rep):
    db = rep.db(*CRATES)
    en, de = codec_fn(db, "try_encode"), codec_fn(db, "try_decode")
    rep.rule("operators", "an operator sent to a worker is rebuilt as an operator of the same type, with every setting and input where it was taken from")
    if not rep.need(en, "RemoteExecutionCodec::try_encode") or not rep.need(de, "RemoteExecutionCodec::try_decode"):
        return
    an = rep.analyse(db, en, adt_watch=lambda p, v: p.endswith("NodeKind"), skip=lambda p: True)
    vs = {}
    for v, d, m, s in messages(an, "NodeKind"):
        vs.setdefault(v, []).append((d, m, s))
    rep.floor("operators that are sent", len(vs), 50)
    for v, xs in sorted(vs.items()):
        kind = av(is_kind, v)
        for d, m, s in xs:
            seen = found(db, s)
            tx = [t for t in seen if t.split("<")[0].startswith("sail_") and t.split("::")[-1].split("<")[0].endswith("Exec") and "RemoteDataSource" not in t]
            msg = lambda e: e.op == "f" and e.a[1] in ("0", "#0") and unmut(e.a[0]).op == "as" and is_kind(unmut(e.a[0]).a[0])
            if not rep.need(d, f"message for {v}"):
                continue
            if len(tx) != 1:
                foreign(rep, db, v, d, s, seen, rep.analyse(db, de, assume=[kind], skip=lambda p: True), msg, de.loc())
                continue
            T = tx[0]
            root = lambda e: own_type(e) == T
            nm = T.split("::")[-1].split("<")[0]
            again = lambda *more: ways_of(rep, db, de, T, assume=[kind, *more], skip=lambda p: nm not in p or p.endswith("::execute"))

            def late(m, fs):
                a = rep.analyse(db, de, assume=[kind], assign_fields=fs, assign=lambda s: True, skip=lambda p: True)
                return any(s.kind == "assign" and s.dest.op == "f" and s.dest.a[1] in fs and (m,) in {p[:1] for p in paths(s.expr, msg)} for s in a.sites)
            agree(rep, v, d, root, again(), msg, fields_of(db, T), s.where(), de.loc(), again, late)


def found(db, s):
    """types that are known to have been found when the message is built"""
    out = set()
    for k, v in s.state.items():
        if len(k) > 1 and hasattr(k[1], "op") and v <= {"+", "true", "T", True}:
            c = unmut(k[1])
            if c.op == "call" and name(short(c.a[0])) in ("is", "downcast_ref") and len(c.a) > 2 and c.a[2]:
                out.add(c.a[2][0])
    return out | {t for x in walk(s.expr) for t in [own_type(x)] if t}


def foreign(rep, db, v, d, s, seen, an, msg, wd):
    """an operator of the query engine: all that is sent is used to build an operator of the same type again"""
    rets = [e for e, st in ret_states(an, "+")]
    if not rep.need(rets, f"{v} as it is rebuilt"):
        return
    ms = {m[0] for e in rets for m in paths(e, msg) if m}
    for m, x in d.items():
        if not consts_only(x):
            rep.ob(f"{v}:used:{m}", m in ms or f"{v}:{m}" in CHOICES, f"the worker does not use {m}", wd)
    typ = {c.split("::")[-2] for e in rets for c in calls(e) if "::" in c} | {x.a[0].split("::")[-1] for e in rets for x in walk(e) if x.op == "adt"}
    for t in seen:
        t = t.split("<")[0].split("::")[-1]
        if t not in ("DataSourceExec", "RemoteDataSourceExec", "FileScanConfig", "CheckpointDataSource"):
            rep.ob(f"{v}:type:{t}", t in typ, f"{t} is not rebuilt as what it was", wd)


FUNCTIONS = (("try_encode_udf", "try_decode_udf", "::UdfKind", "udf_kind", 35), ("try_encode_udaf", "try_decode_udaf", "UdafKind", "udaf_kind", 4), ("try_encode_udwf", "try_decode_udwf", "UdwfKind", "udwf_kind", 1),
             ("try_encode_expr", "try_decode_expr", "ExprKind", "expr_kind", 3), ("try_encode_stream_udf", "try_decode_stream_udf", "StreamUdfKind", "stream_udf_kind", 2))


@prop("X05")
def functions(rep):
    db = rep.db(*CRATES)
    rep.rule("functions", "a function or expression sent to a worker is rebuilt as one of the same type, with every setting where it was taken from")
    for e, d, enum, field, least in FUNCTIONS:
        en, de = codec_fn(db, e), codec_fn(db, d)
        if not rep.need(en, f"RemoteExecutionCodec::{e}") or not rep.need(de, f"RemoteExecutionCodec::{d}"):
            continue
        an = rep.analyse(db, en, adt_watch=lambda p, v: p.endswith(enum), skip=lambda p: True)
        n = 0
        isk = lambda x: is_kind(x, field)
        for v, m, mm, s in messages(an, enum):
            if v == "Standard" or m is None:
                continue
            n += 1
            seen = found(db, s)
            if not rep.need(len(seen) == 1, f"type of {v}"):
                continue
            T = next(iter(seen))
            root = lambda x: own_type(x) == T
            msg = lambda x: x.op == "f" and x.a[1] in ("0", "#0") and unmut(x.a[0]).op == "as" and isk(unmut(x.a[0]).a[0])
            if not T.startswith("sail_"):
                foreign(rep, db, v, m, s, seen, rep.analyse(db, de, assume=[av(isk, v)], skip=lambda p: True), msg, de.loc())
                continue
            nm = T.split("::")[-1].split("<")[0]
            again = lambda *more: ways_of(rep, db, de, T, assume=[av(isk, v), *more], skip=lambda p: nm not in p)
            agree(rep, v, m, root, again(), msg, fields_of(db, T), s.where(), de.loc(), again, given=lambda e: e.op == "arg" and e.a[0] == 3)
        rep.floor(f"kinds in {e}", n, least)


def helpers(db):
    """pairs of helpers that encode and decode one kind of value"""
    fs = {}
    for k in db.all_keys("sail_execution"):
        f = db.fn(k)
        if f and CODEC in f.short and "{" not in k.split("::")[-1] and "tests" not in k:
            fs.setdefault(k.split("::")[-1], f)
    for n, f in sorted(fs.items()):
        d = fs.get(n.replace("try_encode_", "try_decode_"))
        if n.startswith("try_encode_") and d:
            yield n[len("try_encode_"):], f, d


def is_gen(p):
    return "::gen::" in p or "gen::" in p.split("sail_execution")[-1] and "sail_execution" in p


def turned(an, want, subject):
    """variant of the subject -> variants of what is built for it, of every enum that is built"""
    out = {}
    for s in an.sites:
        p, v = s.expr.a[0], s.expr.a[1]
        if v is None or not want(p):
            continue
        for k, vs in s.state.items():
            if k[0] == "v" and subject(k[1]) and not vs <= {"+", "-", "T", "F"}:
                for x in vs:
                    out.setdefault((str(k[1]), p), {}).setdefault(x, set()).add(v)
    return out


@prop("X05")
def values(rep):
    db = rep.db(*CRATES)
    rep.rule("values", "every variant of a value that a helper encodes is decoded as the same variant, and every field as the same field")
    n = m = o = 0
    for nm, en, de in helpers(db):
        arg = lambda e: chain(e, lambda x: x.op == "arg") is not None
        a = rep.analyse(db, en, adt_watch=lambda p, v: v is not None, skip=lambda p: True)
        b = rep.analyse(db, de, adt_watch=lambda p, v: v is not None, skip=lambda p: True)
        out = turned(a, is_gen, arg)
        back = turned(b, lambda p: not is_gen(p) and p.split("::")[0] not in ("core", "std") and "Error" not in p, lambda e: True)
        if len(out) == 1 and len(back) == 1:
            n += 1
            (_, gen), there = next(iter(out.items()))
            (_, typ), here = next(iter(back.items()))
            # (an enum of the query engine is not described; what is built by the decoder is what there is)
            every = {x[0] for x in db.adts[typ]["v"]} if typ in db.adts else set(there)
            for v in sorted(every | set(there)):
                got = {y for g in there.get(v, ()) for y in here.get(g, ())}
                rep.ob(f"{nm}:{v}", got == {v}, f"{v} becomes {sorted(got)} on the worker", en.loc())
            # what a variant carries
            sent = {}
            for s in a.sites:
                if s.expr is not None and s.expr.op == "adt" and s.expr.a[0] == gen:
                    for x in dict(s.expr.a[2]).values():
                        x = strip_ok(x)
                        if x.op == "adt" and is_gen(x.a[0]):
                            for g, w in x.a[2]:
                                sent.setdefault((s.expr.a[1], g), []).append(w)
            for s in b.sites:
                if s.expr is None or s.expr.op != "adt" or s.expr.a[0] != typ:
                    continue
                for g, w in s.expr.a[2]:
                    for (v, h), ws in sent.items():
                        if h == g and v in {k for k, y in here.items() if s.expr.a[1] in y}:
                            o += 1
                            rep.ob(f"{nm}:{s.expr.a[1]}:{g}", g in fields(w) and all(g in fields(z) for z in ws), f"{g} of {s.expr.a[1]} is not kept on its way to the worker", s.where())
            continue
        T = {strip_ok(e).a[0] for e, st in ret_states(b, "+") if strip_ok(e).op == "adt" and strip_ok(e).a[1] is None}
        M = [strip_ok(e) for e, st in ret_states(a, "+") if strip_ok(e).op == "adt" and is_gen(strip_ok(e).a[0])]
        if len(T) != 1 or len(M) != 1:
            continue
        m += 1
        T = T.pop()
        of = lambda e: e.op == "arg" and e.a[0] > 1
        again = lambda *more: ways_of(rep, db, de, T, assume=list(more), skip=lambda p: True)
        agree(rep, nm, dict(M[0].a[2]), of, again(), of, fields_of(db, T), en.loc(), de.loc(), again)
    rep.floor("kinds of values that are sent", n, 12)
    rep.floor("groups of fields that are sent", m, 4)
    rep.floor("fields of variants that are sent", o, 1)


@prop("X05")
def choices(rep):
    db = rep.db(*CRATES)
    rep.rule("choices", "a setting that chooses how a value is built chooses the same on the worker; an absent text is replaced by a default only when none was sent")
    mode = lambda e: unmut(e).op == "ok" and has_call(e, "try_decode_schema_evolution_timezone_mode") or last_field(e) == "timezone_mode" or unmut(e).op == "f" and has_call(e, "try_decode_cast_column_expr")
    for fn, kind, field in (("try_decode", "Parquet", "node_kind"), ("try_decode_expr", "SchemaEvolutionCast", "expr_kind")):
        f = codec_fn(db, fn)
        if not rep.need(f, f"RemoteExecutionCodec::{fn}"):
            return
        k = lambda e, field=field: is_kind(e, field)
        for v, want in (("Relaxed", True), ("Strict", False)):
            ss = [s for s in rep.analyse(db, f, assume=[av(k, kind), av(mode, v)], watch=lambda p, s: name(s) in ("new_relaxed_timezone", "new", "new_with_matching") and "SchemaEvolution" in p, skip=lambda p: True).sites]
            rep.ob(f"{kind}:timezone:{v}", bool(ss) and all((name(s.short) == "new_relaxed_timezone") == want for s in ss), f"{v} timezone handling is not kept by the worker ({sorted({name(s.short) for s in ss})})", f.loc())
    de = codec_fn(db, "try_decode_udwf")
    if rep.need(de, "RemoteExecutionCodec::try_decode_udwf"):
        for b, want in ((True, "first"), (False, "last")):
            as_kind = lambda e: is_kind(e, "udwf_kind")
            ss = rep.analyse(db, de, assume=[av(as_kind, "SparkFirstLastValue"), ab(lambda e: last_field(e) == "first", b)], watch=lambda p, s: s.startswith("SparkFirstLastValue::"), skip=lambda p: True).sites
            rep.ob(f"SparkFirstLastValue:{want}", bool(ss) and {name(s.short) for s in ss} == {want}, f"the worker takes another value than the {want} one", de.loc())
    # a text that was sent is not replaced by a default
    de = codec_fn(db, "try_decode")
    if rep.need(de, "RemoteExecutionCodec::try_decode"):
        empty = lambda e: e.op == "call" and name(short(e.a[0])) == "is_empty"
        ss = [s for s in rep.analyse(db, de, assume=[ab(empty, False)], watch=lambda p, s: name(s) == "default" and "sail_" in p, skip=lambda p: True).sites if not s.args]
        rep.ob("default", not ss, "settings that were sent are replaced by default ones" + (f" ({ss[0].where()})" if ss else ""), de.loc())


def named(n):
    """assumption: the name that is looked up is n"""
    def f(k):
        if k[0] == "c":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x.op in ("s", "k") and unmut(y).op == "arg" and unmut(y).a[0] == 2:
                    return frozenset("=") if str(x.a[0]).strip('"') == n else frozenset("<>")
        return None
    return f


@prop("X05")
def by_name(rep):
    db = rep.db(*CRATES)
    rep.rule("by-name", "a function that is sent by its name alone has no settings, and its name gives a function of the same type on the worker")
    n = 0
    for (e, d, enum, field, least), trait in zip(FUNCTIONS[:3], ("ScalarUDFImpl", "AggregateUDFImpl", "WindowUDFImpl")):
        en, de = codec_fn(db, e), codec_fn(db, d)
        if not rep.need(en, f"RemoteExecutionCodec::{e}") or not rep.need(de, f"RemoteExecutionCodec::{d}"):
            continue
        impls = {i[2].split("<")[0]: i[6] for i in impls_of(db, trait)}
        ts = {g[0].split("<")[0] for _, p, g, t in en.calls() if name(short(p)) == "is" and g}
        for T in sorted(ts & set(impls)):
            nm = T.split("::")[-1]
            f = db.fn(impls[T].get("name"))
            names = {str(x.a[0]).strip('"') for e2, _ in rep.analyse(db, f).rets for x in walk(e2) if x.op == "s" or x.op == "k" and str(x.a[0]).startswith('"')} if f else set()
            sets = settings(rep, db, T)
            rep.ob(f"{nm}:settings", not sets or not names, f"{nm} is sent without {sorted(sets)}", en.loc())
            for x in sorted(names):
                n += 1
                rets = [e2 for e2, _ in ret_states(rep.analyse(db, de, assume=[av(lambda e3: is_kind(e3, field), "Standard"), named(x)], skip=lambda p: True), "+")]
                ok = bool(rets) and all(nm in {c.split("::")[-2] for c in calls(e2) if "::" in c} | {y.a[0].split("::")[-1] for e2 in rets for y in walk(e2) if y.op == "adt"} for e2 in rets)
                rep.ob(f"{nm}:{x}", ok, f"the worker does not find {nm} by its name {x}" + (f" ({show(rets[0], 4)})" if rets else ""), de.loc())
    rep.floor("functions that are sent by name", n, 90)


def settings(rep, db, T):
    """fields of a function type that a constructor sets to something that is not always the same"""
    out = set()
    for k in db.all_keys(T.split("::")[0]):
        if not k.startswith(T + "::") or "{" in k or T.split("::")[-1] not in db.fn(k).locals[0][0]:
            continue
        for w in ways_of(rep, db, db.fn(k), T):
            if isinstance(w, dict):
                out |= {f for f, v in w.items() if any(x.op == "arg" for x in walk(v))}
    return out
