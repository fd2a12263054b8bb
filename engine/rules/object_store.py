"""object store layers and the registry of object stores"""
from . import prop
from ._h import *
from .execution import hot

C = "sail_object_store"
STORE = ("put_opts", "put_multipart_opts", "get_opts", "get_ranges", "delete_stream", "list", "list_with_offset", "list_with_delimiter", "copy_opts", "rename_opts")
UPLOAD = ("put_part", "complete", "abort")
STREAMS = ("delete_stream", "list", "list_with_offset")
DEFAULTS = ("put", "get", "get_range", "head", "delete", "copy", "rename", "put_multipart", "copy_if_not_exists", "rename_if_not_exists")
# calls that hand on a value (a future, a stream, a boxed value) without changing what it yields
PASS = ("boxed", "boxed_local", "pin", "in_span", "in_span_with_recorder", "poll", "flatten", "flatten_stream", "try_flatten_stream", "inspect", "inspect_ok", "inspect_err", "fuse", "into_stream",
        "into_future", "into_pin", "clone", "call_once", "from", "into", "abort_on_drop")
own = lambda p: "{closure" not in p and (p.startswith("object_store::") or "MultipartUpload>::" in p or "as object_store::ObjectStore>::" in p)
INIT = call_is("get_or_try_init")
LOCK = call_is("try_lock", "Mutex::lock")


def trait_call(e, m):
    e = unmut(e)
    return e.op == "call" and short(e.a[0]) in ("ObjectStore::" + m, "MultipartUpload::" + m)


EDITS = ("retain", "retain_mut", "truncate", "clear", "pop", "remove", "swap_remove", "drain", "dedup", "dedup_by_key", "split_off", "extract_if", "take", "replace", "push", "insert", "extend", "split_to", "advance", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "append", "set_prefix", "with_range")
RESULT_FIELDS = ("payload", "meta", "range", "attributes", "objects", "common_prefixes", "e_tag", "version")


def deep(an, e, d=0):
    """the nodes of a value, those returned by its closures included"""
    for x in walk(e):
        yield x
        if x.op == "clo" and d < 3:
            for r in results(an, x, []):
                yield from deep(an, r, d + 1)


def plain(an, e):
    """an argument without the copies made of it"""
    e = unmut_all(e)
    for _ in range(4):
        if e.op == "call" and short(e.a[0]) == "Option::map" and len(e.a[1]) == 2:
            p = mk("ok", unmut(e.a[1][0]))
            c = unmut(e.a[1][1])
            rs = results(an, c, [p]) if c.op == "clo" else [p] if c.op == "F" and name(short(c.a[0])) in ("clone", "to_owned") else []
            if rs and all(unmut_all(r) is unmut_all(p) or str(unmut_all(r)) == str(unmut_all(p)) for r in rs):
                e = unmut_all(e.a[1][0])
                continue
        break
    return e


def results(an, clo, args):
    clo = unmut(clo)
    if clo.op != "clo":
        return []
    return [r for r, _ in an.clo_results(clo, list(args)) or []]


def same(an, e, m, d=0):
    """the value is the result of the operation of the wrapped store, handed on unchanged"""
    e = unmut(e)
    if d > 14:
        return False
    nx = lambda x: same(an, x, m, d + 1)
    if e.op in ("ok", "await", "branch", "as"):
        return nx(e.a[0])
    if e.op == "f" and str(e.a[1]) == "0":
        return nx(e.a[0])
    if e.op == "phi":
        # the other branch is the one for a store that could not be set up
        return any(nx(x) for x in e.a[0]) and all(nx(x) or failing(an, x) for x in e.a[0])
    if e.op == "adt":
        return e.a[1] in ("Ok", "Ready", "Some") and bool(e.a[2]) and nx(e.a[2][0][1])
    if e.op == "clo":
        rs = results(an, e, [])
        return bool(rs) and all(nx(r) for r in rs)
    if e.op == "call":
        if trait_call(e, m):
            return True
        n, a = name(short(e.a[0])), e.a[1]
        if n in ("spawn", "once", "spawn_on") or short(e.a[0]).endswith("RuntimeAwareStream::new"):
            for x in a:
                if unmut(x).op == "clo":
                    i = list(a).index(x)
                    rs = results(an, x, a[i + 1:i + 2] if "Stream" in short(e.a[0]) else [])
                    return bool(rs) and all(nx(r) for r in rs)
            return any(nx(x) for x in a)
        if n in PASS or short(e.a[0]) in ("Box::new", "Arc::new"):
            return bool(a) and nx(a[0])
    return False


def wraps(an, db, e, m, ok, d=0):
    """the value is that result, or an object around it that ok accepts"""
    e = unmut(e)
    if d > 8:
        return False
    if same(an, e, m):
        return True
    if e.op == "phi":
        return all(wraps(an, db, x, m, ok, d + 1) for x in e.a[0])
    if e.op == "adt" and e.a[1] == "Ok" and e.a[2]:
        return wraps(an, db, e.a[2][0][1], m, ok, d + 1)
    if e.op == "call":
        n = short(e.a[0])
        if n == "Result::map" and same(an, e.a[1][0], m):
            rs = results(an, e.a[1][1], [mk("ok", unmut(e.a[1][0]))])
            return bool(rs) and all(wraps(an, db, r, m, ok, d + 1) for r in rs)
        if n in ("Box::new", "Box::pin") or name(n) in ("from", "into"):
            return bool(e.a[1]) and wraps(an, db, e.a[1][0], m, ok, d + 1)
        return ok(e)
    return ok(e)


def transparent(rep, db, t, trait, m):
    f = db.find(f"{t}::{m}", crate=C)
    key = f"{t}.{m}"
    if not rep.need(f, f"{t}::{m}"):
        return None
    ops = STORE + DEFAULTS if trait == "ObjectStore" else UPLOAD
    mine = [f"{trait}::{o}" for o in ops] + [f"ObjectStoreExt::{o}" for o in ops]
    an = rep.analyse(db, f, watch=lambda p, s: s in mine, skip=own)
    rep.floor(key, len([s for s in an.sites if name(s.short) == m]), 1)
    bodies = {}
    # the result is not edited on the way
    ed = rep.analyse(db, f, watch=lambda p, s: name(s) in EDITS, skip=own, assign_fields=set(RESULT_FIELDS), assign=lambda s: True)
    for s in ed.sites:
        x = s.args[0] if s.args else s.expr
        if s.kind == "assign" or any(trait_call(y, m) or y.op == "clo" for y in walk(x)):
            rep.ob(f"{key}:edited", s.kind != "assign" and not any(trait_call(y, m) for y in deep(ed, x)), f"{t} changes the result of {m}", s.where())
        rep.ob(f"{key}:edited-argument", s.kind == "assign" or not (unmut_all(x).op == "arg" and unmut_all(x).a[0] > 1), f"{t} changes an argument of {m}", s.where())
    for s in an.sites:
        rep.ob(f"{key}:operation", name(s.short) == m, f"{t} performs {name(s.short)} for {m}", s.where())
        if name(s.short) != m:
            continue
        for i, x in enumerate(s.args[1:]):
            rep.ob(f"{key}:argument{i + 1}", arg_is(i + 2)(plain(an, x)), f"{m} of {t} does not hand on argument {i + 1} unchanged", s.where())
        rep.ob(f"{key}:receiver", unmut(s.args[0]).op == "argof" or "inner" in fields(s.args[0]) or has_call(s.args[0], "get_or_try_init"),
               f"{m} of {t} does not reach the wrapped store", s.where())
        bodies[s.fn.key] = s.fn
    for g in bodies.values():
        # once, on every path that reports success
        b = rep.analyse(db, g, assume=[av(lambda e: INIT(e) or LOCK(e), "+")], watch=lambda p, s: s == f"{trait}::{m}", skip=own, entry={"w": {0}}, event=lambda s: [("w", {1})] if s.short == f"{trait}::{m}" else None,
                        event_watch=hot(f"{trait}::{m}"))
        for s in b.sites:
            rep.ob(f"{key}:once", s.var("w") == {0}, f"{m} of {t} can perform the operation twice", s.where())
        rep.ob(f"{key}:always", bool(b.rets) and all(st.get(("s", "w")) == {1} for _, st in b.rets), f"{m} of {t} can end without the operation", g.loc())
    sp = rep.analyse(db, f, watch=lambda p, s: name(s) == "spawn", skip=lambda p: own(p) or "RuntimeAwareStream" in p, entry={"p": {0}}, event=lambda s: [("p", {1})], event_watch=lambda p, s: name(s) == "spawn")
    for s in sp.sites:
        rep.ob(f"{key}:spawned-once", s.var("p") == {0}, f"{m} of {t} can start the operation twice", s.where())
    # what is returned: the result of the operation
    fine = av(lambda e: unmut(e).op in ("await", "ok", "call", "f") and (has_call(e, "spawn", m) or INIT(e) or LOCK(e)), "+")
    an = rep.analyse(db, f, assume=[fine], skip=own)
    rep.ob(f"{key}:answers", bool(an.rets), f"{m} of {t} does not return", f.loc())
    if m not in STREAMS + ("put_part",):
        rep.ob(f"{key}:success", not ret_states(an, "-"), f"{m} of {t} fails although the operation succeeded", f.loc())

    def around(e):
        e = unmut(e)
        if m == "get_opts":
            return get_result(an, db, e, lambda x: same(an, x, m))
        if m == "put_multipart_opts":
            names = {name(short(x.a[0])) for x in walk(e) if x.op == "call"}
            return any(trait_call(x, m) or x.op == "clo" and same(an, x, m) for x in walk(e)) and not (names & {"complete", "abort", "put_part"})
        return False
    pos = [e for e, _ in (ret_states(an, "+") if m not in STREAMS + ("put_part",) else an.rets)]
    for e in pos:
        if unmut(e).op == "call" and name(short(unmut(e).a[0])) == "from_residual":
            continue
        rep.ob(f"{key}:result", wraps(an, db, e, m, around), f"{m} of {t} does not return what the wrapped store returned", f.loc())
    if m in STREAMS + ("put_part",):
        return f
    # a failure is reported
    for what, p in (("task", lambda e: unmut(e).op in ("await", "call") and name(short(strip_await(e).a[0]) if strip_await(e).op == "call" else "") == "spawn"), ("init", lambda e: unmut(e).op == "await" and INIT(e))):
        b = rep.analyse(db, f, assume=[av(p, "-")], skip=own, watch=lambda p, s: name(s) in ("spawn", "get_or_try_init"))
        if any(name(s.short) == ("spawn" if what == "task" else "get_or_try_init") for s in b.sites):
            rep.ob(f"{key}:{what}-error", bool(b.rets) and not ret_states(b, "+"), f"{m} of {t} reports success although {'the task running it failed' if what == 'task' else 'the store could not be set up'}", f.loc())
    return f


def get_result(an, db, e, root, d=0):
    """the result of a read: the same metadata, range and attributes, and the same payload"""
    e = unmut(e)
    if d > 4:
        return False
    if root(e):
        return True
    if e.op == "adt" and name(e.a[0]) == "GetResult":
        fs = dict((str(k), unmut(v)) for k, v in e.a[2])
        for n in ("meta", "range", "attributes"):
            v = fs.get(n)
            if v is None or v.op != "f" or v.a[1] != n or not root(unmut(v.a[0])):
                return False
        return payload(an, fs.get("payload"), root)
    if e.op == "call" and e.a[0] in db.where:
        k = [i for i, x in enumerate(e.a[1]) if root(unmut(x))]
        if not k:
            return False
        g = db.fn(e.a[0])
        b = ip.Analyzer(db)
        rs = b.run(g, [mk("arg", i + 1, f"a{i}") for i in range(len(e.a[1]))], [], {}, 0, ()) or []
        return bool(rs) and all(get_result(b, db, r, arg_is(k[0] + 1), d + 1) for r, _ in rs)
    return False


def payload(an, e, root):
    e = unmut(e) if e is not None else None
    if e is None:
        return False
    inside = lambda x: unmut(x).op != "call" and any(y.op == "f" and y.a[1] == "payload" and root(unmut(y.a[0])) for y in walk(x))
    if inside(e) and e.op != "adt":
        return True
    if e.op == "adt" and e.a[1] in ("Stream", "File"):
        if e.a[1] == "File":
            return all(inside(v) for _, v in e.a[2])
        x = unmut(e.a[2][0][1])
        for _ in range(6):
            if inside(x) and x.op != "clo":
                return True
            if x.op == "clo":
                rs = results(an, x, [None])
                return bool(rs) and all(inside(r) for r in rs)
            if x.op != "call":
                return False
            if short(x.a[0]).endswith("RuntimeAwareStream::new") or name(short(x.a[0])) in PASS or short(x.a[0]) == "Box::new":
                x = unmut(x.a[1][0])
            else:
                return False
    return False


@prop("O01")
def layers(rep):
    db = rep.db(C)
    rep.rule("layers", "every operation of a layer is that same operation of the wrapped store, performed once with the same arguments, and its result or error is what the caller gets")
    for t in ("RuntimeAwareObjectStore", "LoggingObjectStore", "LazyObjectStore"):
        for m in STORE:
            transparent(rep, db, t, "ObjectStore", m)
    rep.rule("uploads", "parts, completion and abort of an upload reach the wrapped upload; a part is handed over before the call returns, so the parts keep their order")
    for t in ("RuntimeAwareMultipartUpload", "TracingMultipartUpload"):
        for m in UPLOAD:
            f = transparent(rep, db, t, "MultipartUpload", m)
            if f is not None and m == "put_part":
                ss = sites_of(rep, db, f, "MultipartUpload::put_part", skip=own)
                for s in ss:
                    # a part handed over by a task or a future that runs later can be overtaken by the next part
                    rep.ob(f"{t}.put_part:order", "{closure" not in s.fn.key, f"parts put through {t} can reach the upload in another order", s.where())
                an = rep.analyse(db, f, skip=own, entry={"w": {0}}, event=lambda s: [("w", {1})], event_watch=hot("MultipartUpload::put_part"))
                for e, st in an.rets:
                    if st.get(("s", "w")) != {1}:
                        # a part that is not handed over is reported as failed
                        rep.ob(f"{t}.put_part:refused", not ret_states_of(an, e, st, "+"), f"a part is accepted by {t} but not handed to the upload", f.loc())

    rep.rule("streams", "a listing handed through another task yields every item of the wrapped listing, in order, until its end")
    f = db.find("RuntimeAwareStream::new", crate=C)
    if rep.need(f, "RuntimeAwareStream::new"):
        NX, SD = call_is("StreamExt::next", "TryStreamExt::try_next"), call_is("Sender::send")
        ss = sites_of(rep, db, f, "Sender::send")
        rep.floor("send", len(ss), 1)
        for s in ss:
            x = strip_await(s.args[1])
            rep.ob("stream:item", NX(x), "an item other than the one received is handed over", s.where())
            if NX(x):
                src = unmut(x.a[1][0])
                while src.op == "call" and name(short(src.a[0])) in PASS and name(short(src.a[0])) != "call_once":
                    src = unmut(src.a[1][0])
                rep.ob("stream:source", src.op == "call" and name(short(src.a[0])) == "call_once", "the items do not come from the wrapped listing as it is", s.where())
            g = s.fn
            an = rep.analyse(db, g, assume=[av(NX, "+"), av(SD, "+")])
            rep.ob("stream:complete", not an.rets, "the listing can end before all its items are handed over", g.loc())
            an = rep.analyse(db, g, assume=[av(NX, "+")], watch=shorts("StreamExt::next"), entry={"p": {0}}, event=lambda s: [("p", {1 if name(s.short) in ("next", "try_next") else 0})],
                             event_watch=hot("StreamExt::next", "TryStreamExt::try_next", "Sender::send"))
            for n in an.sites:
                rep.ob("stream:every", n.var("p") == {0}, "an item of the listing can be left out", n.where())
            chan = [unmut(x) for x in (s.args[0],)]
            an = rep.analyse(db, f)
            for e, _ in an.rets:
                rx = [y for y in walk(e) if y.op == "f" and str(y.a[1]) == "1" and any(name(c) == "channel" for c in calls(y))]
                rep.ob("stream:channel", bool(rx) and any(name(c) == "channel" for y in chan for c in calls(y)), "the reader does not read what the task sends", f.loc())
    f = db.find("RuntimeAwareStream::poll_next", crate=C)
    if rep.need(f, "RuntimeAwareStream::poll_next"):
        an = rep.analyse(db, f)
        for e, _ in an.rets:
            e = unmut(e)
            rep.ob("stream:poll", e.op == "call" and name(short(e.a[0])) in ("poll_next", "poll_next_unpin", "poll_recv") and "inner" in fields(e), "the reader changes what was received", f.loc())

    rep.rule("lazy", "a lazy store is set up by its initializer; if that fails, so do the operations and listings")
    f = db.find("ObjectStoreCell::get_or_try_init", crate=C)
    if rep.need(f, "ObjectStoreCell::get_or_try_init"):
        an = rep.analyse(db, f, watch=shorts("OnceCell::get_or_try_init"))
        rep.floor("initialization", len(an.sites), 1)
        for e, _ in an.rets:
            x = strip_await(e)
            rep.ob("lazy:cell", x.op == "call" and short(x.a[0]) == "OnceCell::get_or_try_init" and "cell" in fields(x.a[1][0]), "the store is not the one kept in the cell", f.loc())
        for s in an.sites:
            c = clo_arg(s)
            rs = results(an, c, []) if c is not None else []
            for _ in range(3):
                rs = [y for r in rs for y in (results(an, strip_await(r), []) if strip_await(r).op == "clo" else [r])]
            rep.ob("lazy:initializer", bool(rs) and all("initializer" in fields(r) and not has_call(r, "unwrap_or_else", "or_else") for r in rs), "the store is not made by the initializer", s.where())
    for m in STREAMS:
        f = db.find("LazyObjectStore::" + m, crate=C)
        if rep.need(f, "LazyObjectStore::" + m):
            an = rep.analyse(db, f, assume=[av(lambda e: INIT(e), "-")], skip=own)
            for e, _ in an.rets:
                rep.ob(f"lazy:{m}-error", failing(an, e), f"{m} of a store that could not be set up looks empty", f.loc())


def ret_states_of(an, e, st, pol):
    class One:
        pass
    o = One()
    o.__dict__.update(an.__dict__)
    keep = an.rets
    an.rets = [(e, st)]
    try:
        return ret_states(an, pol)
    finally:
        an.rets = keep


def failing(an, e, d=0):
    """the stream yields the error of a store that could not be set up (or, for a merge, the operation of one that was)"""
    e = unmut(e)
    if d > 12:
        return False
    if e.op == "phi":
        return any(failing(an, x, d + 1) for x in e.a[0]) and all(failing(an, x, d + 1) or any(same(an, x, m) for m in STREAMS) for x in e.a[0])
    if e.op == "adt":
        return e.a[1] == "Err"
    if e.op == "err":
        return True
    if e.op == "clo":
        rs = results(an, e, [])
        return bool(rs) and all(failing(an, r, d + 1) for r in rs)
    if e.op in ("await", "ok"):
        return failing(an, e.a[0], d + 1)
    if e.op == "call":
        if INIT(e):
            return True
        n = name(short(e.a[0]))
        if n in PASS + ("once", "ready", "iter", "new", "from_residual", "try_flatten", "err") or n in ("pin",):
            return bool(e.a[1]) and failing(an, e.a[1][0], d + 1)
    if e.op in ("residual", "arr", "tup"):
        return any(failing(an, x, d + 1) for x in (e.a[0] if isinstance(e.a[0], tuple) else e.a))
    return False


@prop("O01")
def registry(rep):
    db = rep.db(C)
    rep.rule("registry", "the store found for a URL is the one registered or made for the URL's scheme and authority; a session's store is found by that session only")
    KEY = ("scheme", "authority", "session_fingerprint")
    local = lambda p: "get_dynamic_object_store" in p or own(p)

    def key_of(an, e, url, fp):
        """key made of the parts of the URL and the fingerprint"""
        e = unmut_all(e)
        if e.op == "call" and short(e.a[0]).endswith("ObjectStoreKey::new"):
            return url(unmut_all(e.a[1][0])) and fp(unmut_all(e.a[1][1]))
        if e.op == "adt" and name(e.a[0]) == "ObjectStoreKey":
            fs = dict((str(k), unmut_all(v)) for k, v in e.a[2])
            return all(has_call(fs[k], "Url::" + k) and any(url(x) for x in walk(fs[k])) for k in KEY[:2]) and fp(fs[KEY[2]])
        return False
    none = lambda e: unmut(e).op == "adt" and unmut(e).a[1] == "None"

    def some(i):
        def p(e):
            e = unmut_all(e)
            if e.op == "adt" and e.a[1] == "Some":
                return any(arg_is(i)(y) for y in walk(e.a[2][0][1]))
            return arg_is(i)(e)
        return p
    f = db.find("ObjectStoreKey::new", crate=C)
    if rep.need(f, "ObjectStoreKey::new"):
        an = rep.analyse(db, f)
        for e, _ in an.rets:
            e = unmut(e)
            fs = dict((str(k), v) for k, v in e.a[2]) if e.op == "adt" else {}
            for n, c, i in (("scheme", "Url::scheme", 1), ("authority", "Url::authority", 1), ("session_fingerprint", None, 2)):
                v = fs.get(n)
                rep.ob(f"key:{n}", v is not None and (c is None or has_call(v, c)) and any(arg_is(i)(x) for x in walk(v)) and
                       not (set(map(name, calls(v))) & {"to_lowercase", "to_uppercase", "filter", "trim", "split", "take", "truncate", "and", "xor"}), f"the {n.replace('_', ' ')} is not part of the identity of a store", f.loc())
    eqs = [i for i in db.all_keys(C) if "ObjectStoreKey as" in i and ("PartialEq" in i or "Hash" in i) and i.split("::")[-1] in ("eq", "hash")]
    for k in eqs:
        g = db.fn(k)
        if k.split("::")[-1] == "eq":
            for n in KEY:
                diff = ac(lambda e, n=n: unmut(e).op == "f" and unmut(e).a[1] == n and arg_is(1)(unmut(e).a[0]), lambda e, n=n: unmut(e).op == "f" and unmut(e).a[1] == n and arg_is(2)(unmut(e).a[0]), "<>")
                rep.ob(f"key:eq-{n}", fn_truth(rep, db, g, [diff]) == {False}, f"stores that differ in their {n.replace('_', ' ')} count as the same", g.loc())
    for fn, fp, fpname in (("register_store", none, None), ("register_session_store", some(3), None)):
        f = db.find("DynamicObjectStoreRegistry::" + fn, crate=C)
        if rep.need(f, "DynamicObjectStoreRegistry::" + fn):
            ss = sites_of(rep, db, f, "DashMap::insert", skip=local)
            rep.floor(fn, len(ss), 1)
            st = 3 if fn == "register_store" else 4
            for s in ss:
                rep.ob(f"{fn}:key", key_of(None, s.args[1], arg_is(2), fp), f"{fn} files the store under another URL or session", s.where())
                rep.ob(f"{fn}:store", arg_is(st)(unmut_all(s.args[2])), f"{fn} files another store", s.where())
            ok, n = must_event(rep, db, f, lambda s: True, hotp=hot("DashMap::insert"), skip=local, pol=None)
            rep.ob(f"{fn}:always", ok, f"{fn} can leave the store out", f.loc())
    f = db.find("DynamicObjectStoreRegistry::get_store", crate=C)
    if rep.need(f, "DynamicObjectStoreRegistry::get_store"):
        ss = sites_of(rep, db, f, "DashMap::entry", "DashMap::get", "DashMap::insert", "get_dynamic_object_store", skip=local)
        rep.floor("get_store", len([s for s in ss if name(s.short) in ("entry", "get")]), 1)
        rep.floor("get_store: new store", len([s for s in ss if name(s.short) == "get_dynamic_object_store"]), 1)
        for s in ss:
            if name(s.short) == "get_dynamic_object_store":
                rep.ob("get_store:made-for", arg_is(2)(unmut_all(s.args[0])), "the store is made for another URL", s.where())
            else:
                rep.ob(f"get_store:{name(s.short)}-key", key_of(None, s.args[1], arg_is(2), none), "the store is looked up under another URL or a session's key", s.where())
    f = db.find("DynamicObjectStoreRegistry::get_store_with_session", crate=C)
    if rep.need(f, "DynamicObjectStoreRegistry::get_store_with_session"):
        sk = lambda p: "ObjectStoreRegistry>::get_store" in p or local(p)
        ss = sites_of(rep, db, f, "DashMap::get", "DashMap::entry", "ObjectStoreRegistry::get_store", "DynamicObjectStoreRegistry::get_store", skip=sk)
        rep.floor("session store", len([s for s in ss if name(s.short) in ("get", "entry")]), 1)
        mine = some(3)
        fpok = lambda e: mine(e) or any(arg_is(3)(y) for y in walk(e))
        for s in ss:
            if name(s.short) == "get_store":
                rep.ob("session:fallback", arg_is(2)(unmut_all(s.args[1])), "the fallback is looked up for another URL", s.where())
            else:
                rep.ob("session:key", key_of(None, s.args[1], arg_is(2), fpok), "a session's store is looked up under another session or URL", s.where())
        got = lambda e: unmut(e).op == "call" and short(unmut(e).a[0]) == "DashMap::get"
        an = rep.analyse(db, f, assume=[av(got, "+"), av(arg_is(3), "+")], skip=sk)
        for e, _ in ret_states(an, "+"):
            rep.ob("session:own", has_call(e, "DashMap::get"), "the store registered for the session is not used", f.loc())
        an = rep.analyse(db, f, assume=[av(got, "-")], skip=sk)
        for e, _ in ret_states(an, "+"):
            rep.ob("session:default", has_call(e, "get_store"), "a session without a store of its own does not get the default store", f.loc())


@prop("O01")
def dynamic(rep):
    db = rep.db(C)
    rep.rule("made", "the store made for a URL is made from that URL")
    f = db.find("registry::get_dynamic_object_store", crate=C)
    if rep.need(f, "get_dynamic_object_store"):
        made = ("get_s3_object_store", "get_azure_object_store", "get_gcs_object_store", "get_http_object_store", "HdfsObjectStoreBuilder::with_url")
        sk = lambda p: any(p.endswith("::" + m) for m in made) or own(p)
        ss = sites_of(rep, db, f, *made, skip=sk)
        rep.floor("stores made", len({name(s.short) for s in ss}), 4)
        for s in ss:
            x = s.args[-1]
            rep.ob(f"made:{name(s.short)}", any(arg_is(1)(y) for y in walk(x)), "a store is made from something other than the URL", s.where())
