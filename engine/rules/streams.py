"""task streams, job output, task execution"""
from . import prop
from ._h import *
from .execution import arg_named, hot

C = "sail_execution"
NEXT = call_is("StreamExt::next", "TryStreamExt::try_next")


@prop("X06")
def task_streams(rep):
    db = rep.db(C)
    rep.rule("shuffle-write", "the output of a task is committed only after its input ended without an error and every write succeeded; on an error it is aborted with that error as the cause and the error is returned")
    f = db.find("ShuffleWriteExec::execute", crate=C)
    if rep.need(f, "ShuffleWriteExec::execute"):
        CA = ("TaskStreamSink::commit", "TaskStreamSink::abort")
        skip = lambda p: "TaskStreamWriter" in p and short(p).endswith("::open") or "TaskStreamSink" in p or "ExecutionPlan" in p
        ss = sites_of(rep, db, f, *CA, skip=skip)
        rep.floor("commit", sum(s.short.endswith("commit") for s in ss), 1)
        rep.floor("abort", sum(s.short.endswith("abort") for s in ss), 1)
        cm = ("TaskStreamSink::commit",)
        unreachable(rep, db, f, cm, [av(NEXT, "+")], "commit:end", "the output can be committed although the input has not ended", skip=skip)
        wr = lambda e: call_is("TaskStreamSink::write")(e)
        an = rep.analyse(db, f, assume=[av(wr, "-")], watch=shorts(*cm), entry={"w": {0}}, event=lambda s: [("w", {1})], event_watch=hot("TaskStreamSink::write"), skip=skip)
        for s in an.sites:
            rep.ob("commit:write-error", s.var("w") == {0}, "the output can be committed although a write failed", s.where())
        item = lambda e: unmut(e).op in ("elem", "ok") and has_next(e)
        an = rep.analyse(db, f, assume=[av(item, "-")], watch=shorts(*CA), entry={"w": {0}}, event=lambda s: [("w", {1})], event_watch=hot("TaskStreamSink::write"), skip=skip)
        for s in an.sites:
            rep.ob("write:item-error", s.var("w") == {0}, "data is written although the input reported an error", s.where())
        for pol, want in (("-", False),):
            an = rep.analyse(db, f, assume=[av(NEXT, "+"), av(item, "-")], watch=shorts(*CA), entry={"a": {0}}, skip=skip,
                             event=lambda s: [("a", {1})] if unmut(s.args[1]).op == "adt" and unmut(s.args[1]).a[1] == "Some" and any(x.op == "err" for x in walk(s.args[1])) else None,
                             event_watch=hot("TaskStreamSink::abort"))
            rep.ob("abort:cause", any(s.short.endswith("abort") and unmut(s.args[1]).op == "adt" and unmut(s.args[1]).a[1] == "Some" for s in an.sites),
                   "an input error does not abort the output with its cause", f.loc())
            rep.ob("abort:commit", not any(s.short.endswith("commit") for s in an.sites), "an input error can be followed by a commit", f.loc())

    rep.rule("channels", "the sink of a task reports itself closed only when every channel is closed, gives a batch to the channel it was meant for, and commits or aborts every open channel")
    w = db.find("MultiChannelTaskStreamSink::write", crate=C)
    if rep.need(w, "MultiChannelTaskStreamSink::write"):
        sub = ("TaskStreamChannelSink::write",)
        sk = lambda p: "TaskStreamChannelSink" in p
        ss = sites_of(rep, db, w, *sub, skip=sk)
        rep.floor("channel write", len(ss), 1)
        for s in ss:
            rep.ob("write:channel", any(x.op == "call" and short(x.a[0]).split("::")[-1] in ("get_mut", "get") and arg_named(x.a[1][1], "channel") or x.op == "idx" and arg_named(x.a[1], "channel")
                                        for x in walk(s.args[0])), "a batch is written to a channel other than the requested one", s.where())
            rep.ob("write:batch", arg_named(s.args[1], "batch"), "another batch is written", s.where())
        slot = lambda e: unmut(e).op == "elem" and "sinks" in fields(e)
        for pol, want, mixed in (("+", "Active", True), ("-", "Closed", False)):
            an = rep.analyse(db, w, assume=[av(slot, pol)], skip=sk, nonempty=True, mixed=mixed)
            vs = ret_variants(an)
            rep.ob(f"write:state-{want}", vs == {want}, f"with {'an open channel' if mixed else 'every channel closed'} the sink reports {sorted(vs)}", w.loc())
        cur = lambda e: strip_await(e).op == "call" and strip_await(e) is not unmut(e) and call_is("TaskStreamChannelSink::write")(strip_await(e))
        for v in ("Active", "Closed"):
            # the slot of the channel is cleared exactly when its sink reports that it is closed
            an = rep.analyse(db, w, assume=[av(lambda e: unmut(e).op == "await" and cur(e), "+"), av(lambda e: unmut(e).op == "ok" and cur(e), v)], skip=sk,
                             watch=lambda p, s: s in ("IndexMut::index_mut", "Option::take", "mem::take", "Vec::remove", "Vec::swap_remove"))
            if v == "Active":
                an = rep.analyse(db, w, assume=[av(lambda e: unmut(e).op in ("call", "ok") and has_call(e, "get_mut", "get") and not cur(e), "+"), av(lambda e: unmut(e).op == "await" and cur(e), "+"), av(lambda e: unmut(e).op == "ok" and cur(e), v)], skip=sk,
                                 watch=lambda p, s: s in ("IndexMut::index_mut", "Option::take", "mem::take", "Vec::remove", "Vec::swap_remove"))
                rep.ob("write:keeps-open", not an.sites, "an open channel can be dropped", w.loc())
            else:
                rep.ob("write:drops-closed", bool(an.sites), "a closed channel is kept open", w.loc())
    for m in ("commit", "abort"):
        g = db.find("MultiChannelTaskStreamSink::" + m, crate=C)
        if rep.need(g, "MultiChannelTaskStreamSink::" + m):
            sk = lambda p: "TaskStreamChannelSink" in p
            ok, n = must_event(rep, db, g, lambda s: True, hotp=hot("TaskStreamChannelSink::" + m), skip=sk, nonempty=True)
            rep.ob(f"{m}:every", ok, f"{m} of the sink can skip a channel", g.loc())
            an = rep.analyse(db, g, assume=[av(call_is("TaskStreamChannelSink::" + m), "-")], skip=sk, nonempty=True)
            rep.ob(f"{m}:error", bool(an.rets) and not ret_states(an, "+"), f"an error of a channel's {m} is lost", g.loc())
            for s in sites_of(rep, db, g, "TaskStreamChannelSink::" + m, skip=sk):
                src = s.args[0]
                bad = [c for c in calls(src) if c.split("::")[-1] in ("skip", "take", "filter", "step_by", "take_while", "skip_while", "first", "last", "pop", "nth", "filter_map")]
                rep.ob(f"{m}:all", not bad and "sinks" in fields(src), f"{m} leaves out channels", s.where())
                if m == "abort":
                    rep.ob("abort:passes-cause", arg_named(s.args[1], "cause"), "the cause of the failure is not passed to the channels", s.where())
    rep.rule("memory", "an in-memory stream hands every batch, in order, to every reader that is still there; it counts as complete only when all buffered batches were sent, and otherwise its readers get an error")
    w = db.find("MemoryStreamReplicaSender::write", crate=C)
    live = av(lambda e: unmut(e).op == "elem" and "senders" in fields(e), "+")
    isb = lambda e: any(arg_named(x, "batch") for x in walk(e) if x.op == "arg")
    snd = call_is("Sender::try_send", "Sender::send")
    if rep.need(w, "MemoryStreamReplicaSender::write"):
        deliver = lambda s: any(isb(a) for a in s.args)
        hp = hot("Sender::try_send", "Sender::send", "VecDeque::push_back")
        empty = ab(lambda e: has_call(e, "is_empty") and "overflow" in fields(e), True)
        nonempty_ = ab(lambda e: has_call(e, "is_empty") and "overflow" in fields(e), False)
        pop = lambda e: unmut(e).op == "call" and has_call(e, "pop_front")
        for nm, asm in (("empty", [live, av(pop, "-"), empty, av(lambda e: snd(e), "+")]), ("full", [live, av(lambda e: snd(e), "-"), av(lambda e: unmut(e).op == "err", "Full")])):
            ok, n = must_event(rep, db, w, deliver, assume=asm, hotp=hp, nonempty=True)
            rep.ob(f"write:delivered-{nm}", ok, "a batch can be skipped for a reader that is still there", w.loc())
        kept = lambda s: s.short.endswith("push_back") and (isb(s.args[1]) or any(x.op == "err" for x in walk(s.args[1])))
        # a batch rejected because the buffer is full is kept
        ok, n = must_event(rep, db, w, kept, assume=[live, av(pop, "-"), av(lambda e: snd(e), "-"), av(lambda e: unmut(e).op == "err", "Full")], hotp=hp, nonempty=True)
        rep.ob("write:kept-when-full", ok, "a batch that does not fit the buffer is lost", w.loc())
        for s in sites_of(rep, db, w, "Sender::try_send", "Sender::send"):
            if any(isb(a) for a in s.args):
                rep.ob("write:order", s.has_bool(lambda e: has_call(e, "is_empty") and "overflow" in fields(e), True) or s.has_variant(pop, {"-"}),
                       "a batch can overtake earlier ones that are still buffered", s.where())
            else:
                rep.ob("write:order-drain", has_call(s.args[1], "pop_front"), "something other than the oldest buffered batch is sent", s.where())
        for s in sites_of(rep, db, w, "VecDeque::push_front"):
            rep.ob("write:requeue", any(x.op == "err" for x in walk(s.args[1])), "the head of the buffer is replaced by something else than the rejected batch", s.where())
        exhausts(rep, db, w, mention("senders"), "write:every-reader", "a write can end before every reader was served")
        ss = sites_of(rep, db, w, "VecDeque::push_back", assume=[live])
        for s in ss:
            rep.ob("write:requeue-order", not has_call(s.args[1], "pop_front"), "a buffered batch that was rejected is moved behind later ones", s.where())
            rep.ob("write:queue-own", any(x.op == "idx" and "overflow" in fields(x.a[0]) and x.a[1].op == "index" or x.op == "elem" and "overflow" in fields(x) for x in walk(s.args[0])), "a batch is queued for another reader", s.where())
        an = rep.analyse(db, w, assume=[live, av(pop, "-"), empty, av(lambda e: snd(e), "+")], nonempty=True, mixed=True)
        rep.ob("write:state", ret_variants(an) == {"Active"}, f"with a live reader the stream reports {sorted(ret_variants(an))}", w.loc())
    c = db.find("MemoryStreamReplicaSender::commit", crate=C)
    if rep.need(c, "MemoryStreamReplicaSender::commit"):
        pop = lambda e: unmut(e).op == "call" and has_call(e, "pop_front")
        an = rep.analyse(db, c, assume=[live, av(pop, "+"), av(lambda e: snd(e), "+")], assign_fields={"committed"}, assign=lambda s: True, nonempty=True)
        rep.ob("commit:drained", not an.sites, "the stream can be marked complete with batches still buffered", c.loc())
        exhausts(rep, db, c, mention("senders"), "commit:every-reader", "the stream can be marked complete before every reader was served")
    d = db.find("MemoryStreamReplicaSender::drop", crate=C)
    if rep.need(d, "MemoryStreamReplicaSender::drop"):
        err = lambda s: unmut(s.args[1]).op == "adt" and unmut(s.args[1]).a[1] == "Err"
        ok, n = must_event(rep, db, d, err, assume=[ab(lambda e: last_field(e) == "committed", False)], hotp=hot("Sender::try_send", "Sender::send"), pol=None, nonempty=True)
        rep.ob("drop:error", ok, "the readers of an incomplete stream are not told", d.loc())
        ss = sites_of(rep, db, d, "Sender::try_send", assume=[ab(lambda e: last_field(e) == "committed", True)])
        rep.ob("drop:complete", not ss, "the readers of a complete stream get an error", d.loc())
        ws = []
        for k in db.all_keys(C):
            f2 = db.fn(k)
            if f2.file.endswith("local/memory.rs"):
                for b in f2.reach:
                    for st in f2.blocks[b][0]:
                        if len(st) >= 3 and len(st[0]) > 1 and st[0][-1] == ".committed":
                            ws.append(f2)
        rep.ob("committed:only-by-commit", ws and all(outer(db, x) == c.key for x in ws), "the stream is marked complete outside of commit", d.loc())

    rep.rule("storage", "a storage stream writes every batch to a file under the key of the attempt and channel, numbers its files consecutively, counts as written only when the object store accepted it, and reads all files back in order, passing on every error")
    sp = db.find("stream_prefix", crate=C)
    if rep.need(sp, "stream_prefix"):
        ok = [set().union(*[fields(x) | {y.a[1] for y in walk(x) if y.op == "arg"} for x in [s.args[0], s.args[1]]]) for s in sites_of(rep, db, sp, "Path::join", "Path::child")]
        allf = set().union(*ok) if ok else set()
        for fld in ("job_id", "stage", "partition", "attempt", "channel"):
            rep.ob("prefix:" + fld, fld in allf, f"the location of a storage stream does not depend on {fld}: streams overwrite each other", sp.loc())
        rep.ob("prefix:session", "session_id" in allf, "the location of a storage stream does not depend on the session", sp.loc())
    fl = db.find("StorageStreamSink::flush_file", crate=C)
    cm = db.find("StorageStreamSink::commit", crate=C)
    PUT = hot("ObjectStoreExt::put", "ObjectStore::put_opts", "ObjectStore::put")
    hasb = ab(lambda e: last_field(e) == "has_batches", True)
    for nm, g in (("flush", fl), ("commit", cm)):
        if not rep.need(g, "StorageStreamSink::" + nm):
            continue
        ok, n = must_event(rep, db, g, lambda s: True, assume=[hasb], hotp=PUT)
        rep.ob(f"{nm}:put", ok, f"{nm} can succeed without storing the pending batches", g.loc())
        an = rep.analyse(db, g, assume=[hasb, av(lambda e: call_is("ObjectStoreExt::put", "ObjectStore::put_opts", "ObjectStore::put")(e), "-")])
        rep.ob(f"{nm}:put-error", bool(an.rets) and not ret_states(an, "+"), "an error of the object store is lost", g.loc())
        ok, n = must_event(rep, db, g, lambda s: True, assume=[hasb], hotp=hot("StreamWriter::finish"))
        rep.ob(f"{nm}:finish", ok, "a file can be stored without its end marker", g.loc())
        for fld, want in (("file_index", lambda e: any(x.op == "bin" and x.a[0].startswith("Add") for x in walk(e))), ("has_batches", lambda e: is_const(e, "false")), ("writer", lambda e: variants_of(e) == {"Some"})):
            ok, n = must_event(rep, db, g, lambda s: last_field(s.dest) == fld and want(s.expr), assume=[hasb], asg={fld})
            rep.ob(f"{nm}:{fld}", ok, f"after a file was stored {fld} is not advanced", g.loc())
        for s in rep.analyse(db, g, assume=[hasb], watch=lambda p, s: PUT(p, s), skip=None).sites:
            rep.ob(f"{nm}:name", "file_index" in fields(s.args[1]) and "prefix" in fields(s.args[1]), "files of one stream overwrite each other", s.where())
    wr = db.find("StorageStreamSink::write", crate=C)
    if rep.need(wr, "StorageStreamSink::write"):
        ok, n = must_event(rep, db, wr, lambda s: any(isb(a) for a in s.args[1:]), hotp=hot("StreamWriter::write"))
        rep.ob("write:batch", ok, "a batch can be accepted without being written", wr.loc())
        ok, n = must_event(rep, db, wr, lambda s: is_const(s.expr, "true"), asg={"has_batches"}, assume=[ac(lambda e: has_call(e, "len"), mention("max_file_size"), "<")])
        rep.ob("write:pending", ok, "a written batch is not marked as pending, so commit drops it", wr.loc())
        an = rep.analyse(db, wr, assume=[av(lambda e: call_is("StreamWriter::write")(e), "-")])
        rep.ob("write:error", bool(an.rets) and not ret_states(an, "+"), "an encoding error is lost", wr.loc())
    ab_ = db.find("StorageStreamSink::abort", crate=C)
    if rep.need(ab_, "StorageStreamSink::abort"):
        ss = sites_of(rep, db, ab_, "ObjectStore::delete_stream", "ObjectStoreExt::delete", "ObjectStore::delete")
        rep.floor("abort deletes", len(ss), 1)
        for s in sites_of(rep, db, ab_, "ObjectStore::list"):
            rep.ob("abort:scope", "prefix" in fields(s.args[1]), "aborting a stream deletes files of other streams", s.where())
    rd = db.find("StorageStreamManager::fetch_stream", crate=C)
    if rep.need(rd, "StorageStreamManager::fetch_stream"):
        read_rules(rep, db, rd)
    return rep


def read_rules(rep, db, rd):
    n = 0
    for g in inner_fns(db, rd):
        names = {short(p).split("::")[-1] for k, p in ip.fn_refs(g) if k == "call"}
        if g.kind == "coroutine" and "list" in names:
            an = rep.analyse(db, g, entry={"ev": {0}}, event=lambda s: [("ev", {1})], event_watch=lambda p, s: s.split("::")[-1].startswith("sort") or s.split("::")[-1] == "sorted")
            rs = ret_states(an, "+")
            n += 1
            rep.ob("read:sorted", rs and all(st.get(("s", "ev")) == {1} for _, st in rs), "the files of a stream are read in listing order", g.loc())
        if g.kind == "coroutine" and "get" in names:
            n += 1
            nxt = lambda e: unmut(e).op == "call" and short(e.a[0]) == "Iterator::next"
            rdn = lambda e: nxt(e) and "reader" in fields(e)
            lcn = lambda e: nxt(e) and "locations" in fields(e)
            an = rep.analyse(db, g, assume=[av(lcn, "+")])
            bad = [e for e, st in ret_states(an, "+") if variants_of(okval(e)) != {"Some"}]
            rep.ob("read:all-files", an.rets and not bad, "a stream can end before all of its files were read", g.loc())
            an = rep.analyse(db, g, assume=[av(lambda e: last_field(e) == "reader", "+"), av(rdn, "+"), av(lambda e: unmut(e).op in ("elem", "ok") and "reader" in fields(e) and not call_is("as_mut")(e) and last_field(e) != "reader" and has_next(e), "-")])
            rep.ob("read:error", an.rets and not ret_states(an, "+"), "a corrupt file is skipped silently", g.loc())
            for nm, c in (("get", "ObjectStoreExt::get"), ("decode", "StreamReader::try_new"), ("bytes", "GetResult::bytes")):
                an = rep.analyse(db, g, assume=[av(lambda e: last_field(e) == "reader", "-"), av(call_is(c), "-"), av(lcn, "+")])
                rep.ob(f"read:{nm}-error", an.rets and not ret_states(an, "+"), "an unreadable file is skipped silently", g.loc())
    rep.floor("storage readers", n, 2)


def ret_variants(an, pol="+"):
    """variants of the success payload over all returns"""
    vs = set()
    for e, st in ret_states(an, pol):
        v = variants_of(okval(e))
        vs |= v if v else {"?"}
    return vs


def okval(e):
    e = unmut(e)
    if e.op == "adt" and e.a[1] in ("Ok", "Some") and e.a[2]:
        return e.a[2][0][1]
    from sa.mir import simplify
    return simplify(mk("ok", e))


def has_next(e):
    return any(x.op == "call" and short(x.a[0]) in ("StreamExt::next", "TryStreamExt::try_next") for x in walk(e)) or any(
        x.op == "elem" for x in walk(e))


KEYF = ("job_id", "stage", "partition", "channel")


@prop("X07")
def job_output(rep):
    db = rep.db(C)
    f = db.find("JobOutputStream::poll_next", crate=C)
    rep.rule("output", "the result stream of a job adds the output of a task attempt only if no other attempt of the same task has produced rows, silences the older attempts then, fails when told so and ends only when the driver dropped it and every stream ended")
    if not rep.need(f, "JobOutputStream::poll_next"):
        return
    PUSH = ("SelectAll::push",)
    keyq = lambda a: [eqv(lambda e, n=n: last_field(e) == n, lambda e, n=n: last_field(e) == n) for n in a]
    cnt = lambda e: last_field(e) == "count"
    zero = lambda e: is_const(e, 0)
    conf = lambda p: short(p).endswith(("::conflicts_with", "::mute_if_needed", "::is_same_output"))
    an = rep.analyse(db, f, watch=shorts(*PUSH), entry={"mute": {0}}, event=lambda s: [("mute", {1})], event_watch=lambda p, s: False)
    rep.floor("task streams added", len(an.sites), 1)
    # same output, rows already produced
    noend = lambda k: frozenset([False]) if k[0] == "b" and "ended" in fields(k[1]) and has_call(k[1], "any") else None
    same = keyq(KEYF)
    one = num(cnt, 1)
    dead = [eqv(lambda e, n=n: last_field(e) == n, lambda e, n=n: last_field(e) == n and "ended" in fields(e)) for n in KEYF]
    live = [eqv(lambda e, n=n: last_field(e) == n and "ended" not in fields(e), lambda e, n=n: last_field(e) == n and "ended" not in fields(e)) for n in KEYF]
    el = lambda k: None
    ss = sites_of(rep, db, f, *PUSH, assume=live + [one, noend], nonempty=True, mixed=True)
    rep.ob("conflict:live", not ss, "an attempt is added although another one has already produced rows", f.loc())
    ss = sites_of(rep, db, f, *PUSH, assume=dead + [ac(cnt, zero, "="), av(lambda e: has_call(e, "lock") and "ended" in fields(e) and unmut(e).op == "call", "+")], nonempty=True, mixed=True)
    rep.ob("conflict:ended", not ss, "an attempt is added although another one that has ended produced rows", f.loc())
    for n in KEYF:
        asm = keyq([x for x in KEYF if x != n]) + [nev(lambda e: last_field(e) == n, lambda e: last_field(e) == n), ac(cnt, zero, ">"), av(lambda e: has_call(e, "lock") and "ended" in fields(e) and unmut(e).op == "call", "+")]
        ss = sites_of(rep, db, f, *PUSH, assume=asm, nonempty=True)
        rep.ob(f"distinct:{n}", bool(ss), f"outputs that differ in their {n} are taken for the same", f.loc())
        mm = rep.analyse(db, f, assume=asm, nonempty=True, assign_fields={"inner"}, assign=lambda s: variants_of(s.expr) == {"None"})
        rep.ob(f"distinct-mute:{n}", not mm.sites, f"the stream of another {n} is silenced", f.loc())
    ok = True
    an = rep.analyse(db, f, assume=live + [ac(cnt, zero, "="), noend], nonempty=True, entry={"mute": {0}}, watch=shorts(*PUSH), assign_fields={"inner"},
                     assign=lambda s: [("mute", {1})] if variants_of(s.expr) == {"None"} else None,
                     event_watch=lambda p, s: short(p) in ("Option::take", "mem::take", "mem::replace"), event=lambda s: [("mute", {1})] if s.args and last_field(s.args[0]) == "inner" else None)
    pushes = [s for s in an.sites if s.kind == "call"]
    rep.ob("older-muted", pushes and all(s.var("mute") == {1} for s in pushes), "the stream of an older attempt keeps delivering rows next to the newer one", f.loc())
    for s in pushes:
        rep.ob("push:key", any(x.op == "adt" and x.a[0].endswith("TaskStreamWrapper") for x in walk(s.args[1])) or has_call(s.args[1], "new"), "a stream is added without its key", s.where())
    item = lambda e: unmut(e).op in ("ok", "f") and has_call(e, "poll_recv") and unmut(e).op != "call"
    recv = lambda e: unmut(e).op == "call" and has_call(e, "poll_recv")
    st = lambda e: last_field(e) == "state" or has_call(e, "replace") and "state" in fields(e)
    ss = rep.analyse(db, f, adt_watch=lambda p, v: p.endswith("JobOutputState")).sites
    comp = [s for s in ss if s.expr.a[1] == "Completed"]
    rep.floor("completion", len(comp), 1)
    inner = lambda e: has_call(e, "poll_next") and unmut(e).op != "f"
    for s in comp:
        rep.ob("completed:draining", s.has_variant(lambda e: st(e) and unmut(e).op != "call", {"Draining"}) or any(vs <= {"Draining"} for e, vs in s.variants(lambda e: "state" in fields(e))),
               "the output can end although the driver may still add streams", s.where())
    ready_none = lambda e: unmut(e).op == "adt" and unmut(e).a[1] == "Ready" and variants_of(unmut(e).a[2][0][1]) != {"Some"}
    an = rep.analyse(db, f, assume=[av(lambda e: last_field(e) == "state", "Active")])
    rep.ob("active:open", an.rets and not any(ready_none(e) for e, _ in an.rets), "the output ends although the driver may still add streams", f.loc())
    bad = lambda e: not (unmut(e).op == "adt" and unmut(e).a[1] == "Ready" and any(x.op == "adt" and x.a[1] == "Err" for x in walk(e)))
    an = rep.analyse(db, f, assume=[av(lambda e: has_call(e, "poll_recv"), "+", "Error")])
    er = [(e, st) for e, st in an.rets if any((k[-1] if k[0] == "stale" else k)[0] == "v" and "Error" in v for k, v in st.items() if k[0] in ("v", "stale"))]
    rep.ob("error:reported", er and not any(bad(e) for e, _ in er), "the failure of a job does not reach the reader of its output", f.loc())
    g = db.find("TaskStreamWrapper::poll_next", crate=C)
    rep.rule("count", "the rows of every batch of an attempt are counted, and an attempt that ended with rows is remembered")
    if rep.need(g, "TaskStreamWrapper::poll_next"):
        innr = lambda e: last_field(e) == "inner"
        isok = lambda e: unmut(e).op in ("ok", "as", "f", "elem") and has_call(e, "poll_next")
        asg = []
        an = rep.analyse(db, g, assign_fields={"count"}, assign=lambda s: True)
        rep.floor("row counting", len(an.sites), 1)
        for s in an.sites:
            rep.ob("count:rows", any(x.op == "bin" and x.a[0].startswith("Add") and has_call(x, "num_rows") and "count" in fields(x) for x in walk(s.expr)), "the rows of a batch are not added to the count", s.where())
            rep.ob("count:guards", not s.cmps(lambda e: True, lambda e: True), "the rows of some batches are not counted", s.where())
        ss = sites_of(rep, db, g, "Vec::push", "HashSet::insert", assume=[ac(cnt, zero, "=")])
        rep.ob("ended:empty", not ss, "an attempt without rows blocks its successor", g.loc())
        ss = sites_of(rep, db, g, "Vec::push", "HashSet::insert", assume=[ac(cnt, zero, ">")])
        rep.ob("ended:recorded", ss and all("key" in fields(s.args[1]) for s in ss), "an attempt that ended with rows is forgotten", g.loc())
    h = db.find("build_job_output", crate=C)
    rep.rule("end", "a job is cleaned up exactly when its output ended or its consumer went away, and an item is handed on before the next is taken")
    if rep.need(h, "build_job_output"):
        n = 0
        for k in inner_fns(db, h):
            if k.kind != "coroutine":
                continue
            an = rep.analyse(db, k, adt_watch=lambda p, v: v == "CleanUpJob", adt_event=lambda s: [("ev", {1})], entry={"ev": {0}})
            if not an.sites:
                continue
            n += 1
            rep.ob("end:cleanup", an.rets and all(x.get(("s", "ev")) == {1} for _, x in an.rets), "the output of a job can end without the job being cleaned up", k.loc())
            for s in an.sites:
                rep.ob("end:job", any(x.op in ("arg", "up", "argof") and "job_id" in str(x) for x in walk(s.expr)), "another job is cleaned up", s.where())
            sel = lambda e: unmut(e).op == "await" and call_is("poll_fn")(e)
            more = [av(lambda e: not sel(e) and not has_call(e, "send") and (has_call(e, "poll_fn") or NEXT(e)), "+"),
                    av(lambda e: has_call(e, "send"), "+"), ab(lambda e: has_call(e, "is_err"), False), ab(lambda e: has_call(e, "is_ok"), True)]
            go = []
            for arm in ("_0", "_1", "_2"):
                an = rep.analyse(db, k, assume=more + [av(sel, arm)], watch=shorts("Sender::send"))
                if not an.rets and any(s.short == "Sender::send" and any(has_call(a, "poll_fn") or has_next(a) for a in s.args[1:]) for s in an.sites):
                    go.append(arm)
            rep.ob("end:all", bool(go), "the output of a job can stop although its stream has more batches and the consumer takes them", k.loc())
        rep.floor("output pump", n, 1)
    rep.rule("extend", "the output of the final tasks is added to the job output once per attempt, for attempts that run or have succeeded only, and for every channel")
    u = db.find("JobScheduler::refresh_job", crate=C)
    if rep.need(u, "JobScheduler::refresh_job"):
        an = rep.analyse(db, u, adt_watch=lambda p, v: v == "ExtendJobOutput", assign_fields={"job_output_fetched"}, assign=lambda s: [("f", {1})], entry={"f": {0}},
                         adt_event=None)
        n = 0
        from .execution import is_task_state
        for s in an.sites:
            if s.kind != "adt":
                continue
            n += 1
            rep.ob("extend:once", s.has_bool(lambda e: last_field(e) == "job_output_fetched", False), "the output of an attempt can be added twice", s.where())
            rep.ob("extend:state", s.has_variant(is_task_state, {"Running", "Succeeded"}), "the output of an attempt that does not run is added", s.where())
        rep.floor("output extensions", n, 1)
        for s in an.sites:
            if s.kind == "assign":
                rep.ob("extend:mark", is_const(s.expr, "true"), "an attempt whose output was added is not marked", s.where())
        rep.floor("output marks", sum(s.kind == "assign" for s in an.sites), 1)
