"""Spark Connect operations: what is sent to the client, what is kept for a client that comes back"""
from sa.mir import walk, unmut, short, show
from . import prop
from ._h import *
from .delta import LOSSY, hot
from .streams import ret_variants, okval

C = "sail_spark_connect"
OP = call_is("ExecutorTaskContext::next")
ITEM = lambda e: unmut(e).op == "ok" and OP(unmut(e).a[0])           # what the operation did next
DATA = lambda e: isinstance(last_field(e), str) and ITEM(unmut(e).a[0].a[0] if unmut(e).op == "f" and unmut(unmut(e).a[0]).op == "as" else e) and unmut(e).op == "f"
OUT = lambda p: ("ExecutorTaskContext" in p and p.endswith("::next")) or "ExecutorBuffer" in p or p.endswith(("to_arrow_batch", "to_spark_schema"))
has = lambda e, v: any(x.op == "adt" and x.a[1] == v for x in walk(e))
of_item = lambda e: any(ITEM(x) for x in walk(e))
state_in = lambda e: unmut(e).op == "f" and last_field(e) == "state"


def reversed_in(db, *fs):
    """is anything iterated backwards in these functions"""
    return any(p is not None and name(short(p)) in ("rev", "rposition", "rfold", "sort_by", "sort_by_key", "sort", "reverse") for f in fs for g in [f] + inner_fns(db, f) for _, p, _, _ in g.calls())


def sent(e):
    """what a message of the response channel carries: (is it a success, payload)"""
    e = unmut(e)
    if e.op == "adt" and e.a[1] in ("Ok", "Err") and e.a[2]:
        return e.a[1] == "Ok", e.a[2][0][1]
    return None, e


def replayed(e):
    return any(x.op == "elem" and has_call(x, "outputs") for x in walk(e))


REAT = lambda e: unmut(e).op in ("up", "arg") and str(unmut(e).a[-1]).endswith("reattachable")
complete = lambda e: has_call(e, "complete") or has(e, "Complete")


@prop("S01")
def produce(rep):
    db = rep.db(C)
    rep.rule("produce", "an operation first sends again what the client has not received; it keeps every output before it sends it; it sends or collects every batch of its plan, in order, before it takes the next one; "
             "it ends with the completion message, and only when its plan has ended without an error")
    f = co(db, "Executor::run_internal", crate=C)
    if not rep.need(f, "Executor::run_internal"):
        return
    kw = dict(skip=OUT)
    send = lambda s: name(s.short) == "send" and s.kind == "call" and len(s.args) == 2
    ss = [s for s in sites_of(rep, db, f, "send", **kw) if send(s)]
    rep.floor("sends", len(ss), 6)
    for s in ss:
        ok, x = sent(s.args[1])
        rep.ob("send:success", ok is True, "a message that is not an output is sent", s.where())
    # kept before it is sent: also what makes it safe to stop the operation at any point where it waits
    def ev(s):
        if name(s.short) == "add" and len(s.args) == 2:
            return [("kept", {str(unmut_all(s.args[1]))})]
        if send(s):
            return [("kept", {""})]
        if name(s.short) == "outputs":
            return [("first", {1})]
    an = rep.analyse(db, f, event=ev, event_watch=hot("add", "send", "outputs"), watch=shorts("send", "ExecutorTaskContext::next"), entry={"kept": {""}, "first": {0}}, **kw)
    new = 0
    for s in an.sites:
        if not send(s):
            rep.ob("replay:first", s.var("first") == {1}, "the operation continues before the outputs that the client has not received are looked at", s.where())
            continue
        x = sent(s.args[1])[1]
        rep.ob("replay:before", s.var("first") == {1}, "a new output is sent before the outputs that the client has not received", s.where())
        if replayed(x):
            rep.ob("replay:same", unmut(x).op == "elem", "an output that is sent again is not the one that was kept", s.where())
            continue
        new += 1
        rep.ob("kept", s.var("kept") == {str(unmut_all(x))}, "an output is sent that was not kept before", s.where())
    rep.floor("new outputs", new, 5)
    each(rep, db, f, lambda e: has_call(e, "outputs"), lambda s: send(s) and replayed(s.args[1]), hot("send"), "replay:all", "an output that the client has not received is not sent again", **kw)
    c = [s for s in sites_of(rep, db, f, "outputs", **kw)]
    lossy = sorted({name(short(x.a[0])) for s in ss if replayed(s.args[1]) for x in walk(s.args[1]) if x.op == "call" and name(short(x.a[0])) in LOSSY + ("rev", "sorted")})
    rep.ob("replay:lossless", not lossy, f"the outputs to send again go through {lossy}", f.loc())
    rep.ob("replay:order", not reversed_in(db, f), "outputs are sent in another order", f.loc())
    unreachable(rep, db, f, ("ExecutorTaskContext::next", "complete"), [av(lambda e: call_is("outputs")(e), "-")], "replay:lost", "the operation continues although outputs have been lost", **kw)

    for v in ("Query", "Command"):
        mode = [av(state_in, v)]
        # every batch is sent (kept and then sent) or collected before the operation goes on
        def ev2(s, v=v):
            if OP_SITE(s):
                return [("owed", {1})]
            if v == "Query" and name(s.short) == "add" and has(s.args[1], "ArrowBatch") and of_item(s.args[1]):
                return [("owed", {0})]
            if v == "Command" and name(s.short) in ("push", "extend", "push_back") and of_item(s.args[-1]) and "batches" in fields(s.args[0]):
                return [("owed", {0})]
        base = mode + [av(ITEM, "Batch"), av(DATA, "+")]
        an = rep.analyse(db, f, assume=base, event=ev2, event_watch=hot("next", "add", "push", "extend", "push_back"), watch=shorts("next", "send", "complete"), entry={"owed": {0}}, **kw)
        n = 0
        for s in an.sites:
            if OP_SITE(s):
                n += 1
            elif not send(s):
                continue
            rep.ob(f"{v}:batch", s.var("owed") == {0}, "a batch of the plan is not sent" if v == "Query" else "a batch of the plan is not collected", s.where())
        rep.floor(f"{v}: steps", n, 1)
        rep.ob(f"{v}:ends", not any(complete(s.args[1]) for s in an.sites if send(s)), "the completion message is sent although the plan has not ended", f.loc())
        rep.ob(f"{v}:returns", not ret_states(an, "+"), "the operation ends although the plan has not ended", f.loc())
        # the end of the plan is what the operation saw last
        over = lambda st: any(k[0] == "v" and ITEM(k[1]) and vs <= {"Batch"} for k, vs in st.items()) and any(k[0] == "v" and DATA(k[1]) and vs <= {"-"} for k, vs in st.items())
        an2 = rep.analyse(db, f, assume=mode, watch=shorts("complete"), **kw)
        for st, w in [(s.state, s.where()) for s in an2.sites] + [(st, f.loc()) for _, st in ret_states(an2, "+")]:
            rep.ob(f"{v}:over", over(st), "the operation can end before its plan has ended", w)
        if v == "Command":
            cut = [s for s in rep.analyse(db, f, assume=mode, watch=lambda p, s: name(s) in LOSSY + ("clear", "remove", "swap_remove", "swap"), **kw).sites if s.kind == "call" and s.short != "mem::take" and "batches" in fields(s.args[0])]
            rep.ob("Command:batches", not cut, "batches that were collected are dropped", cut[0].where() if cut else f.loc())
        if v == "Query":
            for s in an.sites:
                if send(s) and of_item(s.args[1]):
                    lost = [name(short(x.a[0])) for x in walk(s.args[1]) if x.op == "call" and name(short(x.a[0])) in ("slice", "project", "new_empty", "filter", "take")]
                    rep.ob("Query:whole", has_call(s.args[1], "to_arrow_batch") and not lost, "something else than the batch is sent", s.where())
        an = rep.analyse(db, f, assume=mode + [av(ITEM, "Heartbeat")], watch=shorts("send"), **kw)
        rep.ob(f"{v}:heartbeat", not ret_states(an, "+") and not any(complete(s.args[1]) for s in an.sites if send(s)), "the operation ends while its plan is still running", f.loc())
        for key, a, msg in (("error", [av(OP, "-")], "an error of the plan"), ("send-error", [av(call_is("Sender::send"), "-")], "an output that was not sent")):
            an = rep.analyse(db, f, assume=mode + a + [ab(REAT, True)], watch=shorts("complete"), **kw)
            rep.ob(f"{v}:{key}", not ret_states(an, "+") and (key == "send-error" or not an.sites), f"the operation completes in spite of {msg}", f.loc())
        end = mode + [av(ITEM, "Batch"), av(DATA, "-")]
        for r in (True, False):
            asm = end + [ab(REAT, r)]
            done, n = must_event(rep, db, f, lambda s: send(s) and complete(s.args[1]), assume=asm, hotp=hot("send"), **kw)
            if r:
                rep.ob(f"{v}:complete", done, "a reattachable operation ends without the completion message", f.loc())
            else:
                an = rep.analyse(db, f, assume=asm, watch=shorts("send"), **kw)
                rep.ob(f"{v}:no-complete", bool(ret_states(an, "+")) and not any(complete(s.args[1]) for s in an.sites), "the completion message is sent for an operation that cannot be reattached to", f.loc())
        # nothing comes after it
        an = rep.analyse(db, f, assume=mode, event=lambda s: [("c", {1})] if send(s) and complete(s.args[1]) else None, event_watch=hot("send"), watch=shorts("send", "next"), entry={"c": {0}}, **kw)
        for s in an.sites:
            if send(s) or OP_SITE(s):
                rep.ob(f"{v}:last", s.var("c") == {0}, "the operation goes on after the completion message", s.where())
    # the schema comes before the data
    an = rep.analyse(db, f, assume=[av(state_in, "Query")], event=lambda s: [("sc", {1})] if send(s) and has(s.args[1], "Schema") else None, event_watch=hot("send"), watch=shorts("send"), entry={"sc": {0}}, **kw)
    for s in an.sites:
        if send(s) and has(s.args[1], "ArrowBatch"):
            rep.ob("schema", s.var("sc") == {1}, "data is sent before the schema", s.where())
    # the result of a command
    cm = [av(state_in, "Command"), av(ITEM, "Batch"), av(DATA, "-")]
    comp = lambda e: "completion" in fields(e)
    an = rep.analyse(db, f, assume=cm, watch=shorts("send"), **kw)
    rs = [s for s in an.sites if send(s) and comp(s.args[1])]
    rep.floor("result of a command", len(rs), 1)
    done, n = must_event(rep, db, f, lambda s: send(s) and comp(s.args[1]), assume=cm + [av(lambda e: comp(e) and unmut(e).op != "f", "+")], hotp=hot("send"), **kw)
    rep.ob("result:sent", done, "the result of a command is not sent", f.loc())
    an = rep.analyse(db, f, assume=cm + [av(lambda e: comp(e) and unmut(e).op == "call", "-")], watch=shorts("complete"), **kw)
    rep.ob("result:error", not ret_states(rep.analyse(db, f, assume=cm + [av(lambda e: comp(e) and call_is("Option::transpose")(e), "-")], **kw), "+"), "a command whose completion failed is reported as completed", f.loc())
    took = [(g, b, t) for g in [f] + inner_fns(db, f) for b, p, gg, t in g.calls() if p is not None and name(short(p)) in ("call_once", "call")
            for a in [g.call_at(b)] if any("batches" in fields(x) or "batches" in str(x)[-40:] for x in a.a[1])]
    rep.floor("completion over the batches", len(took), 1)


OP_SITE = lambda s: s.kind == "call" and s.short.endswith("ExecutorTaskContext::next")


@prop("S01")
def steps(rep):
    db = rep.db(C)
    rep.rule("step", "one step of an operation is a batch of its plan, the end of its plan, its error, or a heartbeat, and nothing is taken from the plan that is not returned")
    f = co(db, "ExecutorTaskContext::next", crate=C)
    if not rep.need(f, "ExecutorTaskContext::next"):
        return
    an = rep.analyse(db, f)
    vs = {}
    for e, st in ret_states(an, "+"):
        v = okval(e)
        for x in alts(an, v):
            x = unmut(x)
            if x.op != "adt":
                rep.ob("value", False, f"a step is {show(x, 3)}", f.loc())
                continue
            vs[x.a[1]] = x
    rep.ob("kinds", set(vs) == {"Batch", "Heartbeat"}, f"a step is one of {sorted(vs)}", f.loc())
    if "Batch" in vs:
        x = vs["Batch"].a[2][0][1]
        bad = [name(short(y.a[0])) for y in walk(x) if y.op == "call" and name(short(y.a[0])) in ("ok", "unwrap_or", "unwrap_or_default", "and", "or", "filter", "and_then", "or_else")]
        rep.ob("batch", not bad and unmut(x).op == "ok" and not has(x, "None"), f"the batch of a step is {show(x, 4)}", f.loc())
    fut = [s for s in sites_of(rep, db, f, "StreamExt::next", "TryStreamExt::try_next")]
    rep.floor("the plan is asked", len(fut), 1)
    for e, st in ret_states(an, "-"):
        rep.ob("error", any(x.op in ("residual", "err") for x in walk(e)), "a step fails for another reason than its plan", f.loc())
    rep.ob("error:kept", bool(ret_states(an, "-")), "an error of the plan is not returned", f.loc())

    rep.rule("run", "an operation is completed only when it ran to its end; its error is sent to the client and it is then failed; when the client is gone or it is told to pause it keeps everything it needs to continue")
    g = co(db, "Executor::run", crate=C)
    if rep.need(g, "Executor::run"):
        SK = lambda p: p.endswith("run_internal") or "run_internal::" in p
        out = lambda e: unmut(e).op == "f" and isinstance(unmut(e).a[-1], (str, int)) and unmut(unmut(e).a[0]).op == "as" and unmut(unmut(e).a[0]).a[1] == "_0"
        sel = lambda e: unmut(e).op == "await" and has_call(e, "poll_fn")
        for key, asm, want in (("done", [av(sel, "_0"), av(out, "+")], {"Completed"}), ("gone", [av(sel, "_0"), av(out, "-"), av(lambda e: unmut(e).op == "err" and out(unmut(e).a[0]), "SendError")], {"Paused"}),
                               ("failed", [av(sel, "_0"), av(out, "-"), av(lambda e: unmut(e).op == "err" and out(unmut(e).a[0]), "DataFusionError")], {"Failed"}), ("paused", [av(sel, "_1")], {"Paused"})):
            an = rep.analyse(db, g, assume=asm, watch=shorts("send"), skip=SK)
            vs = set()
            for e, st in an.rets:
                for x in alts(an, e):
                    v = variants_of(x)
                    vs |= v or {"?"}
                    if v == {"Paused"}:
                        rep.ob("paused:context", "context" in str(x) and not any(y.op == "adt" and "ExecutorTaskContext" in str(y.a[0]) for y in walk(x)), "an operation is paused with something else than its own context", g.loc())
            rep.ob(f"run:{key}", vs == want, f"an operation that is {key} ends as {sorted(vs)}", g.loc())
            errs_ = [s for s in an.sites if s.kind == "call" and len(s.args) == 2 and sent(s.args[1])[0] is False]
            if key == "failed":
                done, n = must_event(rep, db, g, lambda s: s.kind == "call" and len(s.args) == 2 and sent(s.args[1])[0] is False and any(x.op == "err" for x in walk(s.args[1])), assume=asm, pol=None, hotp=hot("send"), skip=SK)
                rep.ob("run:error-sent", done, "an error of an operation is not sent to the client", g.loc())
            else:
                rep.ob(f"run:{key}:no-error", not errs_, f"an operation that is {key} reports an error", g.loc())
        ss = [(p, b) for h in inner_fns(db, g) + [g] for b, p, gg, t in h.calls() if p is not None and p.endswith("run_internal")]
        rep.floor("run_internal", len(ss), 1)


@prop("S01")
def buffer(rep):
    db = rep.db(C)
    rep.rule("buffer", "the outputs of an operation are kept in order until the client has released them; when one had to be dropped before that, it is an error to send the others as if they were all")
    f = db.find("ExecutorBuffer::add", crate=C)
    if rep.need(f, "ExecutorBuffer::add"):
        cap0 = num(lambda e: last_field(e) == "capacity", 0)
        capn = num(lambda e: last_field(e) == "capacity", 4)
        INNER = lambda s: s.kind == "call" and s.args and last_field(s.args[0]) == "inner"
        done, n = must_event(rep, db, f, lambda s: INNER(s) and name(s.short) == "push_back" and s.args[1].op in ("arg", "mut") and arg_is(2)(unmut(s.args[1])), assume=[capn], pol=None, hotp=hot("push_back"))
        rep.ob("add:kept", done, "an output is not kept", f.loc())
        rem = lambda s: INNER(s) and name(s.short) in LOSSY + ("pop_front", "pop_back", "clear", "remove", "swap_remove_back", "swap_remove_front")
        ss = [s for s in rep.analyse(db, f, watch=lambda p, s: name(s) in LOSSY + ("pop_front", "pop_back", "clear", "remove")).sites if rem(s)]
        for s in ss:
            rep.ob("add:oldest", name(s.short) == "pop_front", "an output that is not the oldest one is dropped", s.where())
        ln = lambda e: call_is("len")(e) and "inner" in fields(e)
        # below the capacity nothing is dropped
        an = rep.analyse(db, f, assume=[ac(ln, lambda e: last_field(e) == "capacity", "<")], watch=lambda p, s: name(s) in LOSSY + ("pop_front", "pop_back", "clear", "remove"))
        rep.ob("add:room", not [s for s in an.sites if rem(s)], "an output is dropped although there is room", f.loc())
        # what is dropped is remembered
        an = rep.analyse(db, f, event=lambda s: [("d", {1})] if rem(s) else None, event_watch=hot("pop_front", "pop_back", "clear", "remove", "drain", "truncate"), entry={"d": {0}},
                         assign_fields={"dropped"}, assign=lambda s: [("d", {0})] if not (unmut(s.expr).op == "adt" and unmut(s.expr).a[1] == "None") else None)
        rep.ob("add:remembered", bool(an.rets) and all(st.get(("s", "d"), {0}) == {0} for _, st in an.rets), "an output is dropped without a trace", f.loc())
        rep.floor("drops", len(ss), 0)
    f = db.find("ExecutorBuffer::remove_until", crate=C)
    if rep.need(f, "ExecutorBuffer::remove_until"):
        W = lambda p, s: name(s) in LOSSY + ("pop_front", "pop_back", "clear", "remove", "split_off")
        pos = lambda e: call_is("position")(e) or call_is("rposition")(e)

        def upto(r):
            """the range from the first element to the position (0..=index, ..=index, 0..index + 1, ..index + 1)"""
            fr = [x for x in walk(r) if x.op == "call" and short(x.a[0]) == "RangeInclusive::new"]
            if fr:
                return str(fr[0].a[1][0]).startswith("0") and unmut(fr[0].a[1][1]).op == "ok" and pos(unmut(unmut(fr[0].a[1][1]).a[0]))
            if r.op != "adt":
                return False
            d = dict((k, v) for k, v in r.a[2])
            st, en = d.get("start"), d.get("end")
            if en is None or not (st is None or is_const(st, 0) or str(st).startswith("0")):
                return False
            return unmut(en).op == "ok" and pos(unmut(unmut(en).a[0])) if "Inclusive" in str(r.a[0]) else is_add(en, lambda e: unmut(e).op == "ok" and pos(unmut(unmut(e).a[0])), 1)
        an = rep.analyse(db, f, watch=W)
        ss = [s for s in an.sites if s.kind == "call" and last_field(s.args[0]) == "inner"]
        rep.floor("release", len(ss), 1)
        for s in ss:
            if name(s.short) == "drain":
                r = unmut(s.args[1])
                rep.ob("release:range", upto(r), "the outputs that are released are not those up to the one that was received", s.where())
            else:
                # (one after the other, as many as there are up to the one that was received)
                rs = [unmut(x) for q in sites_of(rep, db, f, "Iterator::next") if q.kind == "call" for x in walk(q.args[0]) if unmut(x).op == "adt" and "Range" in str(unmut(x).a[0])]
                rep.ob("release:how", name(s.short) == "pop_front" and any(upto(r) for r in rs), "outputs are released in another way", s.where())
        an = rep.analyse(db, f, assume=[av(pos, "-")], watch=W)
        rep.ob("release:unknown", not [s for s in an.sites if s.kind == "call" and last_field(s.args[0]) == "inner"], "outputs are released for a response that is not known", f.loc())
        done, n = must_event(rep, db, f, lambda s: name(s.short) in ("drain", "pop_front"), assume=[av(pos, "+")], pol=None, hotp=hot("drain", "pop_front"), nonempty=True)
        rep.ob("release:done", done, "outputs that were received are not released", f.loc())
        for s in ss:
            for x in walk(s.args[-1]):
                if pos(x) and unmut(x).op == "call" and len(unmut(x).a[1]) > 1 and unmut(unmut(x).a[1][1]).op == "clo":
                    t = {}
                    for want in ("=", "<>"):
                        t[want] = clo_truth(rep, db, unmut(unmut(x).a[1][1]), [None, None], [ac(lambda e: last_field(e) == "id", lambda e: last_field(e) != "id", want)])
                    rep.ob("release:id", t == {"=": {True}, "<>": {False}}, "the response that was received is not found by its id", s.where())
        # a gap is closed only by the client having received what comes after it, or the output that was dropped
        an = rep.analyse(db, f, assume=[av(pos, "-"), nev(lambda e: "dropped" in fields(e), lambda e: not "dropped" in fields(e))], assign_fields={"dropped"}, assign=lambda s: [("g", {1})])
        rep.ob("release:gap", not [s for s in an.sites if s.kind == "assign"], "outputs that were dropped are forgotten although the client has not received them", f.loc())
    f = db.find("ExecutorBuffer::outputs", crate=C)
    if rep.need(f, "ExecutorBuffer::outputs"):
        dr = lambda e: last_field(e) == "dropped"
        an = rep.analyse(db, f, assume=[av(dr, "+")])
        rep.ob("outputs:gap", not ret_states(an, "+"), "outputs are sent again although one before them was dropped", f.loc())
        an = rep.analyse(db, f, assume=[av(dr, "-")])
        rs = ret_states(an, "+")
        rep.ob("outputs:order", not reversed_in(db, f), "outputs are sent again in another order", f.loc())
        rep.ob("outputs:some", bool(rs), "outputs are never sent again", f.loc())
        for e, st in rs:
            bad = sorted({name(short(x.a[0])) for x in walk(e) if x.op == "call" and name(short(x.a[0])) in LOSSY + ("rev",)})
            rep.ob("outputs:all", not bad and "inner" in {y for x in walk(e) for y in fields(x)}, f"not all outputs are sent again, in order ({bad})", f.loc())


@prop("S01")
def lifecycle(rep):
    db = rep.db(C)
    rep.rule("state", "an operation is run by one task at a time; what it has produced survives every change of its state, and a failed or busy operation is never presented as a complete one")
    LK = lambda e: unmut(e).op == "ok" and call_is("Mutex::lock")(unmut(e).a[0]) and last_field(unmut(unmut(e).a[0]).a[1][0]) == "state"
    f = db.find("Executor::start", crate=C)
    ev = lambda s: [("w", {0})] if name(s.short) in ("replace", "take") else None
    SK = lambda p: "Executor::run" in p or "ExecutorBuffer" in p
    ST = {"Pending": "Running", "Completed": "Completed", "Failed": "Failed", "Idle": "Idle", "Running": "Running", "Pausing": "Pausing"}
    if rep.need(f, "Executor::start"):
        rep.ob("start:order", not reversed_in(db, f), "outputs are sent in another order", f.loc())
        for v, after in ST.items():
            an = rep.analyse(db, f, assume=[av(LK, v)], watch=shorts("spawn"), event=ev, event_watch=hot("replace", "take"), entry={"w": {1}}, assign_fields={"*lock"}, assign=lambda s: [("w", {1})], skip=SK)
            sp = [s for s in an.sites if s.kind == "call"]
            rep.ob(f"start:{v}:task", bool(sp) == (v == "Pending"), f"an operation that is {v} is {'not ' if v == 'Pending' else ''}run", f.loc())
            ok = ret_states(an, "+")
            rep.ob(f"start:{v}:result", bool(ok) == (v in ("Pending", "Completed")), f"starting an operation that is {v} {'fails' if not ok else 'succeeds'}", f.loc())
            asg = [s for s in an.sites if s.kind == "assign"]
            locked = [(e, st) for e, st in an.rets if any(k[0] == "v" and LK(k[1]) for k in st)]
            # (a poisoned lock means that a thread panicked while it held it)
            locked = [(e, st) for e, st in locked if not any(k[0] == "v" and call_is("Mutex::lock")(k[1]) and vs <= {"-"} for k, vs in st.items())]
            rep.ob(f"start:{v}:restored", bool(locked) and all(st.get(("s", "w")) == {1} for _, st in locked), f"the state of an operation that was {v} is lost", f.loc())
            for s in asg:
                vs = {v} if LK(s.expr) else (variants_of(s.expr) or {"?"})
                rep.ob(f"start:{v}:after", vs == {after}, f"an operation that was {v} becomes {sorted(vs)}", s.where())
                x = unmut(s.expr)
                if after in ("Running", "Completed") and x.op == "adt":
                    rep.ob(f"start:{v}:buffer", "buffer" in {z for y in walk(x) for z in fields(y)} and not has_call(x, "ExecutorBuffer::new"), "the outputs of an operation are lost", s.where())
            if v == "Completed":
                for e, st in ok:
                    bad = sorted({name(short(x.a[0])) for x in walk(e) if x.op == "call" and name(short(x.a[0])) in LOSSY + ("rev", "empty")})
                    rep.ob("start:Completed:outputs", has_call(e, "outputs") and not bad, "the kept outputs of a completed operation are not what is sent", f.loc())
                an2 = rep.analyse(db, f, assume=[av(LK, v), av(call_is("outputs"), "-")], skip=SK)
                rep.ob("start:Completed:gap", not ret_states(an2, "+"), "a completed operation whose outputs were lost is presented as complete", f.loc())
    f = co(db, "Executor::pause_if_running", crate=C)
    if rep.need(f, "Executor::pause_if_running"):
        han = lambda e: any("handle" in fields(x) for x in walk(e))
        JOIN = lambda e: unmut(e).op == "await" and han(e)
        RES = lambda e: unmut(e).op == "ok" and JOIN(unmut(e).a[0])
        for v in ST:
            an = rep.analyse(db, f, assume=[av(LK, v)], event=lambda s: [("w", {0})] if name(s.short) in ("replace", "take") else None, event_watch=hot("replace", "take"), watch=shorts("send"), entry={"w": {1}},
                             assign_fields={"*lock"}, assign=lambda s: [("w", {1})])
            if v != "Running":
                locked = [(e, st) for e, st in an.rets if any(k[0] == "v" and LK(k[1]) for k in st)]
                rep.ob(f"pause:{v}", bool(locked) and all(st.get(("s", "w")) == {1} for _, st in locked) and not [s for s in an.sites if s.kind == "call"], f"the state of an operation that was {v} is lost", f.loc())
                for s in an.sites:
                    if s.kind == "assign":
                        rep.ob(f"pause:{v}:same", LK(s.expr), f"pausing changes the state of an operation that is {v}", s.where())
        run = [av(lambda e: LK(e) and str(e).count("lock") == 1, "Running")]
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "send" and any("notifier" in fields(x) for x in walk(s.args[0])), assume=run, hotp=hot("send"))
        rep.ob("pause:told", done, "a running operation is not told to pause", f.loc())
        for r, after in (("Paused", "Pending"), ("Completed", "Completed"), ("Failed", "Failed")):
            an = rep.analyse(db, f, assume=run + [av(RES, r)], assign_fields={"*lock"}, assign=lambda s: [("w", variants_of(s.expr) or {"?"})], entry={"w": {""}})
            ok = ret_states(an, "+")
            last = [s for s in an.sites if s.kind == "assign" and not LK(s.expr) and "Pausing" not in (variants_of(s.expr) or ())]
            rep.floor(f"state after {r}", len(last), 1)
            for s in last:
                # (facts of the state at the assignment choose the alternative)
                xs = [unmut(x) for x in alts(an, s.expr)]
                mine = [x for x in xs if x.op == "adt" and x.a[1] == after]
                rep.ob(f"pause:{r}:possible", bool(mine), f"an operation whose task is {r} does not become {after}", s.where())
                for x in mine:
                    what = {"Pending": lambda y: y.op == "as" and y.a[1] == "Paused", "Completed": lambda y: "buffer" in fields(y), "Failed": lambda y: y.op == "as" and y.a[1] == "Failed"}[after]
                    rep.ob(f"pause:{r}:keeps", any(what(y) for y in walk(x)) and not has_call(x, "ExecutorBuffer::new"), f"an operation whose task is {r} loses what it needs to continue", s.where())
            sts = rep.analyse(db, f, assume=run + [av(RES, r)], adt_watch=lambda p, v: p.endswith("ExecutorState") and v in ("Pending", "Completed", "Failed")).sites
            vs = {unmut(s.expr).a[1] for s in sts if s.kind == "adt"}
            rep.ob(f"pause:{r}", vs == {after} and bool(ok), f"an operation whose task is {r} becomes {sorted(vs)}", f.loc())
        an = rep.analyse(db, f, assume=run + [av(JOIN, "-")])
        rep.ob("pause:lost", not ret_states(an, "+"), "an operation whose task died is paused", f.loc())
    f = db.find("Executor::release", crate=C)
    if rep.need(f, "Executor::release"):
        for v in ("Pending", "Running", "Completed"):
            done, n = must_event(rep, db, f, lambda s: name(s.short) == "remove_until" and arg_is(2)(unmut(s.args[1])), assume=[av(LK, v)], hotp=hot("remove_until"), skip=SK)
            rep.ob(f"release:{v}", done, f"the outputs that the client received from an operation that is {v} are not released", f.loc())


RID = lambda v: av(lambda e: unmut(e).op == "up" and str(unmut(e).a[-1]).endswith("response_id"), v)


@prop("S01")
def service(rep):
    db = rep.db(C)
    rep.rule("service", "a client can reattach only to a reattachable operation that it finds by its id; the operation is stopped before it goes on, without the outputs that the client says it received; every operation is registered before its responses are returned")
    SK = lambda p: "Executor::" in p or "SparkSession::" in p or "resolve_and_execute_plan" in p or "JobRunner" in p
    f = co(db, "handle_reattach_execute", crate=C)
    ref = lambda e: last_field(e) == "reattachable"
    ACT = ("pause_if_running", "release", "start", "remove_executor")
    if rep.need(f, "handle_reattach_execute"):
        an = rep.analyse(db, f, assume=[ab(ref, False)], watch=shorts(*ACT), skip=SK)
        rep.ob("reattach:reattachable", not ret_states(an, "+") and not an.sites, "an operation that is not reattachable is reattached to", f.loc())
        unreachable(rep, db, f, ("start",), [av(call_is("pause_if_running"), "-")], "reattach:pause-error", "an operation is started although it could not be stopped", skip=SK)
        unreachable(rep, db, f, ("start",), [av(call_is("Executor::release"), "-"), RID("+")], "reattach:release-error", "an operation is started although the received outputs could not be released", skip=SK)
        nf = rep.analyse(db, f, assume=[av(call_is("get_executor"), "+"), av(lambda e: unmut(e).op == "ok" and call_is("get_executor")(unmut(e).a[0]), "-")], watch=shorts(*ACT), skip=SK)
        rep.ob("reattach:unknown", not ret_states(nf, "+"), "an unknown operation is reattached to", f.loc())
        an = rep.analyse(db, f, assume=[RID("+")], watch=shorts("start", "release"), skip=SK, entry={"p": {0}, "r": {0}},
                         event=lambda s: [("p", {1})] if name(s.short) == "pause_if_running" else [("r", {1})] if any("response_id" in str(x) for x in walk(s.args[-1])) else None, event_watch=hot("pause_if_running", "release"))
        st = [s for s in an.sites if name(s.short) == "start"]
        rep.floor("start", len(st), 1)
        for s in an.sites:
            rep.ob("reattach:paused", s.var("p") == {1}, "an operation goes on before it was stopped", s.where())
            if name(s.short) == "start":
                rep.ob("reattach:released", s.var("r") == {1}, "an operation sends again what the client has received", s.where())
        ex = {str(unmut_all(s.args[0])) for s in sites_of(rep, db, f, *ACT, skip=SK)}
        rep.ob("reattach:one", len(ex) == 1 and "operation_id" in next(iter(ex)), "not the operation that the client asks for is reattached to", f.loc())
        for e, st in ret_states(rep.analyse(db, f, skip=SK), "+"):
            rep.ob("reattach:responses", has_call(e, "Executor::start") and "operation_id" in str(e), "the responses are not those of the operation", f.loc())
    f = co(db, "handle_release_execute", crate=C)
    if rep.need(f, "handle_release_execute"):
        opt = lambda e: call_is("Option::filter")(e) or unmut(e).op == "ok" and call_is("get_executor")(unmut(e).a[0])
        unreachable(rep, db, f, ("remove_executor", "pause_if_running"), [RID("+")], "release:until", "an operation is removed although only some of its outputs were released", skip=SK)
        unreachable(rep, db, f, ("remove_executor", "pause_if_running", "release"), [ab(ref, False)], "release:reattachable", "an operation that is not reattachable is released", skip=SK)
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "release" and "response_id" in str(s.args[-1]), assume=[RID("+"), av(opt, "+"), ab(ref, True)], hotp=hot("release"), skip=SK)
        rep.ob("release:done", done, "the outputs that the client received are not released", f.loc())
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "remove_executor" and "operation_id" in str(s.args[-1]), assume=[RID("-"), av(opt, "+"), ab(ref, True)], hotp=hot("remove_executor"), skip=SK)
        rep.ob("release:all", done, "an operation that the client released stays", f.loc())
    f = co(db, "plan_executor::handle_execute_plan", crate=C)
    if rep.need(f, "handle_execute_plan"):
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "add_executor" and has_call(s.args[-1], "Executor::new"), hotp=hot("add_executor"), skip=SK)
        rep.ob("execute:registered", done, "an operation is not registered", f.loc())
        for e, st in ret_states(rep.analyse(db, f, skip=SK), "+"):
            rep.ob("execute:responses", has_call(e, "Executor::start") and "operation_id" in str(e), "the responses are not those of the operation", f.loc())
        for s in sites_of(rep, db, f, "Executor::new", skip=SK):
            rep.ob("execute:stream", any(call_is("execute")(x) for x in walk(s.args[1])), "the operation does not read the result of its plan", s.where())
    f = db.find("SparkSession::add_executor", crate=C)
    if rep.need(f, "add_executor"):
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "insert" and "operation_id" in fields(s.args[1]) and any(x.op == "arg" and x.a[1] == "executor" for x in walk(s.args[-1])), hotp=hot("insert"), skip=SK)
        rep.ob("execute:kept", done and n, "an operation is not registered under its id", f.loc())
    f = db.find("Executor::new", crate=C)
    if rep.need(f, "Executor::new"):
        ss = sites_of(rep, db, f, "ExecutorBuffer::new", assume=[ab(ref, True)], skip=lambda p: True)
        rep.floor("buffers", len(ss), 1)
        for s in ss:
            rep.ob("execute:buffer", not is_const(s.args[0], 0), "nothing is kept for an operation that can be reattached to", s.where())

    rep.rule("responses", "each kind of output becomes the response of that kind, with the id under which it is kept; an error becomes an error")
    KINDS = {"ArrowBatch": "ArrowBatch", "SqlCommandResult": "SqlCommandResult", "WriteStreamOperationStartResult": "WriteStreamOperationStartResult", "StreamingQueryCommandResult": "StreamingQueryCommandResult",
             "StreamingQueryManagerCommandResult": "StreamingQueryManagerCommandResult", "CheckpointCommandResult": "CheckpointCommandResult", "Schema": None, "Complete": "ResultComplete", "Heartbeat": None}
    root = db.find("ExecutePlanResponseStream::poll_next", crate=C)
    if rep.need(root, "ExecutePlanResponseStream::poll_next"):
        bodies = [g for g in [root] + inner_fns(db, root) if any(len(s) > 1 and isinstance(s[0], list) and s[0] and s[0][-1] == ".response_type" for b in g.blocks if b for s in b[0])]
        if rep.need(bodies, "the function that makes a response"):
            g = bodies[0]
            batch = lambda e: last_field(e) == "batch"
            for v, want in KINDS.items():
                vs, keys = set(), set()
                an = rep.analyse(db, g, assume=[av(batch, v)], assign_fields={"response_type", "schema"}, assign=lambda s: [("t", {s.dest.a[1] if s.dest.op == "f" else "?"})], entry={"t": {""}})
                for s in an.sites:
                    if s.kind != "assign":
                        continue
                    keys.add(last_field(s.dest))
                    x = unmut(s.expr)
                    rep.ob(f"kind:{v}:payload", v == "Complete" or any(y.op == "as" and y.a[1] == v for y in walk(x)), f"the response for {v} carries something else", s.where())
                    vs |= {y.a[1] for y in walk(x) if y.op == "adt" and "ResponseType" in str(y.a[0])}
                sts = {tuple(sorted(st.get(("s", "t"), ()))) for _, st in ret_states(an, "+")}
                rep.ob(f"kind:{v}", vs == ({want} if want else set()) and keys == ({"response_type"} if want else {"schema"} if v == "Schema" else set()), f"an output of the kind {v} becomes {sorted(vs) or sorted(keys)}", g.loc())
                rep.ob(f"kind:{v}:always", len(sts) == 1 and sts != {("",)} or v == "Heartbeat", f"an output of the kind {v} can become an empty response", g.loc())
            an = rep.analyse(db, g, assign_fields={"response_id"}, assign=lambda s: [("i", {1})] if last_field(s.expr) == "id" else [("i", {2})], entry={"i": {0}})
            rs = ret_states(an, "+")
            rep.ob("id", bool(rs) and all(st.get(("s", "i")) == {1} for _, st in rs), "a response does not have the id of its output", g.loc())
            item = lambda e: unmut(e).op == "arg" or call_is("Result::map_err")(e)
            an = rep.analyse(db, g, assume=[av(item, "-")])
            rep.ob("error", not ret_states(an, "+") and bool(ret_states(an, "-")), "an error of an operation becomes an ordinary response", g.loc())
