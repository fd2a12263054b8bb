"""tracing of plans does not change what they return"""
from . import prop
from ._h import *
from .execution import hot

C = "sail_telemetry"
SAME = ("in_span", "boxed", "pin", "new", "inspect", "inspect_ok", "inspect_err", "fuse", "into", "from", "clone", "as_ref", "deref")


def carried(e, pred, d=0):
    """the value, possibly inside wrappers that hand on every item"""
    e = unmut(e)
    if d > 10:
        return False
    if pred(e):
        return True
    if e.op in ("ok", "as", "f"):
        return carried(e.a[0], pred, d + 1)
    if e.op == "phi":
        return bool(e.a[0]) and all(carried(x, pred, d + 1) for x in e.a[0])
    if e.op == "adt":
        if e.a[1] in ("Ok", "Some"):
            return carried(e.a[2][0][1], pred, d + 1)
        return any(carried(v, pred, d + 1) for k, v in e.a[2] if str(k) in ("inner", "stream"))
    if e.op == "call" and name(short(e.a[0])) in SAME:
        return any(carried(x, pred, d + 1) for x in e.a[1])
    return False


@prop("T01")
def tracing(rep):
    db = rep.db(C)
    rep.rule("plan", "the traced plan runs the wrapped operator for the partition and context it was asked for and hands on its stream, schema, properties and statistics")
    f = db.find("TracingExec::execute", crate=C)
    EX = call_is("ExecutionPlan::execute")
    sk = lambda p: "TracingExec" not in p and ("ExecutionPlan>::" in p or "ExecutionPlan::" in p) or "build_metric" in p
    if rep.need(f, "TracingExec::execute"):
        ss = sites_of(rep, db, f, "ExecutionPlan::execute", skip=sk)
        rep.floor("execute", len(ss), 1)
        an = rep.analyse(db, f, skip=sk, watch=shorts("ExecutionPlan::execute"), entry={"w": {0}}, event=lambda s: [("w", {1})], event_watch=hot("ExecutionPlan::execute"))
        for s in an.sites:
            rep.ob("execute:inner", over_inner(s.args[0]), "another operator is run", s.where())
            rep.ob("execute:partition", arg_is(2)(unmut_all(s.args[1])), "another partition is run", s.where())
            rep.ob("execute:context", arg_is(3)(unmut_all(s.args[2])), "the operator is run in another context", s.where())
            rep.ob("execute:once", s.var("w") == {0}, "the operator can be run twice", s.where())
        pos = ret_states(an, "+")
        rep.ob("execute:streams", bool(pos), "the traced plan cannot be run", f.loc())
        for e, st in pos:
            rep.ob("execute:result", carried(e, lambda x: EX(x)), "the stream is not that of the wrapped operator", f.loc())
            rep.ob("execute:runs", st.get(("s", "w")) == {1}, "the operator is not run", f.loc())
        an = rep.analyse(db, f, skip=sk, assume=[av(EX, "+")])
        rep.ob("execute:success", bool(an.rets) and not ret_states(an, "-"), "the traced plan can fail although its operator did not", f.loc())
        an = rep.analyse(db, f, skip=sk, assume=[av(EX, "-")])
        rep.ob("execute:error", bool(an.rets) and not ret_states(an, "+"), "an error of the operator is lost", f.loc())
        an = rep.analyse(db, f, skip=sk, watch=shorts("RecordBatchStreamAdapter::new"))
        for s in an.sites:
            rep.ob("execute:schema", has_call(s.args[0], "schema"), "the stream has another schema", s.where())
    for m, own in (("schema", "ExecutionPlan::schema"), ("properties", "ExecutionPlan::properties"), ("partition_statistics", "ExecutionPlan::partition_statistics"), ("metrics", "ExecutionPlan::metrics")):
        g = db.find("TracingExec::" + m, crate=C)
        if rep.need(g, "TracingExec::" + m):
            an = rep.analyse(db, g, skip=sk)
            for e, _ in an.rets:
                e = unmut_all(e)
                rep.ob(f"{m}:inner", e.op == "call" and short(e.a[0]) == own and over_inner(e.a[1][0]), f"the {m.replace('_', ' ')} are not those of the wrapped operator", g.loc())
                if m == "partition_statistics" and e.op == "call":
                    rep.ob(f"{m}:partition", arg_is(2)(unmut_all(e.a[1][1])), "the statistics are those of another partition", g.loc())
    g = db.find("TracingExec::children", crate=C)
    if rep.need(g, "TracingExec::children"):
        an = rep.analyse(db, g, skip=sk)
        for e, _ in an.rets:
            rep.ob("children:inner", any(x.op == "f" and x.a[1] == "inner" for x in walk(e)) and not has_call(e, "children"), "the wrapped operator is not the child of the traced plan", g.loc())
    g = db.find("TracingExec::reset_state", crate=C)
    if rep.need(g, "TracingExec::reset_state"):
        an = rep.analyse(db, g, skip=sk)
        for e, _ in ret_states(an, "+"):
            rep.ob("reset_state:inner", any(x.op == "f" and x.a[1] == "inner" for x in walk(e)) and not has_call(e, "children"), "the plan reset runs another operator", g.loc())
    g = db.find("TracingExec::with_new_children", crate=C)
    if rep.need(g, "TracingExec::with_new_children"):
        an = rep.analyse(db, g, skip=sk, watch=lambda p, s: False, adt_watch=lambda p, v: name(p) == "TracingExec")
        for e, _ in ret_states(an, "+"):
            rep.ob("with_new_children:child", any(arg_is(2)(x) for x in walk(e)) and not any(x.op == "f" and x.a[1] == "inner" and arg_is(1)(unmut(x.a[0])) for x in walk(e)), "the new child is not the one given", g.loc())

    rep.rule("stream", "every item of the wrapped stream is handed on as it is, whether or not its metrics can be reported")
    g = db.find("MetricEmitterStream::poll_next", crate=C)
    if rep.need(g, "MetricEmitterStream::poll_next"):
        PN = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("poll_next", "poll_next_unpin")
        an = rep.analyse(db, g, watch=lambda p, s: name(s) in ("poll_next", "poll_next_unpin"), skip=lambda p: "MetricEmitter" in p and "try_emit" in p, entry={"w": {0}}, event=lambda s: [("w", {1})],
                         event_watch=lambda p, s: name(s) in ("poll_next", "poll_next_unpin"))
        rep.floor("poll", len(an.sites), 1)
        for s in an.sites:
            rep.ob("poll:once", s.var("w") == {0}, "an item can be polled and dropped", s.where())
        for e, st in an.rets:
            rep.ob("poll:result", same_poll(unmut(e), PN), "the stream hands on something other than what it polled", g.loc())
            if any(x.op == "adt" and x.a[1] == "Pending" for x in walk(e)):
                rep.ob("poll:pending", not any(k[0] == "v" and item(k[1]) for k, _ in st.items()), "an item that is ready is dropped", g.loc())
            rep.ob("poll:polled", st.get(("s", "w")) == {1}, "the stream can answer without polling", g.loc())

        for kind in ("Ok", "Err"):
            an = rep.analyse(db, g, watch=lambda p, s: name(s) in ("poll_next", "poll_next_unpin"), skip=lambda p: "MetricEmitter" in p and "try_emit" in p,
                             assume=[av(item, "+"), av(lambda e: item_row(e), "+" if kind == "Ok" else "-")])
            rep.ob(f"poll:{kind}:some", bool(an.rets), "nothing is handed on", g.loc())
            for e, st in an.rets:
                rep.ob(f"poll:{kind}:end", not any(x.op == "adt" and x.a[1] == "None" for x in walk(e)), "the stream can end while the wrapped one goes on", g.loc())

    rep.rule("wrapping", "every operator of the plan is wrapped once, around itself")
    g = db.find("physical_plan::trace_execution_plan", crate=C) or db.find("trace_execution_plan", crate=C)
    if rep.need(g, "trace_execution_plan"):
        an = rep.analyse(db, g, watch=lambda p, s: s == "TracingExec::new" or name(s) in ("transform", "transform_up", "transform_down"))
        n = 0
        for s in an.sites:
            if s.short == "TracingExec::new":
                n += 1
                x = unmut_all(s.args[0])
                rep.ob("wrap:itself", x.op in ("argof", "arg") or x.op == "f", "an operator is replaced by another one", s.where())
            else:
                rep.ob("wrap:plan", any(arg_is(1)(y) for y in walk(s.args[0])), "another plan is traced", s.where())
        rep.floor("wrapping", n, 1)
        for e, _ in ret_states(an, "+"):
            rep.ob("wrap:result", any(arg_is(1)(y) for y in walk(e)), "the result is not the traced plan", g.loc())


def polled(e):
    e = unmut(e)
    return e.op == "call" and name(short(e.a[0])) in ("poll_next", "poll_next_unpin")


def item(e):
    e = unmut(e)
    if e.op == "f" and e.a[0].op == "as":
        return polled(e.a[0].a[0])
    return e.op == "ok" and polled(e.a[0])


def item_row(e):
    e = unmut(e)
    if e.op == "f" and e.a[0].op == "as":
        return item(e.a[0].a[0])
    return e.op == "ok" and item(e.a[0])


def over_inner(e):
    e = unmut_all(e)
    while e.op == "call" and name(short(e.a[0])) in ("as_ref", "deref", "clone", "borrow"):
        e = unmut_all(e.a[1][0])
    return e.op == "f" and e.a[1] == "inner"


def same_poll(e, pn, d=0):
    if pn(e):
        return True
    if d > 6:
        return False
    if e.op == "phi":
        return bool(e.a[0]) and all(same_poll(unmut(x), pn, d + 1) for x in e.a[0])
    if e.op == "adt" and e.a[1] in ("Ready", "Some", "Ok", "Err") and e.a[2]:
        x = unmut(e.a[2][0][1])
        return same_poll(x, pn, d + 1) or x.op == "adt" and x.a[1] == "None"
    if e.op in ("as", "f", "ok", "err"):
        return same_poll(unmut(e.a[0]), pn, d + 1)
    if e.op == "adt" and e.a[1] == "Pending":
        return True
    return False
