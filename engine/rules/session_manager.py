"""life of a session, interruption of operations"""
from sa.mir import walk, unmut, short, show
from . import prop
from ._h import *
from .delta import LOSSY, hot

CR = ("sail_session", "sail_spark_connect", "sail_common_datafusion")
SKIP = lambda p: "session_manager" not in p
SES = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("get", "get_mut") and "sessions" in fields(unmut(e).a[1][0])
STATE = lambda e: last_field(e) == "state" and any(SES(x) for x in walk(e))
SEND = lambda s: s.kind == "call" and s.short.endswith("Sender::send")
INS = lambda s: s.kind == "call" and name(s.short) == "insert" and last_field(s.args[0]) == "sessions"
REMOVES = {"remove", "shift_remove", "swap_remove", "remove_entry", "shift_remove_entry", "swap_remove_entry", "remove_full", "shift_remove_full", "swap_remove_full", "shift_remove_index", "swap_remove_index",
           "pop", "clear", "retain", "drain", "truncate", "take", "split_off", "replace", "first_entry", "last_entry", "extract_if"}


def ok_of(e):
    e = unmut(e)
    return e.op == "adt" and e.a[1] == "Ok"


@prop("S02")
def manager(rep):
    db = rep.db(*CR)
    rep.rule("create", "a session is created once per id; later requests get that same session while it runs and an error once it does not; only a session whose context was made is registered as running, and every request is answered")
    f = db.find("SessionManagerActor::handle_get_or_create_session", crate="sail_session")
    if rep.need(f, "handle_get_or_create_session"):
        MAKE = call_is("SessionFactory::create")
        DOES = shorts("insert", "create", "generate")
        an = rep.analyse(db, f, watch=shorts("insert", "create"), skip=SKIP)
        ins = [s for s in an.sites if INS(s)]
        rep.floor("registrations", len(ins), 1)
        for s in ins:
            rep.ob("insert:id", unmut(s.args[1]).op == "arg" and unmut(s.args[1]).a[1] == "session_id", "a session is registered under another id", s.where())
            if has_adt(s.args[2], "Running"):
                rep.ob("insert:context", any(unmut(x).op == "ok" and MAKE(unmut(x).a[0]) for x in walk(s.args[2])), "a session is registered as running with another context", s.where())
        for v in ("Running", "Deleted", "Failed"):
            an = rep.analyse(db, f, assume=[av(SES, "+"), av(STATE, v)], watch=shorts("insert", "create", "send"), skip=SKIP)
            rep.ob(f"existing:{v}:kept", not [s for s in an.sites if INS(s) or name(s.short) == "create"], f"a session that is {v} is replaced by a new one", f.loc())
            for s in an.sites:
                if SEND(s):
                    xs = live(rep, db, f, s, [av(SES, "+"), av(STATE, v)])
                    rep.ob(f"existing:{v}:answer", bool(xs) and xs <= ({"+"} if v == "Running" else {"-"}), f"a request for a session that is {v} is answered with {sorted(xs)}", s.where())
        an = rep.analyse(db, f, assume=[av(SES, "+"), av(STATE, "Running")], watch=shorts("send"), skip=SKIP)
        for s in an.sites:
            if SEND(s):
                xs = [x for x in alts(an, s.args[1]) if ok_of(x)]
                rep.ob("existing:same", any(any(STATE(y) or any(SES(z) for z in walk(y)) for y in walk(x)) for x in xs), "a request for a running session gets another one", s.where())
        new = [av(SES, "-")]
        done, n = must_event(rep, db, f, lambda s: INS(s) and has_adt(s.args[2], "Running"), assume=new + [av(call_is("generate"), "+"), av(call_is("SessionJobRunnerFactory::create"), "+"), av(call_is("DriverRegistry::insert"), "+"), av(MAKE, "+")],
                             pol=None, hotp=hot("insert"), skip=SKIP)
        rep.ob("new:registered", done, "a session that was created is not registered", f.loc())
        for c in ("generate", "SessionJobRunnerFactory::create", "DriverRegistry::insert", "SessionFactory::create"):
            asm = new + [av(call_is(c), "-")] + ([av(lambda e: any(x.op == "call" and short(x.a[0]).endswith("into_parts") for x in walk(e)) and unmut(e).op != "call", "+")] if c == "DriverRegistry::insert" else [])
            an = rep.analyse(db, f, assume=asm, watch=shorts("insert", "send"), skip=SKIP)
            rep.ob(f"new:{c}:failed", not [s for s in an.sites if INS(s) and has_adt(s.args[2], "Running")], "a session that could not be created is registered as running", f.loc())
        an = rep.analyse(db, f, event=lambda s: [("a", {1})] if SEND(s) else None, event_watch=hot("send"), entry={"a": {0}}, skip=SKIP)
        rep.ob("answered", bool(an.rets) and all(st.get(("s", "a")) == {1} for _, st in an.rets), "a request for a session is not answered", f.loc())
        # every request renews the activity and schedules the probe for that time
        for key, asm in (("existing", [av(SES, "+"), av(STATE, "Running")]), ("new", [av(SES, "-")])):
            ss = [s for s in sites_of(rep, db, f, "send_with_delay", assume=asm, skip=SKIP) if has_adt(s.args[1], "ProbeIdleSession")]
            rep.ob(f"activity:{key}", any(has_call(s.args[1], "track_activity") and "session_timeout" in fields(s.args[2]) for s in ss), "a request does not renew the activity of its session", f.loc())
            for s in ss:
                # only where the session or its tracker cannot be had, nothing is scheduled
                rep.ob(f"activity:{key}:id", any(x.op == "arg" and x.a[1] == "session_id" for x in walk(s.args[1])), "the probe is for another session", s.where())
                own = [k for k in s.state if k[0] in "bc"]
                rep.ob(f"activity:{key}:always", not own, "only some requests renew the activity of their session", s.where())
        held = [(g, b) for g in all_fns(db, "sail_session") if "session_manager" in g.key for b, path, _, _ in g.calls() if path and name(short(path)) in REMOVES
                and g.call_at(b).op == "call" and any("sessions" in fields(a) for a in g.call_at(b).a[1][:1])]
        rep.ob("kept", not held, "a session is forgotten, so that another one can take its id", held[0][0].loc() if held else f.loc())
        for n, must in (("track_activity", True), ("active_at", False)):
            g = db.find(f"ActivityTracker::{n}", crate="sail_common_datafusion")
            if rep.need(g, n):
                an = rep.analyse(db, g, assign_fields={"*lock", "active_at"}, assign=lambda s: [("w", {1})] if has_call(s.expr, "now") else [("w", {2})], entry={"w": {0}})
                rs = ret_states(an, "+")
                rep.ob(f"{n}:time", bool(rs) and all(st.get(("s", "w"), {0}) == ({1} if must else {0}) for _, st in rs), "the time of the last activity is not kept", g.loc())

    rep.rule("idle", "a session is removed as idle only while it runs and nothing happened after the probed time")
    f = db.find("SessionManagerActor::handle_probe_idle_session", crate="sail_session")
    REM = ("delete_session", "remove")
    GONE = lambda s: s.kind == "assign" and has_adt(s.expr, "Deleted")
    IDLE = [av(SES, "+"), av(STATE, "Running"), av(call_is("SessionContext::extension"), "+"), av(call_is("active_at"), "+")]
    if rep.need(f, "handle_probe_idle_session"):
        kw = dict(skip=SKIP, assign_fields={"state"}, assign=lambda s: [("w", {1})], watch=shorts(*REM))
        base = rep.analyse(db, f, **kw).sites
        rep.floor("removal", len([s for s in base if GONE(s)]), 1)
        rep.floor("stop", len([s for s in base if name(s.short) == "delete_session"]), 1)
        inst = lambda e: unmut(e).op in ("up", "arg") and str(unmut(e).a[-1]).endswith("instant")
        act = lambda e: has_call(e, "active_at")
        for key, a in (("unknown", [av(SES, "-")]), ("deleted", [av(STATE, "Deleted")]), ("failed", [av(STATE, "Failed")]), ("active", [ac(act, inst, ">")]), ("of unknown activity", [av(lambda e: call_is("active_at")(e), "-")])):
            rep.ob(f"probe:{key}", not rep.analyse(db, f, assume=a, **kw).sites, f"a session that is {key} is removed as idle", f.loc())
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "delete_session", assume=IDLE + [ac(act, inst, "<=")], pol=None, hotp=hot("delete_session"), skip=SKIP)
        rep.ob("probe:idle", done, "an idle session is not removed", f.loc())

    rep.rule("remove", "removing a session stops its jobs before its checkpoints are cleaned, unregisters its driver, and leaves it as deleted; only a running session is removed, and the request is answered accordingly")
    f = db.find("SessionManagerActor::handle_delete_session", crate="sail_session")
    if rep.need(f, "handle_delete_session"):
        kw = dict(skip=SKIP, assign_fields={"state"}, assign=lambda s: [("w", {1})], watch=shorts(*REM, "send"))
        for key, a in (("unknown", [av(SES, "-")]), ("deleted", [av(SES, "+"), av(STATE, "Deleted")]), ("failed", [av(SES, "+"), av(STATE, "Failed")]), ("running", [av(SES, "+"), av(STATE, "Running")])):
            an = rep.analyse(db, f, assume=a, **kw)
            acts = [s for s in an.sites if not SEND(s)]
            if key == "running":
                rep.ob("delete:running", any(name(s.short) == "delete_session" for s in acts) and any(GONE(s) for s in acts), "a running session is not removed", f.loc())
            else:
                rep.ob(f"delete:{key}", not acts, f"a session that is {key} is removed again", f.loc())
            for s in an.sites:
                if SEND(s):
                    xs = live(rep, db, f, s, a)
                    rep.ob(f"delete:{key}:answer", xs == ({"+"} if key == "running" else {"-"}), f"removing a session that is {key} is answered with {sorted(xs)}", s.where())
        an = rep.analyse(db, f, event=lambda s: [("a", {1})] if SEND(s) else None, event_watch=hot("send"), entry={"a": {0}}, skip=SKIP)
        rep.ob("delete:answered", bool(an.rets) and all(st.get(("s", "a")) == {1} for _, st in an.rets), "a request to remove a session is not answered", f.loc())
    for n in ("handle_probe_idle_session", "handle_delete_session", "handle_set_session_failure"):
        f = db.find(f"SessionManagerActor::{n}", crate="sail_session")
        if not rep.need(f, n):
            continue
        evs = lambda s: [("d", {1})] if name(s.short) == "remove" and last_field(s.args[0]) == "drivers" else None
        an = rep.analyse(db, f, assume=[av(SES, "+"), av(STATE, "Running"), av(lambda e: last_field(e) == "driver_id" or unmut(e).op == "f" and unmut(e).a[-1] == "driver_id", "+"), 
                                        av(call_is("SessionContext::extension"), "+"), av(call_is("active_at"), "+"), ac(lambda e: has_call(e, "active_at"), lambda e: not has_call(e, "active_at"), "<=")],
                         event=evs, event_watch=hot("remove"), assign_fields={"state"}, assign=lambda s: [("g", {1})], entry={"d": {0}, "g": {0}}, skip=SKIP)
        rep.ob(f"driver:{n}", bool(an.rets) and all(st.get(("s", "d")) == {1} and st.get(("s", "g")) == {1} for _, st in an.rets), "the driver of a session that ended stays registered, or the session stays", f.loc())
    f = db.find("SessionManagerActor::delete_session", crate="sail_session")
    if rep.need(f, "delete_session"):
        bodies = [g for g in inner_fns(db, f) if any(p and short(p).endswith("JobRunner::stop") for _, p, _, _ in g.calls())]
        if rep.need(bodies, "the task that stops the jobs of a session"):
            g = bodies[0]
            an = rep.analyse(db, g, event=lambda s: [("s", {1})] if name(s.short) == "stop" else None, event_watch=hot("stop"), watch=shorts("cleanup_session"), entry={"s": {0}}, skip=SKIP)
            rep.floor("cleanup", len(an.sites), 1)
            for s in an.sites:
                rep.ob("stop:first", s.var("s") == {1}, "the checkpoints of a session are removed before its jobs have stopped", s.where())
            rep.ob("stop:always", bool(an.rets) and all(st.get(("s", "s")) == {1} for _, st in an.rets), "the jobs of a session are not stopped", g.loc())
            a2 = rep.analyse(db, g, watch=lambda p, s: True, skip=SKIP)
            polled = any("stop" in str(s.args[0]) and name(s.short) in ("poll", "into_future") for s in a2.sites if s.kind == "call" and s.args)
            rep.ob("stop:awaited", polled, "nothing waits for the jobs of a session to stop", g.loc())
        cl = [g for g in inner_fns(db, f) for _, p, _, _ in g.calls() if p and short(p).endswith("cleanup_session")]
        rep.floor("checkpoints", len(cl), 1)


def has_adt(e, v):
    return any(x.op == "adt" and x.a[1] == v for x in walk(e))


def live(rep, db, f, s, assume):
    """polarities of the answer under the assumption: of the alternatives whose values can be built then"""
    an = rep.analyse(db, f, assume=assume, adt_watch=lambda p, v: p.endswith("result::Result") and v in ("Ok", "Err"), skip=SKIP)
    built = {str(unmut_all(x.expr)) for x in an.sites if x.kind == "adt"}
    out = set()
    for x in alts(an, s.args[1]):
        x = unmut_all(x)
        if x.op == "adt" and x.a[1] in ("Ok", "Err"):
            if str(x) in built:
                out.add("+" if x.a[1] == "Ok" else "-")
        else:
            out.add("?")
    return out


@prop("S02")
def interrupt(rep):
    db = rep.db(*CR)
    rep.rule("interrupt", "interrupting removes and stops exactly the operations asked for, and tells which")
    SK = lambda p: "Executor::" in p or "SparkSession::" in p
    for n, rem in (("handle_interrupt_all", "remove_all_executors"), ("handle_interrupt_tag", "remove_executors_by_tag")):
        f = co(db, n, crate="sail_spark_connect")
        if not rep.need(f, n):
            continue
        each(rep, db, f, lambda e: has_call(e, rem), lambda s: name(s.short) == "pause_if_running", hot("pause_if_running"), f"{n}:stopped", "an interrupted operation is not stopped", skip=SK)
        each(rep, db, f, lambda e: has_call(e, rem), lambda s: name(s.short) in ("push", "insert", "extend") and "operation_id" in fields(s.args[-1]) and any(x.op == "elem" for x in walk(s.args[-1])), hot("push", "insert", "extend"),
             f"{n}:told", "an interrupted operation is not reported", skip=SK)
    f = co(db, "handle_interrupt_tag", crate="sail_spark_connect")
    if f is not None:
        for s in sites_of(rep, db, f, "remove_executors_by_tag", skip=SK):
            rep.ob("tag", str(s.args[1]).endswith("tag"), "another tag is interrupted", s.where())
    f = co(db, "handle_interrupt_operation_id", crate="sail_spark_connect")
    if rep.need(f, "handle_interrupt_operation_id"):
        ss = sites_of(rep, db, f, "remove_executor", skip=SK)
        rep.floor("remove_executor", len(ss), 1)
        for s in ss:
            rep.ob("id", str(s.args[1]).endswith("operation_id"), "another operation is interrupted", s.where())
        R = call_is("remove_executor")
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "pause_if_running", assume=[av(R, "+"), av(lambda e: unmut(e).op == "ok" and R(unmut(e).a[0]), "+")], hotp=hot("pause_if_running"), skip=SK)
        rep.ob("stopped", done, "an interrupted operation is not stopped", f.loc())
    # the registry of operations
    EX = lambda e: last_field(e) == "executors"
    f = db.find("SparkSession::remove_executors_by_tag", crate="sail_spark_connect")
    if rep.need(f, "remove_executors_by_tag"):
        tagp = lambda e: call_is("contains")(e) and "tags" in fields(e)
        REM = lambda s: s.kind == "call" and (name(s.short) in ("remove", "remove_entry", "shift_remove", "swap_remove", "drain", "clear", "retain", "extract_if") and EX(s.args[0]))
        an = rep.analyse(db, f, watch=lambda p, s: True)
        rm = [s for s in an.sites if REM(s)]
        rep.floor("tag: removal", len(rm), 1)
        for s in rm:
            if name(s.short) in ("drain", "clear"):
                rep.ob("tag:only", False, "operations without the tag are removed", s.where())
        # what is removed by key is a key of an operation with the tag
        an = rep.analyse(db, f, assume=[ab(tagp, False)], watch=lambda p, s: name(s) in ("push", "insert", "extend", "collect") or name(s) in ("remove", "remove_entry"), mixed=False)
        ids = [s for s in an.sites if name(s.short) in ("push", "insert") and any(x.op == "elem" and any(EX(y) for y in walk(x)) for x in walk(s.args[-1])) and not has_call(s.args[-1], "remove", "remove_entry")]
        rep.ob("tag:without", not ids, "operations without the tag are removed", ids[0].where() if ids else f.loc())
        over = lambda e: any(EX(x) for x in walk(e)) and not has_call(e, "remove", "remove_entry")
        if any(s.kind == "call" and over(s.args[0]) for s in sites_of(rep, db, f, "Iterator::next")):
            each(rep, db, f, over, lambda s: name(s.short) in ("push", "insert", "extend", "push_back", "remove", "remove_entry"), hot("push", "insert", "extend", "push_back", "remove", "remove_entry"), "tag:each",
                 "not every operation with the tag is removed", assume=[ab(tagp, True)])
        else:
            an = rep.analyse(db, f, watch=lambda p, s: name(s) in ("extend", "collect", "for_each", "try_for_each", "retain", "extract_if"))
            xs = [s for s in an.sites if s.kind == "call" and any(over(a) for a in s.args)]
            rep.floor("tag: selection", len(xs), 1)
            for s in xs:
                rep.ob("tag:each", not any(has_call(a, "take", "skip", "take_while", "skip_while", "map_while", "step_by", "next", "find", "last", "nth") for a in s.args), "not every operation with the tag is removed", s.where())
        got = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) in ("remove", "remove_entry") and EX(unmut(e).a[1][0])
        if any(s.kind == "call" and name(s.short) in ("remove", "remove_entry") for s in sites_of(rep, db, f, "remove", "remove_entry")) and any(s.kind == "call" for s in sites_of(rep, db, f, "Iterator::next")):
            IDS = lambda e: not over(e)
            each(rep, db, f, IDS, lambda s: s.kind == "call" and name(s.short) in ("remove", "remove_entry"), hot("remove", "remove_entry"), "tag:removed", "an operation with the tag stays")
            done, n = must_event(rep, db, f, lambda s: name(s.short) in ("push", "extend", "insert") and any(got(x) for x in walk(s.args[-1])), assume=[av(got, "+"), ab(tagp, True)], hotp=hot("push", "extend", "insert"), nonempty=True)
            rep.ob("tag:result", done, "an operation that was removed is not returned", f.loc())
        an = rep.analyse(db, f, watch=lambda p, s: name(s) in ("contains",))
        for g in [f] + inner_fns(db, f):
            for b, p, gg, t in g.calls():
                if p is not None and name(short(p)) == "contains":
                    c = g.call_at(b)
                    rep.ob("tag:which", "tags" in fields(c.a[1][0]), "something else than the tags of an operation is looked at", g.loc())
    for n, op in (("remove_executor", ("remove", "remove_entry")), ("get_executor", ("get",))):
        f = db.find(f"SparkSession::{n}", crate="sail_spark_connect")
        if rep.need(f, n):
            ss = [s for s in sites_of(rep, db, f, *op) if s.kind == "call" and EX(s.args[0])]
            rep.floor(n, len(ss), 1)
            for s in ss:
                rep.ob(f"{n}:id", arg_is(2)(unmut(s.args[1])), "another operation is looked up", s.where())
            for e, st in ret_states(rep.analyse(db, f), "+"):
                rep.ob(f"{n}:result", any(x.op == "call" and name(short(x.a[0])) in op for x in walk(e)), "another operation is returned", f.loc())
    f = db.find("SparkSession::remove_all_executors", crate="sail_spark_connect")
    if rep.need(f, "remove_all_executors"):
        ss = [s for s in rep.analyse(db, f, watch=lambda p, s: name(s) in ("drain", "take", "into_values", "into_iter", "replace", "clear")).sites if s.kind == "call" and any(EX(x) for a in s.args for x in walk(a))]
        rep.floor("remove all", len(ss), 1)
        lossy = sorted({name(short(p)) for g in [f] + inner_fns(db, f) for b, p, gg, t in g.calls() if p is not None and name(short(p)) in set(LOSSY) - {"drain"}} - {"take"})
        rep.ob("all:lossless", not lossy, f"not all operations are interrupted ({lossy})", f.loc())
    f = db.find("SparkSession::add_executor", crate="sail_spark_connect")
    if rep.need(f, "add_executor"):
        done, n = must_event(rep, db, f, lambda s: name(s.short) == "insert" and EX(s.args[0]) and "operation_id" in fields(s.args[1]) and any(arg_is(2)(unmut(x)) for x in walk(s.args[2])), hotp=hot("insert"))
        rep.ob("add", done, "an operation is not registered under its id", f.loc())
