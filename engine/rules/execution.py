"""distributed execution: job scheduler, driver actor, task assigner"""
from . import prop
from ._h import *

C = "sail_execution"
TERMINAL = {"Succeeded", "Failed", "Canceled"}
TASK = ["Created", "Scheduled", "Running", "Succeeded", "Failed", "Canceled"]


def is_task_state(e):
    """state of a task attempt"""
    return last_field(e) == "state" and ("attempts" in fields(e) or any(c.endswith("get_task_state") for c in calls(e)))


def is_region_state(e):
    return last_field(e) == "state" and "regions" in fields(e)


def is_stage_state(e):
    return last_field(e) == "state" and "stages" in fields(e) and "attempts" not in fields(e)


def is_job_state(e):
    return last_field(e) == "state" and not fields(e) & {"attempts", "regions", "stages"}


def jobstate_variant(e):
    e = unmut(e)
    return e.a[1] if e.op == "adt" and short(e.a[0]).endswith("JobState") else None


def state_writes(rep, db):
    """every assignment to a `.state` field in the scheduler, analysed from the public entry points"""
    roots = ["JobScheduler::update_task", "JobScheduler::refresh_job", "JobScheduler::clean_up_job", "JobScheduler::stop"]
    out = []
    for r in roots:
        f = db.find(r, crate=C)
        if not rep.need(f, r):
            continue
        an = rep.analyse(db, f, assign_fields={"state"}, assign=lambda s: True)
        out += [(r, s) for s in an.sites]
    return out


def writer_fns(db, crate, field, adt_suffixes):
    """functions of the crate with an assignment to `<adt>.field` (by type of the base place)"""
    hits = {}
    for k in db.all_keys(crate):
        f = db.fn(k)
        for b in f.reach:
            for st in f.blocks[b][0]:
                if len(st) >= 3 and len(st[0]) > 1 and st[0][-1] == "." + field:
                    hits.setdefault(outer(db, f), []).append((f, st[2]))
    return hits


@prop("X01")
def task_terminal(rep):
    db = rep.db(C)
    rep.rule("consolidate", "merging a reported state into a task attempt state never leaves a terminal state and never moves backwards (all 36 combinations decided)")
    f = db.find("TaskState::consolidate", crate=C)
    order = {"Created": 0, "Scheduled": 1, "Running": 2, "Succeeded": 3, "Failed": 3, "Canceled": 3}
    if rep.need(f, "TaskState::consolidate"):
        def read(e, st):
            e = unmut(e)
            if e.op == "adt":
                return e.a[1]
            if self_sub(e):
                return "self"
            if arg_is(2)(e):
                return "next"
            return str(e)
        tab = enum_decision(rep, db, f, [self_sub, arg_is(2)], [TASK, TASK], read)
        for (cur, nxt), res in tab.items():
            vals = {cur if r == "self" else nxt if r == "next" else r for r in res}
            want = cur if cur in TERMINAL or order[nxt] < order[cur] else nxt
            rep.ob(f"{cur}+{nxt}", vals == {want}, f"{cur} consolidated with {nxt} gives {sorted(vals)}, expected {want}", f.loc())
    rep.rule("terminal", "is_terminal holds exactly for succeeded, failed and canceled")
    f = db.find("TaskState::is_terminal", crate=C)
    if rep.need(f, "TaskState::is_terminal"):
        tab = enum_decision(rep, db, f, [self_sub], [TASK], lambda e, st: str(e).lower())
        for (v,), res in tab.items():
            rep.ob(v, res == {"true" if v in TERMINAL else "false"}, f"is_terminal({v}) = {sorted(res)}", f.loc())
    rep.rule("writes", "every write to the state of a task attempt either merges through the consolidation table or happens only when the attempt is not terminal and sets a terminal state")
    ws = [(r, s) for r, s in state_writes(rep, db) if is_task_state(s.dest)]
    n = 0
    for r, s in ws:
        e = unmut(s.expr)
        n += 1
        via = e.op == "call" and short(e.a[0]) == "TaskState::consolidate" and is_task_state(e.a[1][0]) or \
            e.op != "call" and {x for x in walk(e) if x.op == "call" and short(x.a[0]) == "TaskState::consolidate"}
        guarded = variants_of(e) is not None and variants_of(e) <= TERMINAL and (
            s.has_variant(is_task_state, set(TASK) - TERMINAL))
        # the table may also be inlined: the value then is a phi of the old and new state
        rep.ob(f"{r}:{s.fn.short}", bool(via) or guarded,
               f"assignment of {show(e)[:80]} to a task attempt state neither uses the consolidation table nor is guarded by 'not terminal'", s.where())
    rep.floor("task state writes", n, 3)
    rep.rule("cancel-only-live", "the scheduler asks for a task to be cancelled only while its attempt is not terminal")
    n = 0
    for r in ("JobScheduler::refresh_job", "JobScheduler::clean_up_job"):
        f = db.find(r, crate=C)
        if rep.need(f, r):
            an = rep.analyse(db, f, adt_watch=lambda p, v: v == "CancelTask")
            for s in an.sites:
                n += 1
                rep.ob(f"{r}:{s.fn.short}", s.has_variant(is_task_state, set(TASK) - TERMINAL), "a cancel action can be issued for a terminal attempt", s.where())
    rep.floor("cancel actions", n, 2)
    rep.rule("writers", "the state field of scheduler records is written only inside the scheduler's own module")
    for k, hs in writer_fns(db, C, "state", ()).items():
        f, line = hs[0]
        if f.file.startswith("crates/sail-execution/src/driver/") and "job_scheduler" not in f.file:
            base_is = False
            for b in f.reach:
                for st in f.blocks[b][0]:
                    if len(st) >= 3 and len(st[0]) > 1 and st[0][-1] == ".state":
                        e = f.place_expr(st[0], (b, 0))
                        if "attempts" in fields(e):
                            base_is = True
            rep.ob(f"outside:{short(k)}", not base_is, "a task attempt state is written outside the job scheduler", f.loc(line))


def adt_named(*vs):
    return lambda p, v: v in vs


ACTIVE = frozenset(TASK) - TERMINAL


def is_last(e):
    """the latest attempt of a task, as an Option"""
    e = unmut(e)
    return e.op == "call" and short(e.a[0]) in ("[T]::last", "[T]::last_mut", "[T]::split_last", "[T]::split_last_mut") and "attempts" in fields(e)


def is_dep_state(e):
    return is_region_state(e) and "dependencies" in fields(e)


def attempts_len(e):
    return "attempts" in fields(e) and has_call(e, "len")


def job_writes(an):
    return [s for s in an.sites if s.kind == "assign" and is_job_state(s.dest)]


@prop("X02")
def regions(rep):
    db = rep.db(C)
    f = db.find("JobScheduler::refresh_job", crate=C)
    rep.rule("schedule", "a task region is handed out for execution only when every region it depends on has succeeded, it has not succeeded itself, no region of the job has failed for good, and none of its tasks has a live attempt; a new attempt is recorded first")
    if not rep.need(f, "JobScheduler::refresh_job"):
        return
    kw = dict(adt_watch=lambda p, v: v in ("ScheduleTaskRegion", "FailJobOutput") or p.endswith("TaskAttemptDescriptor"),
              assign_fields={"state"}, assign=lambda s: True)
    an = rep.analyse(db, f, **kw)
    sched = [s for s in an.sites if s.kind == "adt" and s.expr.a[1] == "ScheduleTaskRegion"]
    created = [s for s in an.sites if s.kind == "adt" and s.path.endswith("TaskAttemptDescriptor")]
    rep.floor("schedule actions", len(sched), 1)
    rep.floor("attempt creations", len(created), 1)
    for what, ss in (("schedule", sched), ("attempt", created)):
        for s in ss:
            rep.ob(f"{what}:dependencies:{s.fn.short}", univ(s, is_dep_state, {"Succeeded"}), "reachable although some dependency region has not succeeded", s.where())
            rep.ob(f"{what}:not-succeeded:{s.fn.short}", s.has_variant(lambda e: is_region_state(e) and not is_dep_state(e) and not quantified(s, e), {"Running", "Failed"}),
                   "reachable although the region has already succeeded", s.where())
            rep.ob(f"{what}:no-failed-region:{s.fn.short}", univ(s, is_region_state, {"Running", "Succeeded"}), "reachable although a region of the job has failed", s.where())
    for st in sorted(ACTIVE):
        ss = reach(rep, db, f, [av(lambda e: is_task_state(e) and any(is_last(x) for x in walk(e)), st), av(is_last, "+")], nonempty=True, mixed=True, **kw)
        rep.ob(f"schedule:live-attempt:{st}", not any(s.kind == "adt" and (s.expr.a[1] == "ScheduleTaskRegion" or s.path.endswith("TaskAttemptDescriptor")) for s in ss),
               f"a region whose latest attempt is {st} can be scheduled again", f.loc())
    an = rep.analyse(db, f, entry={"rec": {0}}, adt_event=lambda s: [("rec", {1})] if s.path.endswith("TaskAttemptDescriptor") else None, nonempty=True,
                     assume=[av(is_job_state, "Running")], **kw)
    for s in an.sites:
        if s.kind == "adt" and s.expr.a[1] == "ScheduleTaskRegion":
            rep.ob("schedule:attempt-recorded", s.var("rec") == {1}, "a region can be scheduled without recording a new attempt of its tasks", s.where())
    for s in created:
        v = s.field("state")
        rep.ob("attempt:initial", v is not None and variants_of(v) == {"Created"}, "a new attempt does not start in the created state", s.where())
    rep.rule("region-state", "a region fails only after its latest attempt failed or was cancelled with the attempt limit reached, and succeeds only when the latest attempt of every task succeeded")
    an = rep.analyse(db, f, **kw)
    last_state = lambda e: is_task_state(e) and any(is_last(x) for x in walk(e))

    def never(variant, asm):
        """no region is given the state under the assumptions"""
        return not [s for s in reach(rep, db, f, asm, nonempty=True, mixed=True, **kw) if s.kind == "assign" and is_region_state(s.dest) and variant in (variants_of(s.expr) or {variant})]
    unfailed = all(never("Failed", [av(is_last, "+"), av(last_state, v)]) for v in TASK if v not in ("Failed", "Canceled")) and never("Failed", [av(is_last, "-")])
    unlimited = never("Failed", [ac(attempts_len, mention("task_max_attempts"), "<")])
    unfinished = all(never("Succeeded", [av(is_last, "+"), av(last_state, v)]) for v in TASK if v != "Succeeded") and never("Succeeded", [av(is_last, "-")])
    nf = ns = 0
    for s in an.sites:
        if s.kind != "assign" or not is_region_state(s.dest):
            continue
        vs = variants_of(s.expr)
        if vs is None or "Failed" in vs:
            nf += 1
            rep.ob(f"failed:last:{s.fn.short}", unfailed or s.has_variant(is_task_state, {"Failed", "Canceled"}), "a region can fail although no latest attempt failed", s.where())
            rep.ob(f"failed:limit:{s.fn.short}", unlimited or s.has_cmp(attempts_len, mention("task_max_attempts"), "=>"), "a region can fail before the attempt limit is reached", s.where())
        if vs is None or "Succeeded" in vs:
            ns += 1
            rep.ob(f"succeeded:{s.fn.short}", unfinished or univ(s, last_state, {"Succeeded"}), "a region can succeed although the latest attempt of some task has not", s.where())
    rep.floor("region failures", nf, 1)
    rep.floor("region successes", ns, 1)
    # completeness: with the limit reached and a failed last attempt the region does fail; otherwise it is retried
    lim = [av(is_last, "+"), av(is_task_state, "Failed"), av(is_job_state, "Running")]
    ss = reach(rep, db, f, lim + [ac(attempts_len, mention("task_max_attempts"), "=")], nonempty=True, **kw)
    ws = [variants_of(s.expr) for s in ss if s.kind == "assign" and is_region_state(s.dest)]
    rep.ob("failed:complete", ws and all(w == {"Failed"} for w in ws), "a region whose latest attempt failed at the attempt limit can be left in another state", f.loc())
    rep.rule("job-state", "a job fails only when a region failed (and its output is told), finishes only when every region succeeded, and a job that is not running is never scheduled, failed or finished")
    jf = jd = 0
    for s in job_writes(an):
        vs = variants_of(s.expr) or {"?"}
        if vs & {"Failed", "?"}:
            jf += 1
            rep.ob("failed", s.has_variant(is_region_state, {"Failed"}), "a job can fail although no region failed", s.where())
        if vs & {"Draining", "Succeeded", "?"}:
            jd += 1
            rep.ob("finished", univ(s, is_region_state, {"Succeeded"}), "a job can finish although some region has not succeeded", s.where())
    rep.floor("job failure writes", jf, 1)
    rep.floor("job finish writes", jd, 1)
    an2 = rep.analyse(db, f, entry={"told": {0}}, assume=[av(is_job_state, "Running")], adt_event=lambda s: [("told", {1})] if s.expr.a[1] == "FailJobOutput" else None, **kw)
    for s in job_writes(an2):
        if "Failed" in (variants_of(s.expr) or {"Failed"}):
            rep.ob("failed:output-told", s.var("told") == {1}, "a running job can fail without its output being told", s.where())
    for js in ("Draining", "Succeeded", "Failed", "Canceled"):
        ss = reach(rep, db, f, [av(is_job_state, js)], **kw)
        rep.ob(f"refresh:{js}", not ss, f"refreshing a job in state {js} has an effect" + (f": {ss[0].where()}" if ss else ""), f.loc())


@prop("X03")
def cleanup(rep):
    db = rep.db(C)
    f = db.find("JobScheduler::refresh_job", crate=C)
    g = db.find("JobScheduler::clean_up_job", crate=C)
    h = db.find("JobScheduler::stop", crate=C)
    kw = dict(adt_watch=adt_named("CleanUpJob", "CancelTask"), assign_fields={"state"}, assign=lambda s: True)
    rep.rule("stage", "the intermediate data of a stage is released while the job runs only after the latest attempt of every task of every consuming stage has succeeded, and only once")
    if rep.need(f, "JobScheduler::refresh_job"):
        an = rep.analyse(db, f, **kw)
        n = 0
        for s in an.sites:
            if s.kind == "adt" and s.expr.a[1] == "CleanUpJob" or s.kind == "assign" and is_stage_state(s.dest):
                n += 1
                key = f"{s.kind}:{s.fn.short}"
                rep.ob(key + ":consumers", univ(s, is_task_state, {"Succeeded"}), "reachable although some consumer task has not succeeded", s.where())
                rep.ob(key + ":nonempty", s.has_bool(lambda e: has_call(e, "is_empty") and "consumers" in fields(e), False) or
                       s.has_cmp(lambda e: has_call(e, "len") and "consumers" in fields(e), lambda e: is_const(e, 0), "<>"),
                       "a stage without consumers (a job output stage) can be released", s.where())
                rep.ob(key + ":once", s.has_variant(is_stage_state, {"Active"}), "a stage can be released twice", s.where())
                if s.kind == "adt":
                    st = unmut(s.field("stage"))
                    rep.ob(key + ":scope", st.op == "adt" and st.a[1] == "Some", "a running job's whole data can be released", s.where())
        rep.floor("stage releases", n, 2)
        for st in TASK:
            if st == "Succeeded":
                continue
            ss = reach(rep, db, f, [av(is_task_state, st), av(is_last, "+")], nonempty=True, mixed=True, **kw)
            rep.ob(f"stage:unfinished:{st}", not any(s.kind == "adt" and s.expr.a[1] == "CleanUpJob" for s in ss), f"a stage can be released while its consumers are {st}", f.loc())
    rep.rule("job", "cleaning up a job cancels every live attempt, closes every active stage and releases the whole job's data, for every known job")
    if rep.need(g, "JobScheduler::clean_up_job"):
        job = [av(lambda e: e.op == "call" and short(unmut(e).a[0]).endswith("::get_mut"), "+")]
        ev = lambda s: [("c" if s.expr.a[1] == "CancelTask" else "d", {1})]
        for st in sorted(ACTIVE):
            an = rep.analyse(db, g, entry={"c": {0}, "d": {0}}, assume=job + [av(is_task_state, st)], adt_event=ev, nonempty=True, **kw)
            rep.ob(f"cancel:{st}", bool(an.rets) and all(x.get(("s", "c")) == {1} for _, x in an.rets), f"cleaning up a job can leave an attempt in state {st} without cancelling it", g.loc())
            rep.ob(f"release:{st}", bool(an.rets) and all(x.get(("s", "d")) == {1} for _, x in an.rets), "cleaning up a job can skip releasing its data", g.loc())
        for s in rep.analyse(db, g, **kw).sites:
            if s.kind == "adt" and s.expr.a[1] == "CleanUpJob":
                st = unmut(s.field("stage"))
                rep.ob("release:scope", st.op == "adt" and st.a[1] == "None", "cleaning up a job releases only part of its data", s.where())
        an = rep.analyse(db, g, entry={"i": {0}}, assume=job + [av(is_stage_state, "Active")], nonempty=True, assign_fields={"state"},
                         assign=lambda s: [("i", {1})] if is_stage_state(s.dest) and variants_of(s.expr) == {"Inactive"} else True)
        rep.ob("stages-closed", bool(an.rets) and all(x.get(("s", "i")) == {1} for _, x in an.rets), "an active stage can survive the clean-up of its job", g.loc())
    rep.rule("job-terminal", "a job that has succeeded, failed or been cancelled keeps that state, and a job whose tasks all finished ends as succeeded")
    JT = {"Succeeded", "Failed", "Canceled"}
    for nm, fn in (("JobScheduler::clean_up_job", g), ("JobScheduler::stop", h), ("JobScheduler::refresh_job", f)):
        if not rep.need(fn, nm):
            continue
        n = 0
        for js in sorted(JT):
            ss = [s for s in reach(rep, db, fn, [av(is_job_state, js)], **kw) if s.kind == "assign" and is_job_state(s.dest)]
            bad = [s for s in ss if variants_of(s.expr) != {js}]
            rep.ob(f"{nm}:{js}", not bad, f"a job in state {js} can be moved to {show(bad[0].expr) if bad else ''}", bad[0].where() if bad else fn.loc())
        ss = [s for s in reach(rep, db, fn, [], **kw) if s.kind == "assign" and is_job_state(s.dest)]
        rep.floor(f"job state writes in {nm}", len(ss), 1)
    if g is not None:
        for js, want in (("Draining", "Succeeded"), ("Running", "Canceled")):
            ss = [s for s in reach(rep, db, g, [av(is_job_state, js)], **kw) if s.kind == "assign" and is_job_state(s.dest)]
            rep.ob(f"end:{js}", ss and all(variants_of(s.expr) == {want} for s in ss), f"cleaning up a job in state {js} must leave it {want}", g.loc())


def call_named(*ns):
    return shorts(*ns)


def event_on(table):
    """table: short name -> (var, value)"""
    def ev(s):
        r = table.get(s.short) or table.get(s.short.split("::")[-1])
        return [(r[0], {r[1]})] if r else None
    return ev


def hot(*ns):
    ns = set(ns)
    return lambda path, s: s in ns or s.split("::")[-1] in ns


@prop("X04")
def driver_messages(rep):
    db = rep.db(C)
    f = db.find("DriverActor::handle_update_task", crate=C)
    rep.rule("stale", "a task status report whose sequence number is not larger than the last one seen for that attempt changes nothing; otherwise the sequence number is remembered and the status recorded")
    W = ("JobScheduler::update_task", "JobScheduler::refresh_job", "TaskAssigner::unassign_task")
    seq = lambda e: unmut(e).op in ("arg", "ok", "f", "as") and "sequence" in str(show(e)) and "task_sequences" not in fields(e)
    stored = lambda e: "task_sequences" in fields(e)
    skip = lambda p: short(p) in ("JobScheduler::refresh_job", "DriverActor::run_tasks", "DriverActor::scale_up_workers", "DriverActor::run_job_action", "WorkerPool::stop_worker")
    if rep.need(f, "DriverActor::handle_update_task"):
        pres = [av(lambda e: arg_named(e, "sequence"), "+"), av(lambda e: e.op == "call" and stored(e), "+")]
        for rel, want in (("<", False), ("=", False), (">", True)):
            ss = reach(rep, db, f, pres + [ac(seq, stored, rel)], watch=call_named(*W), skip=skip)
            rep.ob(f"sequence {rel} last", bool(ss) == want, ("a stale report is applied: " + ss[0].where()) if ss else "a newer report is dropped", f.loc())
        ev = event_on({"HashMap::insert": ("seen", 1), "IndexMap::insert": ("seen", 1), "BTreeMap::insert": ("seen", 1)})

        def ev2(s):
            if s.short.endswith("::insert") and s.args and "task_sequences" in fields(s.args[0]):
                return [("seen", {1})]
        an = rep.analyse(db, f, entry={"seen": {0}}, assume=[av(lambda e: arg_named(e, "sequence"), "+")], watch=call_named("JobScheduler::update_task"),
                         event=ev2, event_watch=lambda p, s: s.endswith("::insert"), skip=skip)
        for s in an.sites:
            rep.ob("remembered", s.var("seen") == {1}, "the sequence number of an applied report is not remembered", s.where())
        ss = reach(rep, db, f, [av(lambda e: arg_named(e, "sequence"), "-")], watch=call_named("JobScheduler::update_task"), skip=skip)
        rep.floor("unsequenced updates", len(ss), 1)
        rep.rule("status", "each reported status is recorded as the same task state for the same attempt, and a finished task releases its slot and re-evaluates its job")
        for st in ("Running", "Succeeded", "Failed", "Canceled"):
            an = rep.analyse(db, f, assume=[av(lambda e: arg_named(e, "status"), st)], watch=call_named(*W), skip=skip, entry={"un": {0}, "re": {0}},
                             event=event_on({"TaskAssigner::unassign_task": ("un", 1), "JobScheduler::refresh_job": ("re", 1)}),
                             event_watch=hot("TaskAssigner::unassign_task", "JobScheduler::refresh_job"))
            ups = [s for s in an.sites if s.short.endswith("update_task")]
            rep.ob(f"{st}:recorded", ups and all(variants_of(s.args[2]) == {st} or arg_named(s.args[2], "status") for s in ups), f"a {st} report is not recorded as {st}", f.loc())
            rep.ob(f"{st}:key", ups and all(arg_named(s.args[1], "key") for s in ups), "a report is recorded for a different attempt", f.loc())
            if st != "Canceled":
                for s in ups:
                    pass
            applied = [x for _, x in an.rets if True]
            if st in ("Succeeded", "Failed"):
                an3 = rep.analyse(db, f, assume=[av(lambda e: arg_named(e, "status"), st), av(lambda e: arg_named(e, "sequence"), "-")], skip=skip, entry={"un": {0}, "re": {0}},
                                  event=event_on({"TaskAssigner::unassign_task": ("un", 1), "JobScheduler::refresh_job": ("re", 1)}),
                                  event_watch=hot("TaskAssigner::unassign_task", "JobScheduler::refresh_job"))
                rep.ob(f"{st}:slot-released", rets_var(an3, "un") == {1}, "a finished task can keep its slot", f.loc())
                rep.ob(f"{st}:refreshed", rets_var(an3, "re") == {1}, "a finished task can leave its job unexamined", f.loc())
    g = db.find("DriverActor::handle_probe_lost_worker", crate=C)
    rep.rule("lost-worker", "a worker is declared lost only when no heartbeat arrived after the probe was armed; then it is stopped and every task it was running is recorded as failed before its slots are forgotten, and the affected jobs are re-evaluated")
    W = ("JobScheduler::update_task", "WorkerPool::stop_worker", "TaskAssigner::deactivate_worker")
    hb = lambda e: has_call(e, "get_worker_last_heartbeat") and not arg_named(e, "instant")
    inst = lambda e: arg_named(e, "instant")
    if rep.need(g, "DriverActor::handle_probe_lost_worker"):
        ishb = av(lambda e: e.op == "call" and short(e.a[0]).endswith("get_worker_last_heartbeat"), "+")
        ss = reach(rep, db, g, [ishb, ac(hb, inst, ">")], watch=call_named(*W), skip=skip)
        rep.ob("alive", not ss, "a worker that sent a heartbeat after the probe was armed is treated as lost" + (": " + ss[0].where() if ss else ""), g.loc())
        ss = reach(rep, db, g, [av(lambda e: e.op == "call" and short(e.a[0]).endswith("get_worker_last_heartbeat"), "-")], watch=call_named(*W), skip=skip)
        rep.ob("unknown", not ss, "an unknown worker is treated as lost", g.loc())
        for rel in "<=":
            an = rep.analyse(db, g, assume=[ishb, ac(hb, inst, rel)], nonempty=True, entry={"st": {0}, "fail": {0}, "de": {0}, "re": {0}, "found": {0}}, skip=skip,
                             watch=call_named(*W, "TaskAssigner::find_worker_tasks", "JobScheduler::refresh_job"),
                             event=event_on({"WorkerPool::stop_worker": ("st", 1), "JobScheduler::update_task": ("fail", 1), "TaskAssigner::deactivate_worker": ("de", 1),
                                             "JobScheduler::refresh_job": ("re", 1), "TaskAssigner::find_worker_tasks": ("found", 1)}),
                             event_watch=hot("WorkerPool::stop_worker", "JobScheduler::update_task", "TaskAssigner::deactivate_worker", "JobScheduler::refresh_job", "TaskAssigner::find_worker_tasks"))
            for v, what in (("st", "stopped"), ("fail", "its tasks failed"), ("de", "its slots dropped"), ("re", "its jobs re-evaluated")):
                rep.ob(f"lost {rel}:{v}", rets_var(an, v) == {1}, f"a lost worker is not always {what}", g.loc())
            for s in an.sites:
                nm = s.short.split("::")[-1]
                if nm == "find_worker_tasks":
                    rep.ob(f"lost {rel}:find-before-forget", s.var("de") == {0}, "the tasks of a lost worker are looked up after its slots were forgotten", s.where())
                elif nm == "deactivate_worker":
                    rep.ob(f"lost {rel}:forget-after-find", s.var("found") == {1}, "the slots of a lost worker are forgotten before its tasks were looked up", s.where())
                elif nm == "update_task":
                    rep.ob(f"lost {rel}:failed", variants_of(s.args[2]) == {"Failed"}, "the task of a lost worker is not recorded as failed", s.where())
                    rep.ob(f"lost {rel}:whose", has_call(s.args[1], "find_worker_tasks"), "a task that was not on the lost worker is failed", s.where())
                elif nm == "refresh_job":
                    rep.ob(f"lost {rel}:refresh-after-fail", s.var("fail") == {1}, "jobs are re-evaluated before their tasks were failed", s.where())
    rep.rule("idle-worker", "a worker is stopped for idleness only when it runs no task, owns no live stream and was not updated after the probe was armed")
    g = db.find("DriverActor::handle_probe_idle_worker", crate=C)
    if rep.need(g, "DriverActor::handle_probe_idle_worker"):
        lu = lambda e: has_call(e, "get_worker_last_update")
        islu = av(lambda e: e.op == "call" and short(e.a[0]).endswith("get_worker_last_update"), "+")
        WW = call_named("WorkerPool::stop_worker", "TaskAssigner::deactivate_worker")
        sk = lambda p: short(p) in ("WorkerPool::stop_worker",)
        ss = reach(rep, db, g, [islu, ac(lu, inst, ">")], watch=WW, skip=sk)
        rep.ob("recent", not ss, "a worker updated after the probe was armed is stopped as idle", g.loc())
        ss = reach(rep, db, g, [lambda k: frozenset([False]) if k[0] == "b" and has_call(k[1], "is_empty") and "local_streams" in fields(k[1]) else None], watch=WW, skip=sk)
        rep.ob("streams", not ss, "a worker that still owns task streams is stopped as idle", g.loc())
        ss = reach(rep, db, g, [lambda k: frozenset([False]) if k[0] == "b" and has_call(k[1], "is_empty") and "tasks" in fields(k[1]) else None], watch=WW, skip=sk, nonempty=True, mixed=True)
        rep.ob("tasks", not ss, "a worker that still runs tasks is stopped as idle", g.loc())
        ss = reach(rep, db, g, [], watch=WW, skip=sk)
        rep.floor("idle stops", len(ss), 2)
    rep.rule("pending-task", "a task is failed for scheduling timeout only while it is still unassigned and no worker is on its way")
    g = db.find("DriverActor::handle_probe_pending_task", crate=C)
    if rep.need(g, "DriverActor::handle_probe_pending_task"):
        n = 0
        for s in reach(rep, db, g, [], adt_watch=adt_named("UpdateTask")):
            n += 1
            rep.ob("state", s.has_variant(lambda e: has_call(e, "get_task_state") or is_task_state(e), {"Created"}), "a task that was already handed out can time out as unscheduled", s.where())
            rep.ob("failed", variants_of(s.field("status")) == {"Failed"}, "a timed out task is not failed", s.where())
        rep.floor("scheduling timeouts", n, 1)
        ss = reach(rep, db, g, [lambda k: frozenset([True]) if k[0] == "b" and has_call(k[1], "has_pending_workers") else None], adt_watch=adt_named("UpdateTask"),
                   skip=lambda p: short(p).endswith("has_pending_workers"))
        rep.ob("workers-pending", not ss, "a task times out while workers are starting", g.loc())


def arg_named(e, n):
    e = unmut(e)
    while e.op in ("ok", "as"):
        e = unmut(e.a[0])
    return e.op == "arg" and e.a[1] == n
