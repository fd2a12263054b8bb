"""errors of input streams and results"""
import os
from sa.mir import E, mk, walk, unmut, short, show
from rules import prop
from rules._h import *

NEXT_OPT = ("StreamExt::next", "FusedStream::next")
NEXT_RES = ("TryStreamExt::try_next",)
POLL = ("Stream::poll_next", "StreamExt::poll_next_unpin")
CRATES = ("sail_data_source", "sail_delta_lake", "sail_iceberg", "sail_execution", "sail_flight", "sail_object_store", "sail_physical_plan", "sail_python", "sail_python_udf", "sail_spark_connect", "sail_telemetry",
          "sail_common_datafusion", "sail_session", "sail_plan", "sail_celeborn", "sail_catalog_system", "sail_catalog", "sail_cli", "sail_common", "sail_logical_plan", "sail_physical_optimizer")


def stream_of(x):
    return unmut_all(x.a[1][0])


def reads(skip):
    """predicates for what is read from a stream that is not among `skip`: the poll, whether there is an item, the (failed) item"""
    met = set()

    def mine(x, kinds):
        if x.op != "call" or short(x.a[0]) not in kinds or not x.a[1]:
            return False
        r = str(stream_of(x))
        if r in skip:
            return False
        met.add(r)
        return True

    def poll(e):
        return mine(unmut(e), POLL)

    def some(e):
        e = unmut(e)
        if e.op == "await":
            return mine(unmut(e.a[0]), NEXT_OPT)
        if e.op == "ok" and e.a:
            return mine(unmut(e.a[0]), POLL)
        y = e
        # the payload of Poll::Ready
        while y.op in ("f", "as", "dc", "down") and y.a:
            y = unmut(y.a[0])
        return y is not e and mine(y, POLL)

    def item(e):
        e = unmut(e)
        if e.op == "await":
            return mine(unmut(e.a[0]), NEXT_RES)
        return e.op == "ok" and some(e.a[0])
    return poll, some, item, met


@prop("Q03")
def input_errors(rep):
    db = rep.db(*CRATES)
    rep.rule("poll", "when an input stream reports an error, the body that reads it returns or forwards that error; it never ends as if the input had ended")
    n = seen = 0
    for c in CRATES:
        for k in db.all_keys(c):
            f = db.fn(k)
            if "::tests::" in k or "/tests/" in f.file:
                continue
            own = [p for i, p, g, t in f.calls() if p and short(p) in NEXT_OPT + NEXT_RES + POLL]
            if not own:
                continue
            n += 1
            done = set()
            for j in range(len(own)):
                poll, some, it, met = reads(frozenset(done))
                hit, again = [], []

                def err(e, it=it, some=some):
                    # (what the item holds when it is no error does not carry the error)
                    turned = lambda x: unmut(x).op == "call" and short(unmut(x).a[0]) == "Option::transpose" and some(unmut(x).a[1][0])
                    if e.op == "ok" and (it(e.a[0]) or turned(e.a[0])):
                        return False
                    return turned(e) or e.op in ("err", "residual") and it(e.a[0]) or it(e) or any(err(y) for y in kids(e))

                def whole(e, poll=poll, some=some):
                    """what was read, handed on as it is"""
                    e = unmut(e)
                    return some(e) or poll(e) or e.op == "adt" and any(whole(v) for _, v in e.a[2])

                def ev(s, it=it, err=err, hit=hit, again=again, done=done):
                    if s.short in NEXT_OPT + NEXT_RES + POLL and s.args:
                        r = str(unmut_all(s.args[0]))
                        if r in done:
                            return None
                        hit.append(r)
                        if 1 in (s.var("n") or ()):
                            again.append(s)
                        return [("n", {1})]
                    if s.args and name(s.short) not in QUIET and any(err(a) for a in s.args):
                        return [("n", {2})]
                    return None
                an = rep.analyse(db, f, assume=[av(poll, "Ready"), av(some, "+"), av(it, "-"), ab(is_flag, False)], event=ev, event_watch=lambda p, s: True, entry={"n": {0}}, skip=lambda p: True)
                if not hit:
                    break
                key = f"{f.short}:{hit[0][:40]}" if j else f.short
                if met & set(hit):
                    best = f.short.split("::{closure")[0] in BEST_EFFORT
                    some_not = f.short.split("::{closure")[0] in NOT_FOUND and any(err(e) for e, st in ret_states(an))
                    rep.ob(f"{key}:again", best or some_not or not again, "the body reads on after an error of the input stream", f.loc())
                    for e, st in ret_states(an):
                        if st.get(("s", "n")) == {0}:
                            continue
                        if is_pending(e):
                            continue
                        seen += 1
                        if best or err(e) or whole(e) or st.get(("s", "n")) == {2}:
                            rep.ob(f"{key}:end", True)
                            continue
                        pol = an.var_con(e, frozenset(["+"]))
                        rep.ob(f"{key}:end", pol is None and "Poll" not in str(e), f"an error of the input stream is dropped (returns {show(e, 3)[:80]})", f.loc())
                done.update(hit)
    rep.floor("bodies that read a stream", n, 55)
    rep.floor("ways in which a body reacts to an error", seen, 35)


def kids(e):
    for x in e.a:
        if isinstance(x, E):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, E):
                    yield y
                elif isinstance(y, tuple):
                    yield from (z for z in y if isinstance(z, E))


def is_pending(e):
    return e.op in ("agg", "adt", "new") and "Pending" in str(e.a) or str(e).endswith("Poll::Pending{}")


def is_flag(e):
    """a flag with which another task cancels the body"""
    e = unmut(e)
    return e.op == "call" and e.a[0].startswith("core::sync::atomic::Atomic") and name(short(e.a[0])) == "load"


# deletions that go on with the next object when one object cannot be deleted, and a listing whose gaps only keep more files
BEST_EFFORT = {"snapshot::cleanup_created_paths", "commit_exec::delete_task_files", "cleanup::find_retention_checkpoint_version"}
# deletions for which an object that is gone is no error, while every other error is returned
NOT_FOUND = {"path::delete_object_store_prefix_objects"}
QUIET = {"drop", "branch", "is_err", "is_ok", "ok", "fmt", "new_display", "new_debug", "clone"}
