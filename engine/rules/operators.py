"""Sail's own physical operators: every row once"""
from sa.mir import mk, walk, unmut, short, show
from rules import prop
from rules._h import *
from rules.arith import poly, Poly, lift, div, rem, fun, atom

P_, M_, N_ = atom("p"), atom("m"), atom("n")


def single(rep, key, xs, what, where=""):
    rep.ob(f"{key}:anchor", len(xs) == 1, f"{what}: {len(xs)} found", where)
    return xs[0] if len(xs) == 1 else None


def elem_range(e):
    """(start, end exclusive) of the range an element runs over"""
    e = unmut(e)
    if e.op != "elem":
        return None
    it = unmut(e.a[0])
    if it.op == "adt" and it.a[0].endswith("::Range"):
        d = dict(it.a[2])
        return d["start"], d["end"]
    return None


def is_param(*nms):
    def p(e):
        e = unmut(e)
        return e.op == "arg" and e.a[1] in nms
    return p


def count_of(e):
    e = unmut(e)
    return e.op == "call" and name(short(e.a[0])) == "partition_count" and "input" in str(e)


def rows_of(e):
    e = unmut(e)
    return e.op == "call" and name(short(e.a[0])) == "num_rows"


def cut(rep, key, an, lo, hi, names, count, first, last, msg, where):
    """[lo, hi) of partition p of m are consecutive pieces of [first, last)"""
    base = dict(p=P_)

    def L(e, p):
        return poly(an, e, [(q, {"p": p, "m": M_}.get(nm, atom(nm)) if isinstance(nm, str) else nm) for q, nm in names])
    rep.ob(f"{key}:adjacent", L(hi, P_) == L(lo, P_ + 1), f"{msg}: a partition does not end where the next one starts ({L(hi, P_)} / {L(lo, P_ + 1)})"[:220], where)
    rep.ob(f"{key}:first", L(lo, Poly()) == first, f"{msg}: the first partition starts at {L(lo, Poly())}"[:220], where)
    rep.ob(f"{key}:last", L(lo, M_) == last, f"{msg}: the last partition ends at {L(lo, M_)}"[:220], where)


@prop("Q04")
def coalesce(rep):
    db = rep.db("sail_physical_plan", "sail_logical_plan")
    rep.rule("coalesce", "the input partitions are divided among the output partitions without gap or overlap, and an output partition yields all items of its inputs")
    f = db.find("CoalesceExec::execute")
    rep.need(f, "CoalesceExec::execute")
    an = rep.analyse(db, f, watch=shorts("execute"))
    s = single(rep, "execute", [s for s in an.sites if "ExecutionPlan" in s.path], "reads of the input", f.loc())
    if s:
        r = elem_range(s.args[1])
        rep.ob("execute:range", r is not None, "the input partitions read are not a range", s.loc)
        if r:
            N = [(arg_is(2), "p"), (count_of, "n"), (is_field("output_partitions"), "m")]
            cut(rep, "execute", an, r[0], r[1], N, N_, Poly(), N_, "coalescing", s.loc)
        rep.ob("execute:all", not quantified_out(s), "the input partitions are filtered", s.loc)
    for e, st in ret_states(an, "+"):
        x = [y for y in walk(e) if y.op == "adt" and y.a[0].endswith("CoalesceStream")]
        rep.ob("execute:streams", bool(x) and all(not ({name(c) for c in calls(dict(y.a[2]).get("inputs"))} & DROPS) for y in x), "input streams are left out of the output", f.loc())
    f = db.find("CoalesceStream::poll_next")
    rep.need(f, "CoalesceStream::poll_next")

    def front(e):
        e = unmut(e)
        return e.op == "call" and name(short(e.a[0])) in ("front_mut", "first_mut", "front", "get_mut") and "inputs" in fields(e)

    def poll(e):
        e = unmut(e)
        return e.op == "call" and name(short(e.a[0])) in ("poll_next", "poll_next_unpin")

    def item(e):
        e = unmut(e)
        if e.op == "ok":
            return False
        while e.op in ("f", "as") and e.a:
            e = unmut(e.a[0])
        return poll(e)
    an = rep.analyse(db, f, watch=shorts(*REMOVERS), assume=[av(front, "+"), av(item, "+")])
    rep.ob("poll:item", bool(an.rets) and all("Pending" in str(e) or has_item(e) for e, _ in an.rets), "an item of an input is not passed on", f.loc())
    rep.ob("poll:keep", not [s for s in an.sites if "inputs" in str(s.args[0])], "an input that still has items is dropped", f.loc())
    an = rep.analyse(db, f, watch=shorts(*REMOVERS), assume=[av(front, "+"), av(item, "-")])
    rep.ob("poll:next", not [e for e, _ in an.rets if "Pending" not in str(e) and not has_item(e)], "the output ends although another input is left", f.loc())
    rep.ob("poll:order", all(name(s.short) in ("pop_front", "remove") for s in an.sites if "inputs" in str(s.args[0])), "inputs are not read in order", f.loc())


REMOVERS = ("pop_front", "pop_back", "pop", "remove", "clear", "truncate", "swap_remove", "drain", "retain", "split_off")
DROPS = {"filter", "skip", "take", "step_by", "filter_map", "take_while", "skip_while", "pop", "truncate", "dedup", "retain", "flatten", "ok", "rev"}


def quantified_out(s):
    e = unmut(s.args[1])
    return {name(c) for c in calls(e)} & DROPS


def has_item(e):
    return any(x.op == "adt" and x.a[1] == "Some" or x.op == "as" for x in walk(e))


@prop("Q04")
def ranges(rep):
    db = rep.db("sail_physical_plan", "sail_logical_plan")
    rep.rule("range", "the partitions of a range are consecutive, start and end with the range, and each yields every step of its part")
    f = db.find("Range::partition")
    rep.need(f, "Range::partition")
    an = rep.analyse(db, f)
    fs, fe, fp = (lambda nm: lambda e: is_field(nm)(e) and unmut(unmut(e).a[0]).op == "arg")("start"), (lambda e: is_field("end")(e)), (lambda e: is_field("step")(e))

    def elements(e):
        e = unmut(e)
        if e.op == "f":
            return False
        # the number of elements: computed from both ends of the range, not from the partition
        return e.op in ("phi", "call", "bin") and {"start", "end"} <= set(fields(e)) and not any(x.op == "arg" and x.a[0] in (2, 3) for x in walk(e)) and (e.op == "phi" or (e.op == "call" and not poly_simple(e)))
    N = [(arg_is(2), "p"), (arg_is(3), "m"), (elements, "n"), (is_field("start"), "start"), (is_field("step"), "step")]
    for e, st in an.rets:
        d = dict(unmut(e).a[2]) if unmut(e).op == "adt" else {}
        if not rep.ob("partition:result", {"start", "end", "step"} <= set(d), f"the part is not a range: {show(e, 2)[:60]}", f.loc()):
            continue
        rep.ob("partition:step", is_field("step")(d["step"]), "the step of a part is another one", f.loc())
        lim = lambda x: atom(f"clamp({x}, {-2 ** 63}, {2 ** 63 - 1})")
        cut(rep, "partition", an, d["start"], d["end"], N, N_, lim(atom("start")), lim(atom("n") * atom("step") + "start"), "range", f.loc())
        ns = {x for x in walk(d["end"]) if elements(x)}
        dist = fun("abs", atom("end") - "start")
        st_ = fun("abs", atom("step"))
        up = fun("one of", 1, 0)
        good = {str(fun("one of", div(dist, st_) + up, 0)), str(fun("one of", div(dist + st_ - 1, st_), 0)), str(fun("one of", div(dist, st_) + 1, div(dist, st_), 0)),
                str(fun("one of", div(dist - 1, st_) + 1, 0))}
        for x in ns:
            p = poly(an, x, [(is_field("start"), "start"), (is_field("end"), "end"), (is_field("step"), "step")])
            rep.ob("partition:count", str(p) in good, f"the number of elements of a range is {p}"[:200], f.loc())
    f = db.find("RangeIterator::next")
    rep.need(f, "RangeIterator::next")
    cur, end, step = is_field("current"), is_field("end"), is_field("step")
    zero = lambda e: is_const(e, 0)
    for sg, rel, go in ((">", "<", True), (">", "=", False), (">", ">", False), ("<", ">", True), ("<", "=", False), ("<", "<", False)):
        an = rep.analyse(db, f, assume=[ac(step, zero, sg), ac(cur, end, rel)], assign_fields={"current"}, assign=lambda s: True)
        key = f"next:step{sg}0:current{rel}end"
        for e, st in an.rets:
            e = unmut(e)
            some = e.op == "adt" and e.a[1] == "Some"
            rep.ob(key, some == go, f"a range with step {sg} 0 and its current value {rel} its end {'goes on' if some else 'ends'}", f.loc())
            if some:
                rep.ob(f"{key}:value", cur(e.a[2][0][1]), "the range yields something other than its current value", f.loc())
        if go:
            asg = [s for s in an.sites if s.kind == "assign"]
            ok = bool(asg) and all(str(poly(an, x, [(cur, "c"), (end, "end"), (step, "step")])) in ("c + step", "step + c", "end", str(atom("c") + "step")) for s in asg for x in alts(an, s.expr))
            rep.ob(f"{key}:advance", ok, "the range does not advance by its step", f.loc())
    f = db.find("RangeExec::execute")
    an = rep.analyse(db, f, watch=shorts("partition", "take", "with_row_count"))
    s = single(rep, "exec", [s for s in an.sites if s.short == "Range::partition"], "partitions of the range", f.loc())
    if s:
        rep.ob("exec:partition", arg_is(2)(s.args[1]) and is_field("num_partitions")(s.args[2]), "another part of the range than that of the partition is produced", s.loc)


def poly_simple(e):
    return name(short(e.a[0])) in ("abs", "unsigned_abs", "sub", "checked_sub", "abs_diff", "clamp", "div", "rem", "min", "max", "into", "from")


@prop("Q04")
def round_robin(rep):
    db = rep.db("sail_physical_plan")
    rep.rule("roundrobin", "every row of a batch goes to exactly one partition, in turn, over all batches of the input")
    f = db.find("RowRoundRobinPartitioner::partition")
    rep.need(f, "RowRoundRobinPartitioner::partition")
    nx, np = is_field("next_idx"), is_field("num_partitions")
    N = [(nx, "next"), (np, "m"), (rows_of, "rows"), (lambda e: e.op == "elem", "i")]
    big = [num(rows_of, 7), ac(np, lambda e: is_const(e, 1), ">")]
    an = rep.analyse(db, f, assume=big, watch=lambda p, s: name(s) in ("push", "index_mut", "call_mut", "call", "call_once", "get_mut", "extend"), assign_fields={"next_idx"}, assign=lambda s: True)
    want = rem(atom("next") + "i", M_)
    push = single(rep, "partition:push", [s for s in an.sites if name(s.short) == "push"], "places where a row is given to a partition", f.loc())
    if push:
        r = elem_range(push.args[1])
        rep.ob("partition:rows", r is not None and is_const(r[0], 0) and rows_of(r[1]), "not every row of the batch is given to a partition", push.loc)
        tgt = unmut(push.args[0])
        i = poly(an, tgt.a[1], N) if tgt.op == "idx" else None
        if i is None and tgt.op == "call" and len(tgt.a[1]) == 2:
            i = poly(an, tgt.a[1][1], N)
        rep.ob("partition:index", i == want, f"row i goes to partition {i}", push.loc)
    asg = [s for s in an.sites if s.kind == "assign"]
    rep.ob("partition:advance", len(asg) == 1 and poly(an, asg[0].expr, N) == rem(atom("next") + "rows", M_), "the next batch does not go on where this one ended", f.loc())
    fc = [s for s in an.sites if name(s.short) in ("call_mut", "call", "call_once") and arg_is(3)(s.args[0])]
    s = single(rep, "partition:emit", fc, "places where a partition is passed on", f.loc())
    if s:
        t = unmut(s.args[1])
        i, b = (t.a[0][0], t.a[0][1]) if t.op == "tup" else (s.args[1], s.args[-1])
        rep.ob("partition:emit:index", unmut(i).op == "index", f"a partition is passed on as {show(i, 3)[:60]}", s.loc)
        rep.ob("partition:emit:rows", bool(call_nodes(b, "take_arrays", "take", "take_record_batch")), "what is passed on are not the rows of the partition", s.loc)
    # nothing but an empty partition is left out
    emp = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "is_empty"
    an = rep.analyse(db, f, assume=big + [ab(emp, False)], watch=lambda p, s: name(s) in ("call_mut", "call", "call_once"))
    exhausts(rep, db, f, lambda e: "enumerate" in str(e) or "num_partitions" in str(e), "partition:all", "not every partition is passed on", assume=big)
    for e, st in rep.analyse(db, f, assume=[num(rows_of, 7), num(np, 1)], watch=shorts("call_mut")).rets:
        e = unmut(e)
        rep.ob("partition:one", e.op in ("call", "dyncall") and "batch" in str(e), "with one partition, the batch is not passed on", f.loc())
    f = db.find("RowRoundRobinPartitioner::new")
    an = rep.analyse(db, f)
    f = db.find("repartition::partition_round_robin_batch")
    rep.need(f, "partition_round_robin_batch")
    an = rep.analyse(db, f, watch=shorts("partition", "index_mut"))
    s = single(rep, "batch", [s for s in an.sites if s.short == "RowRoundRobinPartitioner::partition"], "partitioning of a batch", f.loc())
    if s:
        rep.ob("batch:whole", unmut(s.args[1]).op == "arg", "another batch is partitioned", s.loc)
    rep.ob("batch:error", all(st for e, st in an.rets), "", f.loc())
    f = co(db, "repartition::send_round_robin_partitions")
    rep.need(f, "send_round_robin_partitions")
    closed = lambda e: unmut(e).op == "call" and name(short(unmut(e).a[0])) == "is_closed"
    an = rep.analyse(db, f, watch=shorts("send"))
    s = single(rep, "send", [s for s in an.sites if name(s.short) == "send"], "places where a partition is sent", f.loc())
    if s:
        to, what = unmut(s.args[0]), s.args[1]
        ix = [x for x in walk(to) if x.op == "idx"]
        rep.ob("send:to", bool(ix) and unmut(ix[0].a[1]).op == "index", f"a partition is sent to {show(to, 4)[:80]}", s.loc)
        rep.ob("send:what", "elem" in {x.op for x in walk(what)} and not calls(what) - {"Iterator::enumerate"} - calls(ix[0].a[1] if ix else what), f"what is sent is {show(what, 4)[:60]}", s.loc)
    f = db.find("ExplicitRepartitionExec::initialize_round_robin")
    rep.need(f, "initialize_round_robin")
    an = rep.analyse(db, f, watch=shorts("execute", "channel", "spawn", "execute_round_robin_input_partition"), skip=lambda p: "execute_round_robin" in p)
    s = single(rep, "inputs", [s for s in an.sites if "ExecutionPlan" in s.path], "reads of the input", f.loc())
    if s:
        r = elem_range(s.args[1])
        rep.ob("inputs:all", r is not None and is_const(r[0], 0) and count_of(r[1]), "not every input partition is read", s.loc)
    s = single(rep, "outputs", [s for s in an.sites if name(s.short) == "channel"], "channels", f.loc())
    if s:
        ends = [x for e, st in ret_states(an, "+") for x in st if x[0] == "v" and "Iterator::next" in str(x[1]) and "output_partitions" in str(x[1])]
        rep.ob("outputs:all", bool(ends) or "output_partitions" in str(s.guards if hasattr(s, "guards") else ""), "not every output partition has a channel", s.loc)
    for g in [f] + inner_fns(db, f):
        an = rep.analyse(db, g, watch=lambda p, s: name(s) == "execute_round_robin_input_partition", skip=lambda p: "execute_round_robin" in p)
        for s in an.sites:
            a = [unmut_all(x) for x in s.args]
            ok = any(x.op == "elem" or x.op == "up" and x.a[1] == "input_partition" for x in walk(a[2])) and (any(count_of(x) for x in walk(a[3])) or "count" in str(a[3])) and "output_partitions" in str(a[4])
            rep.ob("inputs:task", ok, f"the task of an input partition gets {[show(x, 3)[:60] for x in a[2:]]}"[:220], s.loc)


@prop("Q04")
def ids(rep):
    db = rep.db("sail_physical_plan")
    rep.rule("ids", "monotonically increasing ids are the partition in the upper 31 bits and the row number in the lower 33, for every row; the row number never reaches the partition")
    f = db.find("MonotonicIdStream::make_ids")
    rep.need(f, "MonotonicIdStream::make_ids")
    off = is_field("offset")
    S = [(arg_is(2), "len"), (is_field("partition"), "p"), (off, "off"), (lambda e: e.op == "elem", "i")]
    lim = lambda e: poly(an0, e, []).const == 2 ** 33
    an0 = rep.analyse(db, f)
    tot = lambda e: poly(an0, e, S) == atom("off") + "len"
    for rel, good in ((">", False), ("=", True), ("<", True)):
        an = rep.analyse(db, f, assume=[ac(tot, lim, rel)], watch=shorts("map", "collect"), assign_fields={"offset"}, assign=lambda s: True)
        okr = ret_states(an, "+")
        rep.ob(f"limit{rel}", bool(okr) == good, f"with offset + rows {rel} 2^33 the ids are {'produced' if okr else 'refused'}", f.loc())
        if not good:
            continue
        asg = [s for s in an.sites if s.kind == "assign"]
        rep.ob("advance", len(asg) == 1 and tot(asg[0].expr), "the offset does not advance by the rows of the batch", f.loc())
        got = []
        for s in an.sites:
            if s.kind != "assign" and name(s.short) == "map" and len(s.args) > 1:
                r = elem_range(mk("elem", unmut(s.args[0])))
                v = an.clo_value(s.args[1], [mk("elem", unmut(s.args[0]))])
                if v is not None and r:
                    got.append((poly(an, v, S), is_const(r[0], 0) and arg_is(2)(r[1]), s))
        rep.ob("values", len(got) == 1 and got[0][0] == atom("p") * 2 ** 33 + "off" + "i", f"the id of row i is {[str(g[0]) for g in got]}", f.loc())
        rep.ob("rows", bool(got) and all(g[1] for g in got), "not every row has an id", f.loc())
    f = db.find("MonotonicIdStream::poll_next")
    an = rep.analyse(db, f, watch=shorts("make_ids", "insert"), skip=lambda p: "make_ids" in p)
    s = single(rep, "poll", [s for s in an.sites if name(s.short) == "make_ids"], "batches given ids", f.loc())
    if s:
        rep.ob("poll:rows", rows_of(s.args[1]), "the number of ids is not that of the rows", s.loc)
    s = single(rep, "poll:insert", [s for s in an.sites if name(s.short) == "insert"], "columns inserted", f.loc())
    if s:
        rep.ob("poll:column", is_field("col_idx")(s.args[1]) and "make_ids" in str(s.args[2]), "the ids are not the inserted column", s.loc)
    f = db.find("MonotonicIdExec::execute")
    an = rep.analyse(db, f, watch=shorts("new"), skip=lambda p: "MonotonicIdStream" in p)
    s = single(rep, "exec", [s for s in an.sites if s.short == "MonotonicIdStream::new"], "streams", f.loc())
    if s:
        rep.ob("exec:partition", arg_is(2)(s.args[3]), "the partition of the ids is not that of the stream", s.loc)
    f = db.find("MonotonicIdStream::new")
    for e, st in ret_states(rep.analyse(db, f), "+"):
        for x in walk(e):
            if x.op == "adt" and x.a[0].endswith("MonotonicIdStream"):
                d = dict(x.a[2])
                rep.ob("new", is_const(d["offset"], 0) and arg_is(4)(d["partition"]), "a stream does not start with the first row of its partition", f.loc())
    rep.rule("partition-id", "spark_partition_id is the index of the partition, for every row")
    f = db.find("SparkPartitionIdExec::execute")
    rep.need(f, "SparkPartitionIdExec::execute")
    an = rep.analyse(db, f)
    xs = [x for e, st in ret_states(an, "+") for x in walk(e) if x.op == "adt" and x.a[0].endswith("SparkPartitionIdStream")] or \
         [x for e, st in ret_states(an, "+") for x in walk(e) if x.op == "call" and "SparkPartitionIdStream" in x.a[0]]
    rep.ob("exec", bool(xs) and all(any(arg_is(2)(y) for y in walk(x)) for x in xs), "the stream is not given its partition", f.loc())


@prop("Q04")
def limits(rep):
    db = rep.db("sail_physical_plan")
    rep.rule("limit", "a streaming limit leaves out the first `skip` rows and yields the next `fetch` rows, over all batches")
    f = db.find("StreamLimitState::skip_batch_if_needed")
    rep.need(f, "StreamLimitState::skip_batch_if_needed")
    sk = is_field("skip")
    S = [(sk, "skip"), (rows_of, "rows"), (is_field("fetch"), "fetch"), (lambda e: unmut(e).op == "ok" and is_field("fetch")(unmut(e).a[0]), "fetch")]
    pos = ac(sk, lambda e: is_const(e, 0), ">")

    def slices(an, key, lo, ln, n=2):
        xs = [s for s in an.sites if s.kind != "assign" and name(s.short) == "slice"]
        rep.ob(f"{key}:slices", len(xs) == n and all(poly(an, s.args[1], S) == lo and poly(an, s.args[2], S) == ln for s in xs), f"rows kept: {[(str(poly(an, s.args[1], S)), str(poly(an, s.args[2], S))) for s in xs]}", f.loc())

    def assigned(an, key, want):
        xs = [s for s in an.sites if s.kind == "assign"]
        got = [str(poly(an, y, S)) for s in xs for y in [unwrap_some(s.expr)]]
        rep.ob(f"{key}:count", got == ([str(lift(want))] if want is not None else []), f"the count becomes {got}", f.loc())
    kw = dict(watch=shorts("slice"), assign_fields={"skip", "fetch"}, assign=lambda s: True)
    an = rep.analyse(db, f, assume=[num(sk, 0)], **kw)
    rep.ob("skip0", bool(an.rets) and all(is_some(e) and not calls(e) for e, _ in an.rets) and not an.sites, "with nothing to skip, the batch is not passed on", f.loc())
    for rel in ("<", "="):
        an = rep.analyse(db, f, assume=[pos, ac(rows_of, sk, rel)], **kw)
        rep.ob(f"skip{rel}", bool(an.rets) and all(not is_some(e) for e, _ in an.rets), "a batch to be skipped is passed on", f.loc())
        assigned(an, f"skip{rel}", atom("skip") - "rows")
    an = rep.analyse(db, f, assume=[pos, ac(rows_of, sk, ">")], **kw)
    rep.ob("skip>", bool(an.rets) and all(is_some(e) for e, _ in an.rets), "the rest of a batch is not passed on", f.loc())
    slices(an, "skip>", atom("skip"), atom("rows") - "skip")
    assigned(an, "skip>", 0)
    f = db.find("StreamLimitState::fetch_batch")
    rep.need(f, "StreamLimitState::fetch_batch")
    fo = is_field("fetch")
    fv = S[3][0]
    deref = lambda e: fv(unmut_all(e))
    an = rep.analyse(db, f, assume=[av(fo, "-")], **kw)
    rep.ob("fetch-", bool(an.rets) and all(is_some(e) and not calls(e) for e, _ in an.rets), "without a limit, the batch is not passed on", f.loc())
    S.append((deref, "fetch"))
    for rel in (">", "="):
        an = rep.analyse(db, f, assume=[av(fo, "+"), ac(deref, rows_of, rel)], **kw)
        rep.ob(f"fetch{rel}", bool(an.rets) and all(is_some(e) and "slice" not in str(e) for e, _ in an.rets), "a batch within the limit is not passed on", f.loc())
        if [s for s in an.sites if s.kind == "assign"]:
            assigned(an, f"fetch{rel}", atom("fetch") - "rows")
        else:
            # through a reference to the count
            got = [poly(an, f.rv_expr(st[1], (i, j)), S) for i, blk in enumerate(f.blocks) if blk and i in f.reach for j, st in enumerate(blk[0]) if len(st[0]) == 2 and st[0][1] == "*"]
            rep.ob(f"fetch{rel}:count", atom("fetch") - "rows" in got, f"the count becomes {[str(x) for x in got]}", f.loc())
    an = rep.analyse(db, f, assume=[av(fo, "+"), ac(deref, rows_of, "<"), ac(deref, lambda e: is_const(e, 0), ">")], **kw)
    rep.ob("fetch<", bool(an.rets) and all(is_some(e) for e, _ in an.rets), "the rows within the limit are not passed on", f.loc())
    slices(an, "fetch<", Poly(), atom("fetch"))
    assigned(an, "fetch<", 0)
    an = rep.analyse(db, f, assume=[av(fo, "+"), ac(deref, rows_of, "<"), num(deref, 0)], **kw)
    rep.ob("fetch0", bool(an.rets) and all(not is_some(e) for e, _ in an.rets), "rows past the limit are passed on", f.loc())
    rep.rule("show", "show() prints the first rows up to the limit, and says so when there are more")
    f = db.find("ShowStringStream::poll")
    rep.need(f, "ShowStringStream::poll")
    lm = is_field("limit")
    S = [(lm, "limit"), (rows_of, "rows")]
    kw = dict(watch=shorts("push", "slice"), assign_fields={"limit", "has_more_data"}, assign=lambda s: True)
    item = lambda e: "poll_next" in str(e) and unmut(e).op != "ok" or unmut(e).op == "ok" and "poll_next" in str(e)
    for rel, more in (("<", False), ("=", False), (">", True)):
        an = rep.analyse(db, f, assume=[ac(rows_of, lm, rel)], **kw)
        p = [s for s in an.sites if s.kind != "assign" and name(s.short) == "push"]
        rep.ob(f"show{rel}:data", len(p) == 1 and ("slice" in str(p[0].args[1])) == more, "the rows shown are not the rows of the input up to the limit", f.loc())
        lim = [poly(an, s.expr, S) for s in an.sites if s.kind == "assign" and s.dest.a[1] == "limit"]
        rep.ob(f"show{rel}:limit", lim == ([Poly()] if more else [atom("limit") - "rows"]) or not more and rel == "=" and lim == [Poly()], f"the limit becomes {[str(x) for x in lim]}", f.loc())
        hm = [s for s in an.sites if s.kind == "assign" and s.dest.a[1] == "has_more_data"]
        rep.ob(f"show{rel}:more", len(hm) == more and all("true" in str(s.expr) for s in hm), "whether there are more rows is wrong", f.loc())
        if more:
            xs = [s for s in an.sites if s.kind != "assign" and name(s.short) == "slice"]
            rep.ob("show>:slice", len(xs) == 1 and is_const(xs[0].args[1], 0) and lm(xs[0].args[2]), "the rows shown are not the first ones", f.loc())
        else:
            rep.ob(f"show{rel}:go-on", any("Continue" in str(e) for e, _ in an.rets), "show() stops before it knows whether there are more rows", f.loc())
    rep.rule("barrier", "the plan behind a barrier starts only after every precondition has run to its end without error")
    f = db.find("BarrierExec::execute")
    rep.need(f, "BarrierExec::execute")
    an = rep.analyse(db, f, watch=shorts("execute", "map"))
    pre = [s for s in an.sites if "ExecutionPlan" in s.path and name(s.short) == "execute"]
    rep.ob("preconditions", any("preconditions" in str(s.args[0]) and "elem" in {x.op for x in walk(s.args[0])} for s in pre), "the preconditions are not run", f.loc())
    n = 0
    for g in inner_fns(db, f):
        if not any(p and short(p) == "StreamExt::next" for i, p, gg, t in g.calls()):
            continue
        n += 1
        an = rep.analyse(db, g, watch=shorts("execute"))
        for s in an.sites:
            out = [k for k, v in s.state.items() if k[0] == "v" and "Iterator::next" in str(k[1]) and v == frozenset(["-"])]
            rep.ob("plan-last", bool(out), "the plan is started before all preconditions are done", s.loc)
            rep.ob("plan", "plan" in str(s.args[0]), "what is started is not the plan", s.loc)
        exhausts(rep, db, g, lambda e: "streams" in str(e), "all-preconditions", "not every precondition is run to its end")
    rep.floor("barrier bodies", n, 1)


def unwrap_some(e):
    e = unmut(e)
    if e.op == "adt" and e.a[1] == "Some":
        return e.a[2][0][1]
    return e


def is_some(e):
    e = unmut(e)
    return e.op == "adt" and e.a[1] == "Some"
