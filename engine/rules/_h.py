"""predicates over symbolic expressions, shared by the rule files"""
from sa.mir import E, mk, mkt, walk, unmut, short, show, kids, strip_generics
from sa import ip

T = frozenset([True])


def last_field(e):
    e = unmut(e)
    if e.op == "f":
        return e.a[1]
    return None


def fields(e):
    """names of all fields mentioned anywhere in e"""
    r = getattr(e, "_fields", None) if False else _FC.get(e)
    if r is None:
        r = frozenset(x.a[1] for x in walk(e) if x.op == "f")
        _FC[e] = r
    return r


_FC = {}
_CC = {}


def calls(e):
    """short names of all calls inside e"""
    r = _CC.get(e)
    if r is None:
        r = frozenset(short(x.a[0]) for x in walk(e) if x.op == "call")
        _CC[e] = r
    return r


def has_call(e, *names):
    return any(c in names or c.split("::")[-1] in names for c in calls(e))


def call_nodes(e, *names):
    return [x for x in walk(e) if x.op == "call" and (short(x.a[0]) in names or short(x.a[0]).split("::")[-1] in names)]


def is_field(name, *inside):
    """e is place ending in .name whose path mentions all fields in `inside`"""
    def p(e):
        return last_field(e) == name and all(i in fields(e) for i in inside)
    return p


def mention(*names):
    def p(e):
        f = fields(e)
        return all(n in f for n in names)
    return p


def anyp(e):
    return True


def consts(e):
    return [x.a[0] for x in walk(e) if x.op in ("k", "s")]


def is_const(e, v):
    e = unmut(e)
    return e.op in ("k", "s") and str(e.a[0]).split("_")[0] == str(v)


def adt_variant(e):
    e = unmut(e)
    return e.a[1] if e.op == "adt" else None


def variants_of(e):
    """set of variants e can be when it is (a phi of) enum aggregates, else None"""
    e = unmut(e)
    if e.op == "adt":
        return {e.a[1]}
    if e.op == "phi":
        out = set()
        for x in e.a[0]:
            v = variants_of(x)
            if v is None:
                return None
            out |= v
        return out
    return None


def enum_decision(rep, db, fn, subjects, variants, read):
    """decision table of a function over enum-valued inputs: for every combination of variants of the
    subjects (predicates over expressions), the set of results `read(ret expr)`"""
    import itertools
    out = {}
    for combo in itertools.product(*variants):
        def assume(k, combo=combo):
            if k[0] == "v":
                for p, v in zip(subjects, combo):
                    if p(k[1]):
                        return frozenset([v])
            return None
        an = rep.analyse(db, fn, assume=[assume])
        res = set()
        for e, st in an.rets:
            r = read(e, st)
            if isinstance(r, (set, frozenset)):
                res |= r
            else:
                res.add(r)
        out[combo] = res
    return out


def self_sub(e):
    """the receiver itself (possibly through references)"""
    e = unmut(e)
    return e.op == "arg" and e.a[0] == 1


def arg_is(i):
    def p(e):
        e = unmut(e)
        return e.op == "arg" and e.a[0] == i
    return p


def name(s):
    return s.split("::")[-1]


def shorts(*names):
    """watch predicate: short name equals, or ends with ::name"""
    ns = set(names)

    def w(path, s):
        return s in ns or s.split("::")[-1] in ns
    return w


def all_fns(db, crate, files=None):
    """every non-derived fn/closure/coroutine body of a crate"""
    for k in db.all_keys(crate):
        f = db.fn(k)
        if files is None or any(f.file.endswith(x) for x in files):
            yield f


def outer(db, f):
    """the enclosing named function of a closure/coroutine"""
    from sa.mir import split_top
    p = split_top(f.key)
    while len(p) > 1 and p[-1].startswith("{"):
        p.pop()
    return "::".join(p)


def av(pred, *vals):
    """assumption: values of enum-typed expressions satisfying pred"""
    vs = frozenset(vals)
    return lambda k: vs if k[0] == "v" and pred(k[1]) else None


def ab(pred, val):
    """assumption: truth of opaque booleans satisfying pred"""
    vs = frozenset([val])
    return lambda k: vs if k[0] == "b" and pred(k[1]) else None


def ac(pa, pb, rel):
    """assumption: relation between expressions"""
    r = frozenset(rel)
    rr = frozenset(ip.FLIP[x] for x in rel)

    def f(k):
        if k[0] == "c":
            if pa(k[1]) and pb(k[2]):
                return r
            if pa(k[2]) and pb(k[1]):
                return rr
        return None
    return f


def quantified(site, e):
    """the outermost loop/iterator element in e is universally quantified at the site: its container was
    exhausted by a loop or by all(..)/!any(..)"""
    el = [x for x in walk(e) if x.op == "elem"]
    if not el:
        return False
    # containers with an exhausted traversal
    done = set()
    for k, s in site.items():
        if k[0] == "b" and k[1].op == "call":
            n = short(k[1].a[0])
            if n.endswith("::all") and s == frozenset([True]) or n.endswith("::any") and s == frozenset([False]):
                done |= cont(k[1].a[1][0])
        if k[0] == "v" and s == ip.M and k[1].op == "call" and short(k[1].a[0]) in ("Iterator::next", "Iterator::find", "Iterator::position"):
            done |= cont(k[1].a[1][0])
    # innermost-built elem: the one not contained in another elem's container only
    outer_el = [x for x in el if not any(y is not x and x in set(walk(y)) for y in el)]
    return any(unmut_all(x.a[0]) in done for x in outer_el)


def unmut_all(e):
    from sa.mir import subst
    return subst(e, lambda n: unmut_all(n.a[0]) if n.op == "mut" else None)


def cont(e):
    out = set()
    for x in walk(unmut(e)):
        out.add(unmut_all(x))
    return out


def univ(site, pred, allowed):
    """for every element: the enum value satisfying pred is within allowed"""
    return any(s <= frozenset(allowed) and quantified(site, x) for x, s in site.variants(pred))


def fact_vars(site, *preds_and_sets):
    return all(site.has_variant(p, a) for p, a in preds_and_sets)


def reach(rep, db, fn, assume, **kw):
    """effect sites reachable under assumptions"""
    return rep.analyse(db, fn, assume=assume, **kw).sites


def truths(an, rets):
    out = set()
    for e, st in rets:
        for v in (True, False):
            c = an.bool_con(e, v)
            if c is not None and ip.conj(c, {k: x for k, x in st.items() if k[0] not in ("s", "stale")}) is not None:
                out.add(v)
    return out


def fn_truth(rep, db, fn, assume, **kw):
    """truth values a boolean function can return under the assumptions"""
    an = rep.analyse(db, fn, assume=assume, **kw)
    return truths(an, an.rets)


def clo_truth(rep, db, clo, params, assume, **kw):
    """truth values a closure can return under the assumptions"""
    from sa import ip as _ip
    attrs = {k: kw.pop(k) for k in ("nonempty", "mixed", "steady") if k in kw}
    an = _ip.Analyzer(db, assume=assume, **kw)
    for k, v in attrs.items():
        setattr(an, k, v)
    cf = db.fn(clo.a[0])
    rs = an.run(cf, [None] + list(params), list(clo.a[1]), {}, 0, ())
    rep.fns |= an.visited
    rep.steps += an.steps
    return truths(an, rs or [])


def clo_arg(site):
    for a in site.args:
        a = unmut(a)
        if a.op == "clo":
            return a
    return None


def eqv(pa, pb):
    return ac(pa, pb, "=")


def nev(pa, pb):
    return ac(pa, pb, "<>")


def f_of(nm, root_pred):
    """place `<root>.nm` whose root satisfies root_pred"""
    def p(e):
        e = unmut(e)
        return e.op == "f" and e.a[1] == nm and root_pred(unmut(e.a[0]))
    return p


def var_of(e, an=None):
    return variants_of(e)


def rets_var(an, name):
    """union of the typestate variable over all returns"""
    out = set()
    for _, st in an.rets:
        out |= set(st.get(("s", name)) or {"?"})
    return out


def ret_states(an, pol=None):
    """states of the returns whose value can have the polarity ('+' Ok/Some, '-' Err/None)"""
    out = []
    work = [(e, st, 0) for e, st in an.rets]
    while work:
        e, st, d = work.pop(0)
        ue = unmut(e)
        if ue.op in ("call", "await") and d < 5:
            # the value of a helper is returned as it is: one return per return of the helper
            rs = an.results.get(ue)
            if rs is None:
                rs = an.result_of(ue)
            if rs:
                for r, s2 in rs:
                    m = dict(s2)
                    for k, v in st.items():
                        if k[0] == "s" and k in m:
                            m[k] = (m[k] & v) or v
                        elif k not in m:
                            m[k] = v
                    work.append((r, m, d + 1))
                continue
        if pol is not None:
            c = an.var_con(e, frozenset([pol]))
            if c is None:
                continue
            c = ip.conj(c, {k: x for k, x in st.items() if k[0] not in ("s", "stale")})
            if c is None:
                continue
        out.append((e, st))
    return out


def must_event(rep, db, fn, pred, assume=(), pol="+", hotp=None, adt=None, asg=None, **kw):
    """(all returns of that polarity happen after an event satisfying pred, number of such returns)"""
    n = {}

    def ev(s):
        return [("ev", {1})] if pred(s) else None
    if adt:
        kw["adt_watch"] = adt
        kw["adt_event"] = ev
    if asg:
        kw["assign_fields"] = asg
        kw["assign"] = ev
    if hotp:
        kw["event"] = ev
        kw["event_watch"] = hotp
    an = rep.analyse(db, fn, assume=list(assume), entry={"ev": {0}}, **kw)
    rs = ret_states(an, pol)
    return bool(rs) and all(st.get(("s", "ev")) == {1} for _, st in rs), len(rs)


def call_is(*names):
    """expression is a call (or the awaited result / payload of a call) of one of the names"""
    ns = set(names)

    def p(e):
        e = unmut(e)
        if e.op in ("await",):
            e = unmut(e.a[0])
        return e.op == "call" and (short(e.a[0]) in ns or short(e.a[0]).split("::")[-1] in ns)
    return p


def strip_await(e):
    e = unmut(e)
    while e.op in ("ok", "await", "branch"):
        e = unmut(e.a[0])
    return e


def sites_of(rep, db, fn, *names, assume=(), **kw):
    return rep.analyse(db, fn, assume=list(assume), watch=shorts(*names), **kw).sites


def unreachable(rep, db, fn, names, assume, key, msg, **kw):
    ss = sites_of(rep, db, fn, *names, assume=assume, **kw)
    rep.ob(key, not ss, msg + (f" ({ss[0].where()})" if ss else ""), fn.loc())
    return not ss


def nexts(pred=lambda e: True):
    """Iterator::next over a container satisfying pred"""
    return lambda e: unmut(e).op == "call" and short(unmut(e).a[0]) == "Iterator::next" and pred(unmut(e).a[1][0])


def exhausts(rep, db, fn, pred, key, msg, pol="+", assume=(), entered=False, **kw):
    """the function does not return (with that polarity) before every element of the container was visited (or, with entered: does not leave the loop before)"""
    if entered:
        kw = dict(kw, event=lambda s: [("in", {1})] if s.args and pred(s.args[0]) else None, event_watch=lambda p, s: s == "Iterator::next", entry={"in": {0}})
    an = rep.analyse(db, fn, assume=[av(nexts(pred), "+")] + list(assume), **kw)
    rs = [(e, st) for e, st in ret_states(an, pol) if not entered or 1 in st.get(("s", "in"), ())]
    rep.ob(key, not rs, msg, fn.loc())
    return not rs


def num(pred, n):
    """assumption: an integer expression has the value n (decides its comparisons with literals)"""
    def lit(e):
        e = unmut(e)
        if e.op in ("k", "s"):
            try:
                return int(str(e.a[0]).split("_")[0])
            except ValueError:
                return None
        return None

    def f(k):
        if k[0] != "c":
            return None
        for a, b, sw in ((k[1], k[2], False), (k[2], k[1], True)):
            m = lit(b)
            if m is not None and pred(a):
                r = "<" if n < m else ">" if n > m else "="
                return frozenset(ip.FLIP[r] if sw else r)
        return None
    return f


def alts(an, e, d=0):
    """alternatives of a value (merges, unwrap_or, map_or, payloads of merges), closures applied"""
    from sa.mir import simplify
    e = unmut(e)
    if d > 10:
        return [e]
    if e.op == "phi":
        return [x for y in e.a[0] for x in alts(an, y, d + 1)]
    if e.op == "ok":
        out = []
        for x in alts(an, e.a[0], d + 1):
            if x.op == "adt" and x.a[1] in ("Some", "Ok") and x.a[2]:
                out += alts(an, x.a[2][0][1], d + 1)
            elif x.op == "adt" and x.a[1] in ("None", "Err"):
                continue
            else:
                out.append(simplify(mk("ok", x)))
        return out
    if e.op == "call":
        s = short(e.a[0])
        a = e.a[1]
        if s in ("Option::unwrap_or", "Result::unwrap_or") and len(a) == 2:
            return alts(an, an.norm(simplify(mk("ok", unmut(a[0])))), d + 1) + alts(an, a[1], d + 1)
        if s in ("Option::unwrap_or_default", "Result::unwrap_or_default"):
            return alts(an, an.norm(simplify(mk("ok", unmut(a[0])))), d + 1) + [e]
        if s in ("Option::map_or", "Result::map_or") and len(a) == 3:
            v = an.clo_value(a[2], [simplify(mk("ok", unmut(a[0])))])
            return alts(an, a[1], d + 1) + (alts(an, v, d + 1) if v is not None else [e])
        if a and a[0] is not e and short(e.a[0]) in ("Option::map", "Result::map") and len(a) == 2:
            return [e]
        if e.a[0] in an.db.where and d < 6:
            rs = an.result_of(e)
            if rs:
                return [x for r, _ in rs for x in alts(an, r, d + 1)]
    return [e]


def is_add(e, pa, k):
    """e is `a + k` with pa(a)"""
    e = unmut(e)
    if e.op == "f" and e.a[1] == "0":
        e = unmut(e.a[0])
    if e.op == "call" and short(e.a[0]).split("::")[-1] in ("saturating_add", "wrapping_add", "add"):
        a, b = e.a[1][:2]
    elif e.op == "bin" and str(e.a[0]).startswith("Add"):
        a, b = e.a[1], e.a[2]
    elif e.op == "ok" or e.op == "call":
        if e.op == "ok":
            y = unmut(e.a[0])
            if y.op == "call" and short(y.a[0]).split("::")[-1] == "checked_add":
                a, b = y.a[1][:2]
            else:
                return False
        else:
            return False
    else:
        return False
    return pa(a) and is_const(b, k) or pa(b) and is_const(a, k)


def inner_fns(db, f):
    """bodies nested in f (closures, coroutines)"""
    c = db.where[f.key].name
    return [db.fn(k) for k in db.all_keys(c) if k.startswith(f.key + "::{")]


def co(db, name, crate=None, file=None):
    """the coroutine that does the work of an async function"""
    f = db.find(name, crate=crate, file=file)
    if f is None:
        return None
    ks = [k for k in inner_fns(db, f) if k.kind == "coroutine"]
    ks.sort(key=lambda k: len(k.key))
    return ks[0] if ks else None


def strip_err(e):
    e = unmut(e)
    while e.op in ("err", "ok"):
        e = unmut(e.a[0])
    return e


def errs(an, e, d=0):
    """[(error payload, state)] of a returned value"""
    e = unmut(e)
    if d > 6:
        return [(e, {})]
    if e.op == "adt":
        return [(x, {}) for x in alts(an, e.a[2][0][1])] if e.a[1] == "Err" and e.a[2] else []
    if e.op == "phi":
        return [y for x in e.a[0] for y in errs(an, x, d + 1)]
    if e.op == "call" and short(e.a[0]) == "Result::map_err":
        rs = an.clo_results(e.a[1][1], [mk("err", unmut(e.a[1][0]))])
        return [(r, st) for r, st in rs] if rs else [(e, {})]
    if e.op == "call" and short(e.a[0]) in ("Result::map", "Result::and_then"):
        return errs(an, e.a[1][0], d + 1)
    return [(mk("err", e), {})]


def range_of(an, site, e):
    """(first, last inclusive) of a loop variable: an element of a range, or a counter with a loop condition"""
    e = unmut(e)
    if e.op == "elem":
        it = unmut(e.a[0])
        while it.op == "call" and short(it.a[0]) in ("Iterator::rev",) and it.a[1]:
            it = unmut(it.a[1][0])
        if it.op == "call" and short(it.a[0]) == "RangeInclusive::new":
            return it.a[1][0], it.a[1][1]
        if it.op == "adt" and it.a[0].endswith("::Range"):
            d = dict(it.a[2])
            return d["start"], mk("bin", "Sub", d["end"], mk("k", "1"))
        return None, None
    lo = None
    if e.op == "phi":
        xs = [x for x in e.a[0] if not any(y is not x and y in set(walk(x)) for y in e.a[0]) and not is_add(x, lambda q: True, 1)]
        lo = xs[0] if len(xs) == 1 else None
    elif e.op in ("var", "loc"):
        lo = None
    for a, b, s in site.cmps(lambda x: unmut(x) is e, lambda x: True):
        if s <= {"<", "="}:
            return lo, b if "=" in s else mk("bin", "Sub", b, mk("k", "1"))
    return lo, None


FILTERS = {"filter", "retain", "take_while", "skip_while", "filter_map"}
SINKS = {"push", "push_back", "insert", "extend", "append"}


def keeps(rep, db, f, elem, assume, sinks=SINKS, **kw):
    """ways in which an element of a collection survives in f under the assumptions: every filter over the collection
    (with the filters it is applied to) and every append of the element: [(survives, site)]"""
    an = rep.analyse(db, f, assume=list(assume), watch=lambda p, s: s.split("::")[-1] in FILTERS | set(sinks), nonempty=True, **kw)
    fs, out = [], []
    for s in an.sites:
        n = s.short.split("::")[-1]
        if n in FILTERS and s.args and len(s.args) == 2:
            fs.append(s)
        elif n in sinks and len(s.args) >= 2:
            xs = [x for a in s.args[1:] for x in walk(a) if x.op == "elem"]
            if any(elem(x) for x in xs):
                out.append((True, s))

    def dead(c, it, vis=0):
        x = mk("elem", unmut_all(it))
        ts = clo_truth(rep, db, c, [x], assume) if c.op == "clo" else {True, False}
        return ts == {False}
    inner = {unmut_all(y) for s in fs for y in walk(s.args[0])}
    for s in fs:
        it = unmut(s.args[0])
        if not elem(mk("elem", unmut_all(it))):
            continue
        d = dead(unmut(s.args[1]), it)
        x = it
        while x.op == "call" and x.a[1]:
            if short(x.a[0]).split("::")[-1] == "filter" and len(x.a[1]) == 2:
                d = d or dead(unmut(x.a[1][1]), x.a[1][0])
            x = unmut(x.a[1][0])
        out.append((not d, s, it, s.args[1]))
    # a filter whose output is filtered again does not decide
    res = []
    for o in out:
        if len(o) == 4:
            clo = unmut(o[3])
            if any(any(y.op == "call" and len(y.a[1]) == 2 and unmut(y.a[1][1]) is clo for y in walk(p[2])) for p in out if len(p) == 4 and p is not o):
                continue
        res.append((o[0], o[1]))
    return res


def opt_dead(rep, db, e, assume):
    """an Option::filter inside e rejects its value under the assumptions"""
    for x in call_nodes(e, "Option::filter", "Option::is_some_and"):
        c = unmut(x.a[1][1])
        if c.op == "clo" and clo_truth(rep, db, c, [mk("ok", unmut(x.a[1][0]))], assume) == {False}:
            return True
    return False


def each(rep, db, f, over, done, hotp, key, msg, pol="+", assume=(), least=1, inner=False, entered=False, **kw):
    """every element of the containers satisfying `over` meets an event satisfying `done` (in the loop over them, or in the closure applied to
    each of them), and the function does not return (with that polarity) before the last one did; returns the number of loops"""
    EACH = ("for_each", "try_for_each", "map", "flat_map", "filter_map")
    pre = rep.analyse(db, f, watch=shorts("Iterator::next"), assume=list(assume), **kw)
    loops = [s.args[0] for s in pre.sites if s.kind == "call" and s.args]
    around = {unmut_all(x) for a in loops if over(a) for x in walk(a) if x.op == "elem"}

    def outside(it):
        e = unmut_all(pre.norm_elem(it))
        return mk("elem", unmut_all(it)) in around or e in around or e.op == "tup" and any(y in around for y in e.a[0])

    def evt(s):
        if s.short == "Iterator::next" and s.kind == "call":
            if over(s.args[0]):
                return [("owed", {1})]
            # the next element of the loop around this one (leaving this one early is judged below)
            return [("owed", {0})] if outside(s.args[0]) else None
        return [("owed", {0})] if done(s) else None
    # one variable per loop: 2 before it, 1 while an element waits for the event, 0 after it
    lk = {}
    for s in pre.sites:
        if s.kind == "call" and s.args and over(s.args[0]):
            lk.setdefault((s.fn.key, s.bb), f"owed{len(lk)}")

    def evl(s):
        if s.short == "Iterator::next" and s.kind == "call":
            k = lk.get((s.fn.key, s.bb))
            if k and over(s.args[0]):
                return [(k, {1})]
            return [(x, {2}) for x in lk.values()] if outside(s.args[0]) else None
        return [(x, {0}) for x in lk.values()] if done(s) else None
    an = rep.analyse(db, f, event=evl, event_watch=lambda p, s: s == "Iterator::next" or hotp(p, s), entry={x: {2} for x in lk.values()}, assume=list(assume),
                     watch=lambda p, s: s == "Iterator::next" or hotp(p, s) or s.split("::")[-1] in EACH, **kw)
    seen = {}
    for s in an.sites:
        if s.kind == "call" and s.args and s.short == "Iterator::next" and over(s.args[0]) and (s.fn.key, s.bb) in lk:
            seen.setdefault((s.fn.key, s.bb), []).append((s, s.var(lk[s.fn.key, s.bb])))
    good = {k for k, v in seen.items() if all(1 not in x for _, x in v)}
    # a loop that only reads the elements is fine when each of them meets the event in another loop on all of its paths
    reads = {k for k, v in seen.items() if k not in good and all(0 not in x for _, x in v)} if good else set()
    if reads:
        mark = lambda s: [("r", {1})] if (s.fn.key, s.bb) in reads else [("g", {1})] if (s.fn.key, s.bb) in good else None
        a2 = rep.analyse(db, f, event=lambda s: mark(s) if s.short == "Iterator::next" and s.kind == "call" and over(s.args[0]) else None, event_watch=shorts("Iterator::next"),
                         entry={"r": {0}, "g": {0}}, assume=list(assume), **{**kw, **({"nonempty": True} if inner else {})})
        if any(1 in st.get(("s", "r"), ()) and st.get(("s", "g")) != {1} for _, st in (ret_states(a2, pol) or a2.rets)):
            reads = set()
    n = 0
    for k, v in seen.items():
        if k not in reads:
            n += len(v)
            for s, x in v:
                rep.ob(key, 1 not in x, msg, s.where())
    for s in an.sites:
        if s.kind != "call" or not s.args:
            continue
        if name(s.short) in EACH and len(s.args) == 2 and over(s.args[0]) and unmut(s.args[1]).op == "clo":
            c = db.fn(unmut(s.args[1]).a[0])
            if any(p and hotp(p, short(p)) for _, p, _, _ in c.calls()):
                n += 1
                a2 = rep.analyse(db, c, event=evt, event_watch=hotp, entry={"owed": {1}}, **kw)
                rs = ret_states(a2, "+") or a2.rets
                rep.ob(key, bool(rs) and all(st.get(("s", "owed")) == {0} for _, st in rs), msg, s.where())
    rep.floor(f"loops ({key})", n, least)
    if any(s.short == "Iterator::next" and over(s.args[0]) for s in an.sites if s.kind == "call" and s.args):
        # (a loop inside another one: where the outer one has elements)
        exhausts(rep, db, f, over, key + ":all", msg, pol=pol, assume=assume, entered=entered, **({"nonempty": True} if inner else {}), **kw)
    return n
