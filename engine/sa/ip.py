"""Interprocedural path-fact analysis over the MIR model.

An `Analyzer` walks a root function with every workspace helper, closure and coroutine inlined
(context = callee + symbolic arguments), as a conditional-constant-propagation style dataflow:

  * a *state* maps keys to finite value sets
        ('v', x)     set of enum variants the value x can have ('+' = Ok/Some/Continue, '-' = Err/None/Break)
        ('b', e)     {True} / {False} for an opaque boolean expression
        ('c', a, b)  subset of {'<','=','>'} relating a and b
        ('s', name)  value set of a typestate variable (set by events)
  * joins take unions (a key missing on one side is dropped); an edge whose constraint set becomes
    empty is infeasible;
  * assumptions restrict the value of atoms, so "is this effect reachable although P is false?" is a
    reachability question;
  * results of helpers are summarised per returned variant, so facts established inside a helper are
    available to the caller that tests its result.
"""
from . import mir
from .mir import mk, mkt, E, short, subst, simplify, phi, show, walk, kids, elem, unmut, repr_key

POS = {"Ok", "Some", "Continue"}
NEGV = {"Err", "None", "Break"}
PM = frozenset("+-")
P = frozenset("+")
M = frozenset("-")
T = frozenset([True])
Fa = frozenset([False])
OPT_ENUMS = {"core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
             "std::option::Option", "std::result::Result", "std::ops::ControlFlow"}
CMPSET = {"Eq": frozenset("="), "Ne": frozenset("<>"), "Lt": frozenset("<"), "Le": frozenset("<="),
          "Gt": frozenset(">"), "Ge": frozenset(">=")}
ALLCMP = frozenset("<=>")
FLIP = {"<": ">", ">": "<", "=": "="}


def polarity(v):
    return "+" if v in POS else "-" if v in NEGV else v


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    out = {}
    if len(b) < len(a):
        a, b = b, a
    for k, s in a.items():
        t = b.get(k)
        if t is not None:
            u = s | t if s is not t else s
            if k[0] == "c" and u == ALLCMP:
                continue
            if k[0] == "b" and len(u) == 2:
                continue
            if k[0] == "v" and u == PM:
                continue
            out[k] = u
        elif k[0] == "s":
            pass
    return out


def joinall(xs):
    r = None
    first = True
    for x in xs:
        if first:
            r = x
            first = False
        else:
            r = join(r, x)
    return r


def conj(a, b):
    """conjunction of two constraint dicts; None if contradictory"""
    if a is None or b is None:
        return None
    if not a:
        return b
    if not b:
        return a
    out = dict(a)
    for k, s in b.items():
        t = out.get(k)
        if t is None:
            out[k] = s
        else:
            n = t & s
            if not n:
                if k[0] in ("s", "stale"):
                    n = s
                else:
                    return None
            out[k] = n
    return out


def frz(d):
    return frozenset(d.items())


class Site:
    __slots__ = ("ctx", "bb", "line", "path", "args", "gen", "state", "chain", "kind", "expr", "dest", "macro")

    @property
    def fn(self):
        return self.ctx.fn

    @property
    def loc(self):
        return f"{self.ctx.fn.file}:{self.line}"

    @property
    def short(self):
        if self.kind == "adt":
            return short(self.path) + ("::" + self.expr.a[1] if self.expr.a[1] else "")
        return short(self.path) if self.path else self.kind

    def field(self, name):
        """field of a watched aggregate"""
        for n, x in self.expr.a[2]:
            if n == name:
                return x
        return None

    def where(self):
        s = f"{self.loc} in {self.ctx.fn.short}"
        if self.chain:
            s += " (via " + " > ".join(f"{f.short}:{l}" for f, l in self.chain[-4:]) + ")"
        return s

    # ---- fact queries (current and stale facts)
    def items(self):
        for k, s in self.state.items():
            if k[0] == "stale":
                yield k[1], s
            else:
                yield k, s

    def variants(self, pred):
        """union-free: list of (expr, set) for variant facts whose subject satisfies pred"""
        return [(k[1], s) for k, s in self.items() if k[0] == "v" and pred(k[1])]

    def bools(self, pred):
        return [(k[1], s) for k, s in self.items() if k[0] == "b" and pred(k[1])]

    def cmps(self, pa, pb):
        """relations a ? b with pa(a) and pb(b): list of (a, b, set)"""
        out = []
        for k, s in self.items():
            if k[0] != "c":
                continue
            a, b = k[1], k[2]
            if pa(a) and pb(b):
                out.append((a, b, s))
            if pa(b) and pb(a):
                out.append((b, a, frozenset(FLIP[x] for x in s)))
        return out

    def has_variant(self, pred, allowed):
        return any(s <= frozenset(allowed) for _, s in self.variants(pred))

    def has_bool(self, pred, val):
        return any(s == frozenset([val]) for _, s in self.bools(pred))

    def has_cmp(self, pa, pb, allowed):
        return any(s <= frozenset(allowed) for _, _, s in self.cmps(pa, pb))

    def var(self, name):
        return self.state.get(("s", name))


class Ctx:
    def __init__(self, an, fn, args, caps, depth, chain):
        self.an = an
        self.fn = fn
        self.args = args
        self.caps = caps
        self.depth = depth
        self.chain = chain
        self.memo = {}
        self.writes = {}     # typestate -> block -> values set there
        self.asked = {}
        self.betw = {}
        self._preds = None

    def preds(self):
        if self._preds is None:
            self._preds = {}
            for b in self.fn.reach:
                for x in self.fn.succ[b]:
                    self._preds.setdefault(x, []).append(b)
        return self._preds

    def ex(self, e):
        return self.an.norm(subst(e, self._sub, self.memo))

    def _sub(self, n):
        if n.op == "arg":
            i = n.a[0]
            if self.args is not None and 1 <= i <= len(self.args) and self.args[i - 1] is not None:
                return self.args[i - 1]
            return n if self.depth == 0 else mk("argof", self.fn.key, i, n.a[1])
        if n.op == "up":
            i = n.a[0]
            if self.caps is not None and i < len(self.caps):
                return self.caps[i]
            return None
        return None

    def op(self, o, at):
        return self.ex(self.fn.op_expr(o, at))


PHI_TESTS = {"is_empty", "is_some", "is_none", "is_ok", "is_err"}

# closure parameter bindings: combinator -> (receiver arg index, function of receiver -> params)
def _okv(x):
    return simplify(mk("ok", x))


CLOSURE_PARAM = {}
for _t in ("Option", "Result"):
    for _m in ("map", "and_then", "is_some_and", "is_ok_and", "inspect", "filter", "is_none_or", "map_or", "map_or_else", "take_if"):
        CLOSURE_PARAM[_t + "::" + _m] = "ok"
for _m in ("map_err", "or_else", "unwrap_or_else", "inspect_err", "is_err_and"):
    CLOSURE_PARAM["Result::" + _m] = "err"
for _m in ("map", "for_each", "filter", "any", "all", "find", "position", "filter_map", "flat_map", "find_map", "take_while", "skip_while",
           "inspect", "try_for_each", "partition", "max_by_key", "min_by_key", "map_while", "map_ok", "map_err", "and_then", "then", "try_filter_map",
           "retain", "sort_by_key", "try_filter", "rposition", "is_sorted_by_key", "unique_by", "for_each_concurrent", "try_for_each_concurrent"):
    for _t in ("Iterator", "StreamExt", "TryStreamExt", "Vec", "HashMap", "HashSet", "IndexMap", "BTreeMap", "BTreeSet", "VecDeque", "[T]", "Itertools", "DoubleEndedIterator"):
        CLOSURE_PARAM.setdefault(_t + "::" + _m, "elem")
ITER_CHAIN = {"Iterator::filter", "Iterator::take_while", "Iterator::skip_while", "Iterator::map", "Iterator::filter_map",
              "Iterator::enumerate", "Iterator::zip", "Iterator::chain", "Iterator::skip", "Iterator::take", "Iterator::collect",
              "Iterator::flatten", "Iterator::flat_map", "HashMap::values", "HashMap::keys", "BTreeMap::values", "IndexMap::values",
              "HashMap::values_mut", "BTreeMap::values_mut", "IndexMap::values_mut", "HashMap::into_values", "Vec::drain",
              "Iterator::step_by", "StreamExt::filter", "StreamExt::map", "Iterator::try_collect", "StreamExt::collect", "Itertools::sorted",
              "HashMap::drain", "IndexMap::drain", "VecDeque::drain", "BTreeMap::into_values"}


class Analyzer:
    def __init__(self, db, assume=(), event=None, watch=None, assign=None, maxdepth=8, skip=None, inline_only=None, budget=400000):
        """event(site) -> list of (typestate var, value set) assigned after the call
           watch(path, short) -> bool: record the call as a site
           assign(site) -> truthy to record; called for field assignments
           skip(path) -> bool: never look inside"""
        self.db = db
        self.assume = list(assume)
        self.event = event
        self.watch = watch
        self.assign = assign
        self.maxdepth = maxdepth
        self.skip = skip
        self.sites = []
        self.rets = []
        self.memo = {}
        self.results = {}
        self.relcache = {}
        self.stack = []
        self.visited = set()
        self.budget = budget
        self.steps = 0
        self._norm = {}
        self._getter = {}
        self._impl_cache = {}
        self.capped = False
        self.nonempty = False
        self.steady = False     # look at loop iterations other than the first
        # assumptions about elements hold for one element, not for all: any()==true / all()==false say nothing about it
        self.mixed = False
        self.assign_fields = None
        self.adt_watch = None
        self.adt_event = None
        self.event_watch = None

    # ------------------------------------------------ resolution
    def bodies(self, path, gen=()):
        """workspace bodies a callee path may denote"""
        r = self._impl_cache.get(path)
        if r is not None:
            return r
        out = []
        if path in self.db.where:
            out = [path]
        else:
            pass
        # trait method: add implementations
        parts = mir.split_top(path)
        if len(parts) > 1 and not path.startswith("<"):
            tr = "::".join(mir.strip_generics(p) for p in parts[:-1])
            item = mir.strip_generics(parts[-1])
            im = self.db.trait_impls.get(tr)
            # an await that the compiler left unresolved is of an opaque future, not of a builder that implements IntoFuture
            # (nor does a generic call of a standard trait go to the few implementations at hand)
            if im and not tr.startswith(("core::", "alloc::", "std::")):
                c = [it[item] for it in im if item in it]
                c = [k for k in c if k in self.db.where]
                if 0 < len(c) <= 4:
                    out = c + [k for k in out if k not in c and len(c) < len(im)]
        self._impl_cache[path] = out
        return out

    def getter(self, path):
        r = self._getter.get(path, 0)
        if r != 0:
            return r
        self._getter[path] = None
        r = None
        if path in self.db.where and self.db.where[path].idx[path][1] < 3000:
            f = self.db.fn(path)
            if f.kind == "fn" and len(f.reach) <= 3 and len(f.ret_blocks) == 1 and not any(True for _ in f.calls() if not is_transparent(_)):
                e = f.local_expr(0, (f.ret_blocks[0], -1))
                if e._size <= 12 and all(x.op in ("arg", "f", "as", "k", "tup", "adt", "ok", "bin") for x in walk(e)):
                    r = e
        self._getter[path] = r
        return r

    def norm(self, e):
        """inline trivial getters"""
        def f(n):
            if n.op == "call":
                g = self.getter(n.a[0])
                if g is not None:
                    args = [subst(x, f, self._norm) for x in n.a[1]]
                    return subst(g, lambda m: args[m.a[0] - 1] if m.op == "arg" and m.a[0] <= len(args) else None)
            elif n.op == "elem":
                return self.norm_elem(subst(n.a[0], f, self._norm))
            elif n.op == "ok":
                y = unmut(n.a[0])
                if y.op == "call" and len(y.a[1]) == 2 and short(y.a[0]) in ("Option::and_then", "Option::map", "Result::map", "Result::and_then"):
                    x = subst(y.a[1][0], f, self._norm)
                    r = self.clo_value(subst(y.a[1][1], f, self._norm), [_okv(x)])
                    if r is not None:
                        return r if short(y.a[0]).endswith("::map") else _okv(r)
                if y.op == "call" and len(y.a[1]) == 2 and short(y.a[0]) in ("bool::then", "Option::filter"):
                    if short(y.a[0]) == "Option::filter":
                        return _okv(subst(y.a[1][0], f, self._norm))
                    r = self.clo_value(subst(y.a[1][1], f, self._norm), [])
                    if r is not None:
                        return r
                if y.op == "ok" and unmut(y.a[0]).op == "call" and short(unmut(y.a[0]).a[0]) in ("Option::transpose", "Result::transpose"):
                    return subst(_okv(_okv(unmut(y.a[0]).a[1][0])), f, self._norm)
                if y.op == "call" and len(y.a[1]) == 2 and short(y.a[0]) == "bool::then_some":
                    return subst(y.a[1][1], f, self._norm)
                if y.op == "call" and len(y.a[1]) == 2 and short(y.a[0]) == "Iterator::find":
                    return self.norm_elem(subst(y.a[1][0], f, self._norm))
            return None
        return subst(e, f, self._norm)

    def norm_elem(self, it):
        it = unmut(it)
        if it.op == "call":
            s = short(it.a[0])
            a = it.a[1]
            if s in ("Iterator::filter", "Iterator::skip", "Iterator::take", "Iterator::take_while", "Iterator::skip_while", "Iterator::step_by",
                     "Iterator::collect", "StreamExt::filter", "Vec::drain", "HashMap::drain", "Itertools::sorted", "VecDeque::drain", "Iterator::try_collect",
                     "Iterator::inspect", "Iterator::copied"):
                return self.norm_elem(a[0])
            if s == "Iterator::enumerate":
                return mkt("tup", (mk("index", a[0]), self.norm_elem(a[0])))
            if s == "Iterator::zip":
                return mkt("tup", (self.norm_elem(a[0]), self.norm_elem(a[1])))
            if s in ("Iterator::map", "Iterator::filter_map", "StreamExt::map") and len(a) == 2:
                r = self.clo_value(a[1], [self.norm_elem(a[0])])
                if r is not None:
                    return _okv(r) if s.endswith("filter_map") else r
            if s in ("HashMap::values", "BTreeMap::values", "IndexMap::values", "HashMap::values_mut", "BTreeMap::values_mut", "IndexMap::values_mut",
                     "HashMap::into_values", "BTreeMap::into_values"):
                return mk("f", mk("elem", a[0]), "1")
            if s in ("HashMap::keys", "BTreeMap::keys", "IndexMap::keys", "HashMap::into_keys"):
                return mk("f", mk("elem", a[0]), "0")
        return mk("elem", it)

    def clo_value(self, c, params):
        """single symbolic value returned by a closure, if it has one"""
        c = unmut(c)
        if c.op == "F":
            return mir.call_expr(c.a[0], params, ())
        if c.op != "clo" or c.a[0] not in self.db.where:
            return None
        f = self.db.fn(c.a[0])
        if len(f.ret_blocks) != 1:
            return None
        e = f.local_expr(0, (f.ret_blocks[0], -1))
        if e._size > 60:
            return None
        ctx = Ctx(self, f, [None] + list(params), list(c.a[1]), 9, ())
        return ctx.ex(e)

    # ------------------------------------------------ relevance
    def relevant(self, key, _d=0):
        r = self.relcache.get(key)
        if r is not None:
            return r
        # iterative SCC-insensitive DFS: compute set of reachable keys and test
        seen = set()
        st = [key]
        hit = False
        order = []
        while st and not hit:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            c = self.relcache.get(k)
            if c:
                hit = True
                break
            if c is False:
                continue
            f = self.db.fn(k)
            if f is None:
                continue
            if self.assign and self.fn_assigns(f):
                hit = True
                break
            if self.adt_watch and self.fn_builds(f):
                hit = True
                break
            for kind, p in fn_refs(f):
                if kind == "call" and self.is_hot(p):
                    hit = True
                    break
                if self.skip and self.skip(p):
                    continue
                st.extend(self.bodies(p))
        if hit:
            self.relcache[key] = True
        else:
            for k in seen:
                self.relcache[k] = False
        return hit

    assign_fields = None
    adt_watch = None      # (adt path, variant) -> bool
    adt_event = None      # site -> typestate assignments

    def fn_builds(self, f):
        if not self.adt_watch:
            return False
        for b in f.blocks:
            if b is None:
                continue
            for stt in b[0]:
                if len(stt) >= 3 and stt[1][0] == "adt" and self.adt_watch(f.S[stt[1][1]], stt[1][2]):
                    return True
        return False

    def fn_assigns(self, f):
        if not self.assign_fields:
            return False
        if f.up and any(u.endswith("__" + n) for u in f.up for n in self.assign_fields):
            return True
        for b in f.blocks:
            if b is None:
                continue
            for stt in b[0]:
                if len(stt) >= 3 and len(stt[0]) > 1 and isinstance(stt[0][-1], str) and stt[0][-1][:1] == "." and stt[0][-1][1:] in self.assign_fields:
                    return True
        return False

    def is_hot(self, path):
        s = short(path)
        if self.watch and self.watch(path, s):
            return True
        if self.event_watch and self.event_watch(path, s):
            return True
        return False

    event_watch = None

    # ------------------------------------------------ constraints
    def allowed(self, k):
        out = None
        for a in self.assume:
            r = a(k)
            if r is not None:
                out = frozenset(r) if out is None else out & frozenset(r)
        return out

    def atom(self, k, s):
        a = self.allowed(k)
        if a is not None:
            s = s & a
            if not s:
                return None
        return {k: s}

    def bool_con(self, e, val, d=0):
        """constraints implied by e == val (None: impossible)"""
        if e.op == "mut" and unmut(e).op == "k":
            # a variable that is changed through a reference: its first value says nothing
            return self.atom(("b", e), frozenset([val]))
        e = unmut(e)
        o = e.op
        if o == "k":
            v = e.a[0]
            if v in ("true", "false"):
                return {} if (v == "true") == val else None
        if o == "un" and e.a[0] == "Not":
            return self.bool_con(e.a[1], not val, d)
        if o == "phi":
            return self.disj([self.bool_con(x, val, d) for x in e.a[0]])
        if o == "bin":
            op = e.a[0]
            if op in CMPSET:
                s = CMPSET[op]
                if not val:
                    s = ALLCMP - s
                return self.cmp_con(e.a[1], e.a[2], s, d)
            if op in ("BitAnd", "BitOr"):
                if (op == "BitAnd") == val:
                    return conj(self.bool_con(e.a[1], val, d), self.bool_con(e.a[2], val, d))
                return self.disj([self.bool_con(e.a[1], val, d), self.bool_con(e.a[2], val, d)])
        if o == "call" and d < 12:
            s = short(e.a[0])
            a = e.a[1]
            m = s.rsplit("::", 1)[-1]
            if s in ("Option::is_some", "Result::is_ok", "Option::is_none", "Result::is_err"):
                pos = (m in ("is_some", "is_ok")) == val
                return self.var_con(a[0], P if pos else M, d + 1)
            if s in ("Option::is_some_and", "Result::is_ok_and") and len(a) == 2:
                if val:
                    return conj(self.var_con(a[0], P, d + 1), self.clo_bool(a[1], [_okv(a[0])], True, d + 1))
                return self.disj([self.var_con(a[0], M, d + 1), self.clo_bool(a[1], [_okv(a[0])], False, d + 1)])
            if s == "Option::is_none_or" and len(a) == 2:
                if not val:
                    return conj(self.var_con(a[0], P, d + 1), self.clo_bool(a[1], [_okv(a[0])], False, d + 1))
                return self.disj([self.var_con(a[0], M, d + 1), self.clo_bool(a[1], [_okv(a[0])], True, d + 1)])
            if s in ("Option::map_or", "Result::map_or") and len(a) == 3:
                return self.disj([conj(self.var_con(a[0], P, d + 1), self.clo_bool(a[2], [_okv(a[0])], val, d + 1)),
                                  conj(self.var_con(a[0], M, d + 1), self.bool_con(a[1], val, d + 1))])
            if s in ("Option::unwrap_or", "Result::unwrap_or") and len(a) == 2:
                return self.disj([conj(self.var_con(a[0], P, d + 1), self.ok_bool(a[0], val, d + 1)),
                                  conj(self.var_con(a[0], M, d + 1), self.bool_con(a[1], val, d + 1))])
            if s in ("Option::unwrap_or_default", "Result::unwrap_or_default"):
                return self.disj([conj(self.var_con(a[0], P, d + 1), self.ok_bool(a[0], val, d + 1)),
                                  conj(self.var_con(a[0], M, d + 1), {} if not val else None)])
            if m == "is_empty" and len(a) == 1 and d < 8:
                c = self.empty_con(a[0], val, d + 1)
                if c is not NotImplemented:
                    return self.with_atom(c, ("b", e), frozenset([val]))
            if m in ("all", "any") and s.startswith(("Iterator::", "Itertools::")) and len(a) == 2:
                it = self.norm_elem(a[0])
                c = self.clo_bool(a[1], [it], (m == "all") if val == (m == "all") else (m == "any"), d + 1)
                # all==true: every element true; any==false: every element false; otherwise: some element
                if m == "all":
                    c = self.clo_bool(a[1], [it], val, d + 1)
                    ch = self.chain_con(a[0], d + 1)
                    if val:
                        if c is None and self.nonempty and not self.partial_chain(a[0]):
                            return None
                        return conj(c, {("b", e): T}) if c is not None else {("b", e): T}
                    if self.mixed:
                        return {("b", e): Fa}
                    return conj(conj(c, ch), {("b", e): Fa}) if c is not None and ch is not None else None
                c = self.clo_bool(a[1], [it], val, d + 1)
                if val:
                    if self.mixed:
                        return {("b", e): T}
                    ch = self.chain_con(a[0], d + 1)
                    return conj(conj(c, ch), {("b", e): T}) if c is not None and ch is not None else None
                if c is None and self.nonempty and not self.partial_chain(a[0]):
                    return None
                return conj(c, {("b", e): Fa}) if c is not None else {("b", e): Fa}
            rs = self.result_of(e, d)
            if rs is not None:
                return self.with_atom(self.disj([conj(self.bool_con(r, val, d + 1), novars(st)) for r, st in rs]), ("b", e), frozenset([val]))
        if o in ("ok", "await") and d < 12:
            y = unmut(e.a[0]) if o == "ok" else e
            if y.op in ("call", "await"):
                rs = self.result_of(y, d)
                if rs is not None:
                    alts = []
                    for r, st in rs:
                        if o == "ok":
                            c = self.var_con(r, P, d + 1)
                            if c is None:
                                continue
                            c = conj(c, self.bool_con(_okv2(self, r), val, d + 1))
                        else:
                            c = self.bool_con(r, val, d + 1)
                        alts.append(conj(c, novars(st)))
                    return self.with_atom(self.disj(alts), ("b", e), frozenset([val]))
        return self.atom(("b", e), frozenset([val]))

    def with_atom(self, con, k, s):
        if con is None:
            return None
        a = self.atom(k, s)
        if a is None:
            return None
        return conj(con, a)

    def cmp_con(self, a, b, s, d=0):
        for x, y in ((a, b), (b, a)):
            y = unmut(y)
            if y.op == "adt" and y.a[1] and not y.a[2]:
                v = polarity(y.a[1]) if y.a[0] in OPT_ENUMS else y.a[1]
                if s == frozenset("="):
                    return self.var_con(x, frozenset([v]), d)
                if s == frozenset("<>"):
                    allv = PM if v in "+-" else self.universe_of(y.a[0])
                    if allv:
                        return self.var_con(x, frozenset(allv) - {v}, d)
            # comparisons of Some(a) with Some(b)
        ua, ub = unmut(a), unmut(b)
        if ua.op == "adt" and ub.op == "adt" and ua.a[1] == ub.a[1] and ua.a[1] in ("Some", "Ok") and len(ua.a[2]) == 1:
            return self.cmp_con(ua.a[2][0][1], ub.a[2][0][1], s, d)
        if s == frozenset("="):
            for x, y in ((ua, ub), (ub, ua)):
                if y.op == "adt" and y.a[1] in ("Some", "Ok") and len(y.a[2]) == 1:
                    r = conj(self.var_con(x, P, d), self.cmp_con(_okv2(self, x), y.a[2][0][1], s, d))
                    return self.with_atom(r, *ckey(a, b, s))
        r = self.count_con(a, b, s, d)
        if r is None:
            r = self.count_con(b, a, frozenset(FLIP[x] for x in s), d)
        if r is not None:
            return self.bool_con(r[0], r[1], d + 1)
        if a.op == "k" and b.op == "k":
            try:
                x, y = int(a.a[0]), int(b.a[0])
                r = "<" if x < y else ">" if x > y else "="
                return {} if r in s else None
            except ValueError:
                pass
        k, s = ckey(a, b, s)
        return self.atom(k, s)

    def count_con(self, a, b, s, d):
        """comparison of the number of elements passing a filter with 0, 1 or the number of elements, as
        (any/all expression, truth value)"""
        a, b = unmut(a), unmut(b)
        if not (a.op == "call" and short(a.a[0]).rsplit("::", 1)[-1] in ("count", "len") and a.a[1]):
            return None
        f = unmut(a.a[1][0])
        while f.op == "call" and short(f.a[0]).rsplit("::", 1)[-1] in ("collect", "map", "collect_vec") and f.a[1]:
            f = unmut(f.a[1][0])
        if not (f.op == "call" and short(f.a[0]) == "Iterator::filter" and len(f.a[1]) == 2) or d > 8:
            return None
        it, clo = f.a[1]
        n = None
        if b.op == "k":
            try:
                n = int(str(b.a[0]).split("_")[0])
            except ValueError:
                return None
            anyx = mir.call_expr("core::iter::Iterator::any", (it, clo), ())
            zero = ("=" if n == 0 else "<" if n > 0 else ">") in s
            if n == 0:
                pos = ">" in s
                if zero and not pos:
                    return anyx, False
                if pos and not zero:
                    return anyx, True
            elif n == 1:
                if zero and not ("=" in s or ">" in s):
                    return anyx, False
                if not zero:
                    return anyx, True
            elif not zero:
                return anyx, True
            return None
        if b.op == "call" and short(b.a[0]).rsplit("::", 1)[-1] in ("count", "len") and b.a[1]:
            def base(x):
                x = unmut_deep(x)
                while x.op == "call" and short(x.a[0]).rsplit("::", 1)[-1] in ("iter", "into_iter", "values", "keys", "iter_mut") and x.a[1]:
                    x = unmut_deep(x.a[1][0])
                return x
            if base(it) is base(b.a[1][0]):
                allx = mir.call_expr("core::iter::Iterator::all", (it, clo), ())
                if "=" in s and "<" not in s:
                    return allx, True
                if "=" not in s and "<" in s:
                    return allx, False
        return None

    def universe_of(self, enum):
        if enum in OPT_ENUMS:
            return PM
        v = mir.enum_variants(self.db, enum)
        return frozenset(v) if v else None

    def disj(self, cs):
        out = None
        for c in cs:
            if c is None:
                continue
            out = c if out is None else join(out, c)
        return out

    def chain_con(self, it, d=0):
        """constraints that hold for an element drawn from an iterator chain"""
        it = unmut(it)
        if it.op != "call" or d > 12:
            return {}
        s = short(it.a[0])
        a = it.a[1]
        if s not in ITER_CHAIN or not a:
            return {}
        c = self.chain_con(a[0], d + 1)
        if s in ("Iterator::filter", "Iterator::take_while", "StreamExt::filter") and len(a) == 2:
            c = conj(c, self.clo_bool(a[1], [self.norm_elem(a[0])], True, d + 1))
        elif s == "Iterator::filter_map" and len(a) == 2:
            c = conj(c, self.clo_var(a[1], [self.norm_elem(a[0])], P, d + 1))
        return c

    def partial_chain(self, it):
        """the iterator chain may leave out elements of the container"""
        it = unmut(it)
        d = 0
        while it.op == "call" and it.a[1] and d < 12:
            s = short(it.a[0])
            m = s.split("::")[-1]
            if s.startswith(("Iterator::", "Itertools::", "StreamExt::", "DoubleEndedIterator::")):
                if m in ("take", "skip", "step_by", "nth", "take_while", "skip_while", "map_while"):
                    return True
                if m == "filter" and len(it.a[1]) == 2 and self.clo_bool(it.a[1][1], [self.norm_elem(it.a[1][0])], False) is not None:
                    return True
            elif s not in ITER_CHAIN:
                return False
            it = unmut(it.a[1][0])
            d += 1
        return False

    def clo_results(self, c, params, d=0):
        c = unmut(c)
        if c.op == "F":
            e = self.norm(mir.call_expr(c.a[0], params, ()))
            return [(e, {})]
        if c.op == "clo" and c.a[0] in self.db.where and d < 14 and len(self.stack) < 24:
            f = self.db.fn(c.a[0])
            if f.kind == "coroutine":
                return self.run(f, None, list(c.a[1]), {}, 6 + d, ())
            return self.run(f, [None] + list(params), list(c.a[1]), {}, 6 + d, ())
        return None

    def clo_bool(self, c, params, val, d=0):
        rs = self.clo_results(c, params, d)
        if rs is None:
            return {}
        return self.disj([conj(self.bool_con(r, val, d + 1), novars(st)) for r, st in rs])

    def ok_bool(self, x, val, d=0):
        """constraints implied by the boolean payload of an option being val"""
        y = unmut(x)
        if y.op == "call" and short(y.a[0]) in ("Option::map", "Result::map") and len(y.a[1]) == 2:
            return self.clo_bool(y.a[1][1], [_okv(y.a[1][0])], val, d)
        return self.bool_con(_okv2(self, x), val, d)

    def clo_var(self, c, params, vs, d=0):
        rs = self.clo_results(c, params, d)
        if rs is None:
            return {}
        return self.disj([conj(self.var_con(r, vs, d + 1), novars(st)) for r, st in rs])

    def empty_con(self, x, val, d=0):
        """constraint under which a collection built by an iterator chain is (val) or is not empty; NotImplemented if opaque"""
        x = unmut(x)
        if x.op != "call" or d > 12 or not x.a[1]:
            return NotImplemented
        s = short(x.a[0])
        m = s.rsplit("::", 1)[-1]
        a = x.a[1]
        if m in ("collect", "map", "collect_vec", "enumerate", "cloned", "copied", "inspect", "rev", "sorted", "dedup", "unique") and s.startswith(("Iterator::", "Itertools::")):
            return self.empty_con(a[0], val, d + 1)
        if s in ("Iterator::filter", "Iterator::filter_map") and len(a) == 2:
            it = [self.norm_elem(a[0])]
            inner = self.empty_con(a[0], val, d + 1)
            if s == "Iterator::filter":
                c = self.clo_bool(a[1], it, not val, d + 1)
            else:
                c = self.clo_var(a[1], it, M if val else P, d + 1)
            if val:
                if c is None and not self.nonempty:
                    c = {}
                if inner is NotImplemented:
                    return c
                return self.disj([c, inner])
            if self.mixed:
                return {}
            if inner is NotImplemented:
                inner = self.chain_con(a[0], d + 1)
            return conj(c, inner) if c is not None and inner is not None else None
        if x.a[0] in self.db.where:
            rs = self.result_of(x, d)
            if rs is None:
                return NotImplemented
            out = []
            for r, st in rs:
                c = self.empty_con(r, val, d + 1)
                out.append(conj({} if c is NotImplemented else c, novars(st)) if c is not None else None)
            return self.disj(out)
        return NotImplemented

    def result_of(self, e, d=0):
        """[(return expression, state)] of a call / await expression, None if unknown"""
        r = self.results.get(e)
        if r is not None:
            return r
        if d > 10 or len(self.stack) > 24:
            return None
        if e.op == "call":
            b = self.bodies(e.a[0])
            if not b or (self.skip and self.skip(e.a[0])):
                return None
            out = []
            for k in b:
                f = self.db.fn(k)
                if f is None or len(f.reach) > 900 or f.kind == "coroutine":
                    return None
                ca, cc = clo_call(f, list(e.a[1]))
                rr = self.run(f, ca, cc, {}, 5 + d, ())
                if rr is None:
                    return None
                out.extend(rr)
            return out
        if e.op == "await":
            x = unmut(e.a[0])
            if x.op == "clo":
                r = self.results.get(x)
                return r if r is not None else self.clo_results(x, [], d)
            if x.op == "call":
                rr = self.result_of(x, d)
                if rr is None:
                    return None
                out = []
                for r, st in rr:
                    r = unmut(r)
                    if r.op == "clo":
                        q = self.results.get(r)
                        if q is None:
                            q = self.clo_results(r, [], d + 1)
                        if q is None:
                            return None
                        for r2, st2 in q:
                            c = conj(st, st2)
                            if c is not None:
                                out.append((r2, c))
                    elif r.op == "await" or r.op == "call":
                        q = self.result_of(mk("await", r), d + 1)
                        if q is None:
                            return None
                        out.extend(q)
                    else:
                        return None
                return out
        return None

    def var_con(self, x, vs, d=0):
        if x.op == "mut":
            y = unmut(x)
            if y.op == "adt" and y.a[0] in OPT_ENUMS:
                return self.atom(("v", x), vs)
        x = unmut(x)
        o = x.op
        if o == "adt":
            v = x.a[1]
            v = polarity(v) if x.a[0] in OPT_ENUMS else v
            return {} if v in vs else None
        if o == "phi":
            return self.disj([self.var_con(y, vs, d) for y in x.a[0]])
        if o == "branch":
            return self.var_con(x.a[0], vs, d)
        if o == "from_residual":
            return {} if "-" in vs else None
        if o == "call" and d < 12:
            s = short(x.a[0])
            a = x.a[1]
            if vs <= PM:
                if s in ("Option::map", "Result::map", "Result::map_err", "Option::ok_or_else", "Option::ok_or", "Result::ok", "Option::inspect",
                         "Result::inspect_err", "Context::context", "Context::with_context", "Option::as_pin_mut"):
                    return self.with_atom(self.var_con(a[0], vs, d + 1), ("v", x), vs)
                if s == "Result::err":
                    return self.var_con(a[0], PM - vs, d + 1)
                if s == "Option::flatten" and vs == P:
                    return self.with_atom(self.var_con(a[0], P, d + 1), ("v", x), vs)
                if s in ("Option::and_then", "Result::and_then") and len(a) == 2:
                    if vs == P:
                        return self.with_atom(conj(self.var_con(a[0], P, d + 1), self.clo_var(a[1], [_okv(a[0])], P, d + 1)), ("v", x), vs)
                    return self.disj([self.var_con(a[0], M, d + 1), self.clo_var(a[1], [_okv(a[0])], M, d + 1)])
                if s == "Option::filter" and len(a) == 2:
                    if vs == P:
                        return self.with_atom(conj(self.var_con(a[0], P, d + 1), self.clo_bool(a[1], [_okv(a[0])], True, d + 1)), ("v", x), vs)
                    return self.disj([self.var_con(a[0], M, d + 1), self.clo_bool(a[1], [_okv(a[0])], False, d + 1)])
                if s in ("bool::then", "bool::then_some") and a:
                    return self.bool_con(a[0], vs == P, d + 1) if len(vs) == 1 else {}
                if s in ("Option::or", "Option::or_else", "Result::or_else", "Result::or") and vs == M:
                    return self.with_atom(self.var_con(a[0], M, d + 1), ("v", x), vs)
                if s in ("Iterator::find", "Iterator::position", "Iterator::find_map") and len(a) == 2:
                    it = self.norm_elem(a[0])
                    cl = self.clo_var if s.endswith("find_map") else self.clo_bool
                    if vs == P:
                        c = cl(a[1], [it], P if s.endswith("find_map") else True, d + 1)
                        return self.with_atom(conj(c, self.chain_con(a[0])), ("v", x), vs)
                    if vs == M:
                        c = cl(a[1], [it], M if s.endswith("find_map") else False, d + 1)
                        if c is None and self.nonempty and not self.partial_chain(a[0]):
                            return None
                        return self.with_atom(c if c is not None else {}, ("v", x), vs)
                if s in ("Iterator::next", "StreamExt::next") and vs == P:
                    c = self.chain_con(a[0], d + 1)
                    if c is None:
                        return None
                    return self.with_atom(c, ("v", x), vs)
                if s in ("Option::transpose", "Result::transpose") and len(vs) == 1:
                    inner = self.norm(_okv(a[0]))
                    c = conj(self.var_con(a[0], P, d + 1), self.var_con(inner, vs, d + 1))
                    return self.with_atom(self.disj([self.var_con(a[0], M, d + 1), c]) if vs == P else c, ("v", x), vs)
            rs = self.result_of(x, d)
            if rs is not None:
                return self.with_atom(self.disj([conj(self.var_con(r, vs, d + 1), novars(st)) for r, st in rs]), ("v", x), vs)
        elif o == "await" and d < 12:
            rs = self.result_of(x, d)
            if rs is not None:
                return self.with_atom(self.disj([conj(self.var_con(r, vs, d + 1), novars(st)) for r, st in rs]), ("v", x), vs)
        elif o == "ok":
            y = unmut(x.a[0])
            if y.op in ("call", "await") and d < 12:
                s = short(y.a[0]) if y.op == "call" else ""
                if s in ("Option::transpose", "Result::transpose") and len(vs) == 1 and vs <= PM:
                    # the variant of the inner value is that of the original
                    return self.with_atom(self.var_con(y.a[1][0], vs, d + 1), ("v", x), vs)
                rs = self.result_of(y, d)
                if rs is not None:
                    alts = []
                    for r, st in rs:
                        c = self.var_con(r, P, d + 1)
                        if c is None:
                            continue
                        alts.append(conj(conj(c, self.var_con(_okv2(self, r), vs, d + 1)), novars(st)))
                    return self.with_atom(self.disj(alts), ("v", x), vs)
        return self.atom(("v", x), vs)

    # ------------------------------------------------ the dataflow
    def run(self, fn, args, caps, entry, depth, chain, collect=False):
        """returns [(return expression, state)]; None when cut off (recursion)"""
        ak = tuple(args) if args is not None else None
        ck = tuple(caps) if caps is not None else None
        mkey = (fn.key, ak, ck, frz(entry))
        if not collect:
            r = self.memo.get(mkey, 0)
            if r != 0:
                return r
        if any(k == fn.key for k, _ in self.stack) or depth > 20:
            return None
        if self.steps > self.budget:
            self.capped = True
            return None
        self.visited.add(fn.key)
        self.stack.append((fn.key, ak))
        try:
            r = self._run(fn, args, caps, entry, depth, chain, collect)
        finally:
            self.stack.pop()
        self.memo[mkey] = r
        return r

    def _run(self, fn, args, caps, entry, depth, chain, collect):
        ctx = Ctx(self, fn, args, caps, depth, chain)
        order = fn.rpo()
        pos = {b: i for i, b in enumerate(order)}
        ctx.hints = {}
        ctx.heads = {}
        ctx.pos = pos
        ctx.bodies = None
        ctx.loopheads = {t for b in order for t in fn._targets(fn.blocks[b][1]) if t in pos and pos[t] <= pos[b]}
        ctx.headcall = {}
        ctx.nextcalls = None
        ctx.flags = {l: f"#{fn.key}:{l}" for l in fn.flag_locals()}
        ctx.fkeys = [("s", n) for n in ctx.flags.values()]
        for _phase in range(4):
            backs = {}
            ins = self._flow(ctx, order, pos, entry, backs)
            # facts about the element of a loop that hold on every back edge hold for every element
            # visited so far (vacuously on loop entry): universal once the iterator is exhausted
            hints = {}
            src = {}
            for h, st in backs.items():
                src[h] = {(h[0], p) for p in st.get(("s", f"@{fn.key}:{h[0]}"), ())}
                els = self.head_elems(ctx, h[0])
                if not els or not st:
                    continue
                ks = {}
                for k, v in st.items():
                    if k[0] in ("s",):
                        continue
                    kk = k[1] if k[0] == "stale" else k
                    if kk[0] in ("v", "b") and any(has_sub(kk[1], e) for e in els) or \
                            kk[0] == "c" and any(has_sub(kk[1], e) or has_sub(kk[2], e) for e in els):
                        if kk[0] == "v" and kk[1].op == "call" and short(kk[1].a[0]) == "Iterator::next":
                            continue
                        ks[k] = v
                if ks:
                    hints[h] = ks
            # a partition's universal must also hold for the elements seen in the partitions it is entered from
            ch = True
            while ch:
                ch = False
                for h in list(hints):
                    for q in src.get(h, ()):
                        if q == h or q not in backs:
                            continue
                        hq = hints.get(q, {})
                        for k in list(hints[h]):
                            v = hq.get(k)
                            if v is None:
                                del hints[h][k]
                                ch = True
                            elif not v <= hints[h][k]:
                                hints[h][k] = hints[h][k] | v
                                ch = True
            hints = {h: ks for h, ks in hints.items() if ks}
            if hints == ctx.hints and not self.stale_writes(ctx):
                break
            ctx.asked = {}
            ctx.hints = hints
        out = []
        if collect:
            for b in order:
                for st in ctx.parts.get(b, {}).values():
                    for _ in self.transfer(ctx, b, st, True, []):
                        pass
        rets = []
        for rb in fn.ret_blocks:
            for st in ctx.parts.get(rb, {}).values():
                rets.append((rb, st))
        for rb, st in rets:
            st = self.block_state(ctx, rb, st)
            alts = self.local_alts(ctx, 0, (rb, -1), 0, st)
            if ctx.fkeys:
                own = {k for k in ctx.fkeys} | {("s", f"@{fn.key}:{h}") for h in ctx.loopheads}
                st = {k: v for k, v in st.items() if k not in own}
                alts = [(e, {k: v for k, v in s2.items() if k not in own} if s2 else s2) for e, s2 in alts]
            for e, s2 in alts:
                if s2 is None:
                    c = st
                else:
                    c = dict(st)
                    for k, v in s2.items():
                        if k[0] == "s":
                            # typestate at the definition point, unless it changed on the way to the return
                            cur = c.get(k)
                            if cur is not None and (cur & v):
                                c[k] = cur & v
                            continue
                        if k not in c:
                            c[k] = v
                        else:
                            n = c[k] & v
                            if n:
                                c[k] = n
                out.append((e, c))
        return out

    def head_elems(self, ctx, h):
        r = ctx.heads.get(h)
        if r is None:
            r = ()
            fn = ctx.fn
            b = h
            for _ in range(4):
                t = fn.blocks[b][1]
                if t[0] == "call":
                    if isinstance(t[1][0], int) and short(fn.callee(t[1])[0]) == "Iterator::next":
                        ce = ctx.ex(fn.call_at(b))
                        pe = self.norm(simplify(mk("ok", ce)))
                        r = tuple(max_elems(pe))
                        ctx.headcall[h] = unmut(ce)
                        break
                ts = fn._targets(t)
                if len(ts) != 1:
                    break
                b = ts[0]
            ctx.heads[h] = r
        return r

    def _flow(self, ctx, order, pos, entry, backs):
        """worklist over (block, values of the function's boolean flags)"""
        fn = ctx.fn
        hints = ctx.hints
        fkeys = ctx.fkeys
        live = fn.flag_live() if fkeys else None
        ctx.backs = backs
        ins = {0: dict(entry)}
        parts = {0: {(None,) * len(fkeys): dict(entry)}}
        ctx.ins = ins
        ctx.parts = parts
        import heapq
        heap = [0]
        inq = {0}
        visits = {}
        fwd = ctx.fwd = {}
        # blocks whose switches depend on reachability of other defs: re-run when reachability grows
        dep = []
        none = (None,) * len(fkeys)
        while heap:
            i = heapq.heappop(heap)
            b = order[i]
            inq.discard(i)
            visits[b] = visits.get(b, 0) + 1
            self.steps += 1
            if visits[b] > 600 + 2 * len(fn.blocks) or self.steps > self.budget:
                self.capped = True
                continue
            grew = False
            for ppk, pst in list(parts[b].items()):
                if fkeys and b in ctx.loopheads:
                    pst = dict(pst)
                    pst[("s", f"@{fn.key}:{b}")] = frozenset([ppk])
                isw = None
                for tgt, st in self.transfer(ctx, b, pst, False, dep):
                    if tgt not in fn.reach:
                        continue
                    if fn.blocks[b][1][0] == "sw":
                        if isw is None:
                            isw = self.stmts(ctx, b, pst, False)
                        self.note_writes(ctx, b, pst, isw)
                    else:
                        self.note_writes(ctx, b, pst, st)
                    if fkeys:
                        lv = live[tgt]
                        dead = [("s", n) for l, n in ctx.flags.items() if l not in lv and ("s", n) in st]
                        if dead:
                            st = {k: v for k, v in st.items() if k not in dead}
                    pk = tuple(st.get(k) for k in fkeys) if fkeys else none
                    ps = parts.setdefault(tgt, {})
                    if pk not in ps and len(ps) >= 12:
                        pk = next(iter(ps))
                    if pos[tgt] <= i:
                        bk = (tgt, b, pk)
                        o = backs.get(bk)
                        n = st if o is None else join(o, st)
                        if o is None or (self.nonempty and o != n):
                            grew = True
                        backs[bk] = n
                    else:
                        hk = (tgt, pk)
                        if tgt in ctx.loopheads:
                            o = fwd.get(hk)
                            fwd[hk] = join(o, st) if o is not None else st
                            if fwd[hk] != o and tgt in ins and pos[tgt] not in inq:
                                inq.add(pos[tgt])
                                heapq.heappush(heap, pos[tgt])
                        if hk in hints:
                            st = dict(st)
                            for k, v in hints[hk].items():
                                if k not in st:
                                    st[k] = v
                    old = ps.get(pk)
                    if old is None:
                        ps[pk] = st
                        grew = True
                    else:
                        n = join(old, st)
                        if n == old:
                            continue
                        ps[pk] = n
                    ins[tgt] = joinall(ps.values())
                    j = pos[tgt]
                    if j not in inq:
                        inq.add(j)
                        heapq.heappush(heap, j)
            if grew:
                for sb in set(dep):
                    if sb in ins:
                        j = pos[sb]
                        if j not in inq and sb != b:
                            inq.add(j)
                            heapq.heappush(heap, j)
        ctx.backs = dict(backs)
        j = {}
        for (tgt, b, pk), st in backs.items():
            j[(tgt, pk)] = join(j[(tgt, pk)], st) if (tgt, pk) in j else st
        backs.clear()
        for hk, st in j.items():
            f = fwd.get(hk) or {}
            backs[hk] = {k: v for k, v in st.items() if k not in f}
        return ins

    def note_writes(self, ctx, b, before, after):
        for k, v in before.items():
            if k[0] == "s" and k[1][0] not in "#@":
                n = after.get(k)
                if n is not None and n is not v and n != v:
                    ws = ctx.writes.setdefault(k, {})
                    ws[b] = ws.get(b, frozenset()) | n

    def block_state(self, ctx, b, st):
        """state at the terminator of b (statement effects applied)"""
        return self.stmts(ctx, b, st, False)

    def local_alts(self, ctx, l, at, d=0, cur=None):
        """alternatives [(expr, state at definition or None)] for a local, over reachable definitions"""
        fn = ctx.fn
        known = None
        if cur is not None and l in ctx.flags:
            known = cur.get(("s", ctx.flags[l]))
            if known is not None and len(known) != 1:
                known = None
        ds = fn.defs.get(l, [])
        if not ds or (1 <= l <= fn.nargs and len(ds) == 0):
            return [(ctx.ex(fn.local_expr(l, at)), None)]
        if len(ds) == 1 and l not in ctx.flags:
            le = fn.local_expr(l, at)
            if le.op == "mut" and unmut(le).op == "k":
                return [(ctx.ex(le), None)]
        if len(ds) > 1:
            rs = fn._reaching(l, at)
            if rs:
                ds = rs
        if self.steady and len(ds) > 1:
            # an iteration of a loop other than its first: what was assigned before the loop is gone
            inl = [x for x in ds if x != "arg" and fn.reaches(at[0], x[0]) and fn.reaches(x[0], at[0])]
            if inl and len(inl) < len(ds):
                ds = inl
                out = self._alts_of(ctx, l, at, d, cur, ds, ds)
                if len(out) == 1:
                    out = [(out[0][0], None)]
                return out
        live = [x for x in ds if x == "arg" or x[0] in ctx.ins]
        if len(live) < len(ds):
            self.partial = True   # to be looked at again once the other definitions are reached
        if not live:
            live = ds
        return self._alts_of(ctx, l, at, d, cur, ds, live)

    def _alts_of(self, ctx, l, at, d, cur, ds, live):
        fn = ctx.fn
        known = None
        if cur is not None and l in ctx.flags:
            known = cur.get(("s", ctx.flags[l]))
            if known is not None and len(known) != 1:
                known = None
        out = []
        start, prev = 0, None
        for x in list(live) + [None]:
            if prev is not None and prev != "arg":
                out[start:] = [(e, self.widen(ctx, s2, prev, at)) for e, s2 in out[start:]]
            start, prev = len(out), x
            if x is None:
                break
            if x == "arg":
                out.append((ctx.ex(mk("arg", l, fn.locals[l][1] or "")), None))
                continue
            bb, si = x
            if d < 6 and si != -1:
                rv = fn.blocks[bb][0][si][1]
                if rv[0] == "u" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1:
                    sub = self.local_alts(ctx, rv[1][1][0], (bb, si), d + 1, self.state_at(ctx, bb) if rv[1][1][0] in ctx.flags else cur)
                    mv = self.state_at(ctx, bb) if any(s2 for _, s2 in sub) else None
                    for e, s2 in sub:
                        if s2 and mv:
                            # both describe the typestate where the value is moved
                            s2 = dict(s2)
                            for k, v in mv.items():
                                if k[0] == "s":
                                    s2[k] = (s2[k] & v or v) if k in s2 else v
                        out.append((e, s2 if s2 is not None else (self.state_at(ctx, bb) if len(live) > 1 else None)))
                    continue
            if d < 6 and si != -1:
                rv = fn.blocks[bb][0][si][1]
                if rv[0] == "adt" and len(rv[4]) == 1 and rv[4][0][0] in ("c", "m") and len(rv[4][0][1]) == 1 and len(fn.defs.get(rv[4][0][1][0], ())) > 1:
                    sub = self.local_alts(ctx, rv[4][0][1][0], (bb, si), d + 1, cur)
                    if len(sub) > 1:
                        we = ctx.ex(fn.def_expr(x))
                        if we.op == "adt" and len(we.a[2]) == 1:
                            for e, s2 in sub:
                                out.append((mkt("adt", we.a[0], we.a[1], ((we.a[2][0][0], e),)), s2 if s2 is not None else (self.state_at(ctx, bb) if len(live) > 1 else None)))
                            continue
                    elif sub and sub[0][0].op != "phi":
                        we = ctx.ex(fn.def_expr(x))
                        if we.op == "adt" and len(we.a[2]) == 1:
                            out.append((mkt("adt", we.a[0], we.a[1], ((we.a[2][0][0], sub[0][0]),)), self.state_at(ctx, bb) if len(live) > 1 or d > 0 else None))
                            continue
            if d < 6 and si != -1:
                rv = fn.blocks[bb][0][si][1]
                if rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("c", "m") and len(rv[2][1]) == 1 and \
                        any(y.op == "phi" for y in walk(ctx.ex(fn.def_expr(x)))):
                    for e, s2 in self.local_alts(ctx, rv[2][1][0], (bb, si), d + 1, self.state_at(ctx, bb) or cur):
                        out.append((simplify(mk("un", "Not", e)), s2 if s2 is not None else (self.state_at(ctx, bb) if len(live) > 1 else None)))
                    continue
            e = ctx.ex(fn.def_expr(x))
            if d < 4 and (e.op == "bin" and e.a[0] in CMPSET and any(y.op == "phi" for y in (unmut(e.a[1]), unmut(e.a[2])))
                          or e.op == "call" and len(e.a[1]) == 1 and unmut(e.a[1][0]).op == "phi" and short(e.a[0]).split("::")[-1] in PHI_TESTS):
                sub = self.cmp_alts(ctx, x, e, d, cur)
                if sub:
                    for e2, s2 in sub:
                        out.append((e2, s2 if s2 is not None else (self.state_at(ctx, bb) if len(live) > 1 or d > 0 else None)))
                    continue
            st = None
            if len(live) > 1 or d > 0:
                st = self.state_at(ctx, bb)
                if si == -1 and st is not None:
                    st = self.after_call(ctx, bb, st)
            out.append((e, st))
        if ctx.loopheads:
            out = [(e, self.leave_loops(ctx, s2, x, at)) if s2 and x != "arg" else (e, s2) for (e, s2), x in zip(out, live)] \
                if len(out) == len(live) else [(e, self.leave_loops(ctx, s2, None, at)) if s2 else (e, s2) for e, s2 in out]
        if known is not None:
            kv = "true" if True in known else "false"
            o2 = [(e, s2) for e, s2 in out if e.op == "k" and e.a[0] == kv]
            if o2:
                return o2
            return [(mk("k", kv, "bool"), None)]
        if len(out) > 64:
            return [(ctx.ex(fn.local_expr(l, at)), None)]
        return out

    def cmp_alts(self, ctx, x, e, d, cur):
        """a comparison of a merged value: one alternative per live definition of the value"""
        fn = ctx.fn
        bb, si = x
        if si == -1:
            ops = fn.blocks[bb][1][2]
        else:
            rv = fn.blocks[bb][0][si][1]
            if rv[0] not in ("b", "bin"):
                return None
            ops = [rv[2], rv[3]]
        if len(ops) != (2 if e.op == "bin" else 1):
            return None
        for i in range(len(ops)):
            if unmut(e.a[1 + i] if e.op == "bin" else e.a[1][i]).op != "phi":
                continue
            o = ops[i]
            at = (bb, si)
            for _ in range(6):
                if o[0] not in ("c", "m"):
                    return None
                pl = [y for y in o[1] if y != "*"] if o[1][-1:] == ["*"] else o[1]
                if len(pl) != 1:
                    return None
                ds = fn.defs.get(pl[0], [])
                if len(ds) > 1:
                    sub = self.local_alts(ctx, pl[0], at, d + 1, cur)
                    if len(sub) > 12 or any(s2 is None for _, s2 in sub):
                        return None if len(sub) != 1 else [(self._cmp_with(e, i, sub[0][0]), sub[0][1])]
                    return [(self._cmp_with(e, i, y), s2) for y, s2 in sub]
                if len(ds) != 1 or ds[0] == "arg" or ds[0][1] == -1:
                    return None
                rv = fn.blocks[ds[0][0]][0][ds[0][1]][1]
                if rv[0] in ("&", "&m", "ref", "u") :
                    o = rv[1] if rv[0] == "u" else ("c", rv[1])
                    at = ds[0]
                    continue
                return None
        return None

    def _cmp_with(self, e, i, y):
        if e.op == "call":
            return self.norm(mir.call_expr(e.a[0], (y,), e.a[2] if len(e.a) > 2 else ()))
        a = [e.a[1], e.a[2]]
        a[i] = y
        return mk("bin", e.a[0], a[0], a[1])

    def loop_bodies(self, ctx):
        if ctx.bodies is None:
            fn = ctx.fn
            preds = {}
            for b in ctx.pos:
                for t in fn._targets(fn.blocks[b][1]):
                    preds.setdefault(t, []).append(b)
            ctx.bodies = {}
            for h in ctx.loopheads:
                body = {h}
                work = [p for p in preds.get(h, ()) if ctx.pos[p] >= ctx.pos[h]]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += preds.get(x, ())
                ctx.bodies[h] = body
        return ctx.bodies

    def leave_loops(self, ctx, st, d, at):
        """facts at a definition inside a loop that still describe the present at a use outside of that
        iteration: those about the loop's element do not"""
        use = at[0]
        els = set()
        for h, body in self.loop_bodies(ctx).items():
            if d is None:
                if use not in body:
                    els |= set(self.head_elems(ctx, h))
            elif d[0] in body and (use not in body or ctx.pos[d[0]] > ctx.pos[use]):
                els |= set(self.head_elems(ctx, h))
        if not els:
            return st
        return {k: v for k, v in st.items() if not any(has_sub(x, e) for x in (k[1] if k[0] == "stale" else k)[1:] if isinstance(x, E) for e in els)}

    def widen(self, ctx, st, d, at):
        """typestate at a definition, with what may have been set since, on the way to a use"""
        if not st or not ctx.writes:
            return st
        out = None
        for k, ws in ctx.writes.items():
            v = st.get(k)
            if v is None:
                continue
            on = self.between(ctx, d, at[0])
            n = v
            for b, vs in ws.items():
                if b in on:
                    n = n | vs
            ctx.asked[(d, at[0], k)] = frozenset().union(*[vs for b, vs in ws.items() if b in on])
            if n != v:
                if out is None:
                    out = dict(st)
                out[k] = n
        return out if out is not None else st

    def between(self, ctx, d, use):
        """blocks on a way from a definition to a use that does not pass the definition again"""
        r = ctx.betw.get((d, use))
        if r is None:
            fn = ctx.fn
            fw, st = set(), [x for x in fn.succ[d[0]]]
            while st:
                x = st.pop()
                if x not in fw and x != d[0]:
                    fw.add(x)
                    st.extend(fn.succ[x])
            bw, st = set(), [p for p in ctx.preds().get(use, ()) if p != d[0]]
            while st:
                x = st.pop()
                if x not in bw and x in fw and x != d[0]:
                    bw.add(x)
                    st.extend(ctx.preds().get(x, ()))
            # (an event of the call that ends the block of the definition)
            r = bw | ({d[0]} if d[1] != -1 and use != d[0] else set())
            ctx.betw[(d, use)] = r
        return r

    def stale_writes(self, ctx):
        for (d, use, k), v in ctx.asked.items():
            on = self.between(ctx, d, use)
            if frozenset().union(*[vs for b, vs in ctx.writes.get(k, {}).items() if b in on]) != v:
                return True
        return False

    def state_at(self, ctx, bb):
        st = ctx.ins.get(bb)
        if st is None:
            return None
        return self.stmts(ctx, bb, st, False)

    def after_call(self, ctx, bb, st):
        for tgt, s in self.call_transfer(ctx, bb, ctx.fn.blocks[bb][1], st, False):
            return s
        return st

    def assign_site(self, ctx, b, si, s, dest, cur, collect):
        """an assignment, or several where the value depends on the branch that was taken"""
        fn, rv = ctx.fn, s[1]
        alts = [(None, cur)]
        if rv[0] == "u" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1 and len(fn.defs.get(rv[1][1][0], ())) > 1 and rv[1][1][0] not in ctx.flags:
            sub = self.local_alts(ctx, rv[1][1][0], (b, si), 0, cur)
            if len(sub) == 1 and sub[0][0].op != "phi":
                # a single definition is reachable
                st = sub[0][1]
                if st is not None:
                    st = self.apply(cur, {k: v for k, v in st.items() if k[0] != "s"})
                alts = [(sub[0][0], st if st is not None else cur)]
            elif len(sub) > 1 and all(st is not None for _, st in sub):
                alts = []
                for e, st in sub:
                    st = self.apply(cur, {k: v for k, v in st.items() if k[0] != "s"})
                    if st is not None:
                        alts.append((e, st))
                alts = alts or [(None, cur)]
        out = None
        for e, st in alts:
            site = self.site(ctx, b, s[2], None, None, (), st)
            site.kind = "assign"
            site.dest = dest
            site.expr = e if e is not None else ctx.ex(fn.rv_expr(rv, (b, si)))
            r = self.assign(site)
            if r and collect:
                self.sites.append(site)
            n = dict(cur)
            if r and r is not True:
                for nm, vs in r:
                    n[("s", nm)] = frozenset(vs)
            out = n if out is None else join(out, n)
        return out

    def stmts(self, ctx, b, st, collect):
        fn = ctx.fn
        cur = st
        for si, s in enumerate(fn.blocks[b][0]):
            if len(s) < 3:
                continue
            pl, rv = s[0], s[1]
            if len(pl) == 1 and pl[0] in ctx.flags:
                fk = ("s", ctx.flags[pl[0]])
                cur = dict(cur)
                if rv[0] == "u" and rv[1][0] == "k" and rv[1][1] in ("true", "false"):
                    cur[fk] = T if rv[1][1] == "true" else Fa
                else:
                    cur.pop(fk, None)
            if len(pl) > 1:
                last = pl[-1]
                if isinstance(last, str) and last[:1] == ".":
                    cur = kill_field(cur, last[1:])
                    if self.assign and self.assign_fields and last[1:] in self.assign_fields:
                        cur = self.assign_site(ctx, b, si, s, ctx.ex(fn.place_expr(pl, (b, si))), cur, collect)
                elif last == "*" and self.assign and self.assign_fields and (len(pl) == 2 or isinstance(pl[-2], str) and pl[-2][:2] == ".^"):
                    # *r = v where r = &mut place.field (possibly captured by a closure)
                    d = fn.place_expr(pl, (b, si))
                    if len(pl) > 2:
                        d = unmut(ctx.ex(d))
                        if d.op == "f":
                            cur = kill_field(cur, d.a[1])
                    if d.op == "f" and d.a[1] in self.assign_fields or (d.op == "arg" and "*" in self.assign_fields) or (d.op == "up" and "^" in self.assign_fields) \
                            or "*any" in self.assign_fields or ("*lock" in self.assign_fields and unmut(d).op == "ok" and "Mutex::lock" in show(unmut(d), 4)):
                        cur = self.assign_site(ctx, b, si, s, ctx.ex(d), cur, collect)
            if rv[0] == "adt" and self.adt_watch and self.adt_watch(fn.S[rv[1]], rv[2]):
                site = self.site(ctx, b, s[2], fn.S[rv[1]], None, (), cur)
                site.kind = "adt"
                site.expr = ctx.ex(fn.rv_expr(rv, (b, si)))
                if collect:
                    self.sites.append(site)
                if self.adt_event:
                    ev = self.adt_event(site)
                    if ev:
                        cur = dict(cur)
                        for nm, vs in ev:
                            cur[("s", nm)] = frozenset(vs)
            if rv[0] == "clo":
                path = fn.S[rv[1]]
                cf = self.db.fn(path) if path in self.db.where else None
                if cf is not None and cf.kind == "coroutine" and self.relevant(path) and ctx.depth < self.maxdepth:
                    ce = ctx.ex(fn.rv_expr(rv, (b, si)))
                    rr = self.run(cf, None, list(ce.a[1]), cur, ctx.depth + 1, ctx.chain + ((fn, s[2]),), collect)
                    if rr is not None:
                        self.results[ce] = rr
                        j = joinall([x for _, x in rr]) if rr else None
                        if j is not None:
                            cur = carry(cur, j)
        return cur

    def site(self, ctx, bb, line, path, args, gen, st, macro=None):
        s = Site()
        s.ctx, s.bb, s.line, s.path, s.args, s.gen, s.state, s.chain = ctx, bb, line, path, args, gen, st, ctx.chain
        s.kind, s.expr, s.dest, s.macro = "call", None, None, macro
        return s

    def transfer(self, ctx, b, st, collect, dep):
        fn = ctx.fn
        st = self.stmts(ctx, b, st, collect)
        t = fn.blocks[b][1]
        if t[0] == "call":
            yield from self.call_transfer(ctx, b, t, st, collect)
            return
        if t[0] == "sw":
            yield from self.switch_transfer(ctx, b, t, st, dep)
            return
        for x in fn._targets(t):
            yield x, st

    def switch_transfer(self, ctx, b, t, st, dep):
        fn = ctx.fn
        S = fn.S
        ty = S[t[4]]
        o = t[1]
        isenum = t[6]
        # alternatives of the scrutinee over live definitions
        alts = None
        if o[0] in ("c", "m") and len(o[1]) == 1:
            l = o[1][0]
            if isenum:
                ds = fn.defs.get(l, [])
                if len(ds) == 1 and ds[0][1] != -1:
                    rv = fn.blocks[ds[0][0]][0][ds[0][1]][1]
                    if rv[0] == "d":
                        pl = rv[1]
                        base = pl[0]
                        if len(pl) == 1:
                            alts = self.local_alts(ctx, base, ds[0], 0, st)
                            if len(alts) > 1:
                                dep.append(b)
                        else:
                            alts = [(ctx.ex(fn.place_expr(pl, ds[0])), None)]
            else:
                self.partial = False
                alts = self.local_alts(ctx, l, (b, -1), 0, st)
                if self.partial or len(alts) > 1 or len(fn.defs.get(l, [])) > 1:
                    dep.append(b)
        if alts is None:
            e = ctx.op(o, (b, -1))
            if e.op == "disc":
                e = e.a[0]
            alts = [(e, None)]
        alts = [(e.a[0] if isenum and e.op == "disc" else e, s) for e, s in alts]

        def edge(conf):
            cs = []
            for e, s in alts:
                c = conf(e)
                if c is None:
                    continue
                if s is not None:
                    c = conj(c, self.at_def(s, st))
                    if c is None:
                        continue
                cs.append(c)
            if not cs:
                return None
            c = cs[0]
            for x in cs[1:]:
                c = join(c, x)
            return self.apply(st, c)
        if isenum:
            opt = ty in OPT_ENUMS
            allv = self.universe_of(ty)
            names = []
            pollish = ty.endswith("::Poll")
            for v, tgt in t[2]:
                names.append(v)
                if pollish:
                    yield tgt, st
                    continue
                vs = frozenset([polarity(v) if opt else v])
                if self.nonempty and opt and vs == M and self.first_iter(ctx, alts, st):
                    dep.append(b)
                    continue
                r = edge(lambda e: self.var_con(e, vs))
                if r is not None and self.nonempty and opt and vs == M:
                    r = self.after_iter(ctx, alts, r, dep, b)
                if r is not None:
                    if ctx.loopheads and opt and vs == P:
                        r = self.fresh_elem(ctx, alts, r)
                    yield tgt, r
            if t[3] is not None and t[3] in fn.reach:
                if pollish:
                    yield t[3], st
                elif allv is not None:
                    rest = allv - {polarity(v) if opt else v for v in names}
                    if rest:
                        if self.nonempty and opt and rest == M and self.first_iter(ctx, alts, st):
                            dep.append(b)
                            return
                        r = edge(lambda e: self.var_con(e, rest))
                        if r is not None and self.nonempty and opt and rest == M:
                            r = self.after_iter(ctx, alts, r, dep, b)
                        if r is not None:
                            yield t[3], r
                else:
                    # an enum of another crate: its other variants are not known
                    def unk(e):
                        k = ("v", unmut(self.norm(e)))
                        known = self.allowed(k)
                        if k in st:
                            known = st[k] if known is None else known & st[k]
                        return {} if known is None or known - set(names) else None
                    r = edge(unk)
                    if r is not None:
                        yield t[3], r
            return
        if ty == "bool":
            fl = fn.flag_tested().get(b) if ctx.flags else None
            if fl is not None:
                fk = ("s", ctx.flags[fl])
                edge0 = edge

                def edge(conf):
                    if fk in st and val not in st[fk]:
                        return None
                    r = edge0(conf)
                    if r is not None:
                        r = dict(r)
                        r[fk] = frozenset([val])
                    return r
            for v, tgt in t[2]:
                val = v != "0"
                r = edge(lambda e: self.bool_con(e, val))
                if r is not None:
                    yield tgt, r
            vals = {v != "0" for v, _ in t[2]}
            for val in (True, False):
                if val not in vals:
                    r = edge(lambda e: self.bool_con(e, val))
                    if r is not None:
                        yield t[3], r
            return
        for v, tgt in t[2]:
            kv = mk("k", v, ty)
            r = edge(lambda e: self.cmp_con(e, kv, frozenset("=")))
            if r is not None:
                yield tgt, r
        if t[3] is not None:
            def ne(e):
                c = {}
                for v, _ in t[2]:
                    c = conj(c, self.cmp_con(e, mk("k", v, ty), frozenset("<>")))
                    if c is None:
                        return None
                return c
            r = edge(ne)
            if r is not None:
                yield t[3], r

    def at_def(self, s, st):
        """facts recorded where a value was defined, as far as they still describe the present"""
        out = {}
        for k, v in s.items():
            if k[0] == "stale" or ("stale", k) in st:
                continue
            if k[0] != "s":
                cur = st.get(k)
                if cur is not None and not (cur & v) and variant_key(k):
                    continue
            out[k] = v
        return out

    def first_iter(self, ctx, alts, st):
        """the loop this iterator drives has not completed an iteration yet"""
        for e, _ in alts:
            e = unmut(e)
            if e.op == "call" and short(e.a[0]) == "Iterator::next":
                pk = tuple(st.get(k) for k in ctx.fkeys)
                for h, _, p in ctx.backs:
                    if p == pk and self.head_elems(ctx, h) and ctx.headcall.get(h) is e:
                        return False
                return True
        return False

    def after_iter(self, ctx, alts, r, dep, b):
        """typestate after at least one iteration: what the back edges carry"""
        for e, _ in alts:
            e = unmut(e)
            if e.op == "call" and short(e.a[0]) == "Iterator::next":
                pk = tuple(r.get(k) for k in ctx.fkeys)
                sts = [st for (h, _, p), st in ctx.backs.items() if p == pk and self.head_elems(ctx, h) and ctx.headcall.get(h) is e]
                if sts:
                    dep.append(b)
                    r = dict(r)
                    for k in list(r):
                        if k[0] == "s":
                            vs = [st.get(k) for st in sts]
                            if all(v is not None for v in vs):
                                r[k] = frozenset().union(*vs)
        return r

    def fresh_elem(self, ctx, alts, r):
        """a new loop element: facts carried over from earlier elements do not describe it"""
        els = set()
        for e, _ in alts:
            e = unmut(e)
            if e.op == "call" and short(e.a[0]) == "Iterator::next":
                els |= set(max_elems(self.norm(simplify(mk("ok", e)))))
        if not els:
            return r
        out = None
        for h in ctx.loopheads:
            if not (els & set(self.head_elems(ctx, h))):
                continue
            fw = None
            for (t, _), st in ctx.fwd.items():
                if t == h:
                    fw = dict(st) if fw is None else join(fw, st)
            if fw is None:
                continue
            for k in list(r):
                kk = k[1] if k[0] == "stale" else k
                if kk[0] not in ("v", "b", "c") or not any(has_sub(x, e) for x in kk[1:] for e in els):
                    continue
                if kk[0] == "v" and kk[1].op == "call" and short(kk[1].a[0]) == "Iterator::next" and kk[1] in [unmut(x) for x, _ in alts]:
                    continue
                if r[k] != fw.get(k):
                    if out is None:
                        out = dict(r)
                    if k in fw:
                        out[k] = fw[k]
                    else:
                        out.pop(k, None)
        return out if out is not None else r

    def apply(self, st, c):
        if not c:
            return st
        out = None
        for k, s in c.items():
            cur = st.get(k) if out is None else out.get(k)
            if cur is None:
                if k[0] == "s" or k[0] == "stale":
                    if k[0] == "s":
                        continue
                n = s
            else:
                n = cur & s
                if not n:
                    if k[0] == "s":
                        continue
                    if k[0] == "stale":
                        n = s
                    else:
                        return None
            if cur is None or n != cur:
                if out is None:
                    out = dict(st)
                out[k] = n
        return out if out is not None else st

    def again(self, ctx):
        """calls of `next` that follow another one on the same iterator: each gives another element"""
        if ctx.nextcalls is None:
            by = {}
            for b, p, _, t in ctx.fn.calls():
                if p is not None and short(p) == "Iterator::next":
                    by.setdefault(ctx.ex(ctx.fn.call_at(b)), []).append(b)
            ctx.nextcalls = {b for bs in by.values() if len(bs) > 1 for b in bs if not self.on_cycle(ctx.fn, b)}
        return ctx.nextcalls

    @staticmethod
    def on_cycle(fn, b):
        seen, todo = set(), list(fn._targets(fn.blocks[b][1]))
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo += fn._targets(fn.blocks[x][1])
        return False

    def other_elem(self, ctx, b, st):
        """facts about the element before do not hold for the one that is taken now"""
        ce = ctx.ex(ctx.fn.call_at(b))
        old = [unmut(ce)] + list(max_elems(self.norm(simplify(mk("ok", ce)))))
        bad = [k for k in st for kk in [k[1] if k[0] == "stale" else k] if kk[0] in ("v", "b", "c") and any(has_sub(x, e) for x in kk[1:] if hasattr(x, "op") for e in old)]
        if bad:
            st = dict(st)
            for k in bad:
                del st[k]
        return st

    def call_transfer(self, ctx, b, t, st, collect):
        fn = ctx.fn
        f = t[1]
        line = t[5]
        macro = t[6] if len(t) > 6 else None
        at = (b, -1)
        args = None
        path, gen = (None, ())
        if isinstance(f[0], int):
            path, gen = fn.callee(f)
        tgts = fn._targets(t)
        hot = path is not None and self.is_hot(path)
        bodies = []
        if path is not None and st and b in self.again(ctx):
            st = self.other_elem(ctx, b, st)
        if path is not None and not (self.skip and self.skip(path)):
            bodies = [k for k in self.bodies(path) if self.relevant(k)]
            if bodies and path.endswith("}"):
                # a coroutine polled where it is awaited: it was followed where it was created
                bodies = [k for k in bodies if self.db.fn(k).kind != "coroutine"]
        # closures among the arguments
        argx = t[2]
        needclo = any(o[0] in ("c", "m", "F") for o in argx)
        cur = st
        clos = []
        split = None
        if needclo and path is not None:
            for ai, o in enumerate(argx):
                if o[0] == "F":
                    p2, _ = fn.callee(o[1])
                    if any(self.relevant(k) for k in self.bodies(p2)) or self.is_hot(p2):
                        clos.append((ai, ctx.op(o, at)))
                elif o[0] in ("c", "m") and len(o[1]) == 1 and "{closure" in fn.ty(o[1][0]) or o[0] in ("c", "m") and fn.ty(o[1][0]).startswith("{"):
                    e = unmut(ctx.op(o, at))
                    if e.op == "clo" and e.a[0] in self.db.where and self.relevant(e.a[0]):
                        cf = self.db.fn(e.a[0])
                        if cf.kind != "coroutine":
                            clos.append((ai, e))
        if hot or bodies or clos or path is None:
            args = [ctx.op(o, at) for o in argx]
        # value of the call for later `result_of`
        if path is None:
            fe = unmut(ctx.op(f, at))
            if fe.op == "clo" and self.relevant(fe.a[0]) and ctx.depth < self.maxdepth:
                cf = self.db.fn(fe.a[0])
                params = args
                rr = self.run(cf, [None] + params, list(fe.a[1]), cur, ctx.depth + 1, ctx.chain + ((fn, line),), collect)
                if rr:
                    j = joinall([x for _, x in rr])
                    cur = carry(cur, j)
        if path is not None and short(path) in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and len(argx) == 2:
            fe = unmut(ctx.op(argx[0], at))
            if fe.op == "clo" and fe.a[0] in self.db.where and self.relevant(fe.a[0]) and ctx.depth < self.maxdepth:
                pe = ctx.op(argx[1], at)
                params = list(pe.a[0]) if pe.op == "tup" else [pe]
                cf = self.db.fn(fe.a[0])
                rr = self.run(cf, [None] + params, list(fe.a[1]), cur, ctx.depth + 1, ctx.chain + ((fn, line),), collect)
                if rr:
                    self.results[self.norm(ctx.ex(fn.call_at(b)))] = rr
                    cur = carry(cur, joinall([x for _, x in rr]))
        for ai, e in clos:
            if ctx.depth >= self.maxdepth:
                break
            s = short(path)
            how = CLOSURE_PARAM.get(s)
            recv = args[0] if args else None
            extra = {}
            if how == "ok":
                params = [_okv(recv)]
                extra = self.var_con(recv, P) if s.split("::")[-1] not in ("map_or", "is_none_or") else {}
                if s.endswith("map_or_else") and ai == 1:
                    params = [simplify(mk("err", recv))]
                    extra = self.var_con(recv, M)
            elif how == "err":
                params = [mk("err", recv)]
                extra = self.var_con(recv, M)
            elif how == "elem":
                params = [self.norm_elem(recv)]
                extra = self.chain_con(recv)
            elif s in ("Option::ok_or_else", "Option::unwrap_or_else", "Option::or_else", "Option::get_or_insert_with"):
                params = []
                extra = self.var_con(recv, M)
            elif s == "bool::then":
                params = []
                extra = self.bool_con(recv, True)
            elif s in ("Iterator::fold", "Iterator::try_fold") and ai == 2:
                params = [mk("acc", recv), self.norm_elem(recv)]
                extra = self.chain_con(recv)
            else:
                params = []
            if extra is None:
                continue
            ent = self.apply(cur, extra)
            if ent is None:
                continue
            if e.op == "F":
                p2 = e.a[0]
                for k in self.bodies(p2):
                    rr = self.run(self.db.fn(k), params, None, ent, ctx.depth + 1, ctx.chain + ((fn, line),), collect)
                    if rr:
                        cur = may(cur, joinall([x for _, x in rr]))
                if self.is_hot(p2):
                    site = self.site(ctx, b, line, p2, params, (), ent, macro)
                    if self.watch and self.watch(p2, short(p2)) and collect:
                        self.sites.append(site)
                    if self.event:
                        ev = self.event(site)
                        if ev:
                            n = dict(ent)
                            for nm, vs in ev:
                                n[("s", nm)] = frozenset(vs)
                            cur = may(cur, n)
                continue
            cf = self.db.fn(e.a[0])
            rr = self.run(cf, [None] + params, list(e.a[1]), ent, ctx.depth + 1, ctx.chain + ((fn, line),), collect)
            if rr and s == "Iterator::try_for_each" and ai == 1:
                # it succeeds where each run does, it fails where one of them does
                split = []
                for vs in (P, M):
                    y = joinall([z for z in (self.apply(x, c) for c, x in ((self.var_con(r, vs), x) for r, x in rr) if c is not None) if z is not None])
                    if y is not None or vs == P:
                        split.append((vs, may(cur, y) if y is not None else cur))
            if rr:
                j = joinall([x for _, x in rr])
                # coroutines returned by the closure run within the combinator
                runs = self.nonempty and not self.partial_chain(recv) and s in ("Iterator::for_each", "Vec::for_each", "[T]::for_each")
                if how in ("ok", "err") and extra and s.startswith(("Option::", "Result::")):
                    # where the value cannot be of the other variant the closure does run
                    o = self.var_con(recv, M if how == "ok" else P)
                    runs = o is None or self.apply(cur, o) is None
                cur = carry(cur, j) if runs else may(cur, j)
        for k in bodies:
            pass
        if bodies and ctx.depth < self.maxdepth:
            rs = []
            okall = True
            for k in bodies:
                g = self.db.fn(k)
                ca, cc = clo_call(g, args)
                rr = self.run(g, ca, cc, cur, ctx.depth + 1, ctx.chain + ((fn, line),), collect)
                if rr is None:
                    okall = False
                else:
                    rs.extend(rr)
            nb = len(self.bodies(path))
            if okall and rs:
                ce = self.norm(ctx.ex(fn.call_at(b)))
                if nb == len(bodies):
                    self.results[ce] = rs
                j = joinall([x for _, x in rs])
                cur = carry(cur, j) if nb == len(bodies) else may(cur, j)
            elif okall and not rs and nb == len(bodies):
                return  # never returns
        if hot:
            site = self.site(ctx, b, line, path, args, gen, cur, macro)
            if self.watch and self.watch(path, short(path)) and collect:
                self.sites.append(site)
            if self.event:
                ev = self.event(site)
                if ev:
                    cur = dict(cur)
                    for nm, vs in ev:
                        cur[("s", nm)] = frozenset(vs)
        # &mut arguments: facts about them become stale
        for o in argx:
            if o[0] in ("c", "m") and len(o[1]) == 1 and fn.ty(o[1][0]).startswith("&mut ") and cur:
                e = ctx.op(o, at)
                if e.op in ("arg", "argof", "f", "var", "mut", "up", "elem", "ok", "idx") or e.op == "call":
                    cur = kill_expr(cur, e)
        if ctx.flags and len(t[3]) == 1 and t[3][0] in ctx.flags and ("s", ctx.flags[t[3][0]]) in cur:
            cur = dict(cur)
            cur.pop(("s", ctx.flags[t[3][0]]))
        if split and path is not None:
            ce = self.norm(ctx.ex(fn.call_at(b)))
            self.results[ce] = [(mk("adt", "core::result::Result", "Ok" if vs == P else "Err", (("0", mk("ok" if vs == P else "err", ce)),)), c) for vs, c in split]
            cur = carry(cur, joinall([c for _, c in split]))
        for x in tgts:
            yield x, cur

    # ------------------------------------------------ entry points
    def analyse(self, fn, entry=None, args=None):
        st = {}
        for k, v in (entry or {}).items():
            st[("s", k)] = frozenset(v)
        self.sites = []
        r = self.run(fn, args, None, st, 0, (), True)
        merged = {}
        for x in self.sites:
            k = (x.ctx.fn.key, x.bb, x.line, x.kind, x.path, tuple((g.key, l) for g, l in x.chain), tuple(x.args or ()), x.expr, x.dest)
            if k in merged:
                merged[k].state = join(merged[k].state, x.state)
            else:
                merged[k] = x
        self.sites = list(merged.values())
        # an async fn returns its coroutine: already executed at creation
        out = []
        for e, s in r or []:
            ue = unmut(e)
            if ue.op == "clo" and ue in self.results:
                out.extend(self.results[ue])
            elif ue.op == "clo" and ue.a[0] in self.db.where and self.db.fn(ue.a[0]).kind == "coroutine":
                rr = self.run(self.db.fn(ue.a[0]), None, list(ue.a[1]), s, 1, ())
                out.extend([(e, s)] if rr is None else rr)
            else:
                out.append((e, s))
        self.rets = out
        return self.sites


def clo_call(f, args):
    """(arguments, captures) for a call that names its body; a closure called directly brings its captures along"""
    if f.kind == "closure" and args:
        c = unmut(args[0])
        if c.op == "clo" and c.a[0] == f.key:
            t = unmut(args[1]) if len(args) == 2 else None
            return [None] + (list(t.a[0]) if t is not None and t.op == "tup" else list(args[1:])), list(c.a[1])
    return args, None


def _okv2(an, x):
    return an.norm(_okv(x))


def novars(st):
    """callee facts usable by the caller: drop stale facts, keep typestate"""
    if not st:
        return {}
    return {k: v for k, v in st.items() if k[0] != "stale"}


def carry(cur, j):
    """caller state after a call: the callee's exit state replaces the caller's (it started from it)"""
    return dict(j)


def may(cur, j):
    """state after code that may or may not have run"""
    out = dict(cur)
    for k, v in j.items():
        if k[0] == "s":
            o = cur.get(k)
            if o is not None:
                out[k] = o | v
    for k in list(out):
        if k[0] == "s" and k not in j:
            pass
    return out


def kill_field(st, name):
    hit = None
    for k in st:
        if k[0] in ("v", "b") and has_field(k[1], name) or k[0] == "c" and (has_field(k[1], name) or has_field(k[2], name)):
            hit = hit or []
            hit.append(k)
    if not hit:
        return st
    out = dict(st)
    for k in hit:
        out[("stale", k)] = out.pop(k)
    return out


def kill_expr(st, e):
    hit = None
    for k in st:
        if k[0] in ("v", "b") and has_sub(k[1], e) or k[0] == "c" and (has_sub(k[1], e) or has_sub(k[2], e)):
            hit = hit or []
            hit.append(k)
    if not hit:
        return st
    out = dict(st)
    for k in hit:
        out[("stale", k)] = out.pop(k)
    return out


_hf = {}


_VK = {}


def variant_expr(e):
    r = _VK.get(e)
    if r is None:
        r = any(x.op in ("elem", "index", "mut", "var") or x.op == "call" and short(x.a[0]) in ("Iterator::next", "StreamExt::next") for x in walk(e))
        _VK[e] = r
    return r


def variant_key(k):
    """the fact is about a loop element or a mutable place"""
    return any(isinstance(x, E) and variant_expr(x) for x in k[1:])


def unmut_deep(e):
    return subst(e, lambda n: unmut_deep(n.a[0]) if n.op == "mut" else None)


def max_elems(e, out=None):
    """maximal elem/index nodes of a loop payload"""
    if out is None:
        out = []
    if e.op in ("elem", "index"):
        if e not in out:
            out.append(e)
        return out
    for x in kids(e):
        max_elems(x, out)
    return out


def has_field(e, name):
    key = (e, name)
    r = _hf.get(key)
    if r is None:
        r = any(x.op == "f" and x.a[1] == name for x in walk(e))
        _hf[key] = r
    return r


_hs = {}


def has_sub(e, sub):
    if sub._size > e._size:
        return False
    key = (e, sub)
    r = _hs.get(key)
    if r is None:
        r = any(x is sub for x in walk(e))
        _hs[key] = r
    return r


def ckey(a, b, s):
    if repr_key(a) > repr_key(b):
        return ("c", b, a), frozenset(FLIP[x] for x in s)
    return ("c", a, b), s


def is_transparent(c):
    i, p, g, t = c
    return p is not None and (short(p) in mir.TRANSPARENT or short(p).rsplit("::", 1)[-1] in ("clone", "deref", "deref_mut", "to_owned"))


def fn_refs(f):
    """('call'|'ref', path) for every callee, closure and fn item mentioned by f (cached on f)"""
    r = getattr(f, "_refs", None)
    if r is not None:
        return r
    out = set()
    S = f.S
    for b in f.blocks:
        if b is None:
            continue
        for st in b[0]:
            if len(st) < 3:
                continue
            rv = st[1]
            if rv[0] == "clo":
                out.add(("ref", S[rv[1]]))
            for o in _ops(rv):
                if o and o[0] == "F":
                    out.add(("call", f.callee(o[1])[0]))
        t = b[1]
        if t[0] == "call":
            if isinstance(t[1][0], int):
                out.add(("call", f.callee(t[1])[0]))
            for o in t[2]:
                if o[0] == "F":
                    out.add(("call", f.callee(o[1])[0]))
    f._refs = out
    return out


def _ops(rv):
    k = rv[0]
    if k == "u":
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "adt":
        return rv[4]
    if k in ("tup", "arr"):
        return rv[1]
    if k == "clo":
        return rv[2]
    return []
