"""MIR model: lazy function loading, CFG normalisation, symbolic expressions and path facts."""
import json, os, re, sys
from functools import lru_cache
from . import facts as F

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- expressions (hash-consed)


_texts = {}      # (expressions are never freed)


class E:
    __slots__ = ("op", "a", "h", "_r", "_size")
    _tab = {}

    def __repr__(self):
        """the whole expression (rules look for parts of it), unless it is very large"""
        r = _texts.get(id(self))
        if r is None:
            r = _texts[id(self)] = show(self, 100 if self._size <= 4000 else 8)
        return r


def mk(op, *a):
    key = (op,) + tuple(id(x) if isinstance(x, E) else (x,) for x in a)
    e = E._tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        e._r = None
        e._size = 1 + sum(x._size for x in a if isinstance(x, E)) + sum(
            sum(y._size for y in x if isinstance(y, E)) for x in a if isinstance(x, tuple))
        E._tab[key] = e
    return e


def mkt(op, *a):
    """mk for arguments that contain tuples of expressions"""
    key = (op,) + tuple(_k(x) for x in a)
    e = E._tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        e._r = None
        e._size = 1 + sum(_sz(x) for x in a)
        E._tab[key] = e
    return e


def _k(x):
    if isinstance(x, E):
        return id(x)
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    return (x,)


def _sz(x):
    if isinstance(x, E):
        return x._size
    if isinstance(x, tuple):
        return sum(_sz(y) for y in x)
    return 0


def kids(e):
    for x in e.a:
        if isinstance(x, E):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, E):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, E):
                            yield z


def walk(e, seen=None):
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(kids(x))


def subst(e, f, memo=None):
    """bottom-up rewrite: f(node) -> replacement or None"""
    if memo is None:
        memo = {}
    r = memo.get(id(e))
    if r is not None:
        return r
    memo[id(e)] = e
    r = f(e)
    if r is None:
        def go(x):
            if isinstance(x, E):
                return subst(x, f, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in e.a)
        if all(x is y for x, y in zip(na, e.a)):
            r = e
        else:
            r = simplify(mkt(e.op, *na))
    memo[id(e)] = r
    return r


def show(e, depth=6):
    if not isinstance(e, E):
        return str(e)
    if depth == 0:
        return "…"
    d = depth - 1
    o, a = e.op, e.a
    if o == "arg":
        return a[1] or f"arg{a[0]}"
    if o == "up":
        return "^" + a[1]
    if o == "k":
        return str(a[0])
    if o == "s":
        return json.dumps(a[0])
    if o in ("C", "F"):
        return short(a[0])
    if o == "f":
        return show(a[0], d) + "." + a[1]
    if o == "as":
        return show(a[0], d) + " as " + a[1]
    if o == "call":
        return short(a[0]) + "(" + ", ".join(show(x, d) for x in a[1]) + ")"
    if o == "dyncall":
        return "(" + show(a[0], d) + ")(" + ", ".join(show(x, d) for x in a[1]) + ")"
    if o == "bin":
        return "(" + show(a[1], d) + " " + a[0] + " " + show(a[2], d) + ")"
    if o == "un":
        return a[0] + "(" + show(a[1], d) + ")"
    if o == "adt":
        return short(a[0]) + ("::" + a[1] if a[1] else "") + "{" + ", ".join(f"{n}: {show(x, d)}" for n, x in a[2]) + "}"
    if o in ("tup", "arr"):
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if o == "clo":
        return "closure " + short(a[0])
    if o == "phi":
        return "phi[" + " | ".join(show(x, d) for x in a[0]) + "]"
    if o == "var":
        return "var " + str(a[2])
    return o + "(" + ", ".join(show(x, d) if isinstance(x, E) else str(x) for x in a) + ")"


# ---------------------------------------------------------------- names

_short_cache = {}


def strip_generics(p):
    out, depth = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">":
            if i and p[i - 1] == "-":
                if depth == 0:
                    out.append(c)
            else:
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def split_top(p, sep="::"):
    out, depth, cur = [], 0, []
    i = 0
    while i < len(p):
        c = p[i]
        if c in "<({[":
            depth += 1
        elif c in ">)}]":
            if not (c == ">" and i and p[i - 1] == "-"):
                depth -= 1
        if depth == 0 and p.startswith(sep, i):
            out.append("".join(cur))
            cur = []
            i += len(sep)
            continue
        cur.append(c)
        i += 1
    out.append("".join(cur))
    return out


def type_name(t):
    """last path segment of a type string, without generics / refs"""
    t = t.strip()
    while True:
        if t.startswith("&"):
            t = re.sub(r"^&('[\w]+ )?(mut )?", "", t).strip()
            continue
        if t.startswith("dyn "):
            t = t[4:].split(" + ")[0]
            continue
        if t.startswith("impl ") and " for " not in t:
            t = t[5:]
            continue
        break
    if t.startswith("(") or t.startswith("["):
        return t
    base = strip_generics(t)
    return base.split("::")[-1]


def short(path):
    """Type::method, or fn name; `{closure#n}` suffixes preserved"""
    r = _short_cache.get(path)
    if r is not None:
        return r
    parts = split_top(path)
    clo = []
    while len(parts) > 1 and parts[-1].startswith("{"):
        clo.insert(0, parts.pop())
    # drop generic-argument segments like `<T>` in `Vec::<T>::new`
    last = parts[-1]
    prev = None
    for s in reversed(parts[:-1]):
        if s.startswith("<") and not (s.startswith("<impl ") or " as " in s):
            if len(parts) == 2 or parts.index(s) == 0:
                prev = type_name(s[1:-1])
                break
            continue
        if s.startswith("<impl "):
            inner = s[6:-1]
            if " for " in inner:
                inner = inner.split(" for ")[-1]
            prev = type_name(inner)
            break
        if s.startswith("<") and " as " in s:
            prev = type_name(split_top(s[1:-1], " as ")[0])
            break
        prev = strip_generics(s)
        break
    r = strip_generics(last) if not last.startswith("<") else last
    if prev:
        r = prev + "::" + r
    if clo:
        r = r + "::" + "::".join(clo)
    _short_cache[path] = r
    return r


def crate_of(path):
    m = re.search(r"\b(sail_[a-z_]+)::", path)
    return m.group(1) if m else None


# ---------------------------------------------------------------- database


class Crate:
    def __init__(self, name, d):
        self.name = name
        self.dir = d
        self.meta = json.load(open(os.path.join(d, name + ".meta")))
        self.fh = open(os.path.join(d, name + ".facts"), "rb")
        self.S = self.meta["S"]
        self.idx = self.meta["idx"]


class DB:
    def __init__(self, crates):
        dirs, self.reanalysed = F.ensure(crates)
        self.crates = {c: Crate(c, dirs[c]) for c in crates}
        self.where = {}
        self.fns = {}
        self.by_short = {}
        self.children = {}
        for c in self.crates.values():
            for k in c.idx:
                self.where[k] = c
        for k in self.where:
            self.by_short.setdefault(short(k), []).append(k)
            p = split_top(k)
            if len(p) > 1 and p[-1].startswith("{"):
                self.children.setdefault("::".join(p[:-1]), []).append(k)
        self.touched = set()
        self.stats = {}
        self._adts = None
        self._impls = None

    @property
    def adts(self):
        if self._adts is None:
            self._adts = {}
            for c in self.crates.values():
                for k, v in c.meta["adts"].items():
                    self._adts[k] = v
        return self._adts

    @property
    def impls(self):
        """list of (trait path, trait with args, self type, derived, file, line, items)"""
        if self._impls is None:
            self._impls = []
            for c in self.crates.values():
                self._impls.extend(c.meta["impls"])
        return self._impls

    @property
    def trait_impls(self):
        """trait path -> [items of each non-derived impl]"""
        if getattr(self, "_timpls", None) is None:
            self._timpls = {}
            for im in self.impls:
                if im[0] and not im[3]:
                    self._timpls.setdefault(im[0], []).append(im[6])
        return self._timpls

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            c = self.where.get(key)
            if c is None:
                return None
            p, l = c.idx[key]
            c.fh.seek(p)
            f = Fn(self, c, json.loads(c.fh.read(l)))
            self.fns[key] = f
        self.touched.add(key)
        return f

    def find(self, name, crate=None, file=None):
        """unique function by short name (Type::method / module::fn), optional crate / file filter"""
        ks = self.find_all(name, crate, file)
        if len(ks) == 1:
            return self.fn(ks[0])
        return None

    def find_all(self, name, crate=None, file=None):
        ks = self.by_short.get(name, [])
        if not ks:
            # allow a bare function name
            if "::" not in name:
                ks = [k for s, v in self.by_short.items() if s.endswith("::" + name) and "{" not in s for k in v]
        if crate:
            ks = [k for k in ks if self.where[k].name == crate]
        if file:
            ks = [k for k in ks if self.fn(k).file.endswith(file)]
        return ks

    def adt(self, name, crate=None):
        ks = [k for k in self.adts if k.split("::")[-1] == name and (crate is None or k.startswith(crate + "::"))]
        return ks

    def all_keys(self, crate=None):
        for k, c in self.where.items():
            if crate is None or c.name == crate:
                yield k


# ---------------------------------------------------------------- functions

TRANSPARENT = {
    "Clone::clone", "ToOwned::to_owned", "AsRef::as_ref", "AsMut::as_mut", "Deref::deref", "DerefMut::deref_mut",
    "Borrow::borrow", "BorrowMut::borrow_mut", "Into::into", "From::from", "IntoIterator::into_iter",
    "IntoFuture::into_future", "Pin::new_unchecked", "Pin::new", "Box::new", "Box::pin", "Arc::new", "Rc::new",
    "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::cloned", "Option::copied",
    "Result::as_ref", "Result::as_mut", "str::to_string", "ToString::to_string", "String::as_str", "str::to_owned",
    "Vec::as_slice", "Vec::iter", "slice::iter", "slice::iter_mut", "Vec::into_iter", "Iterator::by_ref",
    "Iterator::cloned", "Iterator::copied", "String::as_bytes", "str::as_bytes", "slice::to_vec", "Vec::as_ref",
    "Arc::clone", "Rc::clone", "Path::as_ref", "Arc::as_ref", "Arc::make_mut", "Arc::unwrap_or_clone", "String::from",
    "slice::into_vec", "boxed::box_assume_init_into_vec_unsafe", "Box::into_pin", "identity", "HashMap::iter", "BTreeMap::iter",
    "convert::identity", "Some", "mem::take", "Box::as_ref", "Bytes::from",
    "[T]::iter", "[T]::iter_mut", "[T]::to_vec", "[T]::into_vec", "[u8]::to_vec", "str::to_string", "str::into_string",
    "Vec::iter_mut", "Vec::as_mut_slice", "VecDeque::iter", "HashSet::iter", "BTreeSet::iter", "IndexMap::iter",
    "IndexMap::into_iter", "IndexMap::iter_mut", "HashMap::iter_mut", "BTreeMap::iter_mut", "Iterator::into_iter",
    "Option::iter", "Option::into_iter", "Cow::into_owned", "Arc::deref", "Box::deref", "Box::from", "Arc::from",
    "Vec::deref", "String::deref", "Vec::from", "Iterator::fuse", "Iterator::rev", "Result::as_deref", "Option::map_into",
    "Option::take", "Option::to_owned", "Vec::into_boxed_slice", "Vec::clone", "String::clone", "Box::clone",
    "MutexGuard::deref", "MutexGuard::deref_mut", "Result::cloned", "Result::copied", "mem::replace",
    "str::as_ref", "String::into_bytes", "future::FutureExt::boxed", "FutureExt::boxed", "StreamExt::boxed",
    "FutureExt::in_span", "Peekable::peekable", "Iterator::peekable",
}

CMP = {"PartialEq::eq": "Eq", "PartialEq::ne": "Ne", "PartialOrd::lt": "Lt", "PartialOrd::le": "Le",
       "PartialOrd::gt": "Gt", "PartialOrd::ge": "Ge"}
_DERIVED_CMP = re.compile(r" as core::cmp::(PartialEq|PartialOrd)(?:<.*>)?>::(eq|ne|lt|le|gt|ge)$")
NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
SWAP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}


def is_ws(path):
    return path.startswith("sail_") or path.startswith("<sail_") or "<impl sail_" in path or " sail_" in path \
        or path.startswith("<") and "sail_" in path


def decl_short(path):
    return short(path)


def simplify(e):
    """normal forms for a freshly built node"""
    o = e.op
    if o == "f":
        b, n = e.a
        if b.op == "mut" and b.a[0].op in ("tup",):
            b = b.a[0]
        if b.op == "phi":
            return phi([simplify(mk("f", x, n)) for x in b.a[0]])
        if b.op == "tup" and n.isdigit() and int(n) < len(b.a[0]):
            return b.a[0][int(n)]
        if b.op == "adt":
            for fn, x in b.a[2]:
                if fn == n:
                    return x
        if b.op == "as":
            inner, v = b.a
            if inner.op == "mut" and v in ("Some", "Ok", "Err", "Continue", "Break", "Ready"):
                inner = inner.a[0]
            if inner.op == "adt" and inner.a[1] == v:
                for fn, x in inner.a[2]:
                    if fn == n:
                        return x
            if inner.op == "branch":
                return mk("ok", inner.a[0]) if v == "Continue" else mk("residual", inner.a[0])
            if inner.op == "call" and short(inner.a[0]) in ("Iterator::next", "Stream::poll_next", "StreamExt::next") and v == "Some":
                return elem(inner.a[1][0])
            if v in ("Some", "Ok") and n == "0":
                if inner.op == "await" and inner.a[0].op == "call" and short(inner.a[0].a[0]) in ("StreamExt::next", "TryStreamExt::try_next"):
                    return elem(inner.a[0].a[1][0])
                return simplify(mk("ok", inner))
            if v == "Err" and n == "0":
                return mk("err", inner)
            if inner.op == "poll" and v == "Ready":
                return mk("await", inner.a[0])
        if b.op == "poll" and n == "0":
            return mk("await", b.a[0])
    elif o == "ok":
        x = unmut(e.a[0])
        if x.op == "adt" and x.a[1] in ("Some", "Ok") and x.a[2]:
            return x.a[2][0][1]
        if x.op == "call":
            s = short(x.a[0])
            if s in ("Option::ok_or_else", "Option::ok_or", "Result::map_err", "Result::ok", "Option::filter", "Result::or_else",
                     "Option::or", "Context::context", "Context::with_context"):
                return simplify(mk("ok", x.a[1][0]))
            if s == "Iterator::next":
                return elem(x.a[1][0])
        if x.op == "phi":
            # the success value of a merge: drop alternatives that are failures
            alts = [y for y in x.a[0] if not (y.op in ("adt",) and y.a[1] in ("Err", "None")) and y.op != "from_residual"]
            if alts and len(alts) < len(x.a[0]):
                return simplify(mk("ok", phi(alts)))
    return e


def phi(xs):
    flat = []
    for x in xs:
        for y in (x.a[0] if x.op == "phi" else (x,)):
            if all(y is not z for z in flat):
                flat.append(y)
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=id)
    return mkt("phi", tuple(flat))


def elem(x):
    """element of an iterator / stream / collection"""
    while x.op == "mut":
        x = x.a[0]
    return mk("elem", x)


def unmut(x):
    while x.op == "mut":
        x = x.a[0]
    return x


def call_expr(path, args, gen):
    s = short(path)
    if args and (s in TRANSPARENT or (len(args) == 1 and s.rsplit("::", 1)[-1] in ("clone", "deref", "deref_mut", "to_owned"))):
        return args[0]
    if s in ("Index::index", "IndexMut::index_mut") and len(args) == 2:
        return mk("idx", args[0], args[1])
    if s in CMP and len(args) == 2:
        return mk("bin", CMP[s], args[0], args[1])
    if s == "Try::branch" and args:
        return mk("branch", args[0])
    if s == "FromResidual::from_residual" and args:
        return mk("from_residual", args[0])
    if s == "Future::poll" and args:
        return mk("poll", args[0])
    if len(args) == 2 and path.endswith("}") and "{closure#" in path.rsplit("::", 1)[-1] and unmut(args[1]).op == "call" \
            and short(unmut(args[1]).a[0]).endswith("get_context"):
        return mk("poll", unmut(args[0]))   # poll of a coroutine known statically
    if s in ("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect") and args:
        return simplify(mk("ok", args[0]))
    if s in ("Not::not",) and args:
        return mk("un", "Not", args[0])
    if s == "Array::is_valid" and len(args) == 2:
        return mk("un", "Not", mkt("call", path[:-len("is_valid")] + "is_null", tuple(args), gen))
    return mkt("call", path, tuple(args), gen)


# ---- path facts:
# mk("is", e, variant) / mk("isnot", e, variant) / mk("true", e) / mk("false", e) / mk("cmp", op, a, b)
# mkt("forall", iter, (facts...))


def bool_facts(e, val):
    """facts implied by boolean expression e == val"""
    o = e.op
    if o == "un" and e.a[0] == "Not":
        return bool_facts(e.a[1], not val)
    if o == "k":
        return []
    if o == "bin":
        op = e.a[0]
        if op in NEG:
            if not val:
                op = NEG[op]
            return [cmp_fact(op, e.a[1], e.a[2])]
        if op == "BitAnd" and val:
            return bool_facts(e.a[1], True) + bool_facts(e.a[2], True)
        if op == "BitOr" and not val:
            return bool_facts(e.a[1], False) + bool_facts(e.a[2], False)
    if o == "call":
        s = short(e.a[0])
        if s in ("Option::is_some",):
            return [mk("is", e.a[1][0], "Some" if val else "None")]
        if s in ("Option::is_none",):
            return [mk("is", e.a[1][0], "None" if val else "Some")]
        if s in ("Result::is_ok",):
            return [mk("is", e.a[1][0], "Ok" if val else "Err")]
        if s in ("Result::is_err",):
            return [mk("is", e.a[1][0], "Err" if val else "Ok")]
    return [mk("true" if val else "false", e)]


def cmp_fact(op, a, b):
    # unit-variant comparison becomes a variant fact
    for x, y in ((a, b), (b, a)):
        if y.op == "adt" and y.a[1] and not y.a[2] and op in ("Eq", "Ne"):
            return mk("is" if op == "Eq" else "isnot", x, y.a[1])
    if op in ("Gt", "Ge"):
        op, a, b = SWAP[op], b, a
    if op in ("Eq", "Ne") and repr_key(a) > repr_key(b):
        a, b = b, a
    return mk("cmp", op, a, b)


def repr_key(e):
    if e._r is None:
        e._r = show(e, 5)
    return e._r


class Fn:
    def __init__(self, db, crate, j):
        self.db = db
        self.crate = crate
        self.j = j
        self.key = j["k"]
        self.kind = j["kind"]
        self.file = j["file"]
        self.line = j["line"]
        self.end = j["end"]
        self.nargs = j["args"]
        self.up = j.get("up", [])
        S = crate.S
        self.S = S
        self.locals = [(S[x[0]], x[1] if len(x) > 1 else None) for x in j["L"]]
        self.blocks = []
        for b in j["B"]:
            if b == 0:
                self.blocks.append(None)
            else:
                self.blocks.append([list(b[0]), b[1]])
        self._vec_boxes()
        self._prep()

    def __repr__(self):
        return f"<Fn {short(self.key)}>"

    @property
    def short(self):
        return short(self.key)

    def loc(self, line=None):
        return f"{self.file}:{line or self.line}"

    def _vec_boxes(self):
        """`vec![a, b]` writes the array through an uninitialised box: read as an array moved into the vector"""
        V = ["*", ".value", ".value"]
        boxes = set()
        for b in self.blocks:
            if b is not None:
                for s in b[0]:
                    if len(s) > 1 and isinstance(s[0], list) and len(s[0]) == 4 and s[0][1:] == V:
                        boxes.add(s[0][0])
        if not boxes:
            return
        for b in self.blocks:
            if b is None:
                continue
            for i, s in enumerate(b[0]):
                if len(s) > 1 and isinstance(s[0], list) and len(s[0]) == 4 and s[0][1:] == V:
                    b[0][i] = [[s[0][0]]] + list(s[1:])
            t = b[1]
            if t[0] == "call" and isinstance(t[3], list) and len(t[3]) == 1 and t[3][0] in boxes and not t[2]:
                b[1] = ["g", t[4]]

    # ------------------------------------------------ CFG
    def _prep(self):
        self._thread_bools()
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b is not None:
                self.succ[i] = [t for t in self._targets(b[1])]
        # reachable, and blocks that can reach an exit
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(self.succ[x])
        # prune edges into blocks that are `unreachable`
        dead = {i for i in reach if self.blocks[i][1][0] == "unr" and not self.blocks[i][0]}
        self.reach = reach - dead
        self.pred = [[] for _ in range(n)]
        for i in list(self.reach):
            self.succ[i] = [t for t in self.succ[i] if t in self.reach]
            for t in self.succ[i]:
                self.pred[t].append(i)
        self.ret_blocks = [i for i in self.reach if self.blocks[i][1][0] == "ret"]
        # definitions
        self.defs = {}
        self.part = {}
        self.mutref = set()
        for i in self.reach:
            b = self.blocks[i]
            for si, st in enumerate(b[0]):
                if len(st) < 3:
                    continue
                pl, rv = st[0], st[1]
                if len(pl) == 1:
                    self.defs.setdefault(pl[0], []).append((i, si))
                else:
                    self.part.setdefault(pl[0], []).append((i, si))
                if rv[0] == "&m" and len(rv[1]) == 1:
                    self.mutref.add(rv[1][0])
            t = b[1]
            if t[0] == "call":
                pl = t[3]
                if len(pl) == 1:
                    self.defs.setdefault(pl[0], []).append((i, -1))
                else:
                    self.part.setdefault(pl[0], []).append((i, -1))
        self._expr_cache = {}
        self._place_cache = {}
        self._facts_in = None

    @staticmethod
    def _targets(t):
        k = t[0]
        if k == "g":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k in ("ret", "unr", "x"):
            return []
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "as":
            return [t[4]]
        if k == "y":
            return [t[1]]
        return []

    def flag_locals(self):
        """named boolean variables that are assigned constants in several places"""
        r = getattr(self, "_flags", None)
        if r is None:
            r = []
            for l, ds in self.defs.items():
                if len(ds) < 2 or l in self.mutref or l >= len(self.locals) or self.locals[l][0] != "bool" or not self.locals[l][1]:
                    continue
                n = 0
                for bb, si in ds:
                    if si != -1:
                        rv = self.blocks[bb][0][si][1]
                        if rv[0] == "u" and rv[1][0] == "k" and rv[1][1] in ("true", "false"):
                            n += 1
                if n >= 2:
                    r.append(l)
            # named booleans tested more than once: what is done in between is remembered per value
            n = {}
            for b, l in self.bool_tests().items():
                n[l] = n.get(l, 0) + 1
            more = [l for l, k in n.items() if k >= 2 and l not in r and l not in self.mutref]
            self._flags = r = sorted(sorted(r)[:5] + sorted(more)[:2])
        return r

    def bool_tests(self):
        """switch block -> the named boolean variable it tests"""
        r = {}
        for b in self.reach:
            t = self.blocks[b][1]
            if t[0] != "sw" or t[6] or t[1][0] not in ("c", "m") or len(t[1][1]) != 1:
                continue
            l = t[1][1][0]
            for st in reversed(self.blocks[b][0]):
                if len(st) >= 3 and len(st[0]) == 1 and st[0][0] == l:
                    rv = st[1]
                    l = rv[1][1][0] if rv[0] == "u" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1 else None
                    if l is None:
                        break
            if l is not None and l < len(self.locals) and self.locals[l][0] == "bool" and self.locals[l][1]:
                r[b] = l
        return r

    def flag_tested(self):
        """switch block -> flag local it tests"""
        r = getattr(self, "_ftest", None)
        if r is None:
            fl = set(self.flag_locals())
            r = self._ftest = {b: l for b, l in self.bool_tests().items() if l in fl}
        return r

    def flag_live(self):
        """block -> flag locals whose value at block entry may still be read"""
        r = getattr(self, "_flive", None)
        if r is not None:
            return r
        flags = set(self.flag_locals())

        def locs(x, out):
            # operands / places nested in lists: ("c"|"m", place)
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], (list, tuple)) and x[1] and isinstance(x[1][0], int):
                    out.add(x[1][0])
                else:
                    if x and isinstance(x[0], int) and x[0] in flags:
                        out.add(x[0])
                    for y in x:
                        locs(y, out)
        gen, kill = {}, {}
        for b in self.reach:
            g, k = set(), set()
            for st in self.blocks[b][0]:
                if len(st) < 3:
                    continue
                u = set()
                locs(st[1], u)
                g |= (u & flags) - k
                if len(st[0]) == 1 and st[0][0] in flags:
                    k.add(st[0][0])
                elif st[0][0] in flags and st[0][0] not in k:
                    g.add(st[0][0])
            u = set()
            locs(self.blocks[b][1][1:], u)
            g |= (u & flags) - k
            gen[b], kill[b] = g, k
        live = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in self.reach:
                o = set()
                for t in self._targets(self.blocks[b][1]):
                    o |= live.get(t, set())
                n = gen[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._flive = live
        return live

    def _thread_bools(self):
        """jump threading of constant booleans / unit flags into the switch that tests them"""
        def trivial_chain(start, var):
            """follow gotos from block start; return (cloned statements, switch block, tested value) or None"""
            alias = {var}
            stmts = []
            cur = start
            seen = set()
            while True:
                if cur in seen or self.blocks[cur] is None:
                    return None
                seen.add(cur)
                ss, t = self.blocks[cur]
                for st in ss:
                    if len(st) < 3:
                        return None
                    pl, rv = st[0], st[1]
                    if rv[0] == "u" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1 and rv[1][1][0] in alias and len(pl) == 1:
                        alias.add(pl[0])
                        stmts.append(st)
                        continue
                    if len(pl) == 1 and pl[0] in alias:
                        return None
                    if len(ss) > 3:
                        return None
                    stmts.append(st)
                if t[0] == "g":
                    cur = t[1]
                    continue
                if t[0] == "drop":
                    return None
                if t[0] == "sw" and t[1][0] in ("c", "m") and len(t[1][1]) == 1 and t[1][1][0] in alias and not t[6]:
                    return stmts, t
                return None
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for i in range(len(self.blocks)):
                b = self.blocks[i]
                if b is None or not b[0] or b[1][0] != "g":
                    continue
                # last constant-bool assignment in the block
                for st in reversed(b[0]):
                    if len(st) < 3:
                        break
                    pl, rv = st[0], st[1]
                    if len(pl) == 1 and rv[0] == "u" and rv[1][0] == "k" and rv[1][1] in ("true", "false"):
                        r = trivial_chain(b[1][1], pl[0])
                        if r:
                            stmts, t = r
                            want = "1" if rv[1][1] == "true" else "0"
                            tgt = t[3]
                            for v, x in t[2]:
                                if v == want:
                                    tgt = x
                            self.blocks[i] = [b[0] + stmts, ["g", tgt]]
                            changed = True
                        break

    # ------------------------------------------------ expressions
    def ty(self, l):
        return self.locals[l][0]

    def op_expr(self, o, at=None, depth=0):
        k = o[0]
        if k in ("c", "m"):
            return self.place_expr(o[1], at, depth)
        if k == "k":
            return mk("k", o[1], self.S[o[2]])
        if k == "s":
            return mk("s", o[1])
        if k == "C":
            return mk("C", self.S[o[1]])
        if k == "F":
            p, g = self.callee(o[1])
            return mk("F", p)
        return mk("?", k)

    def callee(self, f):
        """(path, generics) — resolved path when it lies in the workspace, declared path otherwise"""
        decl = self.S[f[0]]
        gen = tuple(self.S[x] for x in f[1])
        if len(f) > 2:
            res = self.S[f[2]]
            if is_ws(res):
                return res, gen
        return decl, gen

    def place_expr(self, pl, at=None, depth=0):
        l = pl[0]
        proj = pl[1:]
        if l == 1 and self.kind in ("closure", "coroutine") and proj:
            # captured variable
            i = 0
            while i < len(proj) and proj[i] == "*":
                i += 1
            if i < len(proj) and proj[i].startswith(".^"):
                nm = proj[i][2:]
                idx, _, name = nm.partition(":")
                e = mk("up", int(idx), name)
                return self._project(e, proj[i + 1:], at, depth)
        e = self.local_expr(l, at, depth)
        return self._project(e, proj, at, depth)

    def _project(self, e, proj, at, depth):
        for p in proj:
            c = p[0]
            if c == "*":
                continue
            if c == ".":
                e = simplify(mk("f", e, p[1:]))
            elif c == "@":
                e = mk("as", e, p[1:])
            elif c == "[":
                e = mk("idx", e, self.local_expr(int(p[1:]), at, depth + 1))
            elif c == "#":
                e = mk("f", e, "#" + p[1:])
            else:
                e = mk("slice", e)
        return e

    def local_expr(self, l, at=None, depth=0):
        if 1 <= l <= self.nargs:
            ds = self.defs.get(l, [])
            if not ds:
                return mk("arg", l, self.locals[l][1] or "")
        ds = self.defs.get(l)
        if not ds:
            return mk("var", self.key, l, self.locals[l][1] or f"_{l}")
        if len(ds) > 1 and at is not None:
            rs = self._reaching(l, at)
            if rs:
                ds = rs
        key = (l, tuple(ds))
        r = self._expr_cache.get(key)
        if r is not None:
            if r == "busy":
                return mk("loop", self.key, l, self.locals[l][1] or f"_{l}")
            return r
        self._expr_cache[key] = "busy"
        outs = []
        for d in ds:
            if d == "arg":
                outs.append(mk("arg", l, self.locals[l][1] or ""))
                continue
            outs.append(self.def_expr(d, depth + 1))
        r = phi(outs)
        if self.locals[l][1] and (l in self.mutref or l in self.part) and r.op not in ("arg",):
            # user variable that is mutated after its definition
            r = mk("mut", r, self.locals[l][1], l) if r.op != "mut" else r
        self._expr_cache[key] = r
        return r

    def _reaching(self, l, at):
        """definitions of l that reach (block, stmt index)"""
        bb, si = at
        ds = self.defs.get(l, [])
        by_block = {}
        for b, s in ds:
            by_block.setdefault(b, []).append(s)

        def last_before(b, lim):
            best = None
            for s in by_block.get(b, ()):
                if s == -1:
                    if lim is None:
                        return -1
                    continue
                if lim is None or s < lim:
                    best = s if best is None or s > best else best
            return best
        out = []
        r = last_before(bb, si if si is not None else None) if si != -1 else None
        if si == -1 or si is None:
            # before the terminator
            best = None
            for s in by_block.get(bb, ()):
                if s != -1:
                    best = s if best is None or s > best else best
            r = best
        if r is not None:
            return [(bb, r)]
        seen = set()
        st = list(self.pred[bb])
        hit_entry = bb == 0
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in by_block:
                v = by_block[b]
                s = -1 if -1 in v else max(v)
                if (b, s) not in out:
                    out.append((b, s))
                continue
            if b == 0:
                hit_entry = True
            st.extend(self.pred[b])
        if hit_entry and 1 <= l <= self.nargs:
            out.append("arg")
        out.sort(key=str)
        return out

    def def_expr(self, d, depth=0):
        bb, si = d
        if si == -1:
            return self.call_at(bb, depth)
        st = self.blocks[bb][0][si]
        return self.rv_expr(st[1], (bb, si), depth)

    def call_at(self, bb, depth=0):
        t = self.blocks[bb][1]
        at = (bb, -1)
        args = [self.op_expr(a, at, depth) for a in t[2]]
        f = t[1]
        if isinstance(f[0], int):
            p, g = self.callee(f)
            if p[0] == "<" and len(args) == 2 and p not in self.db.where:
                m = _DERIVED_CMP.search(p)
                if m:   # derived comparison of a workspace type
                    p = f"core::cmp::{m.group(1)}::{m.group(2)}"
            return call_expr(p, args, g)
        fe = self.op_expr(f, at, depth)
        return mkt("dyncall", fe, tuple(args))

    def rv_expr(self, rv, at, depth=0):
        k = rv[0]
        if k == "u":
            return self.op_expr(rv[1], at, depth)
        if k in ("&", "&m", "&f"):
            return self.place_expr(rv[1], at, depth)
        if k == "cast":
            return self.op_expr(rv[2], at, depth)
        if k == "b":
            op = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
            e = mk("bin", op, self.op_expr(rv[2], at, depth), self.op_expr(rv[3], at, depth))
            if "WithOverflow" in rv[1]:
                return mkt("tup", (e, mk("k", "ov", "bool")))
            return e
        if k == "un":
            return mk("un", rv[1], self.op_expr(rv[2], at, depth))
        if k == "d":
            return mk("disc", self.place_expr(rv[1], at, depth))
        if k == "adt":
            fs = tuple((n, self.op_expr(o, at, depth)) for n, o in zip(rv[3], rv[4]))
            return mkt("adt", self.S[rv[1]], rv[2], fs)
        if k == "tup":
            return mkt("tup", tuple(self.op_expr(o, at, depth) for o in rv[1]))
        if k == "arr":
            return mkt("arr", tuple(self.op_expr(o, at, depth) for o in rv[1]))
        if k == "clo":
            return mkt("clo", self.S[rv[1]], tuple(self.op_expr(o, at, depth) for o in rv[2]))
        if k == "rep":
            return mk("rep", self.op_expr(rv[1], at, depth))
        return mk("?", k)

    # ------------------------------------------------ path facts
    def edge_facts(self, bb):
        """[(target, [facts])] for the out-edges of bb"""
        t = self.blocks[bb][1]
        if t[0] == "sw":
            e = self.op_expr(t[1], (bb, -1))
            out = []
            if t[6]:
                # discriminant switch
                x = e.a[0] if e.op == "disc" else e
                names = []
                enum = self.S[t[4]]
                allv = enum_variants(self.db, enum)
                for v, tgt in t[2]:
                    names.append(v)
                    out.append((tgt, variant_facts(x, v)))
                rest = [v for v in allv if v not in names] if allv else None
                if rest is not None and len(rest) == 1:
                    out.append((t[3], variant_facts(x, rest[0])))
                else:
                    fs = []
                    for v in names:
                        fs.append(mk("isnot", x, v))
                    out.append((t[3], fs))
                return out
            ty = self.S[t[4]]
            if ty == "bool":
                for v, tgt in t[2]:
                    out.append((tgt, bool_facts(e, v != "0")))
                out.append((t[3], bool_facts(e, True)))
                return out
            for v, tgt in t[2]:
                out.append((tgt, [mk("cmp", "Eq", e, mk("k", v, ty))]))
            out.append((t[3], [mk("cmp", "Ne", e, mk("k", v, ty)) for v, _ in t[2]]))
            return out
        if t[0] == "call":
            f = t[1]
            return [(x, []) for x in self._targets(t)]
        return [(x, []) for x in self._targets(t)]

    def facts_in(self):
        """must-facts at entry of every block (intersection over all paths)"""
        if self._facts_in is not None:
            return self._facts_in
        TOP = None
        ins = {i: TOP for i in self.reach}
        ins[0] = frozenset()
        edges = {i: self.edge_facts(i) for i in self.reach}
        order = self.rpo()
        pos = {b: i for i, b in enumerate(order)}
        work = set(order)
        import heapq
        heap = [pos[0]]
        inq = {0}
        while heap:
            b = order[heapq.heappop(heap)]
            inq.discard(b)
            cur = ins[b]
            if cur is None:
                continue
            groups = {}
            for tgt, fs in edges[b]:
                if tgt not in self.reach:
                    continue
                out = cur.union(fs) if fs else cur
                # contradictory edge: is(x,A) with is(x,B)
                groups[tgt] = out if tgt not in groups else (groups[tgt] & out)
            for tgt, out in groups.items():
                old = ins[tgt]
                new = out if old is None else (old & out)
                if old is None or new != old:
                    ins[tgt] = new
                    if tgt not in inq:
                        inq.add(tgt)
                        heapq.heappush(heap, pos[tgt])
        self._facts_in = {k: (v or frozenset()) for k, v in ins.items()}
        return self._facts_in

    def rpo(self):
        seen = set()
        out = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    def reaches(self, src, dst, avoid=()):
        avoid = set(avoid)
        seen = set()
        st = [src]
        while st:
            x = st.pop()
            if x == dst:
                return True
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        return False

    # ------------------------------------------------ calls
    def calls(self):
        for i in sorted(self.reach):
            t = self.blocks[i][1]
            if t[0] == "call":
                f = t[1]
                if isinstance(f[0], int):
                    p, g = self.callee(f)
                else:
                    p, g = None, ()
                yield i, p, g, t

    def aggregates(self, suffix):
        """[((block, stmt), expr)] of struct/enum values built here whose type path ends with suffix"""
        for i in sorted(self.reach):
            for si, st in enumerate(self.blocks[i][0]):
                if len(st) >= 3 and st[1][0] == "adt" and self.S[st[1][1]].endswith(suffix):
                    yield (i, si), self.rv_expr(st[1], (i, si))

    def closures(self):
        """[(block, stmt, path, capture operands)] of closures / coroutines created here"""
        for i in sorted(self.reach):
            for si, st in enumerate(self.blocks[i][0]):
                if len(st) >= 3 and st[1][0] == "clo":
                    yield i, si, self.S[st[1][1]], st[1][2]


def variant_facts(x, v):
    if x.op == "branch":
        inner = x.a[0]
        return [mk("okv", inner)] if v == "Continue" else [mk("errv", inner)]
    if x.op == "poll":
        return []
    if x.op == "phi":
        # a phi of aggregates: discriminant selects some alternatives
        pass
    if v in ("Ok", "Some"):
        return [mk("okv", x), mk("is", x, v)]
    if v in ("Err", "None"):
        return [mk("errv", x), mk("is", x, v)]
    return [mk("is", x, v)]


_std_variants = {
    "core::option::Option": ["None", "Some"],
    "core::result::Result": ["Ok", "Err"],
    "core::ops::control_flow::ControlFlow": ["Continue", "Break"],
    "core::task::poll::Poll": ["Ready", "Pending"],
    "core::cmp::Ordering": ["Less", "Equal", "Greater"],
    "alloc::borrow::Cow": ["Borrowed", "Owned"],
    "futures_util::future::either::Either": ["Left", "Right"],
}


def enum_variants(db, enum):
    if enum in _std_variants:
        return _std_variants[enum]
    a = db.adts.get(enum)
    if a:
        return [v[0] for v in a["v"]]
    return None
