"""integer expressions in a normal form: a sum of products over named quantities, quotients and remainders"""
from sa.mir import mk, walk, unmut, subst, short, show


class Poly(dict):
    """{sorted tuple of atoms: coefficient}"""
    def __add__(self, o):
        r = dict(self)
        for k, v in lift(o).items():
            r[k] = r.get(k, 0) + v
        return Poly({k: v for k, v in r.items() if v})

    def __neg__(self):
        return Poly({k: -v for k, v in self.items()})

    def __sub__(self, o):
        return self + -lift(o)

    def __mul__(self, o):
        r = {}
        for a, x in self.items():
            for b, y in lift(o).items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return Poly({k: v for k, v in r.items() if v})

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(self, o):
        return lift(o) - self

    def __hash__(self):
        return hash(str(self))

    def __str__(self):
        return " + ".join("*".join(([str(v)] if v != 1 or not k else []) + list(k)) for k, v in sorted(self.items())) or "0"

    @property
    def const(self):
        return 0 if not self else self[()] if set(self) == {()} else None


def lift(x):
    return x if isinstance(x, Poly) else Poly({(): x} if x else {}) if isinstance(x, int) else Poly({(x,): 1})


def atom(nm):
    return Poly({(nm,): 1})


def div(a, b):
    a, b = lift(a), lift(b)
    if not a:
        return Poly()
    if len(b) == 1:
        (m, c), = b.items()
        out = {}
        for k, v in a.items():
            r = list(k)
            for x in m:
                if x not in r:
                    break
                r.remove(x)
            else:
                if v % c == 0:
                    out[tuple(r)] = v // c
                    continue
            break
        else:
            return Poly(out)
    return atom(f"({a} / {b})")


def rem(a, b):
    return atom(f"({lift(a)} % {lift(b)})")


def fun(nm, *xs):
    return atom(f"{nm}({', '.join(sorted(str(lift(x)) for x in xs))})")


ADD = {"add", "saturating_add", "wrapping_add", "checked_add", "strict_add", "unchecked_add"}
SUB = {"sub", "saturating_sub", "wrapping_sub", "checked_sub", "strict_sub", "unchecked_sub"}
MUL = {"mul", "saturating_mul", "wrapping_mul", "checked_mul"}
DIV = {"div", "checked_div", "div_euclid"}
REM = {"rem", "checked_rem", "rem_euclid"}
SAME = {"into", "from", "try_into", "try_from", "unwrap", "unwrap_or_default", "expect", "clone", "to_owned", "as_ref", "deref", "borrow", "cast", "unsigned_abs_", "get", "copied", "cloned", "ok_or_else", "map_err", "try_into_", "to_usize"}


def literal(e):
    if e.op == "C":
        e = mk("k", short(e.a[0]))
    if e.op not in ("k", "s"):
        return None
    s = str(e.a[0]).replace("_", "") if str(e.a[0]).lstrip("-").isdigit() else str(e.a[0]).split("_")[0]
    try:
        return int(s)
    except ValueError:
        t = str(e.a[0]).split("::")
        lim = {"MAX": lambda b, sg: 2 ** (b - sg) - 1, "MIN": lambda b, sg: -2 ** (b - 1) if sg else 0}
        if len(t) == 2 and t[1] in lim:
            b = {"size": 64}.get(t[0][1:], None) or int(t[0][1:])
            return lim[t[1]](b, t[0][0] == "i")
        return None


def poly(an, e, names, d=0):
    """normal form of `e`; names: [(predicate, name)] for the quantities it is made of"""
    e = unmut(e)
    for p, nm in names:
        if p(e):
            return lift(nm)
    if d > 14:
        return atom(str(e)[:200])
    n = literal(e)
    if n is not None:
        return lift(n)

    def P(x):
        return poly(an, x, names, d + 1)
    if e.op == "f" and e.a[1] == "0" and unmut(e.a[0]).op == "bin":
        return P(e.a[0])            # the value of an operation with an overflow flag
    if e.op in ("ok", "some", "as", "cast"):
        return P(e.a[0]) if not isinstance(e.a[0], str) else P(e.a[1])
    if e.op == "un":
        if e.a[0].startswith("Neg"):
            x = e.a[1]
            return -P(x[0] if isinstance(x, tuple) else x)
    if e.op == "bin":
        o = str(e.a[0])
        a, b = e.a[1], e.a[2]
        if o.startswith("Add"):
            return P(a) + P(b)
        if o.startswith("Sub"):
            return P(a) - P(b)
        if o.startswith("Mul"):
            return P(a) * P(b)
        if o.startswith("Div"):
            return div(P(a), P(b))
        if o.startswith("Rem"):
            return rem(P(a), P(b))
        if o.startswith("Shl") and P(b).const is not None:
            return P(a) * 2 ** P(b).const
        if o.startswith("BitOr"):
            return fun("or", P(a), P(b))
    if e.op == "call":
        s, a = short(e.a[0]).split("::")[-1], e.a[1]
        if len(a) == 2:
            for names_, f in ((ADD, lambda x, y: x + y), (SUB, lambda x, y: x - y), (MUL, lambda x, y: x * y), (DIV, div), (REM, rem)):
                if s in names_:
                    return f(P(a[0]), P(a[1]))
            if s in ("min", "max"):
                return fun(s, P(a[0]), P(a[1]))
            if s == "div_ceil":
                return div(P(a[0]) + P(a[1]) - 1, P(a[1]))
        if s in ("abs", "unsigned_abs") and len(a) == 1:
            return fun("abs", P(a[0]))
        if s == "clamp" and len(a) == 3:
            return atom(f"clamp({P(a[0])}, {P(a[1])}, {P(a[2])})")
        if s in SAME and a:
            return P(a[-1] if s in ("from", "try_from") else a[0])
        if s in ("call", "call_mut", "call_once") and len(a) == 2:
            t = unmut(a[1])
            v = an.clo_value(a[0], list(t.a[0]) if t.op == "tup" else [a[1]])
            if v is not None:
                return P(v)
        v = inline(an, e)
        if v is not None:
            return P(v)
    if e.op == "dyncall":
        v = an.clo_value(e.a[0], list(e.a[1]))
        if v is not None:
            return P(v)
    if e.op == "f" or e.op == "idx":
        b = unmut(e.a[0])
        if b.op == "call":
            v = inline(an, b)
            if v is not None:
                from sa.mir import simplify
                return P(simplify(mk(e.op, v, *e.a[1:])))
    if e.op == "phi":
        return fun("one of", *[P(x) for x in e.a[0]])
    return atom(str(e)[:200])


def inline(an, e):
    """value of a call of a function of the workspace that has one result"""
    if e.a[0] in an.db.where:
        rs = an.result_of(e)
        if rs and len({str(r) for r, _ in rs}) == 1:
            return rs[0][0]
    v = an.clo_value(mk("clo", e.a[0], ()), list(e.a[1])) if "{closure" in e.a[0] and False else None
    return v
