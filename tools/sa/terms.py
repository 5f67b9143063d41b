"""Value-graph nodes (hash-consed terms).

Numeric nodes : num, nan, inf, atom, sel, fn, sum, prod, ite, opq
Boolean nodes : true, false, lt0, le0, eq0, not, and, or, isnan, all, any, opq
String nodes  : cat (pieces), opq

Constructors canonicalise lightly (linear combinations are collected, products
are flattened); equality of values is decided by :mod:`sa.nf`.
"""
from fractions import Fraction
from math import isqrt

_TABLE = {}


class T:
    __slots__ = ("op", "args", "id", "_deps")

    def __init__(self, op, args, ident):
        self.op, self.args, self.id, self._deps = op, args, ident, None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _mk(op, *args):
    key = (op,) + tuple(
        ("$", a.id) if isinstance(a, T) else (type(a).__name__, a) for a in args
    )
    t = _TABLE.get(key)
    if t is None:
        t = _TABLE[key] = T(op, args, len(_TABLE) + 1)
    return t


# ---------------------------------------------------------------- leaves
class AtomInfo:
    __slots__ = ("sign", "integer", "lb", "maybe_nan", "kind")

    def __init__(self, sign=None, integer=False, lb=None, maybe_nan=False, kind=None):
        self.sign, self.integer, self.lb = sign, integer, lb
        self.maybe_nan, self.kind = maybe_nan, kind


ATOMS = {}
ARRAYS = {}


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    return _mk("num", Fraction(x))


NAN = _mk("nan")
INF = _mk("inf")
TRUE = _mk("true")
FALSE = _mk("false")
ZERO, ONE = num(0), num(1)
IOTA = _mk("atom", "<iota>")
ATOMS["<iota>"] = AtomInfo(sign=">=", integer=True, lb=0)


def atom(name, **info):
    t = _mk("atom", name)
    if name not in ATOMS or info:
        ATOMS[name] = AtomInfo(**info)
    return t


def sel(arr, idx, **info):
    """Element idx of the uninterpreted array ``arr`` (sign info per array)."""
    if arr not in ARRAYS or info:
        ARRAYS[arr] = AtomInfo(**info)
    return _mk("sel", arr, idx)


def is_num(t):
    return t.op == "num"


# ---------------------------------------------------------------- numeric
def add(*ts):
    const = Fraction(0)
    coef = {}

    def put(t, c):
        nonlocal const
        if t.op == "num":
            const += c * t.args[0]
        elif t.op == "sum":
            const += c * t.args[0]
            for u, d in t.args[1]:
                coef[u] = coef.get(u, 0) + c * d
        else:
            coef[t] = coef.get(t, 0) + c

    for t in ts:
        if t.op == "nan":
            return NAN
        put(t, Fraction(1))
    if INF in coef:
        return INF if coef[INF] > 0 else _opq_num("-inf")
    return _sum(const, coef)


def _opq_num(tag):
    return _mk("opq", tag)


def _sum(const, coef):
    items = sorted(((t, c) for t, c in coef.items() if c != 0), key=lambda x: x[0].id)
    if not items:
        return num(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    key = ("sum", const) + tuple((t.id, c) for t, c in items)
    t = _TABLE.get(key)
    if t is None:
        t = _TABLE[key] = T("sum", (const, tuple(items)), len(_TABLE) + 1)
    return t


def scale(c, t):
    c = Fraction(c)
    if t.op == "nan":
        return NAN
    if c == 0:
        return ZERO
    if t.op == "num":
        return num(c * t.args[0])
    if t.op == "sum":
        return _sum(c * t.args[0], {u: c * d for u, d in t.args[1]})
    return _sum(Fraction(0), {t: c})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    coef = Fraction(1)
    powers = {}
    for t in ts:
        if t.op == "nan":
            return NAN
    stack = [(t, Fraction(1)) for t in ts]
    for t, e in stack:
        if t.op == "num":
            coef *= t.args[0]
        elif t.op == "sum" and t.args[0] == 0 and len(t.args[1]) == 1:
            u, c = t.args[1][0]
            coef *= c
            _pput(powers, u, e)
        else:
            _pput(powers, t, e)
    return _prod(coef, powers)


def _pput(powers, t, e):
    if t.op == "prod":
        for u, f in t.args[0]:
            powers[u] = powers.get(u, 0) + e * f
    else:
        powers[t] = powers.get(t, 0) + e


def _prod(coef, powers):
    if coef == 0:
        return ZERO
    items = sorted(((t, e) for t, e in powers.items() if e != 0), key=lambda x: x[0].id)
    if not items:
        return num(coef)
    if len(items) == 1 and items[0][1] == 1:
        return scale(coef, items[0][0])
    key = ("prod",) + tuple((t.id, e) for t, e in items)
    t = _TABLE.get(key)
    if t is None:
        t = _TABLE[key] = T("prod", (tuple(items),), len(_TABLE) + 1)
    return scale(coef, t)


def _frac_root(x, q):
    """exact q-th root of a non-negative fraction or None"""
    if q == 2:
        a, b = isqrt(x.numerator), isqrt(x.denominator)
        if a * a == x.numerator and b * b == x.denominator:
            return Fraction(a, b)
        return None
    a = round(x.numerator ** (1.0 / q))
    b = round(x.denominator ** (1.0 / q))
    if a**q == x.numerator and b**q == x.denominator:
        return Fraction(a, b)
    return None


def power(t, e):
    e = Fraction(e)
    if t.op == "nan":
        return NAN if e != 0 else ONE
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        v = t.args[0]
        if e.denominator == 1:
            if v == 0:
                return ZERO if e > 0 else opq("div0")
            return num(v ** int(e))
        if v >= 0:
            r = _frac_root(v, e.denominator)
            if r is not None and (r != 0 or e > 0):
                return num(r ** e.numerator)
        return _prod(Fraction(1), {t: e}) if v > 0 else opq("pow", t, e)
    if t.op == "sum" and t.args[0] == 0 and len(t.args[1]) == 1:
        u, c = t.args[1][0]
        if e.denominator == 1:
            return mul(num(c ** int(e)), power(u, e))
        if c > 0:
            return mul(power(num(c), e), power(u, e))
    if t.op == "prod":
        if e.denominator == 1 or all(sign(u) == "+" for u, _ in t.args[0]):
            return _prod(Fraction(1), {u: f * e for u, f in t.args[0]})
    if e.denominator == 1 or True:
        return _prod(Fraction(1), {t: e})


def div(a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if b.op == "num":
        if b.args[0] == 0:
            return opq("div0", a)
        return scale(1 / b.args[0], a)
    return mul(a, power(b, -1))


def is_int(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "atom":
        return ATOMS[t.args[0]].integer
    if t.op == "sum":
        return t.args[0].denominator == 1 and all(c.denominator == 1 and is_int(u) for u, c in t.args[1])
    if t.op == "prod":
        return all(e >= 1 and e.denominator == 1 and is_int(u) for u, e in t.args[0])
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == "fn":
        return t.args[0] in ("trunc", "floor", "ceil", "rint")
    return False


def fn(name, *args):
    if any(isinstance(a, T) and a.op == "nan" for a in args):
        return NAN
    if name in ("trunc", "floor", "ceil", "rint") and len(args) == 1 and is_int(args[0]):
        return args[0]
    if name == "exp" and args[0].op == "num" and args[0].args[0] == 0:
        return ONE
    if name == "log":
        if args[0] is ONE:
            return ZERO
        if args[0].op == "fn" and args[0].args[0] == "exp":
            return args[0].args[1]
    return _mk("fn", name, *args)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    # boolean-valued
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", c, a, b)


BOOL_OPS = {
    "true", "false", "lt0", "le0", "eq0", "not", "and", "or", "isnan", "all", "any",
    "bopq",
}


def is_bool(t):
    return t.op in BOOL_OPS


def opq(tag, *args):
    return _mk("opq", tag, *args)


def bopq(tag, *args):
    return _mk("bopq", tag, *args)


# ---------------------------------------------------------------- booleans
def _lead_norm(t, allow_neg):
    """scale so that the leading coefficient is +-1 (or +1 if allow_neg)"""
    if t.op == "sum":
        const, items = t.args
        c = items[0][1]
        c = c if allow_neg else abs(c)
        if c != 1:
            return scale(1 / c, t)
    return t


def _drop_pos(t, keep_sign):
    """drop factors that are positive (they do not change a comparison with 0)"""
    coef, base = Fraction(1), t
    if t.op == "sum" and t.args[0] == 0 and len(t.args[1]) == 1:
        base, coef = t.args[1][0]
    if base.op == "prod":
        items = {}
        for u, e in base.args[0]:
            if sign(u) == "+":
                continue
            if keep_sign:
                e = Fraction(1) if e.denominator != 1 or int(e) % 2 else Fraction(2)
            else:
                if e < 0:
                    continue
                e = Fraction(1)
            items[u] = e
        base = _prod(Fraction(1), items)
    elif sign(base) == "+":
        base = ONE
    if not keep_sign:
        coef = Fraction(1)
    return scale(1 if coef > 0 else -1, base)


def counted(t):
    """(any(c), constant, factor) if t is constant + factor * (number of
    elements for which c holds), or None"""
    if t.op == "opq" and t.args[0] == "ntrue":
        return any_(t.args[1], t.args[2]), 0, 1
    if t.op == "sum" and len(t.args[1]) == 1:
        u, k = t.args[1][0]
        if u.op == "opq" and u.args[0] == "ntrue":
            return any_(u.args[1], u.args[2]), t.args[0], k
    return None


def lt0(t):
    c = counted(t)
    if c is not None:
        hit, a, k = c
        if k < 0 <= a and a + k < 0:  # a - k*m < 0
            return hit
        if k > 0 > a and a + k >= 0:  # k*m < -a
            return not_(hit)
    if t.op == "nan":
        return FALSE
    if t.op == "inf":
        return FALSE
    if t.op == "num":
        return TRUE if t.args[0] < 0 else FALSE
    s = sign(t)
    if s == "-":
        return TRUE
    if s in ("+", ">=", "0"):
        return FALSE
    b = bounds(t)
    if b is not None and b >= 0:
        return FALSE
    t = _lead_norm(_drop_pos(t, True), False)
    return _mk("lt0", t)


def le0(t):
    c = counted(t)
    if c is not None:
        hit, a, k = c
        if k < 0 < a and a + k <= 0:
            return hit
        if k > 0 >= a and a + k > 0:
            return not_(hit)
    if t.op in ("nan", "inf"):
        return FALSE
    if t.op == "num":
        return TRUE if t.args[0] <= 0 else FALSE
    s = sign(t)
    if s in ("-", "<=", "0"):
        return TRUE
    if s == "+":
        return FALSE
    b = bounds(t)
    if b is not None and b > 0:
        return FALSE
    t = _lead_norm(_drop_pos(t, True), False)
    return _mk("le0", t)


def eq0(t):
    c = counted(t)
    if c is not None and c[1] == 0:
        return not_(c[0])
    if t.op in ("nan", "inf"):
        return FALSE
    if t.op == "num":
        return TRUE if t.args[0] == 0 else FALSE
    if sign(t) in ("+", "-"):
        return FALSE
    b = bounds(t)
    if b is not None and b > 0:
        return FALSE
    b = bounds(neg(t))
    if b is not None and b > 0:
        return FALSE
    t = _lead_norm(_drop_pos(t, False), True)
    if t.op == "prod" and len(t.args[0]) > 1:
        return or_(*[eq0(u) for u, e in t.args[0]])
    return _mk("eq0", t)


def lt(a, b):
    if a is b:
        return FALSE
    if INF in (a, b):
        return TRUE if b is INF else FALSE
    return lt0(sub(a, b))


def le(a, b):
    if a is b and a.op != "nan":
        return TRUE
    return le0(sub(a, b))


def eq(a, b):
    if is_bool(a) or is_bool(b):
        if not is_bool(a):
            a = not_(eq0(a))
        if not is_bool(b):
            b = not_(eq0(b))
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a is b:
        return TRUE
    if a.op in ("cat",) or b.op in ("cat",):
        return streq(a, b)
    return eq0(sub(a, b))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt0":
        return le0(neg(c.args[0])) if not may_be_nan(c.args[0]) else _mk("not", c)
    if c.op == "le0":
        return lt0(neg(c.args[0])) if not may_be_nan(c.args[0]) else _mk("not", c)
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    return _mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == "and":
            out.extend(c.args)
        else:
            out.append(c)
    seen = []
    s = set()
    for c in out:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in s:
            continue
        s.add(c)
        seen.append(c)
    for c in seen:
        if not_(c) in s:
            return FALSE
    # absorption: c and (not c or d) -> c and d
    res = []
    for c in seen:
        if c.op == "or":
            if any(d in s for d in c.args):
                continue
            keep = [d for d in c.args if not_(d) not in s]
            if len(keep) < len(c.args):
                return and_(*[x for x in seen if x is not c], or_(*keep))
        res.append(c)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return _mk("and", *sorted(res, key=lambda x: x.id))


def or_(*cs):
    out = []
    for c in cs:
        if c.op == "or":
            out.extend(c.args)
        else:
            out.append(c)
    seen = []
    s = set()
    for c in out:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in s:
            continue
        s.add(c)
        seen.append(c)
    for c in seen:
        if not_(c) in s:
            return TRUE
    res = []
    for c in seen:
        if c.op == "and":
            if any(d in s for d in c.args):
                continue
            keep = [d for d in c.args if not_(d) not in s]
            if len(keep) < len(c.args):
                return or_(*[x for x in seen if x is not c], and_(*keep))
        res.append(c)
    # (p and r) or (not p and r) -> r
    for i, c in enumerate(res):
        if c.op != "and":
            continue
        for d in res[i + 1:]:
            if d.op != "and":
                continue
            sc, sd = set(c.args), set(d.args)
            oc, od = sc - sd, sd - sc
            if len(oc) == 1 and len(od) == 1 and not_(next(iter(oc))) is next(iter(od)):
                rest = [x for x in res if x is not c and x is not d]
                return or_(*rest, and_(*(sc & sd)))
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return _mk("or", *sorted(res, key=lambda x: x.id))


def isnan(t):
    if t.op == "nan":
        return TRUE
    if not may_be_nan(t):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    if t.op == "sum":
        return or_(*[isnan(u) for u, _ in t.args[1]])
    if t.op == "prod":
        return or_(*[isnan(u) for u, _ in t.args[0]])
    return _mk("isnan", t)


_MN = {}


def may_be_nan(t):
    r = _MN.get(t)
    if r is None:
        if t.op == "nan":
            r = True
        elif t.op == "atom":
            r = ATOMS[t.args[0]].maybe_nan
        elif t.op == "sel":
            r = ARRAYS[t.args[0]].maybe_nan
        elif t.op == "opq":
            r = True
        elif t.op == "sum":
            r = any(may_be_nan(u) for u, _ in t.args[1])
        elif t.op == "prod":
            r = any(may_be_nan(u) for u, _ in t.args[0])
        elif t.op == "ite":
            r = may_be_nan(t.args[1]) or may_be_nan(t.args[2])
        elif t.op == "fn":
            r = any(may_be_nan(u) for u in t.args[1:] if isinstance(u, T))
        else:
            r = False
        _MN[t] = r
    return r


def all_(c, n):
    """for all indices iota in range(n): c"""
    if c is TRUE:
        return TRUE
    if not depends(c, IOTA):
        return or_(eq0(n), c)
    return _mk("all", c, n)


def any_(c, n):
    if c is FALSE:
        return FALSE
    if not depends(c, IOTA):
        return and_(not_(eq0(n)), c)
    if c.op == "or":
        return or_(*[any_(x, n) for x in c.args])
    return _mk("any", c, n)


# ---------------------------------------------------------------- signs
_SG = {}


def sign(t):
    """'+', '-', '0', '>=', '<=' or '?'"""
    r = _SG.get(t)
    if r is None:
        r = _SG[t] = _sign(t)
    return r


def clear_sign_cache():
    _SG.clear()
    _MN.clear()


_NEG = {"+": "-", "-": "+", "0": "0", ">=": "<=", "<=": ">=", "?": "?"}


def _sign(t):
    if t.op == "num":
        v = t.args[0]
        return "0" if v == 0 else "+" if v > 0 else "-"
    if t.op == "atom":
        i = ATOMS[t.args[0]]
        if i.lb is not None:
            return "+" if i.lb > 0 else ">=" if i.lb == 0 else "?"
        return i.sign or "?"
    if t.op == "sel":
        return ARRAYS[t.args[0]].sign or "?"
    if t.op == "inf":
        return "+"
    if t.op == "fn":
        if t.args[0] == "exp":
            return "+"
        if t.args[0] == "sqrt":
            return ">="
        return "?"
    if t.op == "prod":
        s = "+"
        for u, e in t.args[0]:
            su = sign(u)
            if e.denominator != 1:
                su = "+" if su == "+" else ">="
            elif int(e) % 2 == 0:
                su = "+" if su in "+-" else "0" if su == "0" else ">="
            if e < 0 and su == ">=":
                su = "+"
            if e < 0 and su == "<=":
                su = "-"
            s = _mulsign(s, su)
        return s
    if t.op == "sum":
        const, items = t.args
        s = sign(num(const))
        for u, c in items:
            su = sign(u)
            if c < 0:
                su = _NEG[su]
            s = _addsign(s, su)
            if s == "?":
                return "?"
        return s
    if t.op == "ite":
        a, b = sign(t.args[1]), sign(t.args[2])
        if a == b:
            return a
        if {a, b} <= {"+", ">=", "0"}:
            return ">="
        if {a, b} <= {"-", "<=", "0"}:
            return "<="
        return "?"
    return "?"


def _mulsign(a, b):
    if "?" in (a, b):
        return "0" if "0" in (a, b) else "?"
    if "0" in (a, b):
        return "0"
    strict = a in "+-" and b in "+-"
    n = (a in ("-", "<=")) ^ (b in ("-", "<="))
    return ("-" if n else "+") if strict else ("<=" if n else ">=")


def _addsign(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    P, N = {"+", ">="}, {"-", "<="}
    if a in P and b in P:
        return "+" if "+" in (a, b) else ">="
    if a in N and b in N:
        return "-" if "-" in (a, b) else "<="
    return "?"


def bounds(t):
    """lower bound of a linear combination of bounded integer atoms, or None"""
    if t.op == "num":
        return t.args[0]
    if t.op == "atom":
        lb = ATOMS[t.args[0]].lb
        return None if lb is None else Fraction(lb)
    if t.op == "sum":
        tot = t.args[0]
        for u, c in t.args[1]:
            if c < 0:
                return None
            b = bounds(u)
            if b is None:
                return None
            tot += c * b
        return tot
    return None


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == "sum":
        return [u for u, _ in t.args[1]]
    if t.op == "prod":
        return [u for u, _ in t.args[0]]
    return [a for a in t.args if isinstance(a, T)]


def deps(t):
    """frozenset of leaf nodes (atoms, array elements, opaque leaves)"""
    if t._deps is None:
        if t.op == "atom":
            d = frozenset([t])
        elif t.op == "sel":
            d = frozenset([t]) | deps(t.args[1])
        else:
            d = frozenset()
            for c in children(t):
                d = d | deps(c)
            if t.op in ("opq", "bopq") and not children(t):
                d = frozenset([t])
            if t.op in ("all", "any"):
                d = (d - {IOTA}) | deps(t.args[1])
        t._deps = d
    return t._deps


def depends(t, leaf):
    return leaf in deps(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for c in children(t):
        yield from subterms(c, seen)


def contains_op(t, *ops):
    return any(s.op in ops for s in subterms(t))


def subst(t, m, memo=None):
    """replace nodes by nodes (keys and values are T)"""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op in ("num", "nan", "inf", "atom", "true", "false"):
            r = x
        elif op == "sum":
            r = add(num(x.args[0]), *[scale(c, go(u)) for u, c in x.args[1]])
        elif op == "prod":
            r = mul(*[power(go(u), e) for u, e in x.args[0]])
        elif op == "sel":
            r = sel(x.args[0], go(x.args[1]))
        elif op == "fn":
            r = fn(x.args[0], *[go(a) if isinstance(a, T) else a for a in x.args[1:]])
        elif op == "ite":
            c = go(x.args[0])
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                r = ite(c, go(x.args[1]), go(x.args[2]))
        elif op == "lt0":
            r = lt0(go(x.args[0]))
        elif op == "le0":
            r = le0(go(x.args[0]))
        elif op == "eq0":
            r = eq0(go(x.args[0]))
        elif op == "isnan":
            r = isnan(go(x.args[0]))
        elif op == "not":
            r = not_(go(x.args[0]))
        elif op == "and":
            r = and_(*[go(a) for a in x.args])
        elif op == "or":
            r = or_(*[go(a) for a in x.args])
        elif op in ("all", "any"):
            if IOTA in m:
                m2 = {k: v for k, v in m.items() if k is not IOTA}
                body = subst(x.args[0], m2) if m2 else x.args[0]
            else:
                body = go(x.args[0])
            r = (all_ if op == "all" else any_)(body, go(x.args[1]))
        elif op == "cat":
            r = cat(*[go(a) if isinstance(a, T) else a for a in x.args])
        else:
            r = _mk(op, *[go(a) if isinstance(a, T) else a for a in x.args])
        memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------- strings
def cat(*parts):
    """symbolic string: python strings and terms"""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "cat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "" or isinstance(q, T):
                out.append(q)
    if all(isinstance(p, str) for p in out):
        return _mk("cat", *out) if out else _mk("cat", "")
    return _mk("cat", *out)


def streq(a, b):
    """equality of two symbolic strings"""
    if a is b:
        return TRUE
    pa = a.args if a.op == "cat" else (a,)
    pb = b.args if b.op == "cat" else (b,)
    ca, cb = all(isinstance(x, str) for x in pa), all(isinstance(x, str) for x in pb)
    if ca and cb:
        return TRUE if "".join(pa) == "".join(pb) else FALSE
    for x, y, f in ((pa[0], pb[0], str.startswith), (pa[-1], pb[-1], str.endswith)):
        if isinstance(x, str) and isinstance(y, str) and not f(x, y) and not f(y, x):
            return FALSE
    return bopq("streq", *sorted([a, b], key=lambda t: t.id))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    op = t.op
    if op == "num":
        return str(t.args[0])
    if op == "atom":
        return t.args[0]
    if op == "sel":
        return "%s[%s]" % (t.args[0], s(t.args[1]))
    if op == "sum":
        parts = []
        if t.args[0]:
            parts.append(str(t.args[0]))
        for u, c in t.args[1]:
            parts.append(s(u) if c == 1 else "-" + s(u) if c == -1 else "%s*%s" % (c, s(u)))
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")"
    if op == "prod":
        return "*".join(s(u) if e == 1 else "%s**%s" % (s(u), e if e.denominator == 1 and e > 0 else "(%s)" % e) for u, e in t.args[0])
    if op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if op == "ite":
        return "(%s if %s else %s)" % (s(t.args[1]), s(t.args[0]), s(t.args[2]))
    if op == "lt0":
        return "%s < 0" % s(t.args[0])
    if op == "le0":
        return "%s <= 0" % s(t.args[0])
    if op == "eq0":
        return "%s == 0" % s(t.args[0])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(a) for a in t.args) + ")"
    if op == "not":
        return "not " + s(t.args[0])
    if op == "cat":
        return "'" + "".join(a if isinstance(a, str) else "{%s}" % s(a) for a in t.args) + "'"
    if op in ("opq", "bopq"):
        if len(t.args) == 1:
            return str(t.args[0])
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if not t.args:
        return op
    return "%s(%s)" % (op, ", ".join(s(a) for a in t.args))
