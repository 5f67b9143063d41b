"""Normal forms: equality of value-graph nodes.

Gated nodes are normalised by cofactoring on their gates; the gate-free parts
are canonical rational functions over Q (sympy's sparse fraction fields are the
arithmetic), in which ``exp`` terms are algebraic generators grouped by
commensurate arguments and square roots are reduced with ``s**2 = radicand``.
"""
from fractions import Fraction

from sympy import QQ
from sympy.polys.fields import field

from . import terms as tm
from .terms import T, sign

LARGE = 20  # nodes
MAX_CASES = 400


class Mismatch:
    """witness of inequality: the gate valuation and the two normal forms"""

    def __init__(self, case, a, b, note=""):
        self.case, self.a, self.b, self.note = case, a, b, note
        self.base = (a, b)

    def __bool__(self):
        return False

    @property
    def opaque(self):
        """an operation the library model does not know, on which the
        difference may rest (it may well be equal)"""
        def unk(t):
            return {s for s in tm.subterms(t) if unknown(s)} if isinstance(t, T) else set()

        a, b = unk(self.a), unk(self.b)
        d = a ^ b
        for c, _ in self.case:
            d |= unk(c)
        # what a loop computes is a value like any other when both sides have it
        both = {s.args[0] for s in unk(self.base[0])} & {s.args[0] for s in unk(self.base[1])}
        d = {s for s in d if not (s.args[0] in both and s.args[0].startswith("out:"))}
        for t in (self.a, self.b) + tuple(c for c, _ in self.case):
            if isinstance(t, T) and any(impure(s) for s in tm.subterms(t)):
                return None
        if not d:
            return None
        t = min(d, key=lambda x: x.id)
        return str(t.args[0])

    def __str__(self):
        s = "got %s, expected %s" % (clip(self.a), clip(self.b))
        if self.case:
            s += " when " + " and ".join(
                "%s" % (clip(c) if v else "not (%s)" % clip(c)) for c, v in self.case
            )
        return s + (" [%s]" % self.note if self.note else "")


KNOWN_CALLS = {
    "finfo",
    # not the identity, or not determined by their arguments
    "cumsum", "cumprod", "nansum", "nanmean", "nanmax", "nanmin", "nanprod", "sort", "flip", "roll", "convolve", "interp", "gradient", "round", "around", "float32", "float16", "half", "single",
    "int8", "int16", "int32", "int64", "rint", "floor", "ceil", "trunc", "sign", "sin", "cos", "tan", "tanh", "log1p", "log10", "log2", "power",
    "median", "average", "std", "var", "percentile", "quantile", "nancumsum", "nanmedian", "rot90", "flipud", "unwrap", "correlate", "arctan", "arcsin",
    "arccos", "sinh", "cosh", "exp2", "cbrt", "fix", "fmod", "heaviside", "nextafter", "spacing", "partition", "trim_zeros", "flatnonzero", "nonzero", "argwhere", "unique", "compress", "extract", "uint8", "uint16", "uint32", "uint64",
}
IMPURE_ROOTS = ("time.", "random.", "os.", "datetime.", "uuid.", "secrets.", "numpy.random", "threading.", "locale.", "platform.", "sys.", "socket.")
UNKNOWN = ("call:", "m:", "op:", "mut:", "ret:", "out:", "fn:")
UNKNOWN_EXACT = {"call", "attr", "getitem", "setitem", "getslice", "where", "trip", "nested", "next", "func", "guarded", "enter", "obj", "lib", "bound", "reduced", "matmul", "dict-merge"}


def unknown(t):
    """a node whose value the library model does not know"""
    if t.op not in ("opq", "bopq"):
        return False
    o = t.args[0]
    if o in UNKNOWN_EXACT:
        return True
    if o.startswith("call:"):
        path = o[5:]
        return not (path.startswith(IMPURE_ROOTS) or path.rpartition(".")[2] in KNOWN_CALLS)
    return o.startswith(UNKNOWN)


def has_unknown(t):
    return next((str(s.args[0]) for s in tm.subterms(t) if unknown(s)), None)


def impure(t):
    return t.op in ("opq", "bopq") and t.args[0].startswith("call:") and t.args[0][5:].startswith(IMPURE_ROOTS)


def clip(t, n=300):
    s = str(t)
    return s if len(s) <= n else s[:n] + "..."


def gates(t):
    """gate conditions in t, innermost first (conditions without gates inside)"""
    out = []
    for s in tm.subterms(t):
        if s.op == "ite":
            out.append(s.args[0])
        elif s.op in ("lt0", "le0", "eq0", "isnan") and False:
            out.append(s)
    return out


def atoms_of_cond(c):
    if c.op in ("and", "or", "not"):
        r = []
        for a in c.args:
            r += atoms_of_cond(a)
        return r
    return [c]


def assume(terms, c, val, subs=()):
    """substitute the truth value of atomic condition c in terms"""
    m = {c: tm.TRUE if val else tm.FALSE}
    n = tm.not_(c)
    if n is not c and n.op != "not":
        m[n] = tm.FALSE if val else tm.TRUE
    out = [tm.subst(t, m) for t in terms]
    if val and c.op == "eq0":
        r = solve(c.args[0])
        if r is not None:
            out = [tm.subst(t, {r[0]: r[1]}) for t in out]
    return out


def solve(t):
    """t == 0 solved for one leaf occurring linearly with a constant or positive
    coefficient: (leaf, value) or None"""
    if t.op in ("atom", "sel"):
        return t, tm.ZERO
    if t.op == "sum":
        const, items = t.args
        for u, c in items:
            if u.op in ("atom", "sel"):
                rest = tm.sub(t, tm.scale(c, u))
                if u not in tm.deps(rest):
                    return u, tm.scale(Fraction(-1) / c, rest)
        for u, c in items:
            if u.op == "prod":
                for v, e in u.args[0]:
                    if v.op in ("atom", "sel") and e == 1:
                        co = tm.div(u, v)
                        rest = tm.sub(t, tm.scale(c, u))
                        if sign(co) in "+-" and v not in tm.deps(rest) and v not in tm.deps(co):
                            return v, tm.div(tm.scale(Fraction(-1) / c, rest), co)
    return None


def entails(facts, c):
    """TRUE/FALSE if the facts decide c, else c itself (simplified)"""
    if c.op in ("true", "false"):
        return c
    if c in facts:
        return tm.TRUE
    n = tm.not_(c)
    if n in facts:
        return tm.FALSE
    if c.op == "and":
        return tm.and_(*[entails(facts, x) for x in c.args])
    if c.op == "or":
        return tm.or_(*[entails(facts, x) for x in c.args])
    if c.op == "not":
        r = entails(facts, c.args[0])
        return tm.not_(r)
    for f in facts:
        if f.op == "and":
            if c in f.args:
                return tm.TRUE
            if n in f.args:
                return tm.FALSE
    if c.op in ("lt0", "le0", "eq0"):
        t = c.args[0]
        for f in facts:
            if f.op in ("lt0", "le0", "eq0"):
                for sgn in (1, -1):
                    # f: g<0 / g<=0 / g==0 ; t = sgn*g + d
                    d = tm.sub(t, tm.scale(sgn, f.args[0]))
                    if not tm.is_num(d):
                        continue
                    d = d.args[0]
                    r = _rel(f.op, sgn, d, c.op)
                    if r is not None:
                        return tm.TRUE if r else tm.FALSE
    return c


def _rel(fop, sgn, d, cop):
    """interval of t given sgn*g+d and fact on g; decide t cop"""
    lo = hi = None
    lo_s = hi_s = False
    if fop == "eq0":
        lo = hi = d
    elif sgn == 1:
        hi, hi_s = d, fop == "lt0"
    else:
        lo, lo_s = d, fop == "lt0"
    if cop == "lt0":
        if hi is not None and (hi < 0 or (hi == 0 and hi_s)):
            return True
        if lo is not None and lo >= 0:
            return False
    elif cop == "le0":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and (lo > 0 or (lo == 0 and lo_s)):
            return False
    else:
        if lo is not None and (lo > 0 or (lo == 0 and lo_s)):
            return False
        if hi is not None and (hi < 0 or (hi == 0 and hi_s)):
            return False
        if lo == hi == 0:
            return True
    return None


def equal(a, b, facts=()):
    """True, or a falsy Mismatch"""
    counter = [0]
    r = _equal(a, b, tuple(facts), (), counter)
    if isinstance(r, Mismatch):
        r.base = (a, b)
    return r


def _equal(a, b, facts, case, counter):
    if a is b:
        return True
    counter[0] += 1
    if counter[0] > MAX_CASES:
        return Mismatch(case, a, b, "too many gates")
    cs = []
    for t in (a, b):
        for g in gates(t):
            for c in atoms_of_cond(g):
                if not tm.contains_op(c, "ite"):
                    cs.append(c)
    if cs:
        c = min(cs, key=lambda x: x.id)
        r = entails(facts, c)
        vals = (True, False)
        if r is tm.TRUE:
            vals = (True,)
        elif r is tm.FALSE:
            vals = (False,)
        elif c.op in ("lt0", "le0", "eq0"):
            nc = canon_cond(c)
            if nc is tm.TRUE:
                vals = (True,)
            elif nc is tm.FALSE:
                vals = (False,)
        for v in vals:
            f2 = facts + ((c if v else tm.not_(c)),)
            a2, b2 = assume((a, b), c, v)
            if v and c.op == "eq0":
                f2 = tuple(x for x in assume(f2, c, True) if x is not tm.TRUE) + (c,)
                if any(x is tm.FALSE for x in f2):
                    continue
            r = _equal(a2, b2, f2, case + ((c, v),), counter)
            if not r:
                return r
        return True
    if tm.is_bool(a) or tm.is_bool(b):
        return cond_equal(a, b, facts, case)
    if a.op in ("nan", "inf") or b.op in ("nan", "inf"):
        return Mismatch(case, a, b)
    if refuted(a, b):
        return Mismatch(case, a, b)
    try:
        r = Rational([a, b])
    except ZeroDivisionError:
        return Mismatch(case, a, b, "division by zero")
    if r.same(0, 1):
        return True
    return Mismatch(case, a, b)


def refuted(a, b):
    """are two large nodes different rational functions? (their values at one
    generic point, 80 digits: no common factor need be found to tell apart what
    differs there; agreement decides nothing)"""
    seen = {}

    def size(t):
        if t in seen or len(seen) > LARGE:
            return
        seen[t] = None
        if t.op == "sum":
            for u, _ in t.args[1]:
                size(u)
        elif t.op == "prod":
            for u, _ in t.args[0]:
                size(u)
        elif t.op == "fn":
            for u in t.args[1:]:
                if isinstance(u, T):
                    size(u)

    size(a)
    size(b)
    if len(seen) <= LARGE:
        return False
    import mpmath
    import random

    with mpmath.workdps(80):
        rnd = random.Random(7)
        vals = {}

        def ev(t):
            if t in vals:
                return vals[t]
            if t.op == "num":
                r = mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
            elif t.op == "sum":
                r = mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
                for u, c in t.args[1]:
                    r += ev(u) * c.numerator / c.denominator
            elif t.op == "prod":
                r = mpmath.mpf(1)
                for u, e in t.args[0]:
                    v = ev(u)
                    if abs(v) < mpmath.mpf(10) ** -40 or e.denominator != 1 and v < 0:
                        raise ArithmeticError
                    r *= v ** (int(e) if e.denominator == 1 else mpmath.mpf(e.numerator) / e.denominator)
            elif t.op == "fn" and t.args[0] == "exp":
                v = ev(t.args[1])
                if abs(v) > 200:
                    raise ArithmeticError
                r = mpmath.exp(v)
            elif t.op in ("atom", "opq", "sel", "cat") and not tm.is_bool(t):
                r = mpmath.mpf(rnd.randrange(500, 2000)) / 1009
            else:
                raise ArithmeticError
            vals[t] = r
            return r

        for _ in range(3):
            vals.clear()
            try:
                if abs(ev(a) - ev(b)) > mpmath.mpf(10) ** -35:
                    return True
            except ArithmeticError:
                continue
    return False


def cond_equal(a, b, facts=(), case=()):
    """equality of two boolean nodes (canonical atoms, then truth table)"""
    a, b = canon_cond(a), canon_cond(b)
    if a is b:
        return True
    ats = []
    for t in (a, b):
        for c in atoms_of_cond(t):
            if c not in ats and c.op not in ("true", "false"):
                ats.append(c)
    if len(ats) > 8:
        return Mismatch(case, a, b, "too many conditions")

    def go(i, m, known):
        if i == len(ats):
            x, y = tm.subst(a, m), tm.subst(b, m)
            return x is y
        c = ats[i]
        r = entails(known, c)
        vals = (True,) if r is tm.TRUE else (False,) if r is tm.FALSE else (True, False)
        for v in vals:
            m2 = dict(m)
            m2[c] = tm.TRUE if v else tm.FALSE
            n = tm.not_(c)
            if n.op != "not":
                m2[n] = tm.FALSE if v else tm.TRUE
            if not go(i + 1, m2, known + ((c if v else n),)):
                return False
        return True

    if go(0, {}, tuple(facts)):
        return True
    return Mismatch(case, a, b)


def implies(a, b, facts=()):
    return bool(cond_equal(tm.or_(tm.not_(a), b), tm.TRUE, facts))


_CC = {}


def canon_cond(c):
    """canonical form of a boolean node: comparisons by normal form"""
    r = _CC.get(c)
    if r is not None:
        return r
    if c.op in ("and", "or"):
        r = (tm.and_ if c.op == "and" else tm.or_)(*[canon_cond(x) for x in c.args])
    elif c.op == "not":
        r = tm.not_(canon_cond(c.args[0]))
    elif c.op in ("all", "any"):
        r = (tm.all_ if c.op == "all" else tm.any_)(canon_cond(c.args[0]), c.args[1])
    elif c.op in ("lt0", "le0", "eq0") and not tm.contains_op(c.args[0], "ite", "inf"):
        try:
            r = _canon_cmp(c.op, c.args[0])
        except ZeroDivisionError:
            r = c
    elif c.op in ("lt0", "le0", "eq0") and c.args[0].op == "ite":
        x = c.args[0]
        f = {"lt0": tm.lt0, "le0": tm.le0, "eq0": tm.eq0}[c.op]
        g = canon_cond(x.args[0])
        r = tm.or_(tm.and_(g, canon_cond(f(x.args[1]))), tm.and_(tm.not_(g), canon_cond(f(x.args[2]))))
    else:
        r = c
    _CC[c] = r
    return r


def _canon_cmp(op, t):
    r = Rational([t])
    fs = r.factors(0)  # (coef, [(term, exp)])
    if fs is None:
        return tm._mk(op, t)
    coef, fac = fs
    if coef == 0:
        return {"lt0": tm.FALSE, "le0": tm.TRUE, "eq0": tm.TRUE}[op]
    out = []
    for p, e in fac:
        s = r.poly_sign(p)
        if s == "+":
            continue
        if s == "-":
            if e % 2:
                coef = -coef
            continue
        out.append((p, e))
    if op == "eq0":
        res = tm.FALSE
        for p, e in out:
            if e > 0:
                res = tm.or_(res, _atom_eq(r.poly_term(p)))
        return res
    x = tm.ONE
    for p, e in out:
        e = 1 if e % 2 else 2
        x = tm.mul(x, tm.power(r.poly_term(p), e))
    x = tm.scale(1 if coef > 0 else -1, x)
    return (tm.lt0 if op == "lt0" else tm.le0)(x)


def _atom_eq(t):
    return tm.eq0(t)


class _MoreAbs(Exception):
    """more absolute values turned up than generators were set aside for"""


class Rational:
    """a common fraction field for a list of gate-free numeric terms"""

    def __init__(self, ts):
        self.leaves = []  # generator terms
        self.index = {}
        self.sqrt_leaves = []
        self.expcls = []  # (representative arg, gen index)
        self.expval = {}
        self.fncls = []
        for t in ts:
            self._collect(t)
        self.sqrt_leaves.sort(key=lambda t: t.id)
        self.nleaf = len(self.leaves)
        nabs = 2 * len(self.sqrt_leaves) + 1
        while True:
            try:
                self._build(ts, nabs)
                return
            except _MoreAbs:
                nabs = 2 * nabs + 2

    def _build(self, ts, nabs):
        names = ["x%d" % i for i in range(self.nleaf)]
        snames = ["s%d" % i for i in range(len(self.sqrt_leaves))]
        anames = ["a%d" % i for i in range(nabs)]
        self.nabs = nabs
        res = field(names + snames + anames, QQ) if (names + snames) else field(["x"], QQ)
        self.K = res[0]
        self.g = res[1:]
        self.ring = self.K.ring
        self.relations = {}  # s index -> radicand polynomial
        self.abscls = []  # (poly, a index)
        self.sq = {}
        self.memo = {}
        self.vals = [self._conv(t) for t in ts]

    # -- collection
    def _gen(self, t):
        if t not in self.index:
            self.index[t] = len(self.leaves)
            self.leaves.append(t)
        return self.index[t]

    def _collect(self, t, seen=None):
        seen = seen if seen is not None else getattr(self, "_seen", None)
        if seen is None:
            seen = self._seen = set()
        if t in seen:
            return
        seen.add(t)
        if t.op in ("atom", "opq", "nan", "inf", "ite", "cat") or tm.is_bool(t):
            self._gen(t)
        elif t.op == "sel":
            self._gen(t)
        elif t.op == "fn":
            if t.args[0] == "exp":
                self._collect_exp(t)
            else:
                self._collect_fn(t)
        elif t.op == "prod":
            for u, e in t.args[0]:
                if e.denominator == 1:
                    self._collect(u)
                elif e.denominator == 2:
                    self._collect(u)
                    s = tm.power(u, Fraction(1, 2))
                    if s not in self.sqrt_leaves:
                        self.sqrt_leaves.append(s)
                else:
                    self._collect_fn(tm._mk("fn", "pow", u, tm.num(e)))
        elif t.op == "sum":
            for u, _ in t.args[1]:
                self._collect(u)

    def _collect_exp(self, t):
        arg = t.args[1]
        for rep, gi in self.expcls:
            q = ratio(arg, rep)
            if q is not None:
                if q.denominator == 1:
                    self.expval[t] = (gi, int(q))
                    return
        # keep a positive-leading representative
        q = ratio(arg, tm.neg(arg))
        gi = self._gen(tm._mk("fn", "exp", arg))
        self.expcls.append((arg, gi))
        self.expval[t] = (gi, 1)

    def _collect_fn(self, t):
        for rep, gi in self.fncls:
            if rep.args[0] == t.args[0] and len(rep.args) == len(t.args):
                if all(
                    (x is y) or (isinstance(x, T) and isinstance(y, T) and bool(equal(x, y)))
                    for x, y in zip(rep.args[1:], t.args[1:])
                ):
                    self.index[t] = gi
                    return
        gi = self._gen(t)
        self.fncls.append((t, gi))

    # -- conversion
    def _conv(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        K = self.K
        if t.op == "num":
            r = K(QQ(t.args[0].numerator, t.args[0].denominator))
        elif t.op == "sum":
            r = K(QQ(t.args[0].numerator, t.args[0].denominator))
            for u, c in t.args[1]:
                r = r + self._conv(u) * QQ(c.numerator, c.denominator)
        elif t.op == "prod":
            r = K(1)
            for u, e in t.args[0]:
                if e.denominator == 1:
                    b = self._conv(u)
                    r = r * self._pw(b, int(e))
                elif e.denominator == 2:
                    r = r * self._pw(self._sqrt(u), e.numerator)
                else:
                    r = r * self.g[self.index[tm._mk("fn", "pow", u, tm.num(e))]]
        elif t.op == "fn" and t.args[0] == "exp":
            gi, n = self.expval[t]
            r = self._pw(self.g[gi], n)
        else:
            r = self.g[self.index[t]]
        r = self._reduce(r)
        self.memo[t] = r
        return r

    @staticmethod
    def _pw(b, n):
        if n >= 0:
            return b**n
        if b == 0:
            raise ZeroDivisionError
        return b ** n

    def _sqrt(self, u):
        if u in self.sq:
            return self.sq[u]
        v = self._conv(u)
        P = v.numer * v.denom
        c, fac = P.factor_list()
        c = Fraction(int(c.numerator), int(c.denominator))
        root = self.K(1)
        rest = self.ring(1)
        for p, e in fac:
            if e // 2:
                root = root * self.K(self._abs(p)) ** (e // 2)
            if e % 2:
                rest = rest * p
        rc = tm._frac_root(c, 2) if c >= 0 else None
        if rc is None:
            # fold numerator*denominator so that the coefficient is an integer
            rest = rest * QQ(c.numerator, c.denominator)
        else:
            root = root * QQ(rc.numerator, rc.denominator)
        if rest == 1:
            r = root
        else:
            si = None
            for i, rad in self.relations.items():
                if rad == rest:
                    si = i
            if si is None:
                si = self.nleaf + len(self.relations)
                self.relations[si] = rest
            r = root * self.g[si]
        r = r / self.K(self._abs(v.denom))
        self.sq[u] = r
        return r

    def poly_sign(self, p):
        """sign of a polynomial from the signs of its generators"""
        pos = neg = False
        strict = False
        for mon, c in p.terms():
            s = "+"
            for i, e in enumerate(mon):
                if e:
                    si = self._gsign(i)
                    if e % 2 == 0:
                        si = "+" if si in ("+", "-") else ">="
                    s = tm._mulsign(s, si)
            if c < 0:
                s = tm._NEG[s]
            if s in ("+", ">="):
                pos = True
                strict |= s == "+"
            elif s in ("-", "<="):
                neg = True
                strict |= s == "-"
            elif s == "?":
                return "?"
        if pos and neg:
            return "?"
        if pos:
            return "+" if strict else ">="
        if neg:
            return "-" if strict else "<="
        return "0"

    def _gsign(self, i):
        if i < self.nleaf:
            return sign(self.leaves[i])
        if i in self.relations:
            return "+" if self.poly_sign(self.relations[i]) == "+" else ">="
        return ">="  # absolute values

    def _abs(self, p):
        s = self.poly_sign(p)
        if s in ("+", ">="):
            return p
        if s in ("-", "<="):
            return -p
        for q, i in self.abscls:
            if q == p or q == -p:
                return self.g[i].numer
        if len(self.abscls) >= self.nabs:
            raise _MoreAbs
        i = self.nleaf + len(self.sqrt_leaves) + len(self.abscls)
        self.abscls.append((p, i))
        return self.g[i].numer

    def _reduce_poly(self, p):
        for i, rad in self.relations.items():
            if all(m[i] < 2 for m in p.itermonoms()):
                continue
            out = self.ring(0)
            for mon, c in p.terms():
                e = mon[i]
                m2 = list(mon)
                m2[i] = e % 2
                out = out + self.ring({tuple(m2): c}) * rad ** (e // 2)
            p = out
        return p

    def _reduce(self, v):
        if not self.relations:
            return v
        n, d = self._reduce_poly(v.numer), self._reduce_poly(v.denom)
        # rationalise denominators in the square roots
        for i in self.relations:
            if any(m[i] for m in d.itermonoms()):
                conj = self.ring({tuple(m): (-c if m[i] % 2 else c) for m, c in d.terms()})
                n, d = self._reduce_poly(n * conj), self._reduce_poly(d * conj)
        if d == 0:
            raise ZeroDivisionError
        return self.K(n) / self.K(d)

    def same(self, i, j):
        a, b = self.vals[i], self.vals[j]
        if a == b:
            return True
        d = self._reduce_poly(a.numer * b.denom - b.numer * a.denom)
        return d == 0

    def gens_of(self, i):
        v = self._reduce(self.vals[i])
        used = set()
        for p in (v.numer, v.denom):
            for m in p.itermonoms():
                used |= {k for k, e in enumerate(m) if e}
        out = set()
        for k in used:
            if k < self.nleaf:
                out.add(self.leaves[k])
            elif k in self.relations:
                for m in self.relations[k].itermonoms():
                    out |= {self.leaves[j] for j, e in enumerate(m) if e and j < self.nleaf}
            else:
                for p, a in self.abscls:
                    if a == k:
                        for m in p.itermonoms():
                            out |= {self.leaves[j] for j, e in enumerate(m) if e and j < self.nleaf}
        return out

    def factors(self, i):
        v = self._reduce(self.vals[i])
        if v == 0:
            return Fraction(0), []
        coef = Fraction(1)
        out = []
        for p, sg in ((v.numer, 1), (v.denom, -1)):
            c, fac = p.factor_list()
            c = Fraction(int(c.numerator), int(c.denominator))
            coef *= c if sg > 0 else 1 / c
            out += [(q, sg * e) for q, e in fac]
        return coef, out

    def poly_term(self, p):
        tot = []
        # normalise leading coefficient
        for mon, c in p.terms():
            fs = []
            for i, e in enumerate(mon):
                if not e:
                    continue
                if i < self.nleaf:
                    fs.append(tm.power(self.leaves[i], e))
                elif i in self.relations:
                    fs.append(tm.power(tm.power(self.poly_term(self.relations[i]), Fraction(1, 2)), e))
                else:
                    for q, a in self.abscls:
                        if a == i:
                            fs.append(tm.power(tm._mk("fn", "abs", self.poly_term(q)), e))
            tot.append(tm.scale(Fraction(int(c.numerator), int(c.denominator)), tm.mul(*fs)))
        return tm.add(*tot)


def ratio(a, b):
    """the constant a/b as a Fraction if it is one, else None"""
    if a is b:
        return Fraction(1)
    try:
        r = Rational([a, b])
        if r.vals[1] == 0:
            return None
        q = r._reduce(r.vals[0] / r.vals[1])
    except ZeroDivisionError:
        return None
    if q.numer.is_ground and q.denom.is_ground:
        if q.numer == 0:
            return Fraction(0)
        n, d = q.numer.coeff(1), q.denom.coeff(1)
        f = Fraction(int(n.numerator), int(n.denominator)) / Fraction(int(d.numerator), int(d.denominator))
        return f
    return None


def true_deps(t, facts=()):
    """leaves surviving in the normal form of t (over all gate valuations)"""
    cs = [c for g in gates(t) for c in atoms_of_cond(g) if not tm.contains_op(c, "ite")]
    if cs:
        c = min(cs, key=lambda x: x.id)
        r = entails(tuple(facts), c)
        if r is tm.TRUE:
            return true_deps(assume((t,), c, True)[0], facts)
        if r is tm.FALSE:
            return true_deps(assume((t,), c, False)[0], facts)
        (a,), (b,) = assume((t,), c, True), assume((t,), c, False)
        if equal(a, b):
            return true_deps(b, facts)
        return true_deps(a, facts) | true_deps(b, facts) | set(tm.deps(c))
    if tm.is_bool(t):
        return set(tm.deps(canon_cond(t)))
    if t.op in ("nan", "inf"):
        return set()
    try:
        r = Rational([t])
    except ZeroDivisionError:
        return set(tm.deps(t))
    out = set()
    for g in r.gens_of(0):
        if g.op == "fn":
            for a in g.args[1:]:
                if isinstance(a, T):
                    out |= true_deps(a, facts)
        elif g.op == "sel":
            out.add(g)
        else:
            out |= set(tm.deps(g))
    return out
