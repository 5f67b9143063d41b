"""Value of an extracted gate at critical points of its domain.

A gate is a boolean term over the time points of one row (or the number of
rows of the scenario table).  It is decided by evaluating the term - not the
code under analysis - at the boundary values of its domain."""
import datetime as dt
import math
from fractions import Fraction

from . import terms as tm
from .flow import ALLTIMES, AV, full_slice, is_float_dtype, lit, opn, split


class Unknown(Exception):
    pass


class Cross(Exception):
    """the gate reads something it must not"""


NAN = object()


def elementwise(f, a, b):
    def g(x, y):
        if x is NAN or y is NAN:
            return f is _ne
        try:
            return f(x, y)
        except TypeError:
            # days against durations
            x, y = dur(x), dur(y)
            return f(x, y)
    la, lb = isinstance(a, list), isinstance(b, list)
    if la and lb:
        if len(a) != len(b):
            raise Unknown("length mismatch")
        return [g(x, y) for x, y in zip(a, b)]
    if la:
        return [g(x, b) for x in a]
    if lb:
        return [g(a, y) for y in b]
    return g(a, b)


def dur(x):
    if isinstance(x, dt.timedelta):
        return x
    raise Unknown("comparison of %r" % (x,))


def _ne(x, y):
    return x != y


def add_months_free(x):
    return x


OPS = {
    "Eq": lambda x, y: x == y, "NotEq": _ne, "Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y,
    "GtE": lambda x, y: x >= y, "BitAnd": lambda x, y: bool(x) and bool(y), "BitOr": lambda x, y: bool(x) or bool(y),
    "BitXor": lambda x, y: bool(x) != bool(y), "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y,
    "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y, "FloorDiv": lambda x, y: x // y, "Mod": lambda x, y: x % y,
}
NP = {
    "equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE",
    "logical_and": "BitAnd", "logical_or": "BitOr", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "subtract": "Sub", "divide": "Div", "true_divide": "Div",
}
ONE_DAY = dt.timedelta(days=1)


class Sample:
    """full: all time points of the table row; missing: positions without data"""

    def __init__(self, full, missing=(), nrows=1, ):
        self.full, self.missing, self.nrows = full, set(missing), nrows
        self.nn = [t for k, t in enumerate(full) if k not in self.missing]


TIME_KEYS = ("year", "time", "month", "day", "time_points", "years", "months")


class Gate:
    def __init__(self, flow, sample, ivar=None, rows=None, env=None):
        self.flow, self.s, self.ivar = flow, sample, ivar
        self.rows = rows if rows is not None else sample.nrows if sample else 1
        self.env = env or {}
        self.memo = {}

    def leaf(self, av):
        k = av.kind
        if k == "axis":
            if self.ivar is not None and av.i is not self.ivar:
                raise Cross("time axis of another row: %s" % tm.show(av.i))
            ts = self.s.nn if av.nn else self.s.full
            return self.part(ts, av.what)
        if k == "tabcount":
            return Fraction(self.rows)
        if k == "tabshape":
            return self.rows == 0 if av.what == "empty" else [Fraction(self.rows), Fraction(len(self.s.full) if self.s else 7)] if av.what == "shape" else Fraction(self.rows * 7)
        if k == "timepoints":
            return ("timepoints", self.leaf(AV("axis", i=av.one.i, nn=av.one.nn, what="time")))
        if k in ("nnmask", "nanmask"):
            if self.ivar is not None and av.i is not self.ivar:
                raise Cross("another row: %s" % tm.show(av.i))
            return self.mask(av, k == "nanmask")
        if k == "rowsize":
            r = av.row
            return Fraction(len(self.s.nn if r.nn else self.s.full))
        if k == "top" and av.banned:
            raise Cross(av.why)
        raise Unknown(av.why if k == "top" else k)

    def part(self, ts, what):
        if what == "time":
            return list(ts)
        if what in ("year", "month", "day"):
            return [Fraction(getattr(t, what)) for t in ts]
        raise Unknown(what)

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        r = self.ev_(t)
        if tm.IOTA not in self.env or not tm.depends(t, tm.IOTA):
            self.memo[t] = r
        return r

    def ev_(self, t):
        op = t.op
        if op == "num":
            return t.args[0]
        if t is tm.TRUE or op == "true":
            return True
        if t is tm.FALSE or op == "false":
            return False
        if op == "sum":
            r = t.args[0]
            for u, c in t.args[1]:
                r = elementwise(lambda x, y: x + y, r, elementwise(lambda x, y: x * y, self.ev(u), c))
            return r
        if op == "prod":
            r = Fraction(1)
            for u, e in t.args[0]:
                x = self.ev(u)
                if isinstance(x, list) or e.denominator != 1:
                    if e != 1:
                        raise Unknown("power")
                    r = elementwise(lambda p, q: p * q, r, x)
                else:
                    r = r * Fraction(x) ** int(e)
            return r
        if op in ("lt0", "le0", "eq0"):
            x = self.ev(t.args[0])
            if isinstance(x, list):
                raise Unknown("array comparison")
            z = dt.timedelta(0) if isinstance(x, dt.timedelta) else 0
            return x < z if op == "lt0" else x <= z if op == "le0" else x == z
        if op == "and":
            return self.logic(t.args, False)
        if op == "or":
            return self.logic(t.args, True)
        if op == "not":
            return not self.ev(t.args[0])
        if op == "ite":
            return self.ev(t.args[1] if self.ev(t.args[0]) else t.args[2])
        if op in ("all", "any"):
            n = self.ev(t.args[1])
            keep = self.env
            try:
                for k in range(int(n)):
                    self.env = dict(keep)
                    self.env[tm.IOTA] = Fraction(k)
                    if bool(self.ev(t.args[0])) is (op == "any"):
                        return op == "any"
                return op == "all"
            finally:
                self.env = keep
        if op == "isnan":
            return self.ev(t.args[0]) is NAN
        if op == "fn":
            return self.call(t.args[0], t.args[1:], {})
        o = opn(t)
        if o is None:
            raise Unknown("node %s" % op)
        if o in ("len", "nrows"):
            av = self.flow.ab(t.args[1])
            if av.kind == "tab":
                return Fraction(self.rows)
            x = self.ev(t.args[1])
            if not isinstance(x, list):
                raise Unknown("len")
            return Fraction(len(x))
        if o == "truth":
            x = self.ev(t.args[1])
            if isinstance(x, list):
                if len(x) != 1:
                    raise Unknown("truth of an array")
                return bool(x[0])
            return bool(x)
        if o == "timedelta":
            d = self.ev(t.args[1])
            return dt.timedelta(days=0, seconds=float(d * 86400))
        if o in ("list", "tuple"):
            return [self.ev(a) for a in t.args[1:]]
        if o == "elem":
            x = self.ev(t.args[1])
            return x[int(self.ev(t.args[2]))]
        # data of the row or the table
        n = len(self.flow.blocked)
        av = self.flow.ab(t)
        new = self.flow.blocked[n:]
        if not new and av.kind == "choice":
            new = [av.cond]
        if not new and av.kind == "top":
            new = [c for c in self.conds(t) if self.known(c)]
        for c in new:
            u = tm.subst(t, {c: tm.TRUE if self.ev(c) else tm.FALSE})
            if u is not t:
                return self.ev(u)
        if av.kind in ("axis", "tabcount", "tabshape", "timepoints", "rowsize", "nnmask", "nanmask"):
            return self.leaf(av)
        if av.kind == "top" and av.banned and (av.why == ALLTIMES or self.reads_axis(t) is None):
            raise Cross(av.why)
        if o.startswith("m:"):
            pos, kw = split(t.args[2:])
            return self.method(o[2:], t.args[1], pos, kw)
        if o == "attr":
            return self.attr(t.args[1], t.args[2] if isinstance(t.args[2], str) else lit(t.args[2]))
        if o == "getitem":
            return self.getitem(t.args[1], t.args[2])
        if o in ("min", "max") and len(t.args) > 2:
            return (min if o == "min" else max)(self.ev(a) for a in t.args[1:])
        if o in ("set", "frozenset"):
            return frozenset(self.ev(a) for a in t.args[1:])
        if o.startswith("op:"):
            name = o[3:]
            a = self.ev(t.args[1])
            if name in ("Invert", "Not"):
                return [not x for x in a] if isinstance(a, list) else not a
            if name in ("USub",):
                return [-x for x in a] if isinstance(a, list) else -a
            if name not in OPS:
                raise Unknown(name)
            return elementwise(OPS[name], a, self.ev(t.args[2]))
        if o.startswith("fn:"):
            return self.call(o[3:], t.args[1:], {})
        if o.startswith("call:"):
            pos, kw = split(t.args[1:])
            return self.call(o[5:], pos, kw)
        raise Unknown(o)

    def conds(self, t):
        return [s.args[0] for s in tm.subterms(t) if s.op == "ite"]

    def known(self, c):
        try:
            self.ev(c)
            return True
        except (Unknown, Cross):
            return False

    def mask(self, av, inv):
        """which points of the row have data"""
        full = [k not in self.s.missing for k in range(len(self.s.full))]
        x = [True] * len(self.s.nn) if av.nn else full
        return [not v for v in x] if inv else x

    def reads_axis(self, t):
        for s in tm.subterms(t):
            if self.flow.ab(s).kind == "axis":
                return s
            o = opn(s)
            if o == "getitem" and lit(s.args[2]) in TIME_KEYS or o == "attr" and (s.args[2] if isinstance(s.args[2], str) else lit(s.args[2])) in TIME_KEYS:
                return s  # not understood, but named like one
        return None

    def logic(self, args, stop):
        err = None
        for a in args:
            try:
                if bool(self.ev(a)) is stop:
                    return stop
            except Unknown as e:
                err = e
        if err:
            raise err
        return not stop

    def method(self, name, recv, pos, kw):
        x = self.ev(recv)
        if isinstance(x, tuple) and x[0] == "timepoints":
            if name in ("years", "months"):
                return self.part(x[1], name[:-1])
            raise Unknown(name)
        if name in ("copy", "to_numpy", "tolist", "to_list", "to_series", "squeeze", "ravel", "reset_index", "sort_values", "flatten", "to_pydatetime"):
            if name == "sort_values" and isinstance(x, list):
                return sorted(x)
            return x
        if name == "astype":
            return self.astype(x, pos[0] if pos else kw.get("dtype"), opn(recv) in ("attr", "m:to_numpy"))
        if name in ("floor", "round", "ceil", "normalize") and pos and lit(pos[0]) in ("D", "d", "1D") and isinstance(x, list):
            return [v if v is NAN else self.day_round(v, name) for v in x]
        if isinstance(x, list):
            if name == "diff":
                n = int(self.ev(pos[0])) if pos else 1
                if n != 1:
                    raise Unknown("diff(%d)" % n)
                return [NAN] * (1 if x else 0) + [b - a for a, b in zip(x, x[1:])]
            if name == "dropna":
                return [v for v in x if v is not NAN]
            if name == "all":
                return all(v is NAN or bool(v) for v in x)
            if name == "any":
                return any(v is not NAN and bool(v) for v in x)
            y = [v for v in x if v is not NAN]
            if name in ("unique", "drop_duplicates") and not kw.get("keep"):
                out = []
                for v in x:
                    if v not in out:
                        out.append(v)
                return out
            if name == "nunique":
                return Fraction(len(set(y)))
            if name == "max":
                return max(y) if y else NAN
            if name == "min":
                return min(y) if y else NAN
            if name == "sum":
                return sum((Fraction(v) for v in y), Fraction(0))
            if name == "count":
                return Fraction(len(y))
            if name == "mean":
                return sum(y[1:], y[0]) / len(y) if y else NAN
            if name == "median":
                s = sorted(y)
                return s[len(s) // 2] if s else NAN
            if name in ("between",):
                lo, hi = self.ev(pos[0]), self.ev(pos[1])
                inc = lit(kw.get("inclusive", pos[2] if len(pos) > 2 else True))
                a = inc in (True, "both", "left")
                b = inc in (True, "both", "right")
                return [v is not NAN and (lo <= v if a else lo < v) and (v <= hi if b else v < hi) for v in x]
            if name in ("eq", "ne", "lt", "le", "gt", "ge"):
                f = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}[name]
                return elementwise(OPS[f], x, self.ev(pos[0]))
            if name == "isin":
                s = self.ev(pos[0])
                return [v in s for v in x]
            if name in ("isna", "isnull"):
                return [v is NAN for v in x]
            if name in ("notna", "notnull"):
                return [v is not NAN for v in x]
            if name == "shift" and not pos:
                return [NAN] + x[:-1]
            if name == "abs":
                return [v if v is NAN else abs(v) for v in x]
            if name == "total_seconds":
                return [v if v is NAN else Fraction(v.total_seconds()) for v in x]
        if name == "total_seconds" and isinstance(x, dt.timedelta):
            return Fraction(x.total_seconds())
        if name == "item":
            return x[0] if isinstance(x, list) else x
        raise Unknown("method %s" % name)

    def day_round(self, v, how):
        base = dt.timedelta(0) if isinstance(v, dt.timedelta) else dt.datetime(1, 1, 1)
        n = Fraction((v - base).total_seconds()) / 86400
        k = math.floor(n) if how == "floor" else math.ceil(n) if how == "ceil" else round(n)
        return base + dt.timedelta(days=k)

    def astype(self, x, to, numpy):
        """conversions of time differences: to days truncates, and pandas (not
        numpy) gives a plain number of days"""
        to = lit(to) if to is not None else None
        if not (isinstance(x, list) and any(isinstance(v, (dt.timedelta, dt.datetime)) for v in x)):
            return x
        kind = isinstance(next(v for v in x if v is not NAN), dt.timedelta)
        if isinstance(to, str) and to.endswith("[ns]") or to in ("object", "O"):
            return x
        if isinstance(to, str) and to in ("timedelta64[D]", "m8[D]", "datetime64[D]", "M8[D]") and kind == (to[0] in "tm"):
            d = [v if v is NAN else self.day_round(v, "floor") for v in x]
            return [v if v is NAN or numpy or not kind else Fraction(v.days) for v in d]
        raise Unknown("astype(%s) of times" % to)

    def attr(self, recv, name):
        x = self.ev(recv)
        if isinstance(x, tuple) and x[0] == "timepoints" and name == "values":
            return x[1]
        if name in ("values", "dt", "array", "iloc", "loc", "flat", "T"):
            return x
        if isinstance(x, list):
            if name in ("year", "month", "day"):
                return self.part(x, name)
            if name == "days":
                return [v if v is NAN else Fraction(v.days) for v in x]
            if name == "size":
                return Fraction(len(x))
            if name == "shape":
                return [Fraction(len(x))]
            if name == "empty":
                return not x
        if isinstance(x, dt.timedelta) and name == "days":
            return Fraction(x.days)
        raise Unknown("attribute %s" % name)

    def getitem(self, recv, key):
        x = self.ev(recv)
        if not isinstance(x, list):
            raise Unknown("item")
        if full_slice(key):
            return x
        if opn(key) == "slice":
            f = lambda a: None if lit(a) is None else int(self.ev(a))
            return x[slice(f(key.args[1]), f(key.args[2]), f(key.args[3]))]
        k = self.ev(key)
        if isinstance(k, list):
            return [v for v, m in zip(x, k) if m]
        return x[int(k)]

    def call(self, path, pos, kw):
        name = path.rpartition(".")[2]
        if name in NP and len(pos) == 2:
            return elementwise(OPS[NP[name]], self.ev(pos[0]), self.ev(pos[1]))
        x = [self.ev(a) for a in pos]
        if name in ("logical_and", "logical_or") and not x:
            raise Unknown(name)
        if name == "diff":
            return [b - a for a, b in zip(x[0], x[0][1:])]
        if name in ("ediff1d",):
            return [b - a for a, b in zip(x[0], x[0][1:])]
        if name in ("all", "alltrue"):
            return all(bool(v) for v in x[0])
        if name in ("any",):
            return any(bool(v) for v in x[0])
        if name in ("asarray", "array", "list", "tuple", "sorted", "Series", "DatetimeIndex", "to_datetime", "asanyarray", "cast"):
            return sorted(x[0]) if name == "sorted" else x[0]
        if name == "unique":
            return sorted(set(x[0]))
        if name in ("set", "frozenset"):
            return frozenset(x[0]) if x else frozenset()
        if name in ("max", "amax", "nanmax"):
            return max(x[0] if len(x) == 1 else x)
        if name in ("min", "amin", "nanmin"):
            return min(x[0] if len(x) == 1 else x)
        if name in ("len", "size"):
            return Fraction(len(x[0]))
        if name == "sum" or name == "count_nonzero":
            return sum((Fraction(bool(v)) if isinstance(v, bool) else v for v in x[0]), Fraction(0))
        if name == "mean":
            return sum(x[0][1:], x[0][0]) / len(x[0])
        if name == "abs":
            return [abs(v) for v in x[0]] if isinstance(x[0], list) else abs(x[0])
        if name in ("isin",):
            return [v in x[1] for v in x[0]]
        if name in ("logical_not", "invert"):
            return [not v for v in x[0]] if isinstance(x[0], list) else not x[0]
        if name in ("array_equal", "allclose"):
            a, b = x[0], x[1]
            if name == "allclose":
                return all(elementwise(OPS["Eq"], a, b)) if isinstance(elementwise(OPS["Eq"], a, b), list) else elementwise(OPS["Eq"], a, b)
            return a == b
        if name == "isnan":
            return [v is NAN for v in x[0]] if isinstance(x[0], list) else x[0] is NAN
        if name == "shape":
            return [Fraction(len(x[0]))]
        raise Unknown("call of %s" % path)


def complete_rows(flow, conds):
    """indices of the rows that have no missing value if all conditions hold:
    the conditions fail for every pattern of missing values"""
    rows = {s.args[2] for c in conds for s in tm.subterms(c) if opn(s) == "row" and isinstance(s.args[2], tm.T)}
    if len(rows) != 1:
        return ()
    t = [dt.datetime(2001 + k, 1, 1) for k in range(5)]
    for miss in ((0,), (2,), (4,), (0, 1), (3, 4), (0, 2, 4), (1, 2, 3), (0, 1, 2, 3)):
        g = Gate(flow, Sample(t, missing=miss))
        val = True
        for c in conds:
            try:
                val = val and bool(g.ev(c))
            except (Unknown, Cross, IndexError, TypeError):
                continue
        if val:
            return ()
    return tuple(rows)
