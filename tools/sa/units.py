"""Units: conversion factor to SI (a node) and dimension vector."""
import ast
from fractions import Fraction

from . import terms as tm

D = {"m": "[length]", "s": "[time]", "kg": "[mass]", "K": "[temperature]", "A": "[current]", "mol": "[substance]", "cd": "[luminosity]"}


LABELS = {}  # text of an arbitrary unit -> (factor, dims)


class Unit:
    """factor: node; dims: tuple of sorted (name, Fraction) or ('dyn', node);
    label: node (what str() of the unit says); offset: non-multiplicative"""

    __slots__ = ("factor", "dims", "label", "offset")

    def __init__(self, factor, dims, label, offset=False):
        self.factor, self.dims, self.label, self.offset = factor, dims, label, offset
        if getattr(label, "op", None) == "opq" and str(label.args[0]).startswith("userunit:"):
            LABELS[label] = (factor, dims)

    def __eq__(self, o):
        return (
            isinstance(o, Unit)
            and o.factor is self.factor
            and o.dims == self.dims
            and o.label is self.label
        )

    def __hash__(self):
        return hash((self.factor, self.dims))

    def __repr__(self):
        return "%s" % (self.label,)

    @property
    def dyn(self):
        return bool(self.dims) and self.dims[0] == "dyn"


def mkdims(d):
    return tuple(sorted((k, Fraction(v)) for k, v in d.items() if v != 0))


def dims_mul(a, b, sb=1):
    if a and a[0] == "dyn" or b and b[0] == "dyn":
        return ("dyn", tm.opq("dims*", dims_node(a), dims_node(b), sb))
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + sb * v
    return mkdims(d)


def dims_node(d):
    if d and d[0] == "dyn":
        return d[1]
    return tm.opq("dims", str(d))


def dims_pow(a, e):
    if a and a[0] == "dyn":
        return ("dyn", tm.opq("dims^", a[1], str(e)))
    return mkdims({k: v * e for k, v in a})


def same_dims(a, b):
    """TRUE, FALSE or an opaque condition"""
    if a == b:
        return tm.TRUE
    if (a and a[0] == "dyn") or (b and b[0] == "dyn"):
        return tm.bopq("same_dims", dims_node(a), dims_node(b))
    return tm.FALSE


PREFIX = {
    "yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12, "giga": 9, "mega": 6,
    "kilo": 3, "hecto": 2, "deca": 1, "deka": 1, "deci": -1, "centi": -2, "milli": -3,
    "micro": -6, "nano": -9, "pico": -12, "femto": -15,
}
SHORT = {
    "Y": 24, "Z": 21, "E": 18, "P": 15, "T": 12, "G": 9, "M": 6, "k": 3, "h": 2, "da": 1,
    "d": -1, "c": -2, "m": -3, "u": -6, "µ": -6, "n": -9, "p": -12, "f": -15,
}


def _d(**kw):
    return mkdims({D[k]: v for k, v in kw.items()})


YEAR = Fraction(31557600)
BASE = {
    "dimensionless": (1, ()),
    "percent": (Fraction(1, 100), ()),
    "radian": (1, ()), "count": (1, ()), "ppm": (Fraction(1, 10**6), ()),
    "meter": (1, _d(m=1)), "metre": (1, _d(m=1)), "m": (1, _d(m=1)),
    "second": (1, _d(s=1)), "s": (1, _d(s=1)), "sec": (1, _d(s=1)),
    "minute": (60, _d(s=1)), "min": (60, _d(s=1)),
    "hour": (3600, _d(s=1)), "h": (3600, _d(s=1)), "hr": (3600, _d(s=1)),
    "day": (86400, _d(s=1)), "d": (86400, _d(s=1)),
    "week": (604800, _d(s=1)),
    "fortnight": (1209600, _d(s=1)),
    "year": (YEAR, _d(s=1)), "yr": (YEAR, _d(s=1)), "a": (YEAR, _d(s=1)), "julian_year": (YEAR, _d(s=1)),
    "annum": (YEAR, _d(s=1)),
    "month": (YEAR / 12, _d(s=1)),
    "decade": (YEAR * 10, _d(s=1)), "century": (YEAR * 100, _d(s=1)),
    "gram": (Fraction(1, 1000), _d(kg=1)), "g": (Fraction(1, 1000), _d(kg=1)),
    "tonne": (1000, _d(kg=1)), "t": (1000, _d(kg=1)), "metric_ton": (1000, _d(kg=1)),
    "kelvin": (1, _d(K=1)), "K": (1, _d(K=1)), "degK": (1, _d(K=1)),
    "delta_degree_Celsius": (1, _d(K=1)), "delta_degC": (1, _d(K=1)),
    "delta_celsius": (1, _d(K=1)), "delta_degree_celsius": (1, _d(K=1)),
    "delta_degree_Fahrenheit": (Fraction(5, 9), _d(K=1)), "delta_degF": (Fraction(5, 9), _d(K=1)),
    "degree_Celsius": ("offset", _d(K=1)), "degC": ("offset", _d(K=1)), "celsius": ("offset", _d(K=1)), "C": ("offset", _d(K=1)),
    "joule": (1, _d(kg=1, m=2, s=-2)), "J": (1, _d(kg=1, m=2, s=-2)),
    "watt": (1, _d(kg=1, m=2, s=-3)), "W": (1, _d(kg=1, m=2, s=-3)),
    "newton": (1, _d(kg=1, m=1, s=-2)), "N": (1, _d(kg=1, m=1, s=-2)),
    "pascal": (1, _d(kg=1, m=-1, s=-2)), "Pa": (1, _d(kg=1, m=-1, s=-2)),
    "hertz": (1, _d(s=-1)), "Hz": (1, _d(s=-1)),
    "mole": (1, _d(mol=1)), "mol": (1, _d(mol=1)),
    "ampere": (1, _d(A=1)), "A": (1, _d(A=1)),
    "candela": (1, _d(cd=1)), "cd": (1, _d(cd=1)),
    "liter": (Fraction(1, 1000), _d(m=3)), "litre": (Fraction(1, 1000), _d(m=3)), "l": (Fraction(1, 1000), _d(m=3)),
    "calorie": (Fraction("4.184"), _d(kg=1, m=2, s=-2)), "cal": (Fraction("4.184"), _d(kg=1, m=2, s=-2)),
}
LONGNAMES = {n for n in BASE if len(n) > 3} | {"yr"}
CANON = {
    "m": "meter", "metre": "meter", "s": "second", "sec": "second", "min": "minute", "h": "hour", "hr": "hour",
    "d": "day", "yr": "year", "a": "year", "julian_year": "year", "annum": "year", "g": "gram", "t": "metric_ton",
    "tonne": "metric_ton", "K": "kelvin", "degK": "kelvin", "delta_degC": "delta_degree_Celsius",
    "delta_celsius": "delta_degree_Celsius", "delta_degree_celsius": "delta_degree_Celsius",
    "J": "joule", "W": "watt", "N": "newton", "Pa": "pascal", "Hz": "hertz", "mol": "mole", "A": "ampere",
    "cd": "candela", "litre": "liter", "l": "liter", "cal": "calorie",
}


class UnknownUnit(Exception):
    pass


def lookup(name):
    """(factor Fraction or 'offset', dims, canonical name)"""
    if name in BASE:
        f, d = BASE[name]
        return f, d, CANON.get(name, name)
    if name.endswith("s") and len(name) > 3 and name[:-1] in BASE:
        return lookup(name[:-1])
    for p, e in PREFIX.items():
        if name.startswith(p):
            rest = name[len(p):]
            r = rest[:-1] if rest.endswith("s") and rest[:-1] in BASE else rest
            if r in BASE and BASE[r][0] != "offset":
                f, d = BASE[r]
                return Fraction(10) ** e * f, d, p + CANON.get(r, r)
    for p, e in sorted(SHORT.items(), key=lambda x: -len(x[0])):
        if name.startswith(p) and name[len(p):] in BASE:
            r = name[len(p):]
            f, d = BASE[r]
            if f != "offset":
                return Fraction(10) ** e * f, d, name
    raise UnknownUnit(name)


def parse(text):
    """(numeric value, Unit) of a unit/quantity expression such as '3 W/m^2'"""
    src = text.strip().replace("^", "**")
    if not src:
        return tm.ONE, DIMLESS
    import re

    src = re.sub(r"(?<=[\w)])\s+(?=[A-Za-z_(])", "*", src)
    try:
        tree = ast.parse(src, mode="eval").body
    except SyntaxError:
        raise UnknownUnit(text)
    val, f, dims, off, names = _ev(tree)
    return tm.num(val), Unit(tm.num(f), dims, tm.cat(_label(names, text)), off)


def _label(names, text):
    up = [(n, e) for n, e in names.items() if e > 0]
    dn = [(n, e) for n, e in names.items() if e < 0]

    def one(n, e):
        e = abs(e)
        return n if e == 1 else "%s ** %s" % (n, e if e.denominator != 1 else int(e))

    if not up and not dn:
        return "dimensionless"
    s = " * ".join(one(n, e) for n, e in sorted(up)) or "1"
    for n, e in sorted(dn):
        s += " / " + one(n, e)
    return s


def _ev(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return Fraction(repr(n.value)), Fraction(1), (), False, {}
    if isinstance(n, ast.Name):
        f, d, canon = lookup(n.id)
        if f == "offset":
            return Fraction(1), Fraction(1), d, True, {canon: Fraction(1)}
        if canon == "dimensionless":
            return Fraction(1), Fraction(1), (), False, {}
        return Fraction(1), Fraction(f), d, False, {canon: Fraction(1)}
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v, f, d, o, nm = _ev(n.operand)
        return -v, f, d, o, nm
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Pow):
            v, f, d, o, nm = _ev(n.left)
            e = _ev(n.right)[0]
            if e.denominator != 1:
                raise UnknownUnit("power")
            return v ** int(e), f ** int(e), dims_pow(d, e), o, {k: x * e for k, x in nm.items()}
        if isinstance(n.op, (ast.Mult, ast.Div)):
            s = 1 if isinstance(n.op, ast.Mult) else -1
            v, f, d, o, nm = _ev(n.left)
            v2, f2, d2, o2, nm2 = _ev(n.right)
            nm = dict(nm)
            for k, x in nm2.items():
                nm[k] = nm.get(k, 0) + s * x
            nm = {k: x for k, x in nm.items() if x}
            return v * v2**s, f * f2**s, dims_mul(d, d2, s), o or o2, nm
    raise UnknownUnit(ast.dump(n))


DIMLESS = Unit(tm.ONE, (), tm.cat("dimensionless"))


def mul(a, b, s=1):
    if b == DIMLESS:
        return a
    if a == DIMLESS and s == 1:
        return b
    f = tm.mul(a.factor, tm.power(b.factor, s))
    dims = dims_mul(a.dims, b.dims, s)
    lab = tm.opq("unit*" if s == 1 else "unit/", a.label, b.label)
    if dims == () and f is tm.ONE:
        return DIMLESS
    return Unit(f, dims, lab, a.offset or b.offset)


def power(a, e):
    if a == DIMLESS:
        return a
    if e == 1:
        return a
    return Unit(tm.power(a.factor, e), dims_pow(a.dims, e), tm.opq("unit^", a.label, str(e)), a.offset)
