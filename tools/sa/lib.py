"""Transfer functions of builtins, numpy, pint, pandas and scmdata."""
import ast
import builtins
import string
from fractions import Fraction

from . import nf, prelude
from . import terms as tm
from . import units as un
from .terms import T
from .values import (
    NONE, UNDEF, ArrO, BoundM, CachedPropV, ClassMV, ClsO, Const, DictO, FrameO, FuncV,
    Gated, InstO, IterV, LibV, ListO, MethV, ModO, PartialV, PropV, QO, Ref, Seg, SliceV,
    StaticV, SuperV, UnitV, XO, veq,
)

UR = "openscm_units.unit_registry"
HALF = Fraction(1, 2)
BINNAMES = {
    "add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "floordiv": "FloorDiv", "mod": "Mod",
    "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow",
    "floor_divide": "FloorDiv", "remainder": "Mod", "and_": "BitAnd", "or_": "BitOr",
}
CMPNAMES = {
    "equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE",
    "eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot",
    "contains": "InR",
}
SCALAR_FN = {
    "exp", "expm1", "log", "log1p", "log2", "log10", "sqrt", "square", "abs", "absolute", "fabs", "negative", "positive",
    "reciprocal", "sign", "floor", "ceil", "rint", "trunc", "cbrt", "sin", "cos", "tan", "tanh", "sinh", "cosh",
    "arctan", "float64", "float32", "nan_to_num", "exp2", "conjugate", "real",
}
MUTATORS = {
    "update", "insert", "pop", "fill", "resize", "put", "itemset", "setflags", "set_meta", "drop_meta", "setdefault",
    "clear", "extend", "remove", "popitem", "partition", "setfield", "_set_meta",
}
VIEW_METHODS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "to_numpy", "head", "tail", "get", "xs", "__array__"}
# which of the two accepted kinds of scenario container has which attribute
# (pandas.DataFrame, scmdata.ScmRun)
KNOWN_ATTRS = {n: {"frame": tm.TRUE, "ScmRun": tm.FALSE} for n in (
    "columns", "index", "iloc", "loc", "T", "reset_index", "items", "iterrows", "ndim", "size", "dtypes", "droplevel", "__copy__")}
KNOWN_ATTRS.update({n: {"frame": tm.FALSE, "ScmRun": tm.TRUE} for n in (
    "timeseries", "meta", "time_points", "get_unique_meta", "process_over", "to_iamdataframe", "required_cols", "to_nc", "convert_unit")})
KNOWN_ATTRS.update({n: {"frame": tm.TRUE, "ScmRun": tm.TRUE} for n in (
    "values", "shape", "filter", "copy", "groupby", "append", "to_csv", "empty", "__len__")})

IDENT_METHODS = {"copy", "__copy__", "__deepcopy__"}
INPLACE_UNIT = {"ito", "ito_base_units", "ito_root_units", "ito_reduced_units"}


# handled as opaque objects by the rules that meet them
SAME_SHAPE = {
    "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "log1p", "log10", "log2", "exp2", "cbrt", "rint", "floor", "ceil", "trunc", "fix",
    "round", "around", "sign", "positive", "nan_to_num", "cumsum", "cumprod", "nancumsum", "sort", "flip", "flipud", "roll", "gradient", "power", "fmod", "heaviside", "nextafter",
    "float32", "float16", "single", "half", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "real", "ascontiguousarray", "deg2rad", "rad2deg", "unwrap",
}
OPAQUE_ROOTS = ("scmdata.", "pandas.", "xarray.", "tqdm", "logging", "warnings", "progressbar")

class Lib:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------ constants
    def const(self, path):
        if path in ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan", "cmath.nan"):
            return tm.NAN
        if path in ("numpy.inf", "math.inf", "numpy.Inf"):
            return tm.INF
        if path in ("numpy.pi", "math.pi"):
            return tm.atom("pi", sign="+")
        if path in ("numpy.e", "math.e"):
            return tm.fn("exp", tm.ONE)
        if path in ("numpy.newaxis",):
            return NONE
        if path == "sys.float_info.epsilon":
            return tm.num(Fraction(1, 2**52))
        if path == "typing.TYPE_CHECKING":
            return tm.FALSE
        if path == "builtins.NotImplemented":
            return Const(NotImplemented)
        if path == "builtins.Ellipsis":
            return Const(Ellipsis)
        if path == "builtins.__debug__":
            return tm.TRUE
        if path.startswith(UR + ".") and path[len(UR) + 1:].isidentifier():
            name = path[len(UR) + 1:]
            if name not in ("Quantity", "Unit", "parse_units", "parse_expression", "Measurement", "context", "get_dimensionality",
                            "add_standards", "enable_contexts", "disable_contexts", "define", "wraps", "check", "convert",
                            "get_base_units", "get_compatible_units", "is_compatible_with"):
                try:
                    _, u = un.parse(name)
                    return UnitV(u)
                except un.UnknownUnit:
                    pass
        return LibV(path)

    def mkstr(self, *parts):
        t = tm.cat(*parts)
        if len(t.args) == 1 and isinstance(t.args[0], str):
            return Const(t.args[0])
        return t

    def strterm(self, v):
        if isinstance(v, Const) and isinstance(v.v, str):
            return v.v
        if isinstance(v, T) and v.op == "cat":
            return v
        return None

    def format_piece(self, v, spec=None, node=None):
        """text of a value in a format field: str or node"""
        sp = None
        if spec is not None:
            sp = spec.v if isinstance(spec, Const) else spec
            if sp == "":
                sp = None
        if isinstance(v, Const) and sp is None:
            return str(v.v)
        if isinstance(v, T) and v.op == "cat" and sp is None:
            return v
        if isinstance(v, UnitV):
            if sp is None:
                return v.unit.label
            return tm.opq("fmt", v.unit.label, str(sp))
        if isinstance(v, Gated):
            a = self.format_piece(v.a, spec, node)
            b = self.format_piece(v.b, spec, node)
            w = lambda x: tm.cat(x) if isinstance(x, str) else x
            return tm.ite(v.cond, w(a), w(b))
        if self.I.isobj(v, QO) and sp is None:
            q = self.I.obj(v)
            return tm.cat(tm.opq("str", self.I.term_of(q.mag)), " ", q.unit.label)
        if isinstance(v, T) and v.op == "num" and v.args[0].denominator == 1 and sp is None:
            return str(v.args[0])
        t = self.I.term_of(v)
        return tm.opq("str", t) if sp is None else tm.opq("fmt", t, str(sp))

    # ------------------------------------------------------------ scalars
    def numterm(self, v):
        """T numeric for a scalar value, or None"""
        if isinstance(v, T):
            if tm.is_bool(v):
                return tm.ite(v, tm.ONE, tm.ZERO)
            if v.op == "cat":
                return None
            return v
        if self.I.isobj(v, ArrO):
            o = self.I.obj(v)
            if len(o.shape) == 0:
                return o.full()
        return None

    def scalar_binop(self, op, a, b):
        if op == "Add":
            return tm.add(a, b)
        if op == "Sub":
            return tm.sub(a, b)
        if op == "Mult":
            return tm.mul(a, b)
        if op == "Div":
            return tm.div(a, b)
        if op == "Pow":
            if b.op == "num":
                e = b.args[0]
                if e.denominator in (1, 2):
                    return tm.power(a, e)
                return tm.power(a, e)
            if a.op == "fn" and a.args[0] == "exp":
                return tm.fn("exp", tm.mul(a.args[1], b))
            return tm.fn("pow", a, b)
        if op == "FloorDiv":
            r = tm.div(a, b)
            if r.op == "num":
                return tm.num(r.args[0].numerator // r.args[0].denominator)
            return tm.fn("floor", r)
        if op == "Mod":
            if a.op == "num" and b.op == "num" and b.args[0] != 0:
                return tm.num(a.args[0] % b.args[0])
            return tm.fn("mod", a, b)
        return tm.opq("op:" + op, a, b)

    def scalar_fn(self, name, x):
        if name in ("float64", "positive", "real", "conjugate"):
            return x
        if name == "exp":
            return tm.fn("exp", x)
        if name == "exp2":
            return tm.fn("pow", tm.num(2), x)
        if name == "expm1":
            return tm.sub(tm.fn("exp", x), tm.ONE)
        if name == "log1p":
            return tm.fn("log", tm.add(x, tm.ONE))
        if name == "sqrt":
            return tm.power(x, HALF)
        if name == "square":
            return tm.power(x, 2)
        if name in ("abs", "absolute", "fabs"):
            s = tm.sign(x)
            if s in ("+", ">=", "0"):
                return x
            if s in ("-", "<="):
                return tm.neg(x)
            return tm.ite(tm.lt0(x), tm.neg(x), x)
        if name == "negative":
            return tm.neg(x)
        if name == "reciprocal":
            return tm.div(tm.ONE, x)
        if name == "nan_to_num":
            return tm.ite(tm.isnan(x), tm.ZERO, tm.fn("finite", x))
        if name in ("floor", "rint", "ceil", "trunc") and x.op == "num" and x.args[0].denominator == 1:
            return x
        return tm.fn(name, x)

    # ------------------------------------------------------------ arrays
    def mkarr(self, shape, body, dt="f", roots=frozenset(), writes=()):
        return self.I.alloc(ArrO(shape, body, writes, roots, dt))

    def elem_map(self, f, *vals, node=None, dt=None):
        """apply f to scalar nodes elementwise over T / ArrO operands"""
        I = self.I
        for k, v in enumerate(vals):
            if isinstance(v, Gated):
                return I.lift(v, lambda y: self.elem_map(f, *vals[:k], y, *vals[k + 1:], node=node, dt=dt))
        shape = None
        bodies = []
        dts = []
        for v in vals:
            t = self.numterm(v) if not (isinstance(v, T) and tm.is_bool(v)) else v
            if t is not None:
                bodies.append(t)
                if isinstance(t, T) and not (t.op == "num" and t.args[0].denominator == 1) and not tm.is_bool(t):
                    dts.append("f")
                continue
            o = I.obj(v)
            bodies.append(o.full())
            dts.append(o.dt)
            if shape is None or (len(shape) == 1 and shape[0] is tm.ONE):
                shape = o.shape
            elif shape != o.shape and not (len(o.shape) == 1 and o.shape[0] is tm.ONE):
                if len(shape) == len(o.shape) == 1:
                    ne = tm.not_(tm.eq(shape[0], o.shape[0]))
                    if I.decide(ne) is tm.TRUE:
                        I.raise_name("builtins.ValueError", node, "operands could not be broadcast together")
        r = f(*bodies)
        if shape is None:
            return r
        if dt is None:
            dt = "b" if tm.is_bool(r) else "f" if "f" in dts else ("m" if "m" in dts else "i")
        return self.mkarr(shape, r, dt)

    def arr_replace(self, ref, newref, node):
        """in-place update of array `ref` with the content of `newref`"""
        I = self.I
        I.touch(ref, node, "in-place array operation")
        o = I.mut(ref)
        if I.isobj(newref, ArrO):
            n = I.obj(newref)
            o.body, o.writes = self._cast(o, n.full(), n.dt), ()
        else:
            o.body, o.writes = I.term_of(newref), ()

    def _cast(self, o, t, dt="f"):
        if o.dt in ("m", "i") and dt == "f" and not (t.op == "num" and t.args[0].denominator == 1):
            return tm.fn("cast-to-dtype", t)
        return t

    # ------------------------------------------------------------ binop
    def binop(self, op, a, b, node):
        I = self.I
        if isinstance(a, Gated) or isinstance(b, Gated):
            return I.lift2(a, b, lambda x, y: self.binop(op, x, y, node))
        sa, sb = self.strterm(a), self.strterm(b)
        if op == "Add" and sa is not None and sb is not None:
            return self.mkstr(sa, sb)
        if op == "Mod" and sa is not None:
            return self.percent(a, b, node)
        if op == "Mult" and sa is not None and isinstance(b, T) and b.op == "num":
            return self.mkstr(*[sa] * int(b.args[0]))
        # units
        if isinstance(a, UnitV) or isinstance(b, UnitV):
            return self.unit_binop(op, a, b, node)
        if I.isobj(a, QO) or I.isobj(b, QO):
            return self.q_binop(op, a, b, node)
        if I.isobj(a, XO) or I.isobj(b, XO):
            return I.alloc(XO("expr", tm.opq("op:" + op, I.term_of(a), I.term_of(b))))
        if I.isobj(a, ListO) or I.isobj(b, ListO):
            return self.list_binop(op, a, b, node)
        if I.isobj(a, DictO) and I.isobj(b, DictO) and op == "BitOr":
            d = I.alloc(I.obj(a).clone())
            self.dict_update(d, b, node)
            return d
        if I.isobj(a, InstO) or I.isobj(b, InstO):
            return self.inst_binop(op, a, b, node)
        if isinstance(a, (Const, LibV)) or isinstance(b, (Const, LibV)):
            if isinstance(a, LibV) or isinstance(b, LibV):
                return I.alloc(XO("expr", tm.opq("op:" + op, I.term_of(a), I.term_of(b))))
            I.raise_name("TypeError", node, "unsupported operand")
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": lambda x, y: tm.or_(tm.and_(x, tm.not_(y)), tm.and_(tm.not_(x), y))}[op]
            return self.elem_map(lambda x, y: f(self.tobool(x), self.tobool(y)), a, b, node=node)
        if op == "MatMult":
            return tm.opq("matmul", I.term_of(a), I.term_of(b))
        isarr = I.isobj(a, ArrO) or I.isobj(b, ArrO)
        f = lambda x, y: self.scalar_binop(op, self._n(x), self._n(y))
        if op == "Div":
            return self.elem_map(f, a, b, node=node, dt="f" if isarr else None)
        r = self.elem_map(f, a, b, node=node)
        if op in ("Add", "Sub"):
            self.note_cancel(a, b, r, node)
        elif op in ("Mult", "Pow"):
            self.note_square(op, a, b, node)
        return r

    # exact arithmetic hides what floating point loses: these are remembered
    def note_cancel(self, a, b, r, node):
        """terms that cancel: a small remainder is lost"""
        if isinstance(a, T) and isinstance(b, T) and isinstance(r, T) and not tm.is_num(a) and not tm.is_num(b):
            kept = tm.deps(r)
            lost = (tm.deps(a) | tm.deps(b)) - kept
            if lost and kept:
                self.I.event("cancel", node, kept=frozenset(kept), lost=frozenset(lost))

    def note_square(self, op, a, b, node):
        """higher powers of a value: a small value underflows"""
        if isinstance(a, T) and isinstance(b, T):
            both = tm.deps(a) & tm.deps(b) if op == "Mult" else tm.deps(a) if tm.is_num(b) and b.args[0] > 1 else ()
            if both:
                self.I.event("square", node, kept=frozenset(both), lost=frozenset())

    def _n(self, x):
        return tm.ite(x, tm.ONE, tm.ZERO) if tm.is_bool(x) else x

    def tobool(self, x):
        return x if tm.is_bool(x) else tm.not_(tm.eq0(x))

    def inst_binop(self, op, a, b, node):
        I = self.I
        names = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod"}
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if I.isobj(x, InstO) and op in names:
                m = I.class_lookup(I.obj(x).cls, pre + names[op] + "__")
                if isinstance(m, FuncV):
                    return I.call(BoundM(m, x), [y], {}, node)
        I.raise_name("TypeError", node, "unsupported operand")

    def list_binop(self, op, a, b, node):
        I = self.I
        if I.isobj(a, ArrO) or I.isobj(b, ArrO):
            conv = lambda v: self.to_array(v, node) if I.isobj(v, ListO) else v
            return self.binop(op, conv(a), conv(b), node)
        if op == "Add" and I.isobj(a, ListO) and I.isobj(b, ListO):
            oa, ob = I.obj(a), I.obj(b)
            return I.alloc(ListO(oa.items + ob.items, oa.kind))
        if op == "Mult":
            l, k = (a, b) if I.isobj(a, ListO) else (b, a)
            if isinstance(k, T):
                o = I.obj(l)
                if k.op == "num":
                    return I.alloc(ListO(o.items * int(k.args[0]), o.kind))
                if len(o.items) == 1 and not isinstance(o.items[0], Seg):
                    i = tm.atom(I.fresh("i:rep"), sign=">=", integer=True, lb=0)
                    return I.alloc(ListO([Seg(i, k, o.items[0][0], o.items[0][1])], o.kind))
        if op in ("Sub", "BitOr", "BitAnd") and I.isobj(a, ListO) and I.isobj(b, ListO):
            ka, kb = I.obj(a).known(), I.obj(b).known()
            if ka is not None and kb is not None and all(isinstance(x, Const) for x in ka + kb):
                if op == "Sub":
                    r = [x for x in ka if x not in kb]
                elif op == "BitAnd":
                    r = [x for x in ka if x in kb]
                else:
                    r = ka + [x for x in kb if x not in ka]
                return I.mklist(r, "set")
        if isinstance(a, T) or isinstance(b, T) or isinstance(a, Const) or isinstance(b, Const):
            I.raise_name("TypeError", node, "unsupported operand")
        return I.alloc(XO("expr", tm.opq("op:" + op, I.term_of(a), I.term_of(b))))

    def unit_binop(self, op, a, b, node):
        I = self.I
        if isinstance(a, UnitV) and isinstance(b, UnitV):
            if op in ("Mult", "Div"):
                return UnitV(un.mul(a.unit, b.unit, 1 if op == "Mult" else -1))
            I.raise_name("TypeError", node, "units")
        if isinstance(a, UnitV) and op == "Pow" and isinstance(b, T) and b.op == "num":
            return UnitV(un.power(a.unit, b.args[0]))
        if isinstance(a, UnitV):
            qa, qb = I.alloc(QO(tm.ONE, a.unit)), b
        else:
            qa, qb = a, I.alloc(QO(tm.ONE, b.unit))
        if I.isobj(qb, ListO):
            qb = self.to_array(qb, node)
        if I.isobj(qa, ListO):
            qa = self.to_array(qa, node)
        if op in ("Mult", "Div"):
            return self.q_binop(op, qa, qb, node)
        I.raise_name("TypeError", node, "units")

    # ------------------------------------------------------------ quantities
    def mkq(self, mag, unit, roots=frozenset()):
        return self.I.alloc(QO(mag, unit, roots))

    def qscale(self, mag, f, node=None):
        if f is tm.ONE:
            return mag
        return self.binop("Mult", mag, f, node)

    def q_to(self, ref, unit, node):
        """conversion; raises DimensionalityError when it must (or may)"""
        I = self.I
        q = I.obj(ref)
        same = un.same_dims(q.unit.dims, unit.dims)
        I.may_raise(tm.not_(same), "pint.errors.DimensionalityError", node)
        if q.unit.offset or unit.offset:
            if q.unit.offset and unit.offset:
                return q.mag
            return I.alloc(XO("expr", tm.opq("offset-unit", I.term_of(q.mag))))
        f = tm.div(q.unit.factor, unit.factor)
        if f is tm.ONE:
            return q.mag
        m = q.mag
        if I.isobj(m, ArrO):
            o = I.obj(m)
            # pint returns the very same magnitude when the units agree, hence
            # the result may alias the source
            r = self.mkarr(o.shape, tm.mul(o.full(), f), o.dt if o.dt == "m" else "f", o.roots | q.roots)
            return r
        return self.qscale(m, f, node)

    def q_of(self, v):
        """view any number-like value as (mag, unit)"""
        I = self.I
        if I.isobj(v, QO):
            q = I.obj(v)
            return q.mag, q.unit
        return v, None

    def q_binop(self, op, a, b, node):
        I = self.I
        for x in (a, b):
            if isinstance(x, Const) or isinstance(x, LibV):
                I.raise_name("TypeError", node, "unsupported operand for quantity")
        if I.isobj(a, ListO):
            a = self.to_array(a, node)
        if I.isobj(b, ListO):
            b = self.to_array(b, node)
        ma, ua = self.q_of(a)
        mb, ub = self.q_of(b)
        if op == "Mult":
            return self.mkq(self.binop("Mult", ma, mb, node), un.mul(ua or un.DIMLESS, ub or un.DIMLESS))
        if op in ("Div",):
            return self.mkq(self.binop("Div", ma, mb, node), un.mul(ua or un.DIMLESS, ub or un.DIMLESS, -1))
        if op in ("Add", "Sub"):
            if ua is None or ub is None:
                num, unit, q = (ma, ub, b) if ua is None else (mb, ua, a)
                if isinstance(num, T) and (num is tm.ZERO or num.op == "nan"):
                    return self.mkq(self.binop(op, ma, mb, node), unit)
                same = un.same_dims(unit.dims, ())
                I.may_raise(tm.not_(same), "pint.errors.DimensionalityError", node)
                f = unit.factor
                if ua is None:
                    mb = self.qscale(mb, f)
                else:
                    ma = self.qscale(ma, f)
                return self.mkq(self.binop(op, ma, mb, node), un.DIMLESS)
            same = un.same_dims(ua.dims, ub.dims)
            I.may_raise(tm.not_(same), "pint.errors.DimensionalityError", node)
            f = tm.div(ub.factor, ua.factor)
            return self.mkq(self.binop(op, ma, self.qscale(mb, f), node), ua)
        if op == "Pow":
            if ub is not None:
                I.may_raise(tm.not_(un.same_dims(ub.dims, ())), "pint.errors.DimensionalityError", node)
                mb = self.qscale(mb, ub.factor)
            if ua is None:
                return self.mkq(self.binop("Pow", ma, mb, node), un.DIMLESS)
            if isinstance(mb, T) and mb.op == "num":
                return self.mkq(self.binop("Pow", ma, mb, node), un.power(ua, mb.args[0]))
            return self.mkq(self.binop("Pow", ma, mb, node), un.Unit(tm.opq("pow", ua.factor, I.term_of(mb)), ("dyn", tm.opq("dims^", un.dims_node(ua.dims), I.term_of(mb))), tm.opq("unit^", ua.label)))
        if op in ("FloorDiv", "Mod"):
            if ua is not None and ub is not None:
                mb = self.qscale(mb, tm.div(ub.factor, ua.factor))
            return self.mkq(self.binop(op, ma, mb, node), un.DIMLESS if op == "FloorDiv" else (ua or un.DIMLESS))
        I.raise_name("TypeError", node, "unsupported operand for quantity")

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b, node):
        I = self.I
        if op in ("Is", "IsNot"):
            if isinstance(a, T) and isinstance(b, T):
                if a is b:
                    r = tm.TRUE
                elif tm.is_bool(a) and tm.is_bool(b):
                    r = tm.eq(a, b)
                else:
                    r = tm.bopq("is", a, b)
            elif I.isobj(a, XO) or I.isobj(b, XO):
                if veq(a, b):
                    r = tm.TRUE
                else:
                    x, y = (a, b) if I.isobj(a, XO) else (b, a)
                    k = I.obj(x).kind
                    if y == NONE and k not in ("user", "elem", "phi", "out", "lib", "attr", "merge", "expr"):
                        r = tm.FALSE
                    else:
                        r = tm.bopq("is", I.term_of(a), I.term_of(b))
            else:
                r = tm.TRUE if veq(a, b) else tm.FALSE
            return r if op == "Is" else tm.not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a, node)
            return r if op == "In" else tm.not_(r)
        if op == "InR":
            return self.contains(a, b, node)
        if op == "Eq" and all(I.isobj(x, XO) and "dims" in I.obj(x).attrs for x in (a, b)):
            return un.same_dims(I.obj(a).attrs["dims"], I.obj(b).attrs["dims"])
        if op == "NotEq":
            r = self.compare("Eq", a, b, node)
            return self.elem_map(lambda x: tm.not_(self.tobool(x)), r, node=node) if not I.isobj(r, XO) else self.unary("Invert", r, node)
        if op == "Eq":
            return self.equals(a, b, node)
        # ordering
        if I.isobj(a, QO) or I.isobj(b, QO):
            return self.q_order(op, a, b, node)
        if I.isobj(a, XO) or I.isobj(b, XO):
            return I.alloc(XO("expr", tm.opq("op:" + op, I.term_of(a), I.term_of(b))))
        if isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v) and isinstance(a.v, str):
            r = {"Lt": a.v < b.v, "LtE": a.v <= b.v, "Gt": a.v > b.v, "GtE": a.v >= b.v}[op]
            return tm.TRUE if r else tm.FALSE
        if isinstance(a, (Const, LibV, UnitV, FuncV)) or isinstance(b, (Const, LibV, UnitV, FuncV)):
            I.raise_name("TypeError", node, "ordering")
        if any(I.isobj(x, (ListO, DictO, InstO)) for x in (a, b)):
            return I.alloc(XO("expr", tm.opq("op:" + op, I.term_of(a), I.term_of(b))))
        self.note_order(a, b, node)
        f = {
            "Lt": tm.lt, "LtE": tm.le, "Gt": lambda x, y: tm.lt(y, x), "GtE": lambda x, y: tm.le(y, x),
        }[op]
        return self.elem_map(lambda x, y: f(self._n(x), self._n(y)), a, b, node=node)

    def note_order(self, a, b, node):
        if isinstance(a, T) and isinstance(b, T):
            self.note_cancel(a, b, tm.sub(self._n(a), self._n(b)), node)

    def q_order(self, op, a, b, node):
        I = self.I
        ma, ua = self.q_of(a)
        mb, ub = self.q_of(b)
        for m in (ma, mb):
            if isinstance(m, Const):
                I.raise_name("TypeError", node, "ordering")
        if ua is not None and ub is not None:
            I.may_raise(tm.not_(un.same_dims(ua.dims, ub.dims)), "pint.errors.DimensionalityError", node)
            return self.compare(op, self.qscale(ma, ua.factor), self.qscale(mb, ub.factor), node)
        unit, n = (ua, mb) if ua is not None else (ub, ma)
        if isinstance(n, T) and n is tm.ZERO:
            return self.compare(op, ma, mb, node)
        I.may_raise(tm.not_(un.same_dims(unit.dims, ())), "builtins.ValueError", node)
        if ua is not None:
            ma = self.qscale(ma, unit.factor)
        else:
            mb = self.qscale(mb, unit.factor)
        return self.compare(op, ma, mb, node)

    def equals(self, a, b, node=None):
        I = self.I
        if I.isobj(a, QO) or I.isobj(b, QO):
            ma, ua = self.q_of(a)
            mb, ub = self.q_of(b)
            if ua is not None and ub is not None:
                same = un.same_dims(ua.dims, ub.dims)
                if same is tm.FALSE:
                    return tm.FALSE
                r = self.equals(self.qscale(ma, ua.factor), self.qscale(mb, ub.factor), node)
                return r if same is tm.TRUE else tm.and_(same, r)
            unit, n = (ua, mb) if ua is not None else (ub, ma)
            if isinstance(n, T) and n is tm.ZERO:
                return self.equals(ma, mb, node)
            if isinstance(n, (T,)) or I.isobj(n, ArrO):
                same = un.same_dims(unit.dims, ())
                if same is tm.FALSE:
                    return tm.FALSE
                if ua is not None:
                    return self.equals(self.qscale(ma, unit.factor), mb, node)
                return self.equals(ma, self.qscale(mb, unit.factor), node)
            return tm.FALSE
        if isinstance(a, T) and isinstance(b, T):
            if "cat" in (a.op, b.op):
                return tm.streq(a, b)
            self.note_order(a, b, node)
            return tm.eq(a, b)
        if I.isobj(a, XO) or I.isobj(b, XO):
            x = I.obj(a if I.isobj(a, XO) else b)
            if x.kind in ("str", "scalar"):
                return tm.bopq("eq", I.term_of(a), I.term_of(b))
            return I.alloc(XO("expr", tm.opq("op:Eq", I.term_of(a), I.term_of(b))))
        if I.isobj(a, ArrO) or I.isobj(b, ArrO):
            if all(isinstance(x, T) or I.isobj(x, ArrO) for x in (a, b)):
                return self.elem_map(lambda x, y: tm.eq(x, y), a, b, node=node)
            return tm.FALSE
        if I.isobj(a, ListO) and I.isobj(b, ListO):
            oa, ob = I.obj(a), I.obj(b)
            ka, kb = oa.known(), ob.known()
            if ka is None or kb is None:
                return tm.bopq("eq", I.term_of(a), I.term_of(b))
            if len(ka) != len(kb) or oa.kind != ob.kind:
                return tm.FALSE
            return tm.and_(*[I.truth(self.equals(x, y, node)) for x, y in zip(ka, kb)])
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return tm.TRUE if a.v == b.v else tm.FALSE
            except Exception:
                return tm.FALSE
        sa, sb = self.strterm(a), self.strterm(b)
        if sa is not None and sb is not None:
            ca, cb = tm.cat(sa), tm.cat(sb)
            la, lb = (un.LABELS.get(c.args[0] if getattr(c, "op", None) == "cat" and len(c.args) == 1 else c) for c in (ca, cb))
            if la is not None and lb is not None and la[1] == lb[1]:
                # the texts of two units are the same when the units are
                return tm.eq(la[0], lb[0])
            return tm.streq(ca, cb)
        if isinstance(a, UnitV) and isinstance(b, UnitV):
            if a == b:
                return tm.TRUE
            s = un.same_dims(a.unit.dims, b.unit.dims)
            if s is tm.FALSE:
                return tm.FALSE
            return tm.and_(s, tm.eq(a.unit.factor, b.unit.factor))
        if isinstance(a, UnitV) or isinstance(b, UnitV):
            u, s = (a, b) if isinstance(a, UnitV) else (b, a)
            if isinstance(s, Const) and isinstance(s.v, str):
                try:
                    return self.equals(u, UnitV(un.parse(s.v)[1]))
                except un.UnknownUnit:
                    pass
            return tm.bopq("uniteq", u.unit.label, u.unit.factor, I.term_of(s))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return tm.TRUE
            if I.isobj(a, DictO) and I.isobj(b, DictO):
                return tm.bopq("eq", I.term_of(a), I.term_of(b))
            if I.isobj(a, InstO):
                m = I.class_lookup(I.obj(a).cls, "__eq__")
                if isinstance(m, FuncV):
                    return I.call(BoundM(m, a), [b], {}, node)
            return tm.FALSE
        if isinstance(a, T) and a.op == "opq" or isinstance(b, T) and b.op == "opq":
            return tm.bopq("eq", I.term_of(a), I.term_of(b))
        return tm.TRUE if veq(a, b) else tm.FALSE

    def contains(self, cont, x, node):
        I = self.I
        if isinstance(cont, Gated):
            return I.lift(cont, lambda c: self.contains(c, x, node))
        if I.isobj(cont, ListO):
            r = tm.FALSE
            for it in I.obj(cont).items:
                if isinstance(it, Seg):
                    return tm.bopq("in", I.term_of(x), I.term_of(cont))
                r = tm.or_(r, tm.and_(it[0], I.truth(self.equals(it[1], x, node))))
            return r
        if I.isobj(cont, DictO):
            return self.dict_has(cont, x)
        if isinstance(cont, Const) and isinstance(cont.v, str):
            if isinstance(x, Const) and isinstance(x.v, str):
                return tm.TRUE if x.v in cont.v else tm.FALSE
            return tm.bopq("in", I.term_of(x), I.term_of(cont))
        if isinstance(cont, MethV) and cont.name == "<dict>":
            if isinstance(x, Const):
                return tm.TRUE if x.v in I.obj(cont.recv).attrs else tm.FALSE
        if isinstance(cont, IterV) and cont.kind == "keys":
            return self.contains(cont.args[0], x, node)
        return tm.bopq("in", I.term_of(x), I.term_of(cont))

    def unary(self, op, v, node):
        I = self.I
        if op == "UAdd":
            return v
        if I.isobj(v, QO):
            q = I.obj(v)
            return self.mkq(self.unary(op, q.mag, node), q.unit)
        if I.isobj(v, XO):
            return I.alloc(XO("expr", tm.opq("op:" + op, I.obj(v).term)))
        if isinstance(v, T) or I.isobj(v, ArrO):
            if op == "USub":
                return self.elem_map(lambda x: tm.neg(self._n(x)), v, node=node)
            if op == "Invert":
                if isinstance(v, T) and not tm.is_bool(v):
                    return tm.sub(tm.num(-1), v)
                return self.elem_map(lambda x: tm.not_(self.tobool(x)), v, node=node)
        I.raise_name("TypeError", node, "bad operand for unary")

    # ------------------------------------------------------------ sequences
    def list_len(self, o):
        n = tm.ZERO
        for x in o.items:
            if isinstance(x, Seg):
                if x.guard is tm.TRUE:
                    n = tm.add(n, x.n)
                else:
                    n = tm.add(n, tm.opq("count", x.ivar, x.n, x.guard))
            else:
                n = tm.add(n, tm.ite(x[0], tm.ONE, tm.ZERO))
        return n

    def list_items(self, v, node):
        """items (guard, val) or Seg of an iterable, as stored in a ListO"""
        I = self.I
        if I.isobj(v, ListO):
            return list(I.obj(v).items)
        parts = self.parts(v, node)
        out = []
        for p in parts:
            if p[0] == "item":
                out.append((p[1], p[2]))
            else:
                i = tm.atom(I.fresh("i:seq"), sign=">=", integer=True, lb=0)
                out.append(Seg(i, p[1], tm.TRUE, p[2](i)))
        return out

    def known_items(self, v, node):
        items = self.list_items(v, node)
        if any(isinstance(x, Seg) or x[0] is not tm.TRUE for x in items):
            self.I.unsupported("sequence of unknown length", node)
        return [x[1] for x in items]

    def unpack(self, v, n, node):
        I = self.I
        if isinstance(v, Gated):
            res = []
            tups = I.lift(v, lambda x: I.mklist(self.unpack(x, n, node), "tuple"))
            if isinstance(tups, Ref):
                return I.obj(tups).known()
            return [I.getitem(tups, tm.num(k), node) for k in range(n)]
        if I.isobj(v, XO):
            return [I.getitem(v, tm.num(k), node) for k in range(n)]
        if I.isobj(v, ListO) or isinstance(v, IterV) or I.isobj(v, (DictO, ArrO, QO)):
            items = self.known_items(v, node)
            if len(items) != n:
                I.raise_name("ValueError", node, "unpack")
            return items
        if I.isobj(v, InstO) and isinstance(I.class_lookup(I.obj(v).cls, "__iter__"), FuncV):
            return self.unpack(I.call(BoundM(I.class_lookup(I.obj(v).cls, "__iter__"), v), [], {}, node), n, node)
        if isinstance(v, Const) and isinstance(v.v, str):
            if len(v.v) != n:
                I.raise_name("ValueError", node, "unpack")
            return [Const(c) for c in v.v]
        I.raise_name("TypeError", node, "cannot unpack")

    def sequence(self, v, node):
        """('known', [(guard, val)]) or ('sym', n, elem) or raises"""
        parts = self.parts(v, node)
        if all(p[0] == "item" for p in parts):
            return ("known", [(p[1], p[2]) for p in parts])
        if len(parts) == 1:
            return ("sym", parts[0][1], parts[0][2])
        # several parts: a concatenation treated as one symbolic sequence
        n = tm.ZERO
        for p in parts:
            n = tm.add(n, tm.ONE if p[0] == "item" else p[1])
        I = self.I

        def elem(i):
            return I.alloc(XO("elem", tm.opq("elem", *[I.term_of(p[2]) if p[0] == "item" else I.term_of(p[2](i)) for p in parts], i)))

        return ("sym", n, elem)

    def parts(self, v, node):
        """list of ('item', guard, val) / ('sym', n, elem)"""
        I = self.I
        if I.isobj(v, ListO):
            out = []
            for x in I.obj(v).items:
                if isinstance(x, Seg):
                    out.append(self.seg_part(x))
                else:
                    out.append(("item", x[0], x[1]))
            return out
        if I.isobj(v, DictO):
            o = I.obj(v)
            out = [("item", g, k) for g, k, _ in o.entries]
            if o.segs:
                return out + [self.seg_part(k) for k, _ in o.segs]
            if o.sym is not None:
                s = o.sym
                out.append(("sym", tm.opq("len", s), lambda i: I.alloc(XO("elem", tm.opq("key", s, i)))))
            return out
        if isinstance(v, IterV):
            return self.iter_parts(v, node)
        if I.isobj(v, ArrO):
            o = I.obj(v)
            if not o.shape:
                I.raise_name("TypeError", node, "iteration over a 0-d array")
            n = o.shape[0]
            if n.op == "num":
                return [("item", tm.TRUE, self.arr_at(v, tm.num(k))) for k in range(int(n.args[0]))]
            return [("sym", n, lambda i: self.arr_at(v, i))]
        if I.isobj(v, QO):
            q = I.obj(v)
            if isinstance(q.mag, T):
                I.raise_name("TypeError", node, "quantity is not iterable")
            ps = self.parts(q.mag, node)
            return [
                (p[0], p[1], self.mkq(p[2], q.unit)) if p[0] == "item" else (p[0], p[1], (lambda f: lambda i: self.mkq(f(i), q.unit))(p[2]))
                for p in ps
            ]
        if I.isobj(v, XO):
            o = I.obj(v)
            if o.attrs.get("items") is not None:
                return self.parts(o.attrs["items"], node)
            t, r = o.term, o.roots
            return [("sym", tm.opq("len", t), lambda i: I.alloc(XO("elem", tm.opq("elem", t, i), r)))]
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return [("item", tm.TRUE, Const(c)) for c in v.v]
        if isinstance(v, MethV) and I.isobj(v.recv, XO):
            pass
        if isinstance(v, T) and v.op in ("opq", "cat"):
            return [("sym", tm.opq("len", v), lambda i: tm.opq("elem", v, i))]
        if isinstance(v, Gated):
            c = I.decide(v.cond)
            if c is tm.TRUE:
                return self.parts(v.a, node)
            if c is tm.FALSE:
                return self.parts(v.b, node)
            pa, pb = self.parts(v.a, node), self.parts(v.b, node)
            k = 0
            while k < min(len(pa), len(pb)) and pa[k][0] == pb[k][0] == "item" and pa[k][1] is pb[k][1] and veq(pa[k][2], pb[k][2]):
                k += 1
            if len(pa) == len(pb) == k + 1 and pa[k][0] == pb[k][0] == "sym":
                n, fa, fb = tm.ite(c, pa[k][1], pb[k][1]), pa[k][2], pb[k][2]
                return pa[:k] + [("sym", n, lambda i: I.merge_val(c, fa(i), fb(i)))]
            if any(q[0] != "item" for q in pa[k:] + pb[k:]):
                I.unsupported("iteration over a gated value", node)
            return pa[:k] + [("item", tm.and_(q[1], c), q[2]) for q in pa[k:]] + [("item", tm.and_(q[1], tm.not_(c)), q[2]) for q in pb[k:]]
        if I.isobj(v, InstO):
            m = I.class_lookup(I.obj(v).cls, "__iter__")
            if isinstance(m, FuncV):
                return self.parts(I.call(BoundM(m, v), [], {}, node), node)
        I.raise_name("TypeError", node, "not iterable")

    def subst_seg(self, x, m, memo):
        m = {k: v for k, v in m.items() if k is not x.ivar}
        return Seg(x.ivar, tm.subst(x.n, m), tm.subst(x.guard, m), self.deep_subst(x.val, m, memo))

    def seg_part(self, x):
        return ("sym", x.n if x.guard is tm.TRUE else tm.opq("count", x.ivar, x.n, x.guard), self._seg_elem(x))

    def _seg_elem(self, seg):
        return lambda i: self.deep_subst(seg.val, {seg.ivar: i})

    def deep_subst(self, v, m, memo=None):
        """copy of a value with nodes substituted"""
        I = self.I
        memo = {} if memo is None else memo
        if isinstance(v, T):
            return tm.subst(v, m)
        if isinstance(v, Gated):
            return Gated(tm.subst(v.cond, m), self.deep_subst(v.a, m, memo), self.deep_subst(v.b, m, memo))
        if isinstance(v, IterV):
            return IterV(v.kind, [self.deep_subst(x, m, memo) for x in v.args], v.kw)
        if isinstance(v, UnitV):
            return UnitV(self._usub(v.unit, m))
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            o = I.obj(v)
            if isinstance(o, XO):
                t = tm.subst(o.term, m)
                if t is o.term:
                    return v
                memo[v.oid] = r = I.alloc(XO(o.kind, t, o.roots, dict(o.attrs)))
                return r
            if isinstance(o, QO):
                return self.mkq(self.deep_subst(o.mag, m, memo), self._usub(o.unit, m), o.roots)
            if isinstance(o, ArrO):
                return I.alloc(ArrO([tm.subst(s, m) for s in o.shape], tm.subst(o.body, m), [(tm.subst(i, m), tm.subst(w, m)) for i, w in o.writes], o.roots, o.dt))
            if isinstance(o, ListO):
                items = []
                for x in o.items:
                    if isinstance(x, Seg):
                        items.append(Seg(x.ivar, tm.subst(x.n, m), tm.subst(x.guard, m), self.deep_subst(x.val, m, memo)))
                    else:
                        items.append((tm.subst(x[0], m), self.deep_subst(x[1], m, memo)))
                return I.alloc(ListO(items, o.kind, o.roots))
            if isinstance(o, DictO):
                return I.alloc(DictO([(tm.subst(g, m), self.deep_subst(k, m, memo), self.deep_subst(w, m, memo)) for g, k, w in o.entries], None if o.sym is None else tm.subst(o.sym, m), o.roots, o.default, tuple((self.subst_seg(a, m, memo), self.subst_seg(b, m, memo)) for a, b in o.segs)))
        return v

    def _usub(self, u, m):
        dims = u.dims if not u.dyn else ("dyn", tm.subst(u.dims[1], m))
        return un.Unit(tm.subst(u.factor, m), dims, tm.subst(u.label, m), u.offset)

    def iter_parts(self, v, node):
        I = self.I
        k = v.kind
        if k == "range":
            lo, hi, st = v.args
            if all(x.op == "num" for x in (lo, hi, st)):
                r = range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))
                if len(r) <= 400:
                    return [("item", tm.TRUE, tm.num(i)) for i in r]
            if st.op == "num" and abs(st.args[0]) == 1:
                s = st.args[0]
                n = tm.sub(hi, lo) if s == 1 else tm.sub(lo, hi)
                return [("sym", n, lambda i: tm.add(lo, tm.scale(s, i)))]
            n = tm.opq("rangelen", lo, hi, st)
            return [("sym", n, lambda i: tm.add(lo, tm.mul(st, i)))]
        if k == "enumerate":
            out = []
            pos = v.kw.get("start", tm.ZERO)
            for p in self.parts(v.args[0], node):
                if p[0] == "item":
                    out.append(("item", p[1], I.mklist([pos, p[2]], "tuple")))
                    pos = tm.add(pos, tm.ite(p[1], tm.ONE, tm.ZERO))
                else:
                    start = pos
                    out.append(("sym", p[1], (lambda f, s: lambda i: I.mklist([tm.add(s, i), f(i)], "tuple"))(p[2], start)))
                    pos = tm.add(pos, p[1])
            return out
        if k == "zip":
            ps = [self.parts(a, node) for a in v.args]
            if all(all(p[0] == "item" for p in x) for x in ps):
                return [("item", tm.and_(*[p[1] for p in row]), I.mklist([p[2] for p in row], "tuple")) for row in zip(*ps)]
            if all(len(x) == 1 and x[0][0] == "sym" for x in ps):
                n = ps[0][0][1]
                for x in ps[1:]:
                    if x[0][1] is not n:
                        d = tm.sub(x[0][1], n)
                        if tm.is_num(d):
                            n = n if d.args[0] > 0 else x[0][1]
                        else:
                            n = tm.opq("min", n, x[0][1])
                return [("sym", n, lambda i: I.mklist([x[0][2](i) for x in ps], "tuple"))]
            # mixed: index the known ones symbolically when they are infinite counters
            t = tm.opq("zip", *[I.term_of(a) for a in v.args])
            return [("sym", tm.opq("len", t), lambda i: I.alloc(XO("elem", tm.opq("elem", t, i))))]
        if k == "reversed":
            ps = self.parts(v.args[0], node)
            if all(p[0] == "item" for p in ps):
                return ps[::-1]
            n, f = ps[0][1], ps[0][2]
            return [("sym", n, lambda i: f(tm.sub(tm.sub(n, tm.ONE), i)))]
        if k == "map":
            f, args = v.args[0], v.args[1:]
            out = []
            for p in self.parts(IterV("zip", args), node):
                if p[0] == "item":
                    out.append(("item", p[1], I.call(f, I.obj(p[2]).known(), {}, node)))
                else:
                    out.append(("sym", p[1], (lambda g: lambda i: I.call(f, I.obj(g(i)).known(), {}, node))(p[2])))
            return out
        if k == "filter":
            out = []
            for p in self.parts(v.args[1], node):
                if p[0] != "item":
                    I.unsupported("filter over a symbolic sequence", node)
                c = I.truth(I.call(v.args[0], [p[2]], {}, node)) if v.args[0] != NONE else I.truth(p[2])
                out.append(("item", tm.and_(p[1], c), p[2]))
            return out
        if k == "chain":
            return [p for a in v.args for p in self.parts(a, node)]
        if k == "items":
            o = I.obj(v.args[0])
            if isinstance(o, DictO):
                out = [("item", g, I.mklist([a, b], "tuple")) for g, a, b in o.entries]
                if o.segs:
                    return out + [self.seg_part(Seg(a.ivar, a.n, a.guard, I.mklist([a.val, b.val], "tuple"))) for a, b in o.segs]
                if o.sym is not None:
                    s = o.sym
                    out.append(("sym", tm.opq("len", s), lambda i: I.mklist([I.alloc(XO("elem", tm.opq("key", s, i))), I.alloc(XO("elem", tm.opq("val", s, i)))], "tuple")))
                return out
        if k == "keys":
            return self.parts(v.args[0], node)
        if k == "values":
            o = I.obj(v.args[0])
            if isinstance(o, DictO):
                out = [("item", g, b) for g, a, b in o.entries]
                if o.segs:
                    return out + [self.seg_part(b) for _, b in o.segs]
                if o.sym is not None:
                    s = o.sym
                    out.append(("sym", tm.opq("len", s), lambda i: I.alloc(XO("elem", tm.opq("val", s, i)))))
                return out
        if k == "iterrows":
            t = v.args[0]
            return [("sym", tm.opq("len", t), lambda i: I.mklist([I.alloc(XO("rowlabel", tm.opq("rowlabel", t, i))), I.alloc(XO("row", tm.opq("row", t, i)))], "tuple"))]
        if k == "count":
            return [("sym", tm.INF, lambda i: tm.add(v.args[0], i))]
        I.unsupported("iteration over %s" % k, node)

    def list_extend(self, ref, val, node):
        items = self.list_items(val, node)
        I = self.I
        if I.obj(ref).roots:
            I.touch(ref, node, "extend")
        o = I.mut(ref)
        o.items = o.items + tuple(items)

    # ------------------------------------------------------------ dicts
    def key_eq(self, a, b):
        if veq(a, b):
            return tm.TRUE
        return self.I.truth(self.equals(a, b))

    def dict_has(self, ref, key):
        o = self.I.obj(ref)
        r = tm.FALSE
        for g, k, _ in o.entries:
            r = tm.or_(r, tm.and_(g, self.key_eq(k, key)))
        if o.sym is not None:
            r = tm.or_(r, tm.bopq("in", self.I.term_of(key), o.sym))
        return r

    def dict_get(self, ref, key, node, default=UNDEF):
        I = self.I
        o = I.obj(ref)
        cands = []
        for g, k, v in reversed(o.entries):
            c = I.decide(tm.and_(g, self.key_eq(k, key)))
            if c is tm.FALSE:
                continue
            cands.append((c, v))
            if c is tm.TRUE:
                break
        if cands and cands[-1][0] is tm.TRUE:
            rest = cands[-1][1]
            cands = cands[:-1]
        elif len(o.segs) == 1 and isinstance(key, T) and o.segs[0][0].guard is tm.TRUE:
            a, b = o.segs[0]
            j = tm.sub(key, tm.sub(a.val, a.ivar))
            if default is UNDEF:
                I.may_raise(tm.not_(tm.and_(tm.le(tm.ZERO, j), tm.lt(j, a.n))), "builtins.KeyError", node, str(key))
            rest = self._seg_elem(b)(j)
            if default is not UNDEF:
                rest = I.merge_val(tm.and_(tm.le(tm.ZERO, j), tm.lt(j, a.n)), rest, default, I.st, I.st, I.st)
        elif o.sym is not None:
            rest = I.alloc(XO("elem", tm.opq("getitem", o.sym, I.term_of(key))))
        elif default is not UNDEF:
            rest = default
        elif o.default is not None:
            val = I.call(o.default, [], {}, node)
            self.dict_set(ref, key, val, node)
            rest = val
        else:
            have = tm.or_(*[c for c, _ in cands]) if cands else tm.FALSE
            I.may_raise(tm.not_(have), "builtins.KeyError", node, str(key))
            rest = cands[-1][1]
            cands = cands[:-1]
        for c, v in reversed(cands):
            rest = I.merge_val(c, v, rest, I.st, I.st, I.st)
        return rest

    def dict_set(self, ref, key, val, node):
        I = self.I
        o = I.mut(ref)
        if o.roots:
            I.touch(ref, node, "item assignment")
        o.segs = ()
        ents = list(o.entries)
        for j, (g, k, v) in enumerate(ents):
            c = self.key_eq(k, key)
            if c is tm.TRUE and g is tm.TRUE:
                ents[j] = (tm.TRUE, k, val)
                o.entries = tuple(ents)
                return
            if c is not tm.FALSE:
                if c is tm.TRUE:
                    ents[j] = (tm.TRUE, k, val)
                    o.entries = tuple(ents)
                    return
                ents[j] = (g, k, I.merge_val(c, val, v, I.st, I.st, I.st))
        ents.append((tm.TRUE, key, val))
        o.entries = tuple(ents)

    def dict_update(self, ref, other, node):
        I = self.I
        if I.isobj(other, DictO):
            oo = I.obj(other)
            for g, k, v in oo.entries:
                if g is tm.TRUE:
                    self.dict_set(ref, k, v, node)
                else:
                    def put():
                        self.dict_set(ref, k, v, node)
                        return NONE
                    I.fork(g, put, lambda: NONE)
            if oo.sym is not None:
                o = I.mut(ref)
                o.segs = oo.segs if o.sym is None and not o.entries else ()
                o.sym = oo.sym if o.sym is None else tm.opq("dict-merge", o.sym, oo.sym)
            return
        if I.isobj(other, XO):
            o = I.mut(ref)
            t = I.obj(other).term
            o.segs = ()
            o.sym = t if o.sym is None else tm.opq("dict-merge", o.sym, t)
            return
        for p in self.parts(other, node):
            if p[0] == "item":
                k, v = self.unpack(p[2], 2, node)
                self.dict_set(ref, k, v, node)
            else:
                kv = p[2](tm.IOTA)
                k, v = self.unpack(kv, 2, node)
                t = tm.opq("dictof", I.term_of(k), I.term_of(v), p[1])
                o = I.mut(ref)
                o.segs = ()
                o.sym = t if o.sym is None else tm.opq("dict-merge", o.sym, t)

    def dict_pop(self, ref, key, default, node):
        I = self.I
        v = self.dict_get(ref, key, node, UNDEF if default is None else default)
        o = I.mut(ref)
        if o.roots:
            I.touch(ref, node, "pop")
        o.segs = ()
        ents = []
        for g, k, w in o.entries:
            c = self.key_eq(k, key)
            g2 = tm.and_(g, tm.not_(c))
            if g2 is not tm.FALSE:
                ents.append((g2, k, w))
        o.entries = tuple(ents)
        return v

    def kwargs_of(self, v, node):
        I = self.I
        if isinstance(v, Gated):
            a, b = self.kwargs_of(v.a, node), self.kwargs_of(v.b, node)
            if set(a) != set(b):
                I.unsupported("**kwargs whose names depend on a condition", node)
            return {k: I.merge_val(v.cond, w, b[k]) for k, w in a.items()}
        if I.isobj(v, DictO):
            o = I.obj(v)
            if o.sym is not None or any(g is not tm.TRUE or not isinstance(k, Const) for g, k, _ in o.entries):
                I.unsupported("**kwargs of unknown keys", node)
            return {k.v: w for _, k, w in o.entries}
        I.unsupported("**kwargs of %r" % (v,), node)

    # ------------------------------------------------------------ items
    def arr_at(self, ref, i):
        o = self.I.obj(ref)
        if len(o.shape) > 1:
            return self.mkarr(o.shape[1:], tm.opq("row", o.full(), i), o.dt, o.roots)
        return o.at(i)

    def norm_index(self, i, n):
        if isinstance(i, T) and i.op == "num" and i.args[0] < 0:
            return tm.add(n, i)
        return i

    def getitem(self, x, j, node):
        I = self.I
        if isinstance(x, T) and x.op == "cat" or isinstance(x, Const) and isinstance(x.v, str):
            if isinstance(x, Const) and isinstance(j, T) and j.op == "num":
                try:
                    return Const(x.v[int(j.args[0])])
                except IndexError:
                    I.raise_name("IndexError", node)
            if isinstance(x, Const) and isinstance(j, SliceV):
                s = self.pyslice(j)
                if s is not None:
                    return Const(x.v[s])
            return I.alloc(XO("str", tm.opq("getitem", I.term_of(x), I.term_of(j))))
        if isinstance(x, Ref):
            o = I.obj(x)
            if isinstance(o, DictO):
                return self.dict_get(x, j, node)
            if isinstance(o, ListO):
                return self.list_getitem(x, o, j, node)
            if isinstance(o, ArrO):
                return self.arr_getitem(x, o, j, node)
            if isinstance(o, QO):
                if isinstance(o.mag, T):
                    I.raise_name("TypeError", node, "quantity not subscriptable")
                return self.mkq(I.getitem(o.mag, j, node), o.unit, o.roots)
            if isinstance(o, XO):
                if I.env is not None:
                    r = I.env.item(o, j, node)
                    if r is not None:
                        return r
                # table[f], table.loc[f]: the key is f(table)
                if isinstance(j, (FuncV, BoundM)) and not isinstance(j, ast.AST):
                    base = o.attrs.get("recv") if o.kind == "attr" and o.attrs.get("name") in ("loc", "iloc") else x
                    if base is not None:
                        j = I.call(j, [base], {}, node)
                return I.alloc(XO("item", tm.opq("getitem", o.term, I.term_of(j)), o.roots, {"recv": x, "name": "<item>", "key": j, "owner": True}))
            if isinstance(o, InstO):
                m = I.class_lookup(o.cls, "__getitem__")
                if isinstance(m, FuncV):
                    return I.call(BoundM(m, x), [j], {}, node)
        if isinstance(x, MethV) and x.name == "<dict>" and isinstance(j, Const):
            return I.undef_attr(I.obj(x.recv).attrs.get(j.v, UNDEF), j.v, node, UNDEF) if I.obj(x.recv).attrs.get(j.v, UNDEF) is UNDEF else I.obj(x.recv).attrs[j.v]
        if isinstance(x, IterV):
            items = self.known_items(x, node)
            return self.list_getitem(x, ListO([(tm.TRUE, v) for v in items]), j, node)
        if isinstance(x, LibV):
            if x.path in ("typing.Optional", "typing.Union", "typing.List", "typing.Dict") or x.path.startswith("typing.") or x.path in ("builtins.dict", "builtins.list", "builtins.tuple"):
                return x
            if x.path == UR:
                return self.call(UR, [j], {}, node)
            I.event("libcall", node, path=x.path, nargs=1)
            if I.env is not None:
                r = I.env.libitem(x.path, j, node)
                if r is not None:
                    return r
            return I.alloc(XO("lib", tm.opq("getitem", I.term_of(x), I.term_of(j))))
        if isinstance(x, T):
            if x.op == "opq":
                return tm.opq("getitem", x, I.term_of(j))
            I.raise_name("TypeError", node, "not subscriptable")
        I.raise_name("TypeError", node, "not subscriptable")

    def pyslice(self, s):
        def g(v):
            if v == NONE:
                return None
            if isinstance(v, T) and v.op == "num":
                return int(v.args[0])
            raise ValueError

        try:
            return slice(g(s.lo), g(s.hi), g(s.step))
        except ValueError:
            return None

    def distinct(self, items, kind):
        """the set of some items"""
        I = self.I
        if all(not isinstance(x, Seg) and x[0] is tm.TRUE and isinstance(x[1], Const) for x in items):
            out = []
            for x in items:
                if x[1] not in [y[1] for y in out]:
                    out.append(x)
            return I.alloc(ListO(out, kind))
        if not items or len(items) == 1 and not isinstance(items[0], Seg) or all(not isinstance(x, Seg) and not isinstance(x[1], (T, Const)) for x in items):
            return I.alloc(ListO(items, kind))
        what = []
        for x in items:
            what += [x.n, I.term_of(x.val)] if isinstance(x, Seg) else [I.term_of(x[1])]
        i = tm.atom(I.fresh("i:set"), sign=">=", integer=True, lb=0)
        return I.alloc(ListO([Seg(i, tm.opq("number of distinct", *what), tm.TRUE, tm.opq("distinct", i, *what))], kind))

    def list_getitem(self, ref, o, j, node):
        I = self.I
        if isinstance(j, T) and j.op == "num":
            k = int(j.args[0])
            if all(not isinstance(x, Seg) and x[0] is tm.TRUE for x in o.items):
                if not -len(o.items) <= k < len(o.items):
                    I.raise_name("IndexError", node)
                return o.items[k][1]
            if k >= 0 and k < len(o.items) and all(not isinstance(x, Seg) and x[0] is tm.TRUE for x in o.items[: k + 1]):
                return o.items[k][1]
            if k == 0 and isinstance(o.items[0], Seg) and o.items[0].guard is tm.TRUE:
                return self._seg_elem(o.items[0])(tm.ZERO)
            if k == -1 and o.items and isinstance(o.items[-1], Seg) and o.items[-1].guard is tm.TRUE:
                return self._seg_elem(o.items[-1])(tm.sub(o.items[-1].n, tm.ONE))
            if k == -1 and o.items and not isinstance(o.items[-1], Seg) and o.items[-1][0] is tm.TRUE:
                return o.items[-1][1]
        if isinstance(j, SliceV):
            s = self.pyslice(j)
            if s is not None and all(not isinstance(x, Seg) and x[0] is tm.TRUE for x in o.items):
                return I.alloc(ListO(o.items[s], o.kind))
            if s == slice(None):
                return I.alloc(ListO(o.items, o.kind))
            t = tm.opq("getslice", I.term_of(ref), I.term_of(j))
            return I.alloc(XO("list", t))
        if isinstance(j, T) and len(o.items) == 1 and isinstance(o.items[0], Seg) and o.items[0].guard is tm.TRUE:
            return self._seg_elem(o.items[0])(j)
        if isinstance(j, T) and all(not isinstance(x, Seg) and x[0] is tm.TRUE for x in o.items):
            # symbolic index into a known list
            rest = None
            for k, x in enumerate(o.items):
                c = I.decide(tm.eq(j, tm.num(k)))
                if c is tm.FALSE:
                    continue
                rest = x[1] if rest is None else I.merge_val(c, x[1], rest, I.st, I.st, I.st)
            if rest is not None:
                return rest
        return I.alloc(XO("elem", tm.opq("getitem", I.term_of(ref), I.term_of(j))))

    def arr_getitem(self, ref, o, j, node):
        I = self.I
        if isinstance(j, T) and not tm.is_bool(j):
            if not o.shape:
                I.raise_name("IndexError", node)
            if j.op == "nan":
                I.raise_name("IndexError", node, "nan index")
            j = self.norm_index(j, o.shape[0])
            if o.shape[0].op == "num" and j.op == "num" and not 0 <= j.args[0] < o.shape[0].args[0]:
                I.raise_name("IndexError", node)
            return self.arr_at(ref, j)
        if isinstance(j, Const) and j.v is Ellipsis or j == NONE:
            return self.mkarr(o.shape, o.full(), o.dt, o.roots | {"view:%d" % ref.oid})
        if I.isobj(j, ListO) and I.obj(j).kind == "tuple":
            k = I.obj(j).known()
            if k is not None and (len(k) == 1 or k and len(k) <= len(o.shape) and all(isinstance(s, SliceV) and s.lo == s.hi == s.step == NONE or isinstance(s, Const) and s.v is Ellipsis for s in k[1:])):
                return self.arr_getitem(ref, o, k[0], node)
        if isinstance(j, SliceV) and len(o.shape) == 1:
            s = self.slice_arr(o, j)
            if s is not None:
                return self.mkarr((s[0],), s[1], o.dt, o.roots | {"view:%d" % ref.oid})
        if I.isobj(j, ListO) and I.obj(j).kind == "list" and len(o.shape) == 1:
            k = I.obj(j).known()
            if k and all(isinstance(i, T) and not tm.is_bool(i) for i in k):
                body = None
                for at, i in reversed(list(enumerate(k))):
                    v = self.arr_getitem(ref, o, i, node)
                    body = v if body is None else tm.ite(tm.eq(tm.IOTA, tm.num(at)), v, body)
                return self.mkarr((tm.num(len(k)),), body, o.dt, frozenset())
        t = tm.opq("getitem", I.term_of(ref), I.term_of(j))
        n = tm.opq("len", t)
        return self.mkarr((n,), tm.opq("elem", t, tm.IOTA), o.dt, o.roots if isinstance(j, SliceV) else frozenset())

    def slice_arr(self, o, s):
        n = o.shape[0]
        step = 1 if s.step == NONE else (int(s.step.args[0]) if isinstance(s.step, T) and s.step.op == "num" else None)
        if step == -1 and s.lo == NONE and s.hi == NONE:
            return n, tm.subst(o.full(), {tm.IOTA: tm.sub(tm.sub(n, tm.ONE), tm.IOTA)})
        if step != 1:
            return None
        lo = tm.ZERO if s.lo == NONE else s.lo
        hi = n if s.hi == NONE else s.hi
        if not isinstance(lo, T) or not isinstance(hi, T):
            return None
        lo, hi = self.norm_index(lo, n), self.norm_index(hi, n)
        ln = tm.sub(hi, lo)
        if ln.op == "num" and ln.args[0] < 0:
            ln = tm.ZERO
        return ln, tm.subst(o.full(), {tm.IOTA: tm.add(tm.IOTA, lo)})

    def setitem(self, x, j, val, node):
        I = self.I
        if isinstance(x, Ref):
            o = I.obj(x)
            if isinstance(o, DictO):
                return self.dict_set(x, j, val, node)
            if isinstance(o, ArrO):
                return self.arr_setitem(x, o, j, val, node)
            if isinstance(o, QO):
                I.touch(x, node, "item assignment")
                v = val
                if I.isobj(val, QO):
                    v = self.q_to(val, o.unit, node)
                return self.setitem(o.mag, j, v, node)
            if isinstance(o, ListO):
                if o.kind == "tuple":
                    I.raise_name("TypeError", node, "tuple assignment")
                I.touch(x, node, "item assignment")
                if isinstance(j, T) and j.op == "num" and all(not isinstance(i, Seg) and i[0] is tm.TRUE for i in o.items):
                    k = int(j.args[0])
                    items = list(o.items)
                    if not -len(items) <= k < len(items):
                        I.raise_name("IndexError", node)
                    items[k] = (tm.TRUE, val)
                    I.mut(x).items = tuple(items)
                    return
                if isinstance(j, T) and len(o.items) == 1 and isinstance(o.items[0], Seg) and o.items[0].guard is tm.TRUE and I.decide(tm.lt(j, tm.ZERO)) is tm.FALSE:
                    sg = o.items[0]
                    I.may_raise(tm.not_(tm.lt(j, sg.n)), "builtins.IndexError", node)
                    I.mut(x).items = (Seg(sg.ivar, sg.n, tm.TRUE, I.merge_val(tm.eq(sg.ivar, j), val, sg.val, I.st, I.st, I.st)),)
                    return
                k = j.args[0] if isinstance(j, T) and j.op == "num" else 0
                if -len(o.items) <= k < 0 and all(not isinstance(i, Seg) and i[0] is tm.TRUE for i in o.items[int(k):]):
                    items = list(o.items)
                    items[int(k)] = (tm.TRUE, val)
                    I.mut(x).items = tuple(items)
                    return
                # which item is replaced is not known: neither are the contents
                t = tm.opq("overwritten", I.term_of(x), I.term_of(j), I.term_of(val))
                iv = tm.atom("i:" + I.fresh("overwritten"), sign=">=", integer=True, lb=0)
                I.mut(x).items = (Seg(iv, tm.opq("len", t), tm.TRUE, I.alloc(XO("elem", tm.opq("elem", t, iv), o.roots))),)
                return
            if isinstance(o, XO):
                return I.xmutate(x, "setitem", [j, val], node)
            if isinstance(o, InstO):
                m = I.class_lookup(o.cls, "__setitem__")
                if isinstance(m, FuncV):
                    I.call(BoundM(m, x), [j, val], {}, node)
                    return
        if isinstance(x, MethV) and x.name == "<dict>" and isinstance(j, Const):
            I.mut(x.recv).attrs[j.v] = val
            return
        if isinstance(x, LibV):
            I.event("mutate", node, oid=0, roots=frozenset(["library"]), how="item assignment on %s" % x.path, okind="LibV")
            return
        I.raise_name("TypeError", node, "item assignment")

    def arr_setitem(self, ref, o, j, val, node):
        I = self.I
        if o.roots:
            I.touch(ref, node, "item assignment")
            if any(r.startswith("view:") for r in o.roots):
                I.unsupported("assignment through an array view", node)
        if I.isobj(val, QO):
            q = I.obj(val)
            I.event("strip", node)
            val = q.mag
        n = o.shape[0] if o.shape else tm.ONE
        if isinstance(j, T) and not tm.is_bool(j):
            if j.op == "nan":
                I.raise_name("IndexError", node, "nan index")
            j = self.norm_index(j, n)
            v = self.numterm(val)
            if v is None:
                v = I.term_of(val)
            v = self._cast(o, v)
            if n.op == "num" and j.op == "num" and not 0 <= j.args[0] < n.args[0]:
                I.raise_name("IndexError", node)
            I.event("write", node, oid=ref.oid, idx=j, val=v)
            w = I.mut(ref)
            w.writes = tuple((a, b) for a, b in w.writes if a is not j) + ((j, v),)
            return
        full = isinstance(j, SliceV) and j.lo == NONE and j.hi == NONE and j.step == NONE or isinstance(j, Const) and j.v is Ellipsis
        if full:
            w = I.mut(ref)
            t = self.numterm(val)
            if t is None and I.isobj(val, ArrO):
                t = I.obj(val).full()
            if t is None:
                t = I.term_of(val)
            w.body, w.writes = self._cast(o, t), ()
            return
        if I.isobj(j, ArrO) and I.obj(j).dt == "b":
            m = I.obj(j).full()
            t = self.numterm(val)
            if t is None:
                t = tm.opq("masked", I.term_of(val), tm.IOTA)
            w = I.mut(ref)
            old = o.full()
            w.body, w.writes = tm.ite(m, self._cast(o, t), old), ()
            return
        if isinstance(j, SliceV) and j.step == NONE:
            lo = tm.ZERO if j.lo == NONE else self.norm_index(j.lo, n)
            hi = n if j.hi == NONE else self.norm_index(j.hi, n)
            t = self.numterm(val)
            if t is None and I.isobj(val, ArrO):
                t = tm.subst(I.obj(val).full(), {tm.IOTA: tm.sub(tm.IOTA, lo)})
            if t is None:
                t = tm.opq("elem", I.term_of(val), tm.IOTA)
            inside = tm.and_(tm.le(lo, tm.IOTA), tm.lt(tm.IOTA, hi))
            old = o.full()
            w = I.mut(ref)
            w.body, w.writes = tm.ite(inside, self._cast(o, t), old), ()
            return
        w = I.mut(ref)
        w.body, w.writes = tm.opq("setitem", o.full(), I.term_of(j), I.term_of(val), tm.IOTA), ()

    # ------------------------------------------------------------ attributes
    FINFO = {"eps": Fraction(1, 2**52), "epsneg": Fraction(1, 2**53), "resolution": Fraction(1, 10**15)}

    def attr(self, v, name, node, default):
        if name in self.FINFO and self.I.isobj(v, XO) and self.I.obj(v).term.op == "opq" and str(self.I.obj(v).term.args[0]) == "call:numpy.finfo":
            return tm.num(self.FINFO[name])
        I = self.I
        if isinstance(v, UnitV):
            if name == "dimensionality":
                return self.dimval(v.unit)
            if name == "dimensionless":
                return un.same_dims(v.unit.dims, ())
            return MethV(v, name)
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, QO):
                return self.q_attr(v, o, name, node, default)
            if isinstance(o, ArrO):
                return self.arr_attr(v, o, name, node, default)
            if isinstance(o, XO):
                return self.xattr(v, o, name, node, default)
            if isinstance(o, ListO) or isinstance(o, DictO):
                if hasattr({"list": list, "tuple": tuple, "set": set, "gen": list, "frozenset": frozenset}.get(getattr(o, "kind", ""), dict), name):
                    return MethV(v, name)
                if default is not UNDEF:
                    return default
                I.raise_name("AttributeError", node, name)
        if isinstance(v, T):
            if v.op == "cat":
                return MethV(v, name)
            if v.op in ("opq", "bopq"):
                return I.alloc(XO("attr", tm.opq("attr", v, name), frozenset(), {"recv": I.alloc(XO("scalar", v)), "name": name}))
            if name in ("real",):
                return v
            if name in ("imag",):
                return tm.ZERO
            if name in ("item", "is_integer", "copy", "any", "all", "astype", "conjugate", "tolist", "as_integer_ratio", "squeeze", "round", "sum", "max", "min", "mean"):
                return MethV(v, name)
            if name == "dtype":
                return LibV("numpy.float64")
            if name == "shape" and False:
                return I.mklist([], "tuple")
            if default is not UNDEF:
                return default
            I.raise_name("AttributeError", node, name)
        if isinstance(v, Const):
            if hasattr(v.v, name):
                return MethV(v, name)
            if default is not UNDEF:
                return default
            I.raise_name("AttributeError", node, name)
        if isinstance(v, (IterV, MethV)):
            if isinstance(v, MethV) and v.name == "<dict>":
                return MethV(v, name)
            return MethV(v, name)
        if isinstance(v, PartialV):
            return NONE
        I.unsupported("attribute %s of %r" % (name, v), node)

    def dimval(self, unit):
        return self.I.alloc(XO("dims", un.dims_node(unit.dims), frozenset(), {"dims": unit.dims}))

    Q_METHODS = {
        "to", "ito", "m_as", "to_base_units", "to_root_units", "to_reduced_units", "to_compact", "ito_base_units",
        "ito_root_units", "ito_reduced_units", "check", "is_compatible_with", "tolist", "any", "all", "sum", "mean", "max",
        "min", "copy", "__copy__", "__deepcopy__", "reshape", "clip", "cumsum", "round", "astype", "std", "item", "squeeze",
        "ravel", "flatten", "fill", "argmax", "argmin", "plus_minus", "compare", "__iter__", "__len__", "to_tuple", "prod", "diff", "sort",
    }

    def q_attr(self, ref, o, name, node, default):
        I = self.I
        if name in ("magnitude", "m", "_magnitude"):
            return o.mag
        if name in ("units", "u", "_units"):
            return UnitV(o.unit)
        if name == "dimensionality":
            return self.dimval(o.unit)
        if name in ("dimensionless", "unitless"):
            return un.same_dims(o.unit.dims, ())
        if name == "_REGISTRY":
            return LibV(UR)
        if name in ("shape", "ndim", "size", "dtype", "T", "flat"):
            if isinstance(o.mag, T):
                # a python number has no array attributes
                if default is not UNDEF:
                    return default
                I.raise_name("AttributeError", node, name)
            r = I.getattr_(o.mag, name, node)
            if name == "T":
                return self.mkq(r, o.unit, o.roots)
            return r
        if name in self.Q_METHODS or name in ("__add__",):
            if isinstance(o.mag, T) and name in ("any", "all", "sum", "mean", "max", "min", "cumsum", "reshape", "clip", "squeeze", "astype", "fill"):
                if default is not UNDEF:
                    return default
                I.raise_name("AttributeError", node, name)
            return MethV(ref, name)
        if default is not UNDEF:
            return default
        I.raise_name("AttributeError", node, name)

    def arr_attr(self, ref, o, name, node, default):
        I = self.I
        if name == "shape":
            return I.mklist(list(o.shape), "tuple")
        if name == "ndim":
            return tm.num(len(o.shape))
        if name == "size":
            return tm.mul(*o.shape) if o.shape else tm.ONE
        if name == "T":
            return ref if len(o.shape) < 2 else self.mkarr(o.shape[::-1], tm.opq("T", o.full(), tm.IOTA), o.dt, o.roots)
        if name == "dtype":
            return I.alloc(XO("dtype", tm.opq("dtype:" + o.dt)))
        if name == "flat" or name == "real":
            return ref
        if name in ("magnitude", "units", "m", "u", "to", "dimensionality", "iloc", "loc", "values", "index", "columns"):
            if default is not UNDEF:
                return default
            I.raise_name("AttributeError", node, name)
        return MethV(ref, name)

    def xattr(self, ref, o, name, node, default):
        I = self.I
        if o.kind == "nonq" and name in ("magnitude", "units", "to", "m", "u", "dimensionality", "check", "ito"):
            # an object that is no quantity may still duck-type one
            pass
        return I.alloc(XO("attr", tm.opq("attr", o.term, name), o.roots, {"recv": ref, "name": name}))

    def setattr(self, v, name, val, node):
        I = self.I
        if I.isobj(v, QO):
            I.touch(v, node, "set attribute " + name)
            I.unsupported("attribute assignment on a quantity", node)
        if I.isobj(v, ArrO):
            I.touch(v, node, "set attribute " + name)
            I.unsupported("attribute assignment on an array", node)
        if isinstance(v, (T, Const)):
            I.raise_name("AttributeError", node, name)
        I.unsupported("attribute assignment on %r" % (v,), node)

    # ------------------------------------------------------------ opaque objects
    def xtruth(self, ref):
        o = self.I.obj(ref)
        t = o.term
        # comparisons of opaque scalars used as conditions
        return self.xbool(t)

    def xbool(self, t):
        if t.op == "opq" and t.args[0] == "op:Invert" and False:
            return tm.not_(self.xbool(t.args[1]))
        if tm.is_bool(t):
            return t
        return tm.bopq("truth", t)

    def kwterms(self, args, kwargs):
        out = [self.I.term_of(a) for a in args]
        for k in sorted(kwargs):
            out += ["kw:" + k, self.I.term_of(kwargs[k])]
        return out

    def xcall(self, ref, args, kwargs, node):
        o = self.I.obj(ref)
        return self.I.alloc(XO("lib", tm.opq("call", o.term, *self.kwterms(args, kwargs))))

    def xmethod(self, recv, name, args, kwargs, node):
        if self.I.obj(recv).kind == "progress":
            return recv if name in ("__enter__", "__iter__") else NONE
        I = self.I
        if isinstance(recv, Ref) and I.isobj(recv, InstO):
            I.unsupported("method %s of an instance with an external base" % name, node)
        o = I.obj(recv)
        I.event("xmethod", node, name=name, recv=o.term, args=[I.term_of(a) for a in args], kwargs={k: I.term_of(v) for k, v in kwargs.items()}, kind_=o.kind)
        if I.inject is not None:
            I.inject(None, "." + name, node)
        if I.env is not None:
            r = I.env.method(recv, name, args, kwargs, node)
            if r is not None:
                return r
        inplace = kwargs.get("inplace")
        if name in MUTATORS or (name == "sort" and o.kind in ("array", "attr", "list")) or (inplace is not None and inplace is not tm.FALSE):
            term0 = o.term
            kw = {k: v for k, v in kwargs.items() if k != "inplace"}
            I.xmutate(recv, "m:" + name, list(args) + [x for k in sorted(kw) for x in (Const("kw:" + k), kw[k])], node)
            if inplace is not None:
                return NONE
            return I.alloc(XO("lib", tm.opq("ret:" + name, term0, *self.kwterms(args, kwargs))))
        if name in IDENT_METHODS:
            deep = kwargs.get("deep", args[0] if args else tm.TRUE)
            roots = o.roots if deep is tm.FALSE else frozenset()
            if roots and o.kind == "frame":
                roots = frozenset(r if r.startswith("data:") else "data:" + r for r in roots)
            return I.alloc(XO(o.kind if o.kind != "attr" else "copy", o.term, roots, {k: v for k, v in o.attrs.items() if k not in ("recv", "name", "owner")}))
        if name == "iterrows":
            return IterV("iterrows", [o.term])
        if name == "items" and o.kind not in ("user",):
            t = o.term
            return I.alloc(XO("iter", tm.opq("m:items", t)))
        t = tm.opq("m:" + name, o.term, *self.kwterms(args, kwargs))
        roots = o.roots if name in VIEW_METHODS else frozenset()
        kind = "lib"
        if name == "timeseries":
            kind = "frame"
        elif name == "filter" and o.kind == "ScmRun":
            kind = "ScmRun"
        elif o.kind in ("ScmRun",) and name in ("process_over", "convert_unit", "interpolate", "resample"):
            kind = "lib"
        elif name in ("all", "any") and not args and not kwargs:
            kind = "scalar"
        elif o.kind in ("str", "const") and name in ("format", "lower", "strip", "replace"):
            kind = "str"
        return I.alloc(XO(kind, t, roots))

    # ------------------------------------------------------------ methods
    def method(self, recv, name, args, kwargs, node):
        I = self.I
        if I.env is not None:
            r = I.env.method(recv, name, args, kwargs, node)
            if r is not None:
                return r
        if name == "<object.__setattr__>":
            I.obj_setattr(recv, args[0].v, args[1], node)
            return NONE
        if isinstance(recv, MethV) and recv.name == "<dict>":
            inst = recv.recv
            if name == "get" and isinstance(args[0], Const):
                v = I.obj(inst).attrs.get(args[0].v, UNDEF)
                d = args[1] if len(args) > 1 else NONE
                return I.undef_attr(v, args[0].v, node, d) if v is UNDEF or isinstance(v, Gated) and UNDEF in (v.a, v.b) else v
            if name in ("items", "keys", "values", "copy"):
                d = I.mkdict([(Const(k), w) for k, w in I.obj(inst).attrs.items()])
                return d if name == "copy" else IterV(name, [d])
            if name == "update" and args and I.isobj(args[0], DictO):
                for g, k, w in I.obj(args[0]).entries:
                    I.mut(inst).attrs[k.v] = w
                return NONE
            if name == "pop" and isinstance(args[0], Const):
                o = I.mut(inst)
                v = o.attrs.pop(args[0].v, UNDEF)
                if v is UNDEF:
                    if len(args) > 1:
                        return args[1]
                    I.raise_name("KeyError", node)
                return v
            I.unsupported("__dict__.%s" % name, node)
        if isinstance(recv, Const) and isinstance(recv.v, str) or isinstance(recv, T) and recv.op == "cat":
            return self.str_method(recv, name, args, kwargs, node)
        if isinstance(recv, UnitV):
            if name == "is_compatible_with":
                u = self.unit_arg(args[0], node)
                return un.same_dims(recv.unit.dims, u.dims)
            if name == "__str__":
                return recv.unit.label
            I.unsupported("Unit.%s" % name, node)
        if isinstance(recv, T):
            if name in ("item", "copy", "conjugate", "astype", "tolist", "squeeze", "sum", "max", "min", "mean"):
                if name == "astype" and args and not self.floatdtype(args[0]):
                    return tm.fn("cast", recv, I.term_of(args[0]))
                return recv
            if name in ("any", "all"):
                return I.truth(recv)
            if name == "is_integer":
                return tm.bopq("is_integer", recv)
            return tm.opq("m:" + name, recv, *self.kwterms(args, kwargs))
        if isinstance(recv, Ref):
            o = I.obj(recv)
            if isinstance(o, ListO):
                return self.list_method(recv, o, name, args, kwargs, node)
            if isinstance(o, DictO):
                return self.dict_method(recv, o, name, args, kwargs, node)
            if isinstance(o, ArrO):
                return self.arr_method(recv, o, name, args, kwargs, node)
            if isinstance(o, QO):
                return self.q_method(recv, o, name, args, kwargs, node)
            if isinstance(o, XO):
                return self.xmethod(recv, name, args, kwargs, node)
            if isinstance(o, InstO):
                if name in ("with_traceback",):
                    return recv
                if name == "__init__":
                    return NONE
        if isinstance(recv, IterV):
            if name == "__next__":
                return self.call("builtins.next", [recv], {}, node)
            if name in ("close", "update", "set_description", "refresh", "set_postfix"):
                return NONE
        if isinstance(recv, Const):
            I.unsupported("method %s of %r" % (name, recv), node)
        I.unsupported("method %s of %r" % (name, recv), node)

    def floatdtype(self, v):
        if isinstance(v, LibV):
            return v.path in ("builtins.float", "numpy.float64", "numpy.double", "numpy.floating", "numpy.float_")
        if isinstance(v, Const):
            return v.v in ("float", "float64", "f8", "d", None, float)
        return False

    def str_method(self, recv, name, args, kwargs, node):
        I = self.I
        if name == "format":
            if not isinstance(recv, Const):
                return I.alloc(XO("str", tm.opq("m:format", recv, *self.kwterms(args, kwargs))))
            return self.str_format(recv.v, args, kwargs, node)
        if name == "join":
            items = self.list_items(args[0], node)
            parts = []
            for k, x in enumerate(items):
                if isinstance(x, Seg) or x[0] is not tm.TRUE:
                    return I.alloc(XO("str", tm.opq("join", I.term_of(recv), I.term_of(args[0]))))
                if k:
                    parts.append(self.strterm(recv))
                s = self.strterm(x[1])
                parts.append(s if s is not None else tm.opq("str", I.term_of(x[1])))
            return self.mkstr(*parts)
        if isinstance(recv, Const) and all(isinstance(a, Const) or isinstance(a, T) and a.op == "num" for a in args) and not kwargs:
            pa = [a.v if isinstance(a, Const) else int(a.args[0]) for a in args]
            try:
                r = getattr(recv.v, name)(*pa)
            except Exception as e:
                I.raise_name(type(e).__name__, node)
            return self.topy(r)
        return I.alloc(XO("str", tm.opq("m:" + name, I.term_of(recv), *self.kwterms(args, kwargs))))

    def topy(self, r):
        I = self.I
        if isinstance(r, bool):
            return tm.TRUE if r else tm.FALSE
        if isinstance(r, (int, float)):
            return tm.num(r)
        if isinstance(r, (list, tuple)):
            return I.mklist([self.topy(x) for x in r], "list" if isinstance(r, list) else "tuple")
        return Const(r)

    def str_format(self, fmt, args, kwargs, node):
        I = self.I
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            head = field
            rest = ""
            for k, ch in enumerate(field):
                if ch in ".[":
                    head, rest = field[:k], field[k:]
                    break
            if head == "":
                if auto >= len(args):
                    I.raise_name("IndexError", node)
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            else:
                if head not in kwargs:
                    I.raise_name("KeyError", node)
                v = kwargs[head]
            while rest:
                if rest[0] == ".":
                    k = 1
                    while k < len(rest) and rest[k] not in ".[":
                        k += 1
                    v = I.getattr_(v, rest[1:k], node)
                    rest = rest[k:]
                else:
                    k = rest.index("]")
                    key = rest[1:k]
                    v = I.getitem(v, tm.num(int(key)) if key.isdigit() else Const(key), node)
                    rest = rest[k + 1:]
            parts.append(self.format_piece(v, Const(spec) if spec else None, node))
        return self.mkstr(*parts)

    def percent(self, a, b, node):
        I = self.I
        if not isinstance(a, Const):
            return I.alloc(XO("str", tm.opq("op:Mod", I.term_of(a), I.term_of(b))))
        args = I.obj(b).known() if I.isobj(b, ListO) and I.obj(b).kind == "tuple" else [b]
        parts = []
        s = a.v
        k = 0
        n = 0
        while k < len(s):
            if s[k] == "%":
                if s[k + 1 : k + 2] == "%":
                    parts.append("%")
                    k += 2
                    continue
                if s[k + 1 : k + 2] in ("s", "r", "d"):
                    parts.append(self.format_piece(args[n], None, node))
                    n += 1
                    k += 2
                    continue
                return I.alloc(XO("str", tm.opq("op:Mod", I.term_of(a), I.term_of(b))))
            parts.append(s[k])
            k += 1
        return self.mkstr(*parts)

    def list_method(self, ref, o, name, args, kwargs, node):
        I = self.I
        if name in ("append", "add"):
            if o.roots:
                I.touch(ref, node, name)
            if name == "add" and any(not isinstance(x, Seg) and veq(x[1], args[0]) for x in o.items):
                return NONE
            w = I.mut(ref)
            w.items = w.items + ((tm.TRUE, args[0]),)
            return NONE
        if name == "extend" or name == "update":
            self.list_extend(ref, args[0], node)
            return NONE
        if name in ("copy",):
            return I.alloc(ListO(o.items, o.kind))
        if name == "insert":
            if o.roots:
                I.touch(ref, node, name)
            if isinstance(args[0], T) and args[0].op == "num":
                k = int(args[0].args[0])
                items = list(o.items)
                items.insert(k, (tm.TRUE, args[1]))
                I.mut(ref).items = tuple(items)
                return NONE
        if name == "pop":
            if o.roots:
                I.touch(ref, node, name)
            k = int(args[0].args[0]) if args and isinstance(args[0], T) and args[0].op == "num" else -1
            kn = o.known()
            if kn is not None:
                if not kn:
                    I.raise_name("IndexError", node)
                items = list(o.items)
                v = items.pop(k)[1]
                I.mut(ref).items = tuple(items)
                return v
        if name == "clear":
            I.mut(ref).items = ()
            return NONE
        if name == "reverse":
            kn = o.known()
            if kn is not None:
                I.mut(ref).items = tuple(reversed(o.items))
                return NONE
        if name == "index":
            kn = o.known()
            if kn is not None:
                for k, x in enumerate(kn):
                    c = I.decide(I.truth(self.equals(x, args[0], node)))
                    if c is tm.TRUE:
                        return tm.num(k)
                    if c is not tm.FALSE:
                        break
                else:
                    I.raise_name("ValueError", node)
            return tm.opq("index", I.term_of(ref), I.term_of(args[0]))
        if name == "count":
            return tm.opq("count", I.term_of(ref), I.term_of(args[0]))
        if name == "sort":
            w = I.mut(ref)
            t = I.term_of(ref)
            if all(isinstance(x[1], Const) for x in o.items if not isinstance(x, Seg)) and o.known() is not None and not kwargs:
                w.items = tuple(sorted(o.items, key=lambda x: x[1].v))
                return NONE
            i = tm.atom(I.fresh("i:sort"), sign=">=", integer=True, lb=0)
            w.items = (Seg(i, self.list_len(o), tm.TRUE, I.alloc(XO("elem", tm.opq("sorted", t, i)))),)
            return NONE
        if name in ("union", "difference", "intersection"):
            other = args[0]
            if not I.isobj(other, ListO):
                other = I.alloc(ListO(self.list_items(other, node), "set"))
            return self.list_binop({"union": "BitOr", "difference": "Sub", "intersection": "BitAnd"}[name], ref, other, node)
        if name in ("issubset", "issuperset", "remove", "discard"):
            if name in ("remove", "discard"):
                kn = o.known()
                if kn is not None:
                    I.mut(ref).items = tuple(x for x in o.items if not veq(x[1], args[0]))
                    return NONE
            return tm.bopq(name, I.term_of(ref), I.term_of(args[0]))
        I.unsupported("list method %s" % name, node)

    def dict_method(self, ref, o, name, args, kwargs, node):
        I = self.I
        if name == "get":
            return self.dict_get(ref, args[0], node, args[1] if len(args) > 1 else kwargs.get("default", NONE))
        if name in ("items", "keys", "values"):
            return IterV(name, [ref])
        if name == "update":
            if args:
                self.dict_update(ref, args[0], node)
            for k, v in kwargs.items():
                self.dict_set(ref, Const(k), v, node)
            return NONE
        if name == "copy":
            c = o.clone()
            c.roots = frozenset()
            return I.alloc(c)
        if name == "pop":
            return self.dict_pop(ref, args[0], args[1] if len(args) > 1 else None, node)
        if name == "setdefault":
            has = self.dict_has(ref, args[0])
            d = args[1] if len(args) > 1 else NONE

            def put():
                self.dict_set(ref, args[0], d, node)
                return d

            return I.fork(has, lambda: self.dict_get(ref, args[0], node), put)
        if name == "clear":
            w = I.mut(ref)
            w.entries, w.sym, w.segs = (), None, ()
            return NONE
        I.unsupported("dict method %s" % name, node)

    def q_method(self, ref, o, name, args, kwargs, node):
        I = self.I
        if name in ("to", "m_as"):
            u = self.unit_arg(args[0] if args else kwargs.get("other"), node)
            m = self.q_to(ref, u, node)
            return m if name == "m_as" else self.mkq(m, u, o.roots)
        if name in INPLACE_UNIT:
            u = self.unit_arg(args[0], node) if name == "ito" else self.si(o.unit)
            I.touch(ref, node, name)
            m = self.q_to(ref, u, node)
            if I.isobj(o.mag, ArrO) and m != o.mag:
                self.arr_replace(o.mag, m, node)
                m = o.mag
            w = I.mut(ref)
            w.mag, w.unit = m, u
            return NONE
        if name in ("to_base_units", "to_root_units"):
            u = self.si(o.unit)
            return self.mkq(self.q_to(ref, u, node), u, o.roots)
        if name in ("to_reduced_units", "to_compact"):
            u = o.unit
            if u.dims == ():
                return self.mkq(self.q_to(ref, un.DIMLESS, node), un.DIMLESS, o.roots)
            s = tm.atom("u:reduced:%d" % u.label.id, sign="+")
            u2 = un.Unit(s, u.dims, tm.opq("reduced", u.label))
            return self.mkq(self.q_to(ref, u2, node), u2, o.roots)
        if name in ("check", "is_compatible_with"):
            a = args[0]
            if isinstance(a, Const) and isinstance(a.v, str) and "[" in a.v:
                return tm.bopq("check", un.dims_node(o.unit.dims), a.v)
            if I.isobj(a, XO) and "dims" in I.obj(a).attrs:
                return un.same_dims(o.unit.dims, I.obj(a).attrs["dims"])
            return un.same_dims(o.unit.dims, self.unit_arg(a, node).dims)
        if name in ("copy", "__copy__", "__deepcopy__"):
            return self.copyval(ref, True)
        if name == "tolist":
            return I.alloc(ListO(self.list_items(ref, node), "list"))
        if name in ("any", "all"):
            return I.call(I.getattr_(o.mag, name, node), args, kwargs, node)
        if name == "__len__":
            return self.call("builtins.len", [ref], {}, node)
        if name == "item":
            return self.mkq(I.call(I.getattr_(o.mag, name, node), args, kwargs, node), o.unit)
        if name == "round":
            return self.mkq(self.apply_fn("rint", [o.mag], node), o.unit)
        if name in ("fill", "sort"):
            I.touch(ref, node, name)
        r = I.call(I.getattr_(o.mag, name, node), [self.q_to(a, o.unit, node) if I.isobj(a, QO) else a for a in args], kwargs, node)
        if name in ("argmax", "argmin"):
            return r
        return self.mkq(r, o.unit, o.roots)

    def si(self, u):
        if u.dims == () or not u.dyn:
            names = {"[length]": "meter", "[time]": "second", "[mass]": "kilogram", "[temperature]": "kelvin", "[current]": "ampere", "[substance]": "mole", "[luminosity]": "candela"}
            lab = un._label({names.get(k, k): v for k, v in u.dims}, "")
            return un.Unit(tm.ONE, u.dims, tm.cat(lab)) if u.dims else un.DIMLESS
        return un.Unit(tm.ONE, u.dims, tm.opq("base", u.label))

    def unit_arg(self, v, node):
        I = self.I
        if isinstance(v, UnitV):
            return v.unit
        if I.isobj(v, QO):
            q = I.obj(v)
            return q.unit
        if isinstance(v, Const) and isinstance(v.v, str):
            try:
                val, u = un.parse(v.v)
                return u
            except un.UnknownUnit:
                return un.Unit(tm.atom("u:" + v.v, sign="+"), (("[%s]" % v.v, Fraction(1)),), tm.cat(v.v))
        if isinstance(v, Gated):
            a, b = self.unit_arg(v.a, node), self.unit_arg(v.b, node)
            if a == b:
                return a
            return un.Unit(tm.ite(v.cond, a.factor, b.factor), a.dims if a.dims == b.dims else ("dyn", tm.ite(v.cond, un.dims_node(a.dims), un.dims_node(b.dims))), tm.ite(v.cond, a.label, b.label))
        if v is None:
            return un.DIMLESS
        t = I.term_of(v)
        return self.dyn_unit(t)

    def dyn_unit(self, t):
        f = tm.opq("unit-factor", t)
        return un.Unit(f, ("dyn", tm.opq("unit-dims", t)), t)

    def arr_method(self, ref, o, name, args, kwargs, node):
        I = self.I
        if name in ("any", "all", "sum", "mean", "max", "min", "prod", "std", "var", "nanmax"):
            return self.reduce(name, ref, node)
        if name in ("copy", "__copy__", "__deepcopy__"):
            return self.mkarr(o.shape, o.full(), o.dt)
        if name in ("ravel", "squeeze", "view", "reshape", "flatten", "transpose"):
            if len(o.shape) == 1 and (name != "reshape" or (args and args[0] is tm.num(-1))):
                return self.mkarr(o.shape, o.full(), o.dt, o.roots | {"view:%d" % ref.oid} if name != "flatten" else frozenset())
            n = tm.mul(*o.shape) if o.shape else tm.ONE
            return self.mkarr((n,), o.full(), o.dt, o.roots)
        if name == "astype":
            if self.floatdtype(args[0]):
                return self.mkarr(o.shape, o.full(), "f")
            return self.mkarr(o.shape, tm.fn("cast", o.full(), I.term_of(args[0])), "i")
        if name == "tolist":
            return I.alloc(ListO(self.list_items(ref, node), "list"))
        if name == "item":
            return self.arr_at(ref, args[0] if args else tm.ZERO) if o.shape else o.full()
        if name == "fill":
            I.touch(ref, node, name) if o.roots else None
            w = I.mut(ref)
            w.body, w.writes = self._cast(o, self.numterm(args[0]) or I.term_of(args[0])), ()
            return NONE
        if name in ("clip", "round", "cumsum", "cumprod"):
            return self.call("numpy." + name, [ref] + list(args), kwargs, node)
        if name in ("sort", "put", "itemset", "resize"):
            if o.roots:
                I.touch(ref, node, name)
            t = tm.opq("m:" + name, o.full(), *self.kwterms(args, kwargs))
            w = I.mut(ref)
            w.body, w.writes = tm.opq("elem", t, tm.IOTA), ()
            return NONE
        if name == "__len__":
            return o.shape[0]
        if name in ("dropna", "diff"):
            I.raise_name("AttributeError", node, name)
        t = tm.opq("m:" + name, I.term_of(ref), *self.kwterms(args, kwargs))
        return I.alloc(XO("lib", t))

    def reduce(self, name, ref, node):
        I = self.I
        if I.isobj(ref, XO):
            return I.alloc(XO("scalar", tm.opq("m:" + name, I.obj(ref).term)))
        if I.isobj(ref, QO):
            q = I.obj(ref)
            if isinstance(q.mag, T):
                r = q.mag
                return I.truth(r) if name in ("any", "all") else ref
            r = self.reduce(name, q.mag, node)
            return r if name in ("any", "all") else self.mkq(r, q.unit)
        if isinstance(ref, T):
            return I.truth(ref) if name in ("any", "all") else ref
        if I.isobj(ref, ListO) or isinstance(ref, IterV):
            ref = self.to_array(ref, node)
            if not I.isobj(ref, ArrO):
                return I.alloc(XO("scalar", tm.opq("m:" + name, I.term_of(ref))))
        o = I.obj(ref)
        if not o.shape:
            return I.truth(o.full()) if name in ("any", "all") else o.full()
        n = o.shape[0] if len(o.shape) == 1 else tm.mul(*o.shape)
        vals = None
        if n.op == "num" and n.args[0] <= 12:
            vals = [o.at(tm.num(k)) for k in range(int(n.args[0]))]
        if name in ("any", "all"):
            if vals is not None:
                return (tm.or_ if name == "any" else tm.and_)(*[self.tobool(v) for v in vals]) if vals else (tm.FALSE if name == "any" else tm.TRUE)
            b = self.tobool(o.full())
            return (tm.any_ if name == "any" else tm.all_)(b, n)
        if name == "sum" and vals is None and tm.is_bool(o.full()):
            return tm.opq("ntrue", o.full(), n)
        if vals:
            if name == "sum":
                return tm.add(*[self._n(v) for v in vals])
            if name == "mean":
                return tm.div(tm.add(*[self._n(v) for v in vals]), tm.num(len(vals)))
            if name in ("max", "min"):
                r = vals[0]
                for v in vals[1:]:
                    c = tm.lt(r, v) if name == "max" else tm.lt(v, r)
                    r = tm.ite(tm.or_(tm.isnan(v), c), v, r) if tm.may_be_nan(v) else tm.ite(c, v, r)
                return r
        return tm.opq(name, o.full(), n)

    # ------------------------------------------------------------ conversions
    def to_array(self, v, node, dtype=None):
        I = self.I
        if I.isobj(v, ArrO):
            o = I.obj(v)
            return self.mkarr(o.shape, o.full(), "f" if dtype is not None and self.floatdtype(dtype) else o.dt)
        if isinstance(v, T):
            return self.mkarr((), v, "f")
        if I.isobj(v, ListO) or isinstance(v, IterV):
            items = self.list_items(v, node)
            if not any(isinstance(x, Seg) for x in items) and all(x[0] is tm.TRUE for x in items):
                ts = [self.numterm(x[1]) for x in items]
                if all(t is not None for t in ts):
                    body = tm.opq("undefined", tm.IOTA)
                    dt = "f" if any(not (t.op == "num" and t.args[0].denominator == 1) for t in ts) else "i"
                    if dtype is not None and self.floatdtype(dtype):
                        dt = "f"
                    if all(tm.is_bool(x[1]) for x in items if isinstance(x[1], T)) and items:
                        return self.mkarr((tm.num(len(ts)),), body, "b", writes=[(tm.num(k), x[1]) for k, x in enumerate(items)])
                    if ts and all(t is ts[0] for t in ts):
                        return self.mkarr((tm.num(len(ts)),), ts[0], dt)
                    return self.mkarr((tm.num(len(ts)),), body, dt, writes=[(tm.num(k), t) for k, t in enumerate(ts)])
                if all(I.isobj(x[1], QO) for x in items) and items:
                    I.event("strip", node)
                    return self.to_array(I.mklist([I.obj(x[1]).mag for x in items]), node)
            if len(items) == 1 and isinstance(items[0], Seg) and items[0].guard is tm.TRUE:
                s = items[0]
                t = self.numterm(s.val)
                if t is None and I.isobj(s.val, QO):
                    t = self.numterm(I.obj(s.val).mag)
                if t is not None:
                    return self.mkarr((s.n,), tm.subst(t, {s.ivar: tm.IOTA}), "f")
            return I.alloc(XO("array", tm.opq("call:numpy.array", I.term_of(v) if not isinstance(v, IterV) else I.term_of(v))))
        if I.isobj(v, QO):
            I.event("strip", node)
            return self.to_array(I.obj(v).mag, node, dtype)
        if I.isobj(v, XO):
            return I.alloc(XO("array", I.obj(v).term))
        return I.alloc(XO("array", tm.opq("call:numpy.array", I.term_of(v))))

    def copyval(self, v, deep, memo=None):
        I = self.I
        memo = {} if memo is None else memo
        if isinstance(v, Gated):
            return Gated(v.cond, self.copyval(v.a, deep, memo), self.copyval(v.b, deep, memo))
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = I.obj(v)
        if isinstance(o, (ClsO, ModO, FrameO)):
            return v
        c = o.clone()
        if isinstance(o, XO):
            c.attrs = {k: x for k, x in c.attrs.items() if k not in ("recv", "name")}
        # copy.copy of a data frame is DataFrame.copy(): deep by default
        c.roots = frozenset() if deep or isinstance(o, ArrO) or isinstance(o, XO) and o.kind == "frame" else o.roots
        r = I.alloc(c)
        memo[v.oid] = r
        if isinstance(o, QO):
            c.mag = self.copyval(o.mag, deep, memo)
        if deep:
            if isinstance(o, ListO):
                c.items = tuple(Seg(x.ivar, x.n, x.guard, self.copyval(x.val, True, memo)) if isinstance(x, Seg) else (x[0], self.copyval(x[1], True, memo)) for x in o.items)
            elif isinstance(o, DictO):
                c.entries = tuple((g, self.copyval(k, True, memo), self.copyval(w, True, memo)) for g, k, w in o.entries)
            elif isinstance(o, InstO):
                c.attrs = {k: self.copyval(w, True, memo) for k, w in o.attrs.items()}
        return r

    # ------------------------------------------------------------ context managers
    def enter(self, cm, node):
        I = self.I
        if I.isobj(cm, InstO):
            m = I.class_lookup(I.obj(cm).cls, "__enter__")
            if isinstance(m, FuncV):
                return I.call(BoundM(m, cm), [], {}, node)
        if I.isobj(cm, ListO) and I.obj(cm).kind == "gen":
            k = I.obj(cm).known()
            return k[0] if k else NONE
        if isinstance(cm, IterV) or I.isobj(cm, XO) and I.obj(cm).kind == "progress":
            return cm
        return I.alloc(XO("lib", tm.opq("enter", I.term_of(cm))))

    def suppresses(self, cm):
        I = self.I
        if I.isobj(cm, XO) and "suppress" in I.obj(cm).attrs:
            return I.obj(cm).attrs["suppress"]
        return None

    def class_list(self, v):
        I = self.I
        if I.isobj(v, ListO):
            return [c for x in I.obj(v).known() for c in self.class_list(x)]
        return [v]

    def is_exc_class(self, cls):
        return "builtins.BaseException" in self.I.exc_names(cls)

    # ------------------------------------------------------------ isinstance
    def isinst(self, v, cls, node):
        I = self.I
        if I.isobj(cls, ListO):
            return tm.or_(*[self.isinst(v, c, node) for c in I.obj(cls).known()])
        if isinstance(cls, LibV):
            p = I_ALIAS(cls.path)
        elif I.isobj(cls, ClsO):
            p = None
        elif isinstance(cls, LibV) is False and isinstance(cls, (Const, T)):
            I.raise_name("TypeError", node, "isinstance")
        else:
            return tm.bopq("isinstance", I.term_of(v), I.term_of(cls))
        if p == "builtins.object":
            return tm.TRUE
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, InstO):
                return tm.TRUE if any(c == cls or I.cls_name(c) == (p or I.cls_name(cls)) for c in I.mro(o.cls)) or (p and p in I.exc_names(o.cls)) else tm.FALSE
            if isinstance(o, XO):
                if p is None:
                    return tm.FALSE
                if o.kind == "ScmRun" and p in ("scmdata.run.ScmRun",):
                    return tm.TRUE
                if o.kind == "nonq" and p == "pint.Quantity":
                    return tm.FALSE
                if o.kind == "frame" and p in ("pandas.DataFrame", "pandas.core.frame.DataFrame"):
                    return tm.TRUE
                if o.kind == "frame" and p.split(".")[0] in ("scmdata", "pint", "pyam", "builtins", "numpy"):
                    return tm.FALSE
                if o.kind == "ScmRun" and p.split(".")[0] in ("pandas", "pint", "pyam", "builtins", "numpy"):
                    return tm.FALSE
                if o.kind == "ScmRun" and p.startswith("scmdata.") and p.endswith(".BaseScmRun"):
                    return tm.TRUE
                return tm.bopq("isinstance", o.term, p)
            if p is None:
                return tm.FALSE
            if isinstance(o, QO):
                return tm.TRUE if p in ("pint.Quantity",) else tm.FALSE
            if isinstance(o, ArrO):
                return tm.TRUE if p in ("numpy.ndarray", "collections.abc.Iterable", "collections.abc.Sized") else tm.FALSE
            if isinstance(o, ListO):
                k = {"list": "builtins.list", "tuple": "builtins.tuple", "set": "builtins.set"}.get(o.kind)
                return tm.TRUE if p == k or p in ("collections.abc.Iterable", "collections.abc.Sequence", "typing.Iterable") else tm.FALSE
            if isinstance(o, DictO):
                return tm.TRUE if p in ("builtins.dict", "collections.abc.Mapping", "collections.abc.Iterable") else tm.FALSE
            if isinstance(o, ClsO):
                return tm.TRUE if p == "builtins.type" else tm.FALSE
            return tm.FALSE
        if p is None:
            return tm.FALSE
        if isinstance(v, T):
            if v.op == "cat":
                return tm.TRUE if p == "builtins.str" else tm.FALSE
            if tm.is_bool(v):
                return tm.TRUE if p in ("builtins.bool", "builtins.int", "numbers.Number", "numpy.bool_") else tm.FALSE
            if p in ("numbers.Number", "numbers.Real"):
                return tm.TRUE
            if p in ("builtins.int", "builtins.float", "numpy.floating", "numpy.number", "numpy.integer", "numpy.float64", "numbers.Integral", "numpy.generic"):
                if p == "builtins.float" and v.op == "nan":
                    return tm.TRUE
                return tm.bopq("isinstance", tm.opq("type-of", v), p) if p != "builtins.float" or True else tm.TRUE
            if v.op == "opq":
                return tm.bopq("isinstance", v, p)
            return tm.FALSE
        if isinstance(v, Const):
            if p.startswith("builtins."):
                k = getattr(builtins, p[9:], None)
                if isinstance(k, type):
                    return tm.TRUE if isinstance(v.v, k) else tm.FALSE
            return tm.FALSE
        if isinstance(v, UnitV):
            return tm.TRUE if p in ("pint.Unit", "pint.unit.Unit") else tm.FALSE
        if isinstance(v, (FuncV, BoundM)):
            return tm.FALSE
        return tm.bopq("isinstance", I.term_of(v), p)

    def hasattr_(self, v, name, node):
        I = self.I
        if isinstance(v, Gated):
            return I.lift(v, lambda x: self.hasattr_(x, name, node))
        if I.isobj(v, XO):
            k = KNOWN_ATTRS.get(name, {}).get(I.obj(v).kind)
            return k if k is not None else tm.bopq("hasattr", I.obj(v).term, name)
        if I.isobj(v, InstO):
            # evaluate with a default so that no exception is recorded
            marker = Const("<missing>")
            keep = (I.st.clone(), len(I.events))
            r = I.inst_attr(v, I.obj(v), name, node, marker)
            I.st = keep[0]
            del I.events[keep[1]:]
            if isinstance(r, Gated) and marker in (r.a, r.b):
                return tm.not_(r.cond) if r.a == marker else r.cond
            return tm.FALSE if r == marker else tm.TRUE
        if I.isobj(v, QO):
            m = Const("<missing>")
            return tm.FALSE if self.q_attr(v, I.obj(v), name, node, m) == m else tm.TRUE
        m = Const("<missing>")
        return tm.FALSE if I.getattr_(v, name, node, m) == m else tm.TRUE

    # ------------------------------------------------------------ elementwise functions
    def apply_fn(self, name, args, node):
        I = self.I
        x = args[0]
        if isinstance(x, Gated):
            return I.lift(x, lambda y: self.apply_fn(name, [y] + list(args[1:]), node))
        if I.isobj(x, QO):
            q = I.obj(x)
            if name in ("abs", "absolute", "fabs", "negative", "positive", "floor", "ceil", "rint", "trunc", "real", "nan_to_num", "round"):
                return self.mkq(self.apply_fn(name, [q.mag], node), q.unit)
            if name == "sqrt":
                return self.mkq(self.apply_fn(name, [q.mag], node), un.power(q.unit, HALF))
            if name == "square":
                return self.mkq(self.apply_fn(name, [q.mag], node), un.power(q.unit, 2))
            if name == "reciprocal":
                return self.mkq(self.apply_fn(name, [q.mag], node), un.power(q.unit, -1))
            if name == "sign":
                return self.apply_fn(name, [q.mag], node)
            I.may_raise(tm.not_(un.same_dims(q.unit.dims, ())), "pint.errors.DimensionalityError", node)
            return self.mkq(self.apply_fn(name, [self.qscale(q.mag, q.unit.factor)], node), un.DIMLESS)
        if I.isobj(x, XO):
            return I.alloc(XO("expr", tm.opq("fn:" + name, I.obj(x).term)))
        if I.isobj(x, ListO):
            x = self.to_array(x, node)
        if isinstance(x, Const) or isinstance(x, LibV):
            I.raise_name("TypeError", node, name)
        return self.elem_map(lambda t: self.scalar_fn(name, self._n(t)), x, node=node)

    def isnan_(self, x, node):
        I = self.I
        if isinstance(x, Gated):
            return I.lift(x, lambda y: self.isnan_(y, node))
        if I.isobj(x, QO):
            return self.isnan_(I.obj(x).mag, node)
        if I.isobj(x, XO):
            return I.alloc(XO("expr", tm.opq("fn:isnan", I.obj(x).term)))
        if I.isobj(x, ListO):
            x = self.to_array(x, node)
        if isinstance(x, T) or I.isobj(x, ArrO):
            return self.elem_map(lambda t: tm.FALSE if tm.is_bool(t) else tm.isnan(t), x, node=node)
        I.raise_name("TypeError", node, "isnan")

    def shape_arg(self, v, node):
        I = self.I
        if isinstance(v, T):
            return (v,)
        if I.isobj(v, ListO):
            k = I.obj(v).known()
            if k is not None:
                return tuple(self.numterm(x) or I.term_of(x) for x in k)
        if I.isobj(v, XO):
            return (tm.opq("size-of", I.obj(v).term),)
        I.unsupported("array shape %r" % (v,), node)

    def like(self, v, node):
        """(shape, dt) of an array-like"""
        I = self.I
        if I.isobj(v, QO):
            return self.like(I.obj(v).mag, node)
        if I.isobj(v, ArrO):
            o = I.obj(v)
            return o.shape, o.dt
        if isinstance(v, T):
            return (), "f"
        if I.isobj(v, ListO):
            return (self.list_len(I.obj(v)),), "m"
        return (tm.opq("len", I.term_of(v)),), "m"

    def dtype_kw(self, kwargs, args, pos, dflt, node):
        d = kwargs.get("dtype", args[pos] if len(args) > pos else None)
        if d is None or d == NONE:
            return dflt
        if self.floatdtype(d):
            return "f"
        if isinstance(d, LibV) and d.path in ("builtins.bool", "numpy.bool_"):
            return "b"
        if self.I.isobj(d, XO):
            s = tm.show(self.I.obj(d).term)
            if s.startswith("dtype:"):
                return s[6:]
        return "i"

    # ------------------------------------------------------------ calls
    def call(self, path, args, kwargs, node):
        I = self.I
        path = I_ALIAS(path)
        I.event("libcall", node, path=path, nargs=len(args))
        if I.inject is not None:
            I.inject(None, path, node)
        h = I.hooks.get("lib:" + path)
        if h is not None:
            r = h(I, path, args, kwargs, node)
            if r is not None:
                return r
        if I.env is not None:
            r = I.env.call(path, args, kwargs, node)
            if r is not None:
                return r
        root, _, name = path.rpartition(".")
        if root == "builtins":
            return self.builtin(name, args, kwargs, node)
        if root == "numpy" or root == "math" or root.startswith("numpy."):
            return self.numpy(root, name, args, kwargs, node)
        if root == "operator":
            if name in BINNAMES:
                return I.lift2(args[0], args[1], lambda a, b: self.binop(BINNAMES[name], a, b, node))
            if name in CMPNAMES:
                return I.lift2(args[0], args[1], lambda a, b: self.compare(CMPNAMES[name], a, b, node))
            if name in ("neg", "pos", "invert"):
                return I.lift(args[0], lambda a: self.unary({"neg": "USub", "pos": "UAdd", "invert": "Invert"}[name], a, node))
            if name == "not_":
                return tm.not_(I.truth(args[0], node))
            if name == "getitem":
                return I.getitem(args[0], args[1], node)
            if name in ("attrgetter", "itemgetter", "methodcaller"):
                return PartialV(LibV("operator.<%s>" % name), args, kwargs)
            if name == "<attrgetter>":
                outs = []
                for a in args[:-1]:
                    v = args[-1]
                    for part in a.v.split("."):
                        v = I.getattr_(v, part, node)
                    outs.append(v)
                return outs[0] if len(outs) == 1 else I.mklist(outs, "tuple")
            if name == "<itemgetter>":
                outs = [I.getitem(args[-1], a, node) for a in args[:-1]]
                return outs[0] if len(outs) == 1 else I.mklist(outs, "tuple")
        if path == UR or path in (UR + ".parse_expression", UR + ".parse_units", UR + ".Unit", "pint.Unit"):
            return self.ur_call(path, args, kwargs, node)
        if path in ("pint.Quantity",):
            return self.quantity_ctor(args, kwargs, node)
        if path == UR + ".convert":
            q = self.mkq(args[0], self.unit_arg(args[1], node))
            return self.q_to(q, self.unit_arg(args[2], node), node)
        if path in ("openscm_units.ScmUnitRegistry", "pint.UnitRegistry", "pint.get_application_registry"):
            return LibV(UR)
        if root == "functools":
            if name == "partial":
                return PartialV(args[0], args[1:], kwargs)
            if name == "wraps":
                return PartialV(LibV("functools.<wraps>"), [], {})
            if name == "<wraps>":
                return args[0]
            if name in ("lru_cache", "cache"):
                if args and isinstance(args[0], FuncV):
                    return I.memoise(args[0], node)
                return PartialV(LibV("functools.lru_cache"), [], {})
            if name == "reduce":
                items = self.known_items(args[1], node)
                acc = args[2] if len(args) > 2 else items.pop(0)
                for x in items:
                    acc = I.call(args[0], [acc, x], {}, node)
                return acc
        if root == "copy":
            if I.isobj(args[0], InstO) or True:
                return self.copyval(args[0], name == "deepcopy")
        if path == "contextlib.suppress":
            return I.alloc(XO("lib", tm.opq("suppress"), frozenset(), {"suppress": [c for a in args for c in self.class_list(a)]}))
        if path == "itertools.chain":
            return IterV("chain", args)
        if path == "itertools.chain.from_iterable":
            return IterV("chain", self.known_items(args[0], node))
        if path == "itertools.repeat" and (len(args) == 2 or "times" in kwargs):
            return prelude.call(I, "repeat", args, kwargs, node)
        if path == "itertools.pairwise" or path == "types.SimpleNamespace":
            return prelude.call(I, name, args, kwargs, node)
        if path == "collections.namedtuple":
            r = self.namedtuple(args, kwargs, node)
            if r is not None:
                return r
        if path == "dataclasses.dataclass":
            return LibV(path)
        if path in ("dataclasses.asdict", "dataclasses.astuple", "dataclasses.replace") and args and I.isobj(args[0], InstO):
            return I.call(I.getattr_(args[0], "_sa_" + name), args[1:], kwargs, node)
        if path == "itertools.count":
            return IterV("count", [args[0] if args else tm.ZERO])
        if path == "itertools.starmap":
            return IterV("map", [args[0], args[1]]) if False else I.mklist([I.call(args[0], self.known_items(x, node), {}, node) for x in self.known_items(args[1], node)], "gen")
        if path == "collections.OrderedDict":
            return self.builtin("dict", args, kwargs, node)
        if path == "collections.defaultdict":
            return I.alloc(DictO([], None, frozenset(), args[0] if args else None))
        if path.startswith("tqdm") and name in ("tqdm", "trange", "tqdm_notebook"):
            if name == "trange":
                return self.builtin("range", args, {}, node)
            it = args[0] if args else kwargs.get("iterable", NONE)
            if isinstance(it, Gated):
                return it
            # a progress bar is its iterable; what is done to it shows on the screen only
            return I.alloc(XO("progress", tm.opq("progressbar", I.term_of(it)), frozenset(), {"items": None if it == NONE else it}))
        if root.startswith("warnings") or root == "warnings" or root.startswith("logging"):
            return I.alloc(XO("lib", tm.opq("call:" + path)))
        if path in ("datetime.timedelta", "pandas.Timedelta", "pandas.to_timedelta"):
            return self.timedelta(name, args, kwargs, node)
        if path == "scmdata.run.ScmRun":
            return self.scmrun(args, kwargs, node)
        if root == "abc" or root == "typing":
            if name in ("TypeVar", "NamedTuple", "cast", "NewType"):
                return args[-1] if name == "cast" else LibV(path)
        if self.is_lib_exc(path):
            return I.alloc(InstO(LibV(path), {"args": I.mklist(list(args), "tuple"), "__cause__": NONE, "__context__": I.curexc[-1] if I.curexc else NONE}))
        # unknown library function: opaque result with the operands as dependencies
        roots = frozenset()
        kind = "lib"
        if path == "pandas.concat":
            kind = "frame"
        elif path == "pandas.DataFrame" or path == "pandas.Series":
            kind = "frame"
            if args and I.isobj(args[0], XO) and kwargs.get("copy") is not tm.TRUE:
                roots = I.obj(args[0]).roots
        elif name in ("asarray", "asanyarray", "atleast_1d", "ravel", "view", "shallow_copy"):
            for a in args:
                if isinstance(a, Ref):
                    roots = roots | I.obj(a).roots
        self.unknown_call(path)
        return I.alloc(XO(kind, tm.opq("call:" + path, *self.kwterms(args, kwargs)), roots))

    def unknown_call(self, path):
        """note a library function without a model, unless it belongs to a
        library whose objects the rules treat as opaque anyway"""
        if path.startswith(OPAQUE_ROOTS + nf.IMPURE_ROOTS) or path.rpartition(".")[2] in nf.KNOWN_CALLS:
            return
        if path not in self.I.unknown_calls:
            self.I.unknown_calls.append(path)

    def namedtuple(self, args, kwargs, node):
        if not args or len(args) != 2 or set(kwargs) - {"defaults"} or not isinstance(args[0], Const) or kwargs.get("defaults", NONE) != NONE:
            return None
        f = args[1]
        if isinstance(f, Const) and isinstance(f.v, str):
            names = f.v.replace(",", " ").split()
        else:
            names = [x.v if isinstance(x, Const) else None for x in self.known_items(f, node)]
        if not all(isinstance(n, str) and n.isidentifier() for n in names):
            return None
        return prelude.namedtuple(self.I, args[0].v, names, [], node)

    def is_lib_exc(self, path):
        if path in EXT():
            return True
        if path.startswith("builtins."):
            k = getattr(builtins, path[9:], None)
            return isinstance(k, type) and issubclass(k, BaseException)
        return False

    def scmrun(self, args, kwargs, node):
        I = self.I
        data = args[0] if args else kwargs.get("data")
        roots = frozenset()
        term = tm.opq("ScmRun", *self.kwterms(args, kwargs))
        if isinstance(data, Gated):
            return I.lift(data, lambda d: self.scmrun([d] + list(args[1:]), kwargs, node))
        if data is not None and I.isobj(data, XO):
            o = I.obj(data)
            cp = kwargs.get("copy_data", tm.FALSE)
            if o.kind == "ScmRun":
                roots = o.roots if cp is not tm.TRUE else frozenset()
                if len(args) == 1 and not {k for k in kwargs if k != "copy_data"}:
                    term = o.term
            else:
                # the constructor formats (reset_index / rename, in place) the
                # data frame it is handed
                I.xmutate(data, "ScmRun-format", [], node)
        return I.alloc(XO("ScmRun", term, roots))

    def timedelta(self, name, args, kwargs, node):
        units = {"days": 1, "weeks": 7, "hours": Fraction(1, 24), "minutes": Fraction(1, 1440), "seconds": Fraction(1, 86400)}
        tot = tm.ZERO
        names = ["days", "seconds"]
        if name == "Timedelta" and args:
            a = args[0]
            u = args[1] if len(args) > 1 else kwargs.get("unit")
            if isinstance(a, T) and isinstance(u, Const):
                k = {"D": 1, "d": 1, "day": 1, "days": 1, "h": Fraction(1, 24), "W": 7, "s": Fraction(1, 86400)}.get(u.v)
                if k is not None:
                    return self.tdelta(tm.scale(k, a))
            if isinstance(a, Const) and isinstance(a.v, str):
                p = a.v.split()
                if len(p) == 2 and p[0].isdigit() and p[1].rstrip("s") + "s" in units:
                    return self.tdelta(tm.scale(units[p[1].rstrip("s") + "s"], tm.num(int(p[0]))))
            return self.I.alloc(XO("lib", tm.opq("call:timedelta", *self.kwterms(args, kwargs))))
        for k, a in zip(names, args):
            kwargs = dict(kwargs, **{k: a})
        for k, v in kwargs.items():
            if k not in units or not isinstance(v, T):
                return self.I.alloc(XO("lib", tm.opq("call:timedelta", *self.kwterms(args, kwargs))))
            tot = tm.add(tot, tm.scale(units[k], v))
        return self.tdelta(tot)

    def tdelta(self, days):
        return self.I.alloc(XO("tdelta", tm.opq("timedelta", days)))

    def ur_call(self, path, args, kwargs, node):
        I = self.I
        a = args[0] if args else Const("dimensionless")

        def go(a):
            if isinstance(a, UnitV):
                return a if path != UR else self.mkq(tm.ONE, a.unit)
            if isinstance(a, Const) and isinstance(a.v, str):
                try:
                    val, u = un.parse(a.v)
                except un.UnknownUnit:
                    val, u = tm.ONE, un.Unit(tm.atom("u:" + a.v, sign="+"), (("[%s]" % a.v, Fraction(1)),), tm.cat(a.v))
                if path == UR or path.endswith("parse_expression"):
                    return self.mkq(val, u)
                return UnitV(u)
            if I.isobj(a, QO):
                return a if path == UR else UnitV(I.obj(a).unit)
            if isinstance(a, Const) or isinstance(a, T) and a.op != "cat" and a.op != "opq":
                I.raise_name("TypeError", node, "unit registry call")
            u = self.dyn_unit(I.term_of(a))
            return self.mkq(tm.ONE, u) if path == UR or path.endswith("parse_expression") else UnitV(u)

        return I.lift(a, go)

    def quantity_ctor(self, args, kwargs, node):
        I = self.I
        v = args[0] if args else kwargs.get("value")
        u = args[1] if len(args) > 1 else kwargs.get("units", NONE)
        if isinstance(v, Const) and isinstance(v.v, str) and u == NONE:
            return self.ur_call(UR, [v], {}, node)
        if I.isobj(v, QO):
            if u == NONE:
                return self.mkq(I.obj(v).mag, I.obj(v).unit, I.obj(v).roots)
            uu = self.unit_arg(u, node)
            return self.mkq(self.q_to(v, uu, node), uu, I.obj(v).roots)
        if I.isobj(v, ListO):
            v = self.to_array(v, node)
        unit = un.DIMLESS if u == NONE else self.unit_arg(u, node)
        return self.mkq(v, unit)

    # ------------------------------------------------------------ builtins
    def consume(self, v, args, node):
        """next() of an iterator that is kept as the list of what is left"""
        I = self.I
        if not I.isobj(v, ListO) or I.obj(v).kind not in ("gen", "iterator"):
            return None
        items = I.obj(v).items
        if not items:
            return None
        first = items[0]
        if not isinstance(first, Seg):
            if first[0] is not tm.TRUE:
                return None
            I.mut(v).items = tuple(items[1:])
            return first[1]
        if first.guard is not tm.TRUE or len(items) > 1 or len(args) > 1:
            return None
        I.may_raise(tm.eq0(first.n), "builtins.StopIteration", node)
        at = self._seg_elem(first)
        r = at(tm.ZERO)
        I.mut(v).items = (Seg(first.ivar, tm.sub(first.n, tm.ONE), tm.TRUE, at(tm.add(first.ivar, tm.ONE))),)
        return r

    def builtin(self, name, args, kwargs, node):
        I = self.I
        if name in ("sorted", "list", "tuple", "set", "frozenset", "reversed", "sum", "any", "all", "min", "max") and args and isinstance(args[0], Gated):
            return I.lift(args[0], lambda x: self.builtin(name, [x] + list(args[1:]), kwargs, node))
        if name == "isinstance":
            return I.lift(args[0], lambda v: self.isinst(v, args[1], node))
        if name == "issubclass":
            n = I.exc_names(args[0]) if self.is_exc_class(args[0]) else [I.cls_name(c) for c in I.mro(args[0])]
            return tm.or_(*[tm.TRUE if I.cls_name(c) in n else tm.FALSE for c in self.class_list(args[1])])
        if name == "hasattr":
            return self.hasattr_(args[0], args[1].v, node)
        if name == "getattr":
            if not isinstance(args[1], Const):
                if isinstance(args[1], Gated):
                    return I.lift(args[1], lambda n: self.builtin("getattr", [args[0], n] + list(args[2:]), kwargs, node))
                I.unsupported("getattr of an unknown name", node)
            return I.getattr_(args[0], args[1].v, node, args[2] if len(args) > 2 else UNDEF)
        if name == "setattr":
            if not isinstance(args[1], Const):
                I.unsupported("setattr of an unknown name", node)
            I.setattr_(args[0], args[1].v, args[2], node)
            return NONE
        if name == "delattr":
            o = I.mut(args[0])
            if args[1].v not in o.attrs:
                I.raise_name("AttributeError", node)
            o.attrs.pop(args[1].v)
            return NONE
        if name == "len":
            return I.lift(args[0], lambda v: self.len_(v, node))
        if name == "range":
            a = [self.numterm(x) for x in args]
            if any(x is None for x in a):
                if all(I.isobj(x, XO) or self.numterm(x) is not None for x in args):
                    a = [self.numterm(x) or I.term_of(x) for x in args]
                else:
                    I.raise_name("TypeError", node, "range")
            if len(a) == 1:
                a = [tm.ZERO, a[0], tm.ONE]
            elif len(a) == 2:
                a = a + [tm.ONE]
            return IterV("range", a)
        if name == "enumerate":
            start = args[1] if len(args) > 1 else kwargs.get("start", tm.ZERO)
            return IterV("enumerate", [args[0]], {"start": start})
        if name in ("zip", "map", "filter", "reversed"):
            return IterV(name, args)
        if name == "iter":
            v = args[0]
            if len(args) == 1 and (I.isobj(v, ArrO) and len(I.obj(v).shape) == 1 or I.isobj(v, ListO) and I.obj(v).kind not in ("gen", "iterator") or I.isobj(v, QO) and not isinstance(I.obj(v).mag, T)):
                return I.alloc(ListO(self.list_items(v, node), "iterator"))
            return v
        if name == "next":
            v = args[0]
            r = self.consume(v, args, node)
            if r is not None:
                return r
            items = self.list_items(v, node)
            for x in items:
                if isinstance(x, Seg):
                    if x.guard is tm.TRUE:
                        return self._seg_elem(x)(tm.ZERO)
                    return I.alloc(XO("elem", tm.opq("next", x.guard, I.term_of(x.val))))
                if x[0] is tm.TRUE:
                    # consuming iterators is only modelled for one call
                    return x[1]
                return I.fork(x[0], lambda: x[1], lambda: (args[1] if len(args) > 1 else I.raise_name("StopIteration", node)))
            if len(args) > 1:
                return args[1]
            I.raise_name("StopIteration", node)
        if name in ("list", "tuple", "set", "frozenset"):
            if not args:
                return I.alloc(ListO([], name))
            if I.isobj(args[0], XO) and I.obj(args[0]).attrs.get("items") is None:
                o = I.obj(args[0])
                return I.alloc(XO("list", o.term if name in ("list", "tuple") else tm.opq("call:builtins.set", o.term), frozenset()))
            if name in ("set", "frozenset"):
                return I.lift(args[0], lambda v: self.distinct(self.list_items(v, node), name))
            return I.lift(args[0], lambda v: I.alloc(ListO(self.list_items(v, node), name)))
        if name == "sorted" and set(kwargs) <= {"reverse"}:
            # two numbers: the smaller and the larger one
            l = I.alloc(ListO(self.list_items(args[0], node), "list"))
            o = I.obj(l)
            its = o.known()
            if its is not None and len(its) == 2 and not all(isinstance(v, Const) for v in its):
                lt = lambda x, y: I.truth(I.lift2(x, y, lambda p, q: self.compare("Lt", p, q, node)), node)
                c = lt(its[1], its[0])
                if "reverse" in kwargs:
                    r = I.truth(kwargs["reverse"], node)
                    c = tm.or_(tm.and_(tm.not_(r), c), tm.and_(r, lt(its[0], its[1])))
                return I.fork(c, lambda: I.alloc(ListO(((tm.TRUE, its[1]), (tm.TRUE, its[0])), "list")), lambda: l)
        if name == "sorted":
            l = I.alloc(ListO(self.list_items(args[0], node), "list"))
            o = I.obj(l)
            if o.known() is not None and len(o.items) <= 1:
                return l
            self.list_method(l, o, "sort", [], kwargs, node)
            return l
        if name == "dict":
            d = I.alloc(DictO([]))
            if args:
                I.lift(args[0], lambda v: (self.dict_update(d, v, node), NONE)[1])
            for k, v in kwargs.items():
                self.dict_set(d, Const(k), v, node)
            return d
        if name == "str":
            if not args:
                return Const("")
            p = self.format_piece(args[0], None, node)
            if isinstance(p, str):
                return Const(p)
            return p
        if name in ("repr", "format", "ascii"):
            p = self.format_piece(args[0], args[1] if len(args) > 1 else None, node)
            return Const(p) if isinstance(p, str) else (p if name == "format" else tm.opq("repr", p))
        if name in ("float", "complex"):
            v = args[0] if args else tm.ZERO
            if isinstance(v, Const) and isinstance(v.v, str):
                s = v.v.strip().lower()
                if s in ("nan", "-nan"):
                    return tm.NAN
                if s in ("inf", "+inf", "infinity"):
                    return tm.INF
                try:
                    return tm.num(Fraction(s))
                except ValueError:
                    I.raise_name("ValueError", node)
            if I.isobj(v, QO):
                q = I.obj(v)
                I.may_raise(tm.not_(un.same_dims(q.unit.dims, ())), "pint.errors.DimensionalityError", node)
                return self.qscale(q.mag, q.unit.factor)
            if isinstance(v, T) and (v.op == "cat" or v.op == "opq" and v.args[0] in ("str", "fmt", "repr")):
                x = v.args[0] if v.op == "cat" and len(v.args) == 1 else v
                if isinstance(x, T) and x.op == "opq" and x.args[0] in ("str", "repr") and isinstance(x.args[1], T):
                    return x.args[1]  # repr of a float is exact
                if isinstance(x, T) and x.op == "opq" and x.args[0] == "fmt":
                    if any(ch in str(x.args[2]) for ch in "eEfFgG"):
                        return tm.fn("round", x.args[1], tm.cat(str(x.args[2])))
                return tm.opq("float", v)
            t = self.numterm(v)
            if t is not None:
                return t
            if I.isobj(v, XO):
                return I.alloc(XO("scalar", I.obj(v).term))
            if I.isobj(v, ArrO):
                return self.arr_at(v, tm.ZERO)
            I.raise_name("TypeError", node, "float")
        if name == "int":
            v = args[0] if args else tm.ZERO
            t = self.numterm(v)
            if t is not None:
                if t.op == "nan":
                    I.raise_name("ValueError", node, "int of nan")
                if t.op == "num":
                    return tm.num(int(t.args[0]))
                if self.is_int(t):
                    return t
                return tm.fn("trunc", t)
            if I.isobj(v, XO):
                return I.alloc(XO("scalar", tm.opq("int", I.obj(v).term)))
            I.raise_name("TypeError", node, "int")
        if name == "bool":
            return I.truth(args[0], node) if args else tm.FALSE
        if name == "abs":
            return self.apply_fn("abs", args, node)
        if name == "round":
            if len(args) > 1:
                return I.lift(args[0], lambda v: self.round2(v, args[1], node))
            return self.apply_fn("rint", args[:1], node)
        if name == "pow":
            return I.lift2(args[0], args[1], lambda a, b: self.binop("Pow", a, b, node))
        if name == "divmod":
            return I.mklist([self.binop("FloorDiv", args[0], args[1], node), self.binop("Mod", args[0], args[1], node)], "tuple")
        if name in ("any", "all"):
            return self.anyall(name, args[0], node)
        if name in ("sum",):
            v = args[0]
            start = args[1] if len(args) > 1 else kwargs.get("start", tm.ZERO)
            if I.isobj(v, XO):
                return I.alloc(XO("scalar", tm.opq("sum", I.obj(v).term)))
            items = self.list_items(v, node)
            if any(isinstance(x, Seg) for x in items):
                return tm.opq("sum", *[I.term_of(x.val) if isinstance(x, Seg) else I.term_of(x[1]) for x in items])
            acc = start
            for g, x in items:
                acc0 = acc
                nxt = I.lift2(acc, x, lambda a, b: self.binop("Add", a, b, node))
                acc = nxt if g is tm.TRUE else I.merge_val(g, nxt, acc0, I.st, I.st, I.st)
            return acc
        if name in ("max", "min"):
            return self.maxmin(name, args, kwargs, node)
        if name == "print":
            return NONE
        if name == "type":
            v = args[0]
            if I.isobj(v, InstO):
                return I.obj(v).cls
            if isinstance(v, Const):
                return LibV("builtins." + type(v.v).__name__)
            if I.isobj(v, QO):
                return LibV("pint.Quantity")
            return I.alloc(XO("lib", tm.opq("type", I.term_of(v))))
        if name == "callable":
            return tm.TRUE if isinstance(args[0], (FuncV, BoundM, MethV, LibV, PartialV)) or I.isobj(args[0], ClsO) else tm.FALSE
        if name == "vars":
            return MethV(args[0], "<dict>")
        if name in ("id", "hash"):
            return tm.opq(name, I.term_of(args[0]))
        if name == "property":
            f = [a if a != NONE else None for a in args]
            g = f[0] if f else kwargs.get("fget")
            s = f[1] if len(f) > 1 else kwargs.get("fset")
            d = f[2] if len(f) > 2 else kwargs.get("fdel")
            return PropV(g, s if s != NONE else None, d)
        if name == "staticmethod":
            return StaticV(args[0])
        if name == "classmethod":
            return ClassMV(args[0])
        if name == "object":
            return I.alloc(XO("sentinel", tm.opq(I.fresh("object"))))
        if name == "slice":
            a = list(args)
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            while len(a) < 3:
                a.append(NONE)
            return SliceV(*a)
        if name == "super":
            return SuperV(args[0], args[1])
        if name == "object.__setattr__":
            I.obj_setattr(args[0], args[1].v, args[2], node)
            return NONE
        if name in ("open", "input", "exec", "eval", "compile", "__import__"):
            return I.alloc(XO("lib", tm.opq("call:builtins." + name, *self.kwterms(args, kwargs))))
        if self.is_lib_exc("builtins." + name):
            return I.alloc(InstO(LibV("builtins." + name), {"args": I.mklist(list(args), "tuple"), "__cause__": NONE, "__context__": I.curexc[-1] if I.curexc else NONE}))
        if name in ("bytes", "bytearray", "memoryview", "chr", "ord", "hex", "oct", "bin", "dir"):
            return I.alloc(XO("lib", tm.opq("call:builtins." + name, *self.kwterms(args, kwargs))))
        if name.startswith("object."):
            return NONE
        if "." in name or not hasattr(builtins, name):
            return I.alloc(XO("lib", tm.opq("call:builtins." + name, *self.kwterms(args, kwargs))))
        I.unsupported("builtin %s" % name, node)

    def round2(self, v, nd, node):
        I = self.I
        if I.isobj(v, QO):
            q = I.obj(v)
            return self.mkq(self.round2(q.mag, nd, node), q.unit)
        t = self.numterm(v)
        if t is not None:
            return tm.fn("round", t, I.term_of(nd))
        if I.isobj(v, ArrO):
            return self.elem_map(lambda x: tm.fn("round", x, I.term_of(nd)), v, node=node)
        return I.alloc(XO("expr", tm.opq("round", I.term_of(v), I.term_of(nd))))

    def is_int(self, t):
        return tm.is_int(t)

    def len_(self, v, node):
        I = self.I
        if isinstance(v, Const):
            try:
                return tm.num(len(v.v))
            except TypeError:
                I.raise_name("TypeError", node, "len")
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, ListO):
                return self.list_len(o)
            if isinstance(o, DictO):
                if o.segs:
                    return tm.add(*[self.seg_part(b)[1] for _, b in o.segs], *[tm.ite(g, tm.ONE, tm.ZERO) for g, _, _ in o.entries])
                if o.sym is not None:
                    return tm.opq("len", o.sym)
                return tm.add(*[tm.ite(g, tm.ONE, tm.ZERO) for g, _, _ in o.entries]) if o.entries else tm.ZERO
            if isinstance(o, ArrO):
                if not o.shape:
                    I.raise_name("TypeError", node, "len of unsized object")
                return o.shape[0]
            if isinstance(o, QO):
                if isinstance(o.mag, T):
                    I.raise_name("TypeError", node, "len of a scalar quantity")
                return self.len_(o.mag, node)
            if isinstance(o, XO):
                if o.kind == "progress" and o.attrs.get("items") is not None:
                    return self.len_(o.attrs["items"], node)
                return tm.opq("len", o.term)
            if isinstance(o, InstO):
                m = I.class_lookup(o.cls, "__len__")
                if isinstance(m, FuncV):
                    return I.call(BoundM(m, v), [], {}, node)
        if isinstance(v, IterV):
            if v.kind == "range" and v.args[2] is tm.ONE:
                return tm.sub(v.args[1], v.args[0])
            return self.list_len(ListO(self.list_items(v, node)))
        if isinstance(v, T) and v.op in ("cat", "opq"):
            return tm.opq("len", v)
        I.raise_name("TypeError", node, "len")

    def anyall(self, name, v, node):
        I = self.I
        if isinstance(v, Gated):
            return I.lift(v, lambda x: self.anyall(name, x, node))
        if I.isobj(v, XO) and I.obj(v).attrs.get("items") is None:
            return tm.bopq("truth", tm.opq("m:" + name, I.obj(v).term))
        if I.isobj(v, (ArrO, QO)):
            return self.reduce(name, v, node)
        items = self.list_items(v, node)
        res = []
        for x in items:
            if isinstance(x, Seg):
                c = tm.subst(I.truth(x.val, node), {x.ivar: tm.IOTA})
                g = tm.subst(x.guard, {x.ivar: tm.IOTA})
                res.append(tm.all_(tm.or_(tm.not_(g), c), x.n) if name == "all" else tm.any_(tm.and_(g, c), x.n))
            else:
                c = I.truth(x[1], node)
                res.append(tm.or_(tm.not_(x[0]), c) if name == "all" else tm.and_(x[0], c))
        return (tm.and_ if name == "all" else tm.or_)(*res) if res else (tm.TRUE if name == "all" else tm.FALSE)

    def maxmin(self, name, args, kwargs, node):
        I = self.I
        if len(args) == 1:
            v = args[0]
            if I.isobj(v, (ArrO, QO, XO)):
                return self.reduce(name, v, node)
            items = self.list_items(v, node)
            if any(isinstance(x, Seg) or x[0] is not tm.TRUE for x in items):
                return tm.opq(name, *[I.term_of(x.val) if isinstance(x, Seg) else I.term_of(x[1]) for x in items])
            args = [x[1] for x in items]
        if kwargs.get("key") is not None:
            return I.alloc(XO("lib", tm.opq(name, *self.kwterms(args, kwargs))))
        acc = args[0]
        for x in args[1:]:
            a = acc
            c = I.truth(I.lift2(x, a, lambda p, q: self.compare("Gt" if name == "max" else "Lt", p, q, node)), node)
            acc = I.merge_val(c, x, a, I.st, I.st, I.st)
        return acc

    # ------------------------------------------------------------ numpy / math
    def numpy(self, root, name, args, kwargs, node):
        I = self.I
        if name in BINNAMES and root == "numpy":
            r = I.lift2(args[0], args[1], lambda a, b: self.binop(BINNAMES[name], self.arrify(a, node), self.arrify(b, node), node))
            return self.out_kw(r, kwargs, node)
        if root == "math" and name == "pow":
            return self.binop("Pow", args[0], args[1], node)
        if name in CMPNAMES and root == "numpy":
            def cmp(a, b):
                a, b = self.arrify(a, node), self.arrify(b, node)
                return self.compare(CMPNAMES[name], a, b, node)
            return I.lift2(args[0], args[1], cmp)
        if name in SCALAR_FN and not (root == "numpy" and name == "real"):
            r = self.apply_fn(name, args, node)
            return self.out_kw(r, kwargs, node)
        if name == "isnan":
            return self.isnan_(args[0], node)
        if name in ("isfinite", "isinf"):
            def go(x):
                if I.isobj(x, QO):
                    x = I.obj(x).mag
                if I.isobj(x, XO):
                    return I.alloc(XO("expr", tm.opq("fn:" + name, I.obj(x).term)))
                fin = lambda t: tm.and_(tm.not_(tm.isnan(t)), tm.bopq("finite", t)) if not tm.is_num(t) else tm.TRUE
                inf = lambda t: tm.FALSE if tm.is_num(t) else tm.bopq("infinite", t)
                return self.elem_map(fin if name == "isfinite" else inf, x, node=node)
            return I.lift(args[0], go)
        if name == "count_nonzero" and len(args) == 1 and not kwargs and I.isobj(args[0], ArrO):
            o = I.obj(args[0])
            return self.reduce("sum", self.mkarr(o.shape, self.tobool(o.full()), "b"), node)
        if name in ("isclose", "allclose", "array_equal"):
            return tm.bopq(name, *self.kwterms(args, kwargs))
        if name in ("any", "all", "sum", "mean", "max", "min", "amax", "amin", "prod", "std", "nansum", "nanmax", "nanmin", "nanmean"):
            nm = {"amax": "max", "amin": "min"}.get(name, name)
            if nm in ("nansum", "nanmax", "nanmin", "nanmean"):
                return tm.opq(nm, *self.kwterms(args, kwargs))
            return I.lift(args[0], lambda v: self.reduce(nm, v, node))
        if name in ("logical_and", "logical_or", "logical_xor"):
            f = {"logical_and": tm.and_, "logical_or": tm.or_, "logical_xor": lambda x, y: tm.or_(tm.and_(x, tm.not_(y)), tm.and_(tm.not_(x), y))}[name]
            a, b = args[0], args[1]
            if isinstance(a, Gated) or isinstance(b, Gated):
                return I.lift2(a, b, lambda p, q: self.numpy(root, name, [p, q] + list(args[2:]), kwargs, node))
            if I.isobj(a, XO) or I.isobj(b, XO):
                return I.alloc(XO("expr", tm.opq("op:" + {"logical_and": "BitAnd", "logical_or": "BitOr"}.get(name, name), I.term_of(a), I.term_of(b))))
            return self.elem_map(lambda x, y: f(self.tobool(x), self.tobool(y)), a, b, node=node)
        if name == "logical_not":
            return self.unary("Invert", args[0], node) if I.isobj(args[0], XO) else self.elem_map(lambda x: tm.not_(self.tobool(x)), args[0], node=node)
        if name == "where" and len(args) == 3:
            return self.np_where(*args, node)
        if name in ("maximum", "minimum", "fmax", "fmin"):
            return self.np_maxmin(name, args[0], args[1], node)
        if name == "clip":
            lo = args[1] if len(args) > 1 else kwargs.get("a_min", kwargs.get("min", NONE))
            hi = args[2] if len(args) > 2 else kwargs.get("a_max", kwargs.get("max", NONE))
            r = args[0]
            if lo != NONE:
                r = self.np_maxmin("maximum", r, lo, node)
            if hi != NONE:
                r = self.np_maxmin("minimum", r, hi, node)
            return r
        if name in ("repeat", "tile") and len(args) == 2 and not kwargs and self.numterm(args[0]) is not None:
            n = self.shape_arg(args[1], node) if isinstance(args[1], T) or I.isobj(args[1], XO) else None
            if n is not None:
                return self.mkarr(n, self.numterm(args[0]), "m" if self._intlit(node, 0) else "f")
        if name == "broadcast_to" and len(args) == 2 and self.numterm(args[0]) is not None:
            return self.mkarr(self.shape_arg(args[1], node), self.numterm(args[0]), "m" if self._intlit(node, 0) else "f")
        if name == "fromiter" and args:
            return self.to_array(args[0], node, args[1] if len(args) > 1 else kwargs.get("dtype"))
        if name in ("zeros", "ones", "empty", "full"):
            shape = self.shape_arg(args[0] if args else kwargs["shape"], node)
            if name == "full":
                fv = args[1] if len(args) > 1 else kwargs["fill_value"]
                t = self.numterm(fv)
                dt = self.dtype_kw(kwargs, args, 2, "i" if t is not None and t.op == "num" and t.args[0].denominator == 1 and False else "f", node)
                if t is not None and t.op == "num" and t.args[0].denominator == 1 and "dtype" not in kwargs and len(args) < 3:
                    dt = "m" if self._intlit(node, 1) else "f"
                return self.mkarr(shape, t if t is not None else I.term_of(fv), dt)
            dt = self.dtype_kw(kwargs, args, 1, "f", node)
            body = {"zeros": tm.ZERO, "ones": tm.ONE}.get(name)
            if body is None:
                body = tm.sel(I.fresh("uninit"), tm.IOTA, maybe_nan=True)
            return self.mkarr(shape, body, dt)
        if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
            shape, dt = self.like(args[0], node)
            if name == "full_like":
                fv = args[1] if len(args) > 1 else kwargs["fill_value"]
                dt = self.dtype_kw(kwargs, args, 2, dt, node)
                t = self.numterm(fv)
                if t is None:
                    t = I.term_of(fv)
                if dt in ("m", "i") and not (t.op == "num" and t.args[0].denominator == 1):
                    t = tm.fn("cast-to-dtype", t) if t.op != "nan" else tm.opq("nan-cast-to-dtype")
                return self.mkarr(shape, t, dt)
            dt = self.dtype_kw(kwargs, args, 1, dt, node)
            body = {"zeros_like": tm.ZERO, "ones_like": tm.ONE}.get(name)
            if body is None:
                body = tm.sel(I.fresh("uninit"), tm.IOTA, maybe_nan=True)
            return self.mkarr(shape, body, dt)
        if name in ("array", "asarray", "asanyarray", "atleast_1d", "ascontiguousarray", "copy"):
            def conv(v):
                if I.isobj(v, QO) and name == "asanyarray":
                    return v
                d = kwargs.get("dtype", args[1] if len(args) > 1 and name in ("array", "asarray") else None)
                r = self.to_array(v, node, d)
                if name not in ("array", "copy") or kwargs.get("copy") is tm.FALSE:
                    src = I.obj(v).roots if isinstance(v, Ref) else frozenset()
                    if I.isobj(v, ArrO):
                        if d is None:
                            return v
                        I.mut(r).roots = src
                if d is not None and I.isobj(r, ArrO):
                    if self.floatdtype(d):
                        I.mut(r).dt = "f"
                    else:
                        w = I.mut(r)
                        w.body, w.writes, w.dt = tm.fn("cast", w.full(), I.term_of(d)), (), "i"
                if name == "atleast_1d" and I.isobj(r, ArrO) and not I.obj(r).shape:
                    I.mut(r).shape = (tm.ONE,)
                return r
            return I.lift(args[0], conv)
        if name == "arange":
            a = [self.numterm(x) or I.term_of(x) for x in args]
            lo, hi, st = (tm.ZERO, a[0], tm.ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else tm.ONE)
            n = tm.sub(hi, lo) if st is tm.ONE else tm.opq("rangelen", lo, hi, st)
            return self.mkarr((n,), tm.add(lo, tm.mul(st, tm.IOTA)), "i")
        if name == "ndim":
            def nd(v):
                if I.isobj(v, QO):
                    v = I.obj(v).mag
                if I.isobj(v, ArrO):
                    return tm.num(len(I.obj(v).shape))
                if isinstance(v, T) or isinstance(v, Const):
                    return tm.ZERO
                if I.isobj(v, ListO):
                    k = I.obj(v).known()
                    return tm.ONE if not k or not I.isobj(k[0], ListO) else tm.num(2)
                return tm.opq("ndim", I.term_of(v))
            return I.lift(args[0], nd)
        if name == "shape":
            def sh(v):
                if I.isobj(v, QO):
                    v = I.obj(v).mag
                if isinstance(v, T) or isinstance(v, Const):
                    return I.mklist([], "tuple")
                if I.isobj(v, ArrO):
                    return I.mklist(list(I.obj(v).shape), "tuple")
                if I.isobj(v, ListO):
                    return I.mklist([self.list_len(I.obj(v))], "tuple")
                return I.getattr_(v, "shape", node)
            return I.lift(args[0], sh)
        if name == "size":
            def sz(v):
                if I.isobj(v, QO):
                    v = I.obj(v).mag
                if isinstance(v, T):
                    return tm.ONE
                if I.isobj(v, ArrO):
                    return tm.mul(*I.obj(v).shape) if I.obj(v).shape else tm.ONE
                return self.len_(v, node)
            return I.lift(args[0], sz)
        if name == "nditer":
            return args[0]
        if name in ("ravel", "squeeze", "reshape", "cumsum", "round", "around", "concatenate", "append", "diff", "flip", "roll", "sort", "cumprod", "gradient", "convolve", "interp"):
            v = args[0]
            if name in ("ravel", "squeeze", "reshape") and I.isobj(v, (ArrO, QO)):
                return I.call(I.getattr_(v, name, node), args[1:], kwargs, node)
            if name in ("round", "around"):
                return I.lift(v, lambda x: self.round2(x, args[1] if len(args) > 1 else tm.ZERO, node))
            if name == "diff" and I.isobj(v, ArrO) and len(args) == 1:
                o = I.obj(v)
                f = o.full()
                return self.mkarr((tm.sub(o.shape[0], tm.ONE),), tm.sub(tm.subst(f, {tm.IOTA: tm.add(tm.IOTA, tm.ONE)}), f), o.dt)
            if name == "diff" and I.isobj(v, XO):
                return I.alloc(XO("lib", tm.opq("call:numpy.diff", I.obj(v).term, *self.kwterms(args[1:], kwargs))))
            t = tm.opq("call:numpy." + name, *self.kwterms(args, kwargs))
            if I.isobj(v, (ArrO, ListO, QO)):
                n = self.like(v, node)[0]
                ln = n[0] if n and name in ("cumsum", "flip", "roll", "sort", "cumprod") else tm.opq("len", t)
                r = self.mkarr((ln,), tm.opq("elem", t, tm.IOTA), "f")
                return self.mkq(r, I.obj(v).unit) if I.isobj(v, QO) else r
            return I.alloc(XO("array", t))
        if name == "timedelta64":
            a = args[0]
            u = args[1] if len(args) > 1 else Const("ns")
            k = {"D": 1, "W": 7, "h": Fraction(1, 24), "m": Fraction(1, 1440), "s": Fraction(1, 86400), "ms": Fraction(1, 86400000), "us": Fraction(1, 86400 * 10**6), "ns": Fraction(1, 86400 * 10**9)}.get(getattr(u, "v", None))
            if isinstance(a, T) and k is not None:
                return self.tdelta(tm.scale(k, a))
            return I.alloc(XO("lib", tm.opq("call:numpy.timedelta64", *self.kwterms(args, kwargs))))
        if name == "copyto":
            self.setitem(args[0], SliceV(NONE, NONE, NONE), args[1], node)
            return NONE
        if name == "errstate":
            return I.alloc(XO("lib", tm.opq("errstate")))
        if name in ("isscalar",):
            v = args[0]
            return tm.TRUE if isinstance(v, (T, Const)) else tm.FALSE
        if name in ("int64", "int32", "intp", "int_"):
            return self.builtin("int", args, {}, node)
        if name == "bool_":
            return I.truth(args[0], node)
        if root == "math" and name in ("isinf", "isfinite"):
            return tm.bopq(name, *self.kwterms(args, kwargs))
        if root == "math" and name == "fsum":
            return self.builtin("sum", args, {}, node)
        if root == "math" and name == "prod":
            acc = tm.ONE
            for x in self.known_items(args[0], node):
                acc = self.binop("Mult", acc, x, node)
            return acc
        # unknown numpy function
        self.unknown_call("%s.%s" % (root, name))
        t = tm.opq("call:%s.%s" % (root, name), *self.kwterms(args, kwargs))
        if args and all(isinstance(a, T) for a in args):
            return t
        arrs = [a for a in args if I.isobj(a, ArrO)]
        if arrs and root == "numpy":
            return self.mkarr(I.obj(arrs[0]).shape if name in SAME_SHAPE else (tm.opq("len", t),), tm.opq("elem", t, tm.IOTA), "f")
        return I.alloc(XO("lib", t))

    def _intlit(self, node, k):
        """is positional argument k of the call an integer literal?"""
        if isinstance(node, ast.Call) and len(node.args) > k:
            a = node.args[k]
            return isinstance(a, ast.Constant) and isinstance(a.value, int)
        return False

    def arrify(self, v, node):
        return self.to_array(v, node) if self.I.isobj(v, ListO) else v

    def out_kw(self, r, kwargs, node):
        I = self.I
        o = kwargs.get("out")
        if o is None or o == NONE:
            return r
        if I.isobj(o, ListO):
            o = I.obj(o).known()[0]
        self.setitem(o, SliceV(NONE, NONE, NONE), r, node)
        return o

    def np_where(self, c, a, b, node):
        I = self.I
        if isinstance(c, Gated) or isinstance(a, Gated) or isinstance(b, Gated):
            return I.lift2(a, b, lambda x, y: I.lift(c, lambda z: self.np_where(z, x, y, node)))
        if any(I.isobj(x, XO) for x in (c, a, b)):
            return I.alloc(XO("array", tm.opq("where", I.term_of(c), I.term_of(a), I.term_of(b))))
        if I.isobj(a, QO) or I.isobj(b, QO):
            ma, ua = self.q_of(a)
            mb, ub = self.q_of(b)
            u = ua or ub
            if ua is not None and ub is not None:
                mb = self.qscale(mb, tm.div(ub.factor, ua.factor))
            return self.mkq(self.np_where(c, ma, mb, node), u)
        return self.elem_map(lambda x, y, z: tm.ite(self.tobool(x), y, z), c, a, b, node=node)

    def np_maxmin(self, name, a, b, node):
        I = self.I
        if isinstance(a, Gated) or isinstance(b, Gated):
            return I.lift2(a, b, lambda x, y: self.np_maxmin(name, x, y, node))
        if I.isobj(a, XO) or I.isobj(b, XO):
            return I.alloc(XO("expr", tm.opq(name, I.term_of(a), I.term_of(b))))
        if I.isobj(a, QO) or I.isobj(b, QO):
            ma, ua = self.q_of(a)
            mb, ub = self.q_of(b)
            if ua is not None and ub is not None:
                mb = self.qscale(mb, tm.div(ub.factor, ua.factor))
            return self.mkq(self.np_maxmin(name, ma, mb, node), ua or ub)
        if name in ("maximum", "fmax"):
            f = lambda x, y: tm.ite(tm.lt(x, y), y, x)
        else:
            f = lambda x, y: tm.ite(tm.lt(y, x), y, x)
        return self.elem_map(lambda x, y: f(self._n(x), self._n(y)), a, b, node=node)


def I_ALIAS(p):
    from .interp import ALIASES

    return ALIASES.get(p, p)


def EXT():
    from .interp import EXT_EXC

    return EXT_EXC
