"""Abstract values and heap objects."""
from . import terms as tm
from .terms import T


class Const:
    """a known python constant that is not a number/bool (str, None, bytes, ...)"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(("Const", self.v))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("Ref", self.oid))

    def __repr__(self):
        return "&%s" % self.oid


class Gated:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Gated) and o.cond is self.cond and veq(o.a, self.a) and veq(o.b, self.b)

    def __hash__(self):
        return hash(("Gated", self.cond))

    def __repr__(self):
        return "(%r if %r else %r)" % (self.a, self.cond, self.b)


class LibV:
    """an object of an external library, by dotted path"""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, LibV) and o.path == self.path

    def __hash__(self):
        return hash(("LibV", self.path))

    def __repr__(self):
        return "<%s>" % self.path


class UnitV:
    __slots__ = ("unit",)

    def __init__(self, unit):
        self.unit = unit

    def __eq__(self, o):
        return isinstance(o, UnitV) and o.unit == self.unit

    def __hash__(self):
        return hash(("UnitV", self.unit))

    def __repr__(self):
        return "<Unit %r>" % (self.unit,)


class FuncV:
    def __init__(self, node, name, mod, closure, defaults, kwdefaults, cls=None):
        self.node, self.name, self.mod = node, name, mod
        self.closure, self.defaults, self.kwdefaults = closure, defaults, kwdefaults
        self.cls = cls
        self.cache = None  # memoising decorator: heap oid of the memo table
        self.isgen = False

    @property
    def qualname(self):
        return (self.cls + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<function %s>" % self.qualname


class BoundM:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundM) and o.func is self.func and veq(o.self, self.self)

    def __hash__(self):
        return id(self.func)

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class MethV:
    """method `name` of a library-typed receiver"""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, MethV) and o.name == self.name and veq(o.recv, self.recv)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.recv)


class PropV:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMV:
    def __init__(self, f):
        self.f = f


class CachedPropV:
    def __init__(self, f):
        self.f = f
        self.name = None


class PartialV:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and all(
            veq(x, y) for x, y in ((self.lo, o.lo), (self.hi, o.hi), (self.step, o.step))
        )

    def __hash__(self):
        return 7


class IterV:
    """a lazy iterable: enumerate / zip / range / reversed / map / generator list"""

    def __init__(self, kind, args, kw=None):
        self.kind, self.args, self.kw = kind, tuple(args), kw or {}

    def __eq__(self, o):
        return isinstance(o, IterV) and o.kind == self.kind and len(o.args) == len(self.args) and all(
            veq(x, y) for x, y in zip(self.args, o.args)
        )

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "<%s%r>" % (self.kind, self.args)


def veq(a, b):
    return a is b or (type(a) is type(b) and not isinstance(a, T) and a == b)


# ------------------------------------------------------------------ heap objects
class Obj:
    """base of heap objects; immutable by convention once shared (clone first)"""

    roots = frozenset()


class InstO(Obj):
    def __init__(self, cls, attrs, roots=frozenset()):
        self.cls, self.attrs, self.roots = cls, attrs, roots

    def clone(self):
        return InstO(self.cls, dict(self.attrs), self.roots)

    def fields(self):
        return dict(self.attrs)


class ClsO(Obj):
    def __init__(self, name, bases, attrs, mod, node):
        self.name, self.bases, self.attrs, self.mod, self.node = name, bases, attrs, mod, node

    def clone(self):
        return ClsO(self.name, self.bases, dict(self.attrs), self.mod, self.node)

    def fields(self):
        return dict(self.attrs)


class ModO(Obj):
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs

    def clone(self):
        return ModO(self.name, dict(self.attrs))

    def fields(self):
        return dict(self.attrs)


class Seg:
    """a loop-generated run of list items: for i in range(n): if guard: val"""

    def __init__(self, ivar, n, guard, val):
        self.ivar, self.n, self.guard, self.val = ivar, n, guard, val

    def __eq__(self, o):
        return isinstance(o, Seg) and o.ivar is self.ivar and o.n is self.n and o.guard is self.guard and veq(o.val, self.val)

    def __hash__(self):
        return 11

    def __repr__(self):
        return "<for %r < %r if %r: %r>" % (self.ivar, self.n, self.guard, self.val)


class ListO(Obj):
    """items: tuple of (guard, value) or Seg"""

    def __init__(self, items, kind="list", roots=frozenset()):
        self.items, self.kind, self.roots = tuple(items), kind, roots

    def clone(self):
        return ListO(self.items, self.kind, self.roots)

    def known(self):
        if all(not isinstance(i, Seg) and i[0] is tm.TRUE for i in self.items):
            return [i[1] for i in self.items]
        return None


class DictO(Obj):
    """entries: tuple of (guard, key value, value); sym: opaque rest or None"""

    def __init__(self, entries, sym=None, roots=frozenset(), default=None, segs=()):
        self.entries, self.sym, self.roots = tuple(entries), sym, roots
        self.default = default
        self.segs = segs  # what sym stands for, if known: (key Seg, value Seg)

    def clone(self):
        return DictO(self.entries, self.sym, self.roots, self.default, self.segs)


class ArrO(Obj):
    """numeric array.  shape: tuple of T.  body: node over IOTA (1-D) giving the
    initial content; writes: tuple of (index node, value node)"""

    def __init__(self, shape, body, writes=(), roots=frozenset(), dt="f"):
        self.shape, self.body, self.writes = tuple(shape), body, tuple(writes)
        self.roots = roots
        self.dt = dt  # 'f' float, 'i' integer, 'm' dtype of caller data, 'b' bool

    def clone(self):
        return ArrO(self.shape, self.body, self.writes, self.roots, self.dt)

    def at(self, idx):
        v = tm.subst(self.body, {tm.IOTA: idx})
        for i, w in self.writes:
            v = tm.ite(tm.eq(i, idx), w, v)
        return v

    def full(self):
        """content as a node over IOTA including the writes"""
        v = self.body
        for i, w in self.writes:
            v = tm.ite(tm.eq(i, tm.IOTA), w, v)
        return v


class QO(Obj):
    """pint quantity: magnitude (T or Ref to ArrO or other value) and unit"""

    def __init__(self, mag, unit, roots=frozenset()):
        self.mag, self.unit, self.roots = mag, unit, roots

    def clone(self):
        return QO(self.mag, self.unit, self.roots)


class XO(Obj):
    """opaque library object: kind hint, version node, alias roots"""

    def __init__(self, kind, term, roots=frozenset(), attrs=None):
        self.kind, self.term, self.roots = kind, term, roots
        self.attrs = attrs or {}

    def clone(self):
        return XO(self.kind, self.term, self.roots, dict(self.attrs))


class FrameO(Obj):
    def __init__(self, attrs):
        self.attrs = attrs

    def clone(self):
        return FrameO(dict(self.attrs))

    def fields(self):
        return dict(self.attrs)
