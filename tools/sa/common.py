"""Helpers shared by the rules."""
from . import nf
from . import terms as tm
from . import units as un
from .values import (
    NONE, UNDEF, ArrO, BoundM, ClsO, Const, DictO, FuncV, Gated, InstO, IterV, LibV, ListO, ModO, QO,
    Ref, Seg, UnitV, XO,
)
from .interp import Unsupported
from .world import ERF_UNIT, MODELS, PARAMS, PHYS, PKG, STATE, TAG

UNITERR = PKG + ".errors.UnitError"
STATEERR = PKG + ".errors.ModelStateError"
CONVERT = {"TwoLayerModel": "get_impulse_response_parameters", "ImpulseResponseModel": "get_two_layer_parameters"}
OTHER = {"TwoLayerModel": "ImpulseResponseModel", "ImpulseResponseModel": "TwoLayerModel"}


def num(x):
    return tm.num(x)


def phys(model, suffix="", sign=None):
    return {p: tm.atom(p + suffix, sign=sign) if sign else tm.atom(p + suffix) for p in PARAMS[model]}


def entries(W, v):
    """{key: value} of a dict result"""
    o = W.I.obj(v) if isinstance(v, Ref) else None
    if not isinstance(o, DictO):
        return None
    out = {}
    for g, k, x in o.entries:
        if isinstance(k, Const):
            out[k.v] = x
    return out


def is_q(W, v):
    return isinstance(v, Ref) and isinstance(W.I.st.heap.get(v.oid), QO)


def quantity_parts(W, q):
    """the terms a (possibly opaque) quantity is made of"""
    o = W.I.st.heap.get(q.oid) if isinstance(q, Ref) else None
    if isinstance(o, XO):
        return [o.term]
    if isinstance(o, QO):
        return [t for t in (o.mag, o.unit.factor, *(e for _, e in getattr(o.unit, "dims", ()) or () if isinstance(e, tm.T))) if isinstance(t, tm.T)]
    return [q] if isinstance(q, tm.T) else []


def mag_term(W, q, st=None):
    st = st or W.I.st
    o = st.heap[q.oid]
    m = o.mag
    if isinstance(m, Ref) and isinstance(st.heap.get(m.oid), ArrO):
        return st.heap[m.oid].full()
    return W.I.term_of(m)


def same(v, s1, w, s2, memo=None):
    """structural identity of two values in two states"""
    memo = {} if memo is None else memo
    if isinstance(v, tm.T) or isinstance(w, tm.T):
        return v is w
    if type(v) is not type(w):
        return False
    if isinstance(v, Ref):
        if (v.oid, w.oid) in memo:
            return True
        memo[(v.oid, w.oid)] = True
        a, b = s1.heap.get(v.oid), s2.heap.get(w.oid)
        if a is b:
            # the same object version: its references may still have changed
            if a is None or v.oid != w.oid:
                return a is b
        if type(a) is not type(b):
            return False
        f = lambda x, y: same(x, s1, y, s2, memo)
        if isinstance(a, InstO):
            return a.attrs.keys() == b.attrs.keys() and all(f(a.attrs[k], b.attrs[k]) for k in a.attrs)
        if isinstance(a, ArrO):
            return a.shape == b.shape and a.full() is b.full() or (a.shape == b.shape and bool(nf.equal(a.full(), b.full())))
        if isinstance(a, QO):
            return a.unit == b.unit and f(a.mag, b.mag)
        if isinstance(a, XO):
            return a.term is b.term
        if isinstance(a, ListO):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                if isinstance(x, Seg) or isinstance(y, Seg):
                    if not (isinstance(x, Seg) and isinstance(y, Seg) and x.n is y.n and x.guard is y.guard and f(x.val, y.val)):
                        return False
                elif x[0] is not y[0] or not f(x[1], y[1]):
                    return False
            return True
        if isinstance(a, DictO):
            return len(a.entries) == len(b.entries) and a.sym is b.sym and all(
                x[0] is y[0] and f(x[1], y[1]) and f(x[2], y[2]) for x, y in zip(a.entries, b.entries)
            )
        return a is b
    if isinstance(v, Gated):
        return v.cond is w.cond and same(v.a, s1, w.a, s2, memo) and same(v.b, s1, w.b, s2, memo)
    if isinstance(v, BoundM):
        return v.func is w.func
    return v == w


def changed_attrs(inst, s1, s2, ignore=()):
    a, b = s1.heap[inst.oid], s2.heap[inst.oid]
    out = []
    for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
        if k in ignore:
            continue
        x, y = a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
        if x is UNDEF or y is UNDEF:
            if x is not y:
                out.append(k)
        elif not same(x, s1, y, s2):
            out.append(k)
    return out


def equal_under(a, b, facts):
    """equal when the guards hold? equalities among them are put in"""
    todo = []
    for f in facts:
        todo += list(f.args) if f.op == "and" else [f]
    while todo:
        c = todo.pop(0)
        if c.op == "eq0":
            a, b, *todo = nf.assume((a, b) + tuple(todo), c, True)
            todo = [x for x in todo if x is not tm.TRUE]
    return bool(nf.equal(a, b, tuple(facts)))


def same_quantity(W, v, s1, q, s2, facts=()):
    """v (in s1) is a quantity with the magnitude and unit q had in s2"""
    a = s1.heap.get(v.oid) if isinstance(v, Ref) else None
    b = s2.heap[q.oid]
    if not isinstance(a, QO):
        return False
    if not equal_under(a.unit.factor, b.unit.factor, facts):
        return False
    # (the texts of units that a guard says are equal are the same)
    if a.unit.label is not b.unit.label and nf.equal(a.unit.factor, b.unit.factor):
        return False
    if isinstance(a.mag, tm.T) != isinstance(b.mag, tm.T):
        return False
    if isinstance(a.mag, tm.T):
        return bool(equal_under(a.mag, b.mag, facts))
    x, y = s1.heap[a.mag.oid], s2.heap[b.mag.oid]
    return isinstance(x, ArrO) and x.shape == y.shape and bool(equal_under(x.full(), y.full(), facts))


def exit_conds(e, base):
    """path condition an exit adds to the base"""
    return [c for c in e.st.pc if c not in base]


def names(deps):
    out = set()
    for d in deps:
        if d.op in ("atom", "sel"):
            out.add(d.args[0])
        elif d.op in ("opq", "bopq"):
            out.add(str(d.args[0]))
    return out


def show(t, n=220):
    s = tm.show(t)
    return s if len(s) <= n else s[: n - 3] + "..."


def either_array(W, v, st):
    """the object behind v; of two arrays of the same shape, the one with the
    contents of either"""
    if isinstance(v, Gated):
        a, b = either_array(W, v.a, st), either_array(W, v.b, st)
        c = W.I.decide(v.cond)
        if c in (tm.TRUE, tm.FALSE):
            return a if c is tm.TRUE else b
        if not (isinstance(a, ArrO) and isinstance(b, ArrO) and len(a.shape) == len(b.shape)):
            return None
        shape = []
        for p, q in zip(a.shape, b.shape):
            if p is q or tm.eq(p, q) is v.cond:
                shape.append(q)
            elif tm.not_(tm.eq(p, q)) is v.cond:
                shape.append(p)
            else:
                shape.append(tm.ite(v.cond, p, q))
        return ArrO(shape, tm.ite(v.cond, a.full(), b.full()), (), a.roots | b.roots, a.dt)
    return st.heap.get(v.oid) if isinstance(v, Ref) else None


def state_arr(W, x, a, st=None):
    st = st or W.I.st
    v = st.heap[x.oid].attrs.get(a)
    o = either_array(W, v, st)
    if isinstance(o, XO):
        raise Unsupported("the array %s is made by an operation that is not understood: %s" % (a, show(o.term, 80)))
    return o if isinstance(o, ArrO) else None


def prepared(W, model, erf="E", n=None, **kw):
    """a model with arbitrary parameters, forcing set, reset"""
    x = W.model(model, **kw)
    e = W.erf_q(erf, n=n)
    W.do(x, "set_drivers", e)
    W.do(x, "reset")
    return x, e


def exits_of(ctx, W, f):
    v, ex = W.run(f)
    ctx.exits += len(ex)
    return v, ex
