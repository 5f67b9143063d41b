"""Abstract models: how the package under analysis is loaded and driven."""
import sys

from . import nf
from . import terms as tm
from . import units as un
from .interp import Dead, Exit, Interp, State, Unsupported
from .values import ArrO, Const, InstO, NONE, QO, Ref, XO

sys.setrecursionlimit(100000)

PKG = "openscm_twolayermodel"
ROOT = "/repo/src"

# the documented interface (the oracle's side; not read from the source)
PARAMS = {
    "TwoLayerModel": {
        "du": "m", "dl": "m", "lambda0": "W/m^2/delta_degC", "a": "W/m^2/delta_degC^2",
        "efficacy": "dimensionless", "eta": "W/m^2/delta_degC", "delta_t": "s",
    },
    "ImpulseResponseModel": {
        "q1": "delta_degC/(W/m^2)", "q2": "delta_degC/(W/m^2)", "d1": "yr", "d2": "yr",
        "efficacy": "dimensionless", "delta_t": "yr",
    },
}
PHYS = {m: [p for p in ps if p != "delta_t"] for m, ps in PARAMS.items()}
MODELS = tuple(PARAMS)
MODULE = {"TwoLayerModel": "two_layer_model", "ImpulseResponseModel": "impulse_response_model"}
STATE = {
    "TwoLayerModel": ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"),
    "ImpulseResponseModel": ("_temp1_mag", "_temp2_mag", "_rndt_mag"),
}
TAG = {"_temp_upper_mag": "TU", "_temp_lower_mag": "TL", "_temp1_mag": "T1", "_temp2_mag": "T2", "_rndt_mag": "N"}
ERF_UNIT = "W/m^2"


class World:
    def __init__(self, sources=None, root=ROOT):
        self.I = Interp(root, PKG, hooks={"get_versions": _get_versions}, sources=sources)
        I = self.I
        self.pkg = I.load(PKG)
        self.errors = I.load(PKG + ".errors")
        self.base_exits = list(I.handlers[-1])
        I.handlers[-1] = []
        self.load_events = list(I.events)
        I.events.clear()
        self.models = {}
        for m in MODELS:
            self.models[m] = self.expect(lambda m=m: I.getattr_(I.load(PKG + "." + MODULE[m]), m))

    # ---------------------------------------------------------------- running
    def run(self, f):
        """run f; returns (value or None if no normal exit, exits)"""
        I = self.I
        I.handlers.append([])
        depth = len(I.handlers)
        try:
            v = f()
        except Dead:
            v = None
            I.st = None
        del I.handlers[depth:]
        return v, I.handlers.pop()

    def expect(self, f):
        """run f; possible exceptional exits are dropped"""
        v, _ = self.run(f)
        if self.I.st is None:
            raise Unsupported("no normal exit where one is expected: %s" % self.describe(_))
        return v

    def run_or_keep(self, f):
        """run f; if it has no normal exit, go on from the state before"""
        keep = self.save()
        v, ex = self.run(f)
        if self.I.st is None:
            self.restore(keep)
            v = None
        return v, ex

    def describe(self, exits):
        return "; ".join("%s at %s" % (self.exc_name(e), e.site) for e in exits[:3])

    def exc_name(self, e):
        I = self.I
        keep = I.st
        I.st = e.st
        try:
            v = e.exc
            o = I.obj(v) if isinstance(v, Ref) else None
            if isinstance(o, InstO):
                return I.cls_name(o.cls) or "?"
            return "?"
        finally:
            I.st = keep

    def exc_mro(self, e):
        I = self.I
        keep = I.st
        I.st = e.st
        try:
            o = I.obj(e.exc) if isinstance(e.exc, Ref) else None
            return I.exc_names(o.cls) if isinstance(o, InstO) else []
        finally:
            I.st = keep

    def save(self):
        return self.I.st.clone()

    def restore(self, st):
        self.I.st = st.clone()

    # ---------------------------------------------------------------- values
    def unit(self, text, factor=None, label=None):
        v, u = un.parse(text)
        if factor is None:
            return u
        return un.Unit(factor, u.dims, label if label is not None else tm.opq("userunit:" + tm.show(factor)))

    def quantity(self, name, unit, sign=None, roots=None, nonzero=False, factor=None):
        """an arbitrary quantity of the dimensions of `unit`, expressed in an
        arbitrary unit: physical value = atom `name`, unit factor = atom u:name"""
        x = tm.atom(name, sign=sign) if sign else tm.atom(name)
        u = tm.atom("u:" + (factor or name), sign="+")
        mag = tm.div(x, u)
        return self.I.alloc(QO(mag, self.unit(unit, u), frozenset(roots or ())))

    @staticmethod
    def length(name, lb=5):
        return tm.atom("n:" + name, sign="+", integer=True, lb=lb)

    def erf_q(self, name="E", n=None, roots=None, nan=False, unit=True, factor=None):
        """a one-dimensional forcing: physical values sel(name, i), arbitrary
        unit; any length that allows for the steps taken, unless given"""
        if n is None:
            n = self.length(name)
        elif isinstance(n, int):
            n = tm.num(n)
        u = tm.atom("u:" + (factor or name), sign="+") if unit else tm.ONE
        body = tm.div(tm.sel(name, tm.IOTA, maybe_nan=nan), u)
        arr = self.I.alloc(ArrO((n,), body, (), frozenset(roots or ()), "m"))
        un_ = self.unit(ERF_UNIT, u) if unit else self.unit(ERF_UNIT)
        return self.I.alloc(QO(arr, un_, frozenset(roots or ())))

    def params(self, model, suffix="", signs=None, roots=False):
        signs = signs or {}
        return {
            p: self.quantity(p + suffix, u, signs.get(p), roots={"arg:" + p + suffix} if roots else None)
            for p, u in PARAMS[model].items()
        }

    def model(self, model, kwargs=None, suffix="", signs=None, roots=False):
        kw = self.params(model, suffix, signs, roots)
        kw.update(kwargs or {})
        cls = self.models[model]
        return self.expect(lambda: self.I.call(cls, [], kw))

    # ---------------------------------------------------------------- actions
    def meth(self, inst, name, *args, **kw):
        return self.I.call(self.I.getattr_(inst, name), list(args), kw)

    def do(self, inst, name, *args, **kw):
        return self.expect(lambda: self.meth(inst, name, *args, **kw))

    def get(self, inst, name):
        return self.expect(lambda: self.I.getattr_(inst, name))

    def set(self, inst, name, val):
        return self.expect(lambda: self.I.setattr_(inst, name, val))

    def si(self, v):
        """physical (SI) value node of a quantity, or a plain node"""
        I = self.I
        if isinstance(v, Ref) and isinstance(I.obj(v), QO):
            o = I.obj(v)
            m = o.mag
            if isinstance(m, Ref) and isinstance(I.obj(m), ArrO):
                m = I.obj(m).full()
            return tm.mul(I.term_of(m), o.unit.factor)
        return I.term_of(v)

    def attr(self, inst, name):
        return self.I.obj(inst).attrs.get(name)


def _get_versions(I, f, args, kwargs, node):
    return I.mkdict([(Const(k), I.alloc(XO("str", tm.opq("version:" + k)))) for k in ("version", "full-revisionid", "dirty", "error", "date")])
