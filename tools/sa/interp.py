"""Abstract interpreter over the Python AST (value-graph domain)."""
import ast
import builtins
import os
from fractions import Fraction

from . import nf
from . import prelude
from . import terms as tm
from . import units as un
from .terms import T
from .values import (
    NONE, UNDEF, ArrO, BoundM, CachedPropV, ClassMV, ClsO, Const, DictO, FrameO, FuncV,
    Gated, InstO, IterV, LibV, ListO, MethV, ModO, PartialV, PropV, QO, Ref, Seg, SliceV,
    StaticV, SuperV, UnitV, XO, veq,
)

MAX_UNROLL = 80
FOREVER = 10  # rounds of `while True` taken one by one
MAX_DEPTH = 60


class Unsupported(Exception):
    def __init__(self, msg, where=""):
        super().__init__("%s%s" % (msg, " at %s" % where if where else ""))


class Dead(Exception):
    """the current abstract state is unreachable"""


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def clone(self):
        return State(dict(self.heap), self.pc)


class Exit:
    """an exceptional exit"""

    def __init__(self, st, exc, site):
        self.st, self.exc, self.site = st, exc, site


class Event:
    def __init__(self, kind, pc, site, **kw):
        self.kind, self.pc, self.site = kind, pc, site
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("pc",)}
        return "Event(%r)" % d


EXT_EXC = {
    "pint.errors.PintError": ("builtins.Exception",),
    "pint.errors.PintTypeError": ("pint.errors.PintError", "builtins.TypeError"),
    "pint.errors.DimensionalityError": ("pint.errors.PintTypeError",),
    "pint.errors.OffsetUnitCalculusError": ("pint.errors.PintTypeError",),
    "pint.errors.UndefinedUnitError": ("builtins.AttributeError", "pint.errors.PintError"),
    "pint.errors.DefinitionSyntaxError": ("builtins.ValueError", "pint.errors.PintError"),
    "pint.errors.UnitStrippedWarning": ("builtins.UserWarning",),
}
ALIASES = {
    "pint.DimensionalityError": "pint.errors.DimensionalityError",
    "pint.UndefinedUnitError": "pint.errors.UndefinedUnitError",
    "pint.OffsetUnitCalculusError": "pint.errors.OffsetUnitCalculusError",
    "pint.PintError": "pint.errors.PintError",
    "pint.quantity.Quantity": "pint.Quantity",
    "pint.Quantity": "pint.Quantity",
    "openscm_units.unit_registry.Quantity": "pint.Quantity",
    "openscm_units.unit_registry.Unit": "pint.Unit",
    "scmdata.ScmRun": "scmdata.run.ScmRun",
    "scmdata.run.BaseScmRun": "scmdata.run.ScmRun",
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "tqdm.tqdm": "tqdm.autonotebook.tqdm",
    "tqdm.auto.tqdm": "tqdm.autonotebook.tqdm",
    "tqdm.std.tqdm": "tqdm.autonotebook.tqdm",
    "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError",
    "openscm_units._unit_registry.unit_registry": "openscm_units.unit_registry",
}


STRUCTURAL = {"ScmRun-format", "m:reset_index", "m:rename", "m:set_index", "m:drop", "m:rename_axis", "m:sort_index", "m:sort_values", "m:insert", "m:pop"}


def opname(t):
    return t.args[0] if isinstance(t, T) and t.op in ("opq", "bopq") else ""


class Fill:
    """what every iteration of a loop stores at its own place of a list"""

    def __init__(self, seg, val):
        self.seg, self.val = seg, val

    def __len__(self):
        return 1


class Interp:
    def __init__(self, root, package, hooks=None, sources=None):
        """root: directory holding the package; sources: optional
        {module name: source text} overriding files"""
        self.root, self.package = root, package
        self.sources = sources or {}
        self.hooks = hooks or {}
        self.env = None  # model of the environment (version discovery)
        self.undef_reads = set()  # local names read in a loop before they are set
        self.inject = None  # called at every function call and library method
        self.st = State({}, ())
        self.frames = []  # (frame oid, FuncV or None, module oid)
        self.handlers = [[]]
        self.events = []
        self.loops = []  # stack of loop contexts
        self.loopinfo = []
        self.guarded = {}
        self.unknown_calls = []  # library functions met that have no model
        self.rets = []
        self.callstack = []
        self.modules = {}
        self.trees = {}
        self._oid = 0
        self._fresh = {}
        self.consulted = set()
        self.curexc = []
        self.def_objs = {}
        self.yields = []
        self.nodecount = 0
        self.undecided = {}  # conditions met that hold in some runs only
        from . import lib

        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ utilities
    def fresh(self, stem):
        n = self._fresh.get(stem, 0)
        self._fresh[stem] = n + 1
        return "%s#%d" % (stem, n) if n else stem

    def alloc(self, obj):
        self._oid += 1
        self.st.heap[self._oid] = obj
        return Ref(self._oid)

    def obj(self, ref):
        return self.st.heap[ref.oid]

    def mut(self, ref):
        o = self.st.heap[ref.oid].clone()
        self.st.heap[ref.oid] = o
        return o

    def isobj(self, v, cls):
        return isinstance(v, Ref) and isinstance(self.st.heap.get(v.oid), cls)

    def site(self, node=None):
        fn = self.callstack[-1] if self.callstack else None
        mod = self.modname_of(self.frames[-1][2]) if self.frames else "?"
        line = getattr(node, "lineno", "?")
        q = fn.qualname if fn else "<module>"
        return "%s:%s (%s)" % (self.filename(mod), line, q)

    def modname_of(self, oid):
        o = self.st.heap.get(oid) if self.st else None
        if o is None:
            for n, r in self.modules.items():
                if r.oid == oid:
                    return n
            return "?"
        return o.name

    def filename(self, mod):
        rel = mod.replace(".", "/")
        if os.path.isdir(os.path.join(self.root, rel)):
            rel += "/__init__"
        return "src/" + rel + ".py"

    def event(self, kind, node=None, **kw):
        e = Event(kind, self.st.pc if self.st else (), self.site(node), **kw)
        e.stack = tuple(f.qualname for f in self.callstack)
        e.loop = tuple(lp.get("id") for lp in self.loops)
        self.events.append(e)
        return e

    def unsupported(self, msg, node=None):
        raise Unsupported(msg, self.site(node))

    # ------------------------------------------------------------ conditions
    def facts(self):
        out = []
        for c in self.st.pc:
            if c.op == "and":
                out.extend(c.args)
            out.append(c)
        return tuple(out)

    def decide(self, c):
        if c.op in ("true", "false"):
            return c
        r = nf.entails(self.facts(), c)
        if r is not tm.TRUE and r is not tm.FALSE:
            self.undecided[c] = True
        return r

    def assume_st(self, st, c):
        if c is tm.TRUE:
            return
        st.pc = st.pc + tuple(x for x in ([c] if c.op != "and" else list(c.args)) if x not in st.pc)

    def assume(self, c):
        self.assume_st(self.st, c)

    # ------------------------------------------------------------ joins
    def join(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        r = states[-1]
        for s in reversed(states[:-1]):
            r = self.join2(s, r)
        return r

    def join2(self, s1, s2):
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        r1, r2 = tm.and_(*s1.pc[n:]), tm.and_(*s2.pc[n:])
        both = tm.or_(r1, r2)
        pc = s1.pc[:n]
        if both is not tm.TRUE:
            pc = pc + (both,)
        # gate: the first condition on which the two states disagree
        cond = None
        neg2 = set(s2.pc[n:])
        for c in s1.pc[n:]:
            if tm.not_(c) in neg2:
                cond = c
                break
        if cond is None:
            cond = r1
        heap = dict(s2.heap)
        out = State(heap, pc)
        for oid, o1 in s1.heap.items():
            o2 = s2.heap.get(oid)
            if o2 is None:
                heap[oid] = o1
            elif o1 is not o2:
                heap[oid] = self.merge_obj(cond, o1, o2, out, s1, s2)
        return out

    def merge_obj(self, c, a, b, out, s1, s2):
        mv = lambda x, y: self.merge_val(c, x, y, out, s1, s2)
        if type(a) is not type(b):
            return XO("merge", tm.ite(c, self._obj_term(a), self._obj_term(b)), a.roots | b.roots)
        if isinstance(a, (InstO, ClsO, ModO, FrameO)):
            r = a.clone()
            keys = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
            r.attrs = {k: mv(a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)) for k in keys}
            return r
        if isinstance(a, ListO):
            n = 0
            while n < len(a.items) and n < len(b.items) and self._ieq(a.items[n], b.items[n]):
                n += 1
            items = list(a.items[:n])
            ra, rb = a.items[n:], b.items[n:]
            if len(ra) == len(rb) and all(not isinstance(x, Seg) for x in ra + rb) and all(
                x[0] is y[0] for x, y in zip(ra, rb)
            ):
                items += [(x[0], mv(x[1], y[1])) for x, y in zip(ra, rb)]
            else:
                for g, rest in ((c, ra), (tm.not_(c), rb)):
                    for x in rest:
                        if isinstance(x, Seg):
                            items.append(Seg(x.ivar, x.n, tm.and_(g, x.guard), x.val))
                        else:
                            items.append((tm.and_(g, x[0]), x[1]))
            return ListO(items, a.kind, a.roots | b.roots)
        if isinstance(a, DictO):
            ents = []
            done = set()
            for g, k, v in a.entries:
                hit = None
                for j, (g2, k2, v2) in enumerate(b.entries):
                    if j not in done and veq(k, k2):
                        hit = j
                        break
                if hit is not None:
                    done.add(hit)
                    g2, _, v2 = b.entries[hit]
                    ents.append((tm.ite(c, g, g2), k, mv(v, v2)))
                else:
                    ents.append((tm.and_(c, g), k, v))
            for j, (g2, k2, v2) in enumerate(b.entries):
                if j not in done:
                    ents.append((tm.and_(tm.not_(c), g2), k2, v2))
            sym = a.sym if a.sym is b.sym else tm.ite(c, a.sym or tm.opq("nosym"), b.sym or tm.opq("nosym"))
            return DictO(ents, sym, a.roots | b.roots, a.default, a.segs if sym is a.sym and a.segs == b.segs else ())
        if isinstance(a, ArrO):
            if a.shape != b.shape:
                if len(a.shape) == len(b.shape):
                    shape = tuple(tm.ite(c, x, y) for x, y in zip(a.shape, b.shape))
                else:
                    shape = (tm.opq("len", tm.ite(c, a.shape[0] if a.shape else tm.ONE, b.shape[0] if b.shape else tm.ONE)),)
                return ArrO(shape, tm.ite(c, a.full(), b.full()), (), a.roots | b.roots, _dtj(a.dt, b.dt))
            if a.body is b.body:
                n = 0
                while n < len(a.writes) and n < len(b.writes) and a.writes[n] == b.writes[n]:
                    n += 1
                w = list(a.writes[:n])
                idxs = []
                for i, _ in a.writes[n:] + b.writes[n:]:
                    if i not in idxs:
                        idxs.append(i)
                for i in idxs:
                    w.append((i, tm.ite(c, a.at(i), b.at(i))))
                return ArrO(a.shape, a.body, w, a.roots | b.roots, _dtj(a.dt, b.dt))
            return ArrO(a.shape, tm.ite(c, a.full(), b.full()), (), a.roots | b.roots, _dtj(a.dt, b.dt))
        if isinstance(a, QO):
            if a.unit == b.unit:
                return QO(mv(a.mag, b.mag), a.unit, a.roots | b.roots)
            u = un.Unit(
                tm.ite(c, a.unit.factor, b.unit.factor),
                a.unit.dims if a.unit.dims == b.unit.dims else ("dyn", tm.ite(c, un.dims_node(a.unit.dims), un.dims_node(b.unit.dims))),
                tm.ite(c, a.unit.label, b.unit.label),
            )
            return QO(mv(a.mag, b.mag), u, a.roots | b.roots)
        if isinstance(a, XO):
            return XO(a.kind if a.kind == b.kind else "merge", tm.ite(c, a.term, b.term), a.roots | b.roots, a.attrs)
        raise Unsupported("merge of %s" % type(a).__name__)

    def _obj_term(self, o):
        if isinstance(o, XO):
            return o.term
        return tm.opq("obj", type(o).__name__, id(o))

    @staticmethod
    def _ieq(x, y):
        if isinstance(x, Seg) or isinstance(y, Seg):
            return veq(x, y)
        return x[0] is y[0] and veq(x[1], y[1])

    def merge_val(self, c, a, b, out=None, s1=None, s2=None):
        if veq(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and out is not None:
            oa, ob = s1.heap.get(a.oid), s2.heap.get(b.oid)
            if isinstance(oa, QO) and isinstance(ob, QO) and oa.unit == ob.unit and isinstance(oa.mag, T) and isinstance(ob.mag, T):
                self._oid += 1
                out.heap[self._oid] = QO(tm.ite(c, oa.mag, ob.mag), oa.unit, oa.roots | ob.roots)
                return Ref(self._oid)
        return Gated(c, a, b)

    def fork(self, cond, f1, f2):
        """evaluate f1 under cond and f2 under not cond; join states and values"""
        c = self.decide(cond)
        if c is tm.TRUE:
            return f1()
        if c is tm.FALSE:
            return f2()
        base = self.st
        res = []
        for cc, f in ((c, f1), (tm.not_(c), f2)):
            self.st = base.clone()
            self.assume(cc)
            try:
                v = f()
                res.append((self.st, v, cc))
            except Dead:
                pass
        if not res:
            self.st = None
            raise Dead
        if len(res) == 1:
            self.st = res[0][0]
            return res[0][1]
        (s1, v1, c1), (s2, v2, _) = res
        self.st = self.join2(s1, s2)
        return self.merge_val(c1, v1, v2, self.st, s1, s2)

    def lift(self, v, f):
        if isinstance(v, Gated):
            return self.fork(v.cond, lambda: self.lift(v.a, f), lambda: self.lift(v.b, f))
        return f(v)

    def lift2(self, a, b, f):
        return self.lift(a, lambda x: self.lift(b, lambda y: f(x, y)))

    # ------------------------------------------------------------ exceptions
    def make_exc(self, cls, *args, cause=NONE):
        if isinstance(cls, str):
            cls = LibV(cls if "." in cls else "builtins." + cls)
        return self.alloc(InstO(cls, {"args": self.mklist(list(args), "tuple"), "__cause__": cause, "__context__": self.curexc[-1] if self.curexc else NONE}))

    def raise_(self, exc, node=None):
        self.handlers[-1].append(Exit(self.st, exc, self.site(node)))
        self.st = None
        raise Dead

    def raise_name(self, name, node=None, msg=""):
        self.raise_(self.make_exc(name, Const(msg)), node)

    def may_raise(self, cond, name, node=None, msg=""):
        c = self.decide(cond)
        if c is tm.FALSE:
            return
        if c is tm.TRUE:
            self.raise_name(name, node, msg)
        keep = self.st
        self.st = keep.clone()
        self.assume(c)
        try:
            self.raise_name(name, node, msg)
        except Dead:
            pass
        self.st = keep
        self.assume(tm.not_(c))

    def exc_names(self, cls):
        """all (ancestor) class names of an exception class value"""
        out = []

        def go(c):
            if isinstance(c, LibV):
                p = ALIASES.get(c.path, c.path)
                if p in out:
                    return
                out.append(p)
                for b in EXT_EXC.get(p, ()):
                    go(LibV(b))
                if p.startswith("builtins."):
                    k = getattr(builtins, p[9:], None)
                    if isinstance(k, type):
                        for b in k.__mro__[1:]:
                            go(LibV("builtins." + b.__name__))
            elif isinstance(c, Ref):
                o = self.obj(c)
                n = o.mod + "." + o.name
                if n in out:
                    return
                out.append(n)
                for b in o.bases:
                    go(b)

        go(cls)
        return out

    def cls_name(self, c):
        if isinstance(c, LibV):
            return ALIASES.get(c.path, c.path)
        if isinstance(c, Ref) and isinstance(self.st.heap.get(c.oid), ClsO):
            o = self.obj(c)
            return o.mod + "." + o.name
        return None

    # ------------------------------------------------------------ lists etc.
    def mklist(self, vals, kind="list"):
        return self.alloc(ListO([(tm.TRUE, v) for v in vals], kind))

    def mkdict(self, pairs):
        return self.alloc(DictO([(tm.TRUE, k, v) for k, v in pairs]))

    # ------------------------------------------------------------ modules
    def load(self, name):
        """interpret a module of the package; returns Ref(ModO)"""
        if name in self.modules and self.modules[name].oid in self.st.heap:
            return self.modules[name]
        src, path = self.source(name)
        self.consulted.add(path)
        tree = ast.parse(src)
        self.trees[name] = tree
        ref = self.alloc(ModO(name, {"__name__": Const(name), "__file__": Const(path), "__doc__": NONE}))
        self.modules[name] = ref
        self.frames.append((ref.oid, None, ref.oid))
        saved = self.callstack
        self.callstack = []
        self.handlers.append([])
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop()
            self.callstack = saved
            exits = self.handlers.pop()
        if self.st is None:
            raise Unsupported("module %s never finishes importing: %s" % (name, [e.site for e in exits]))
        self.handlers[-1].extend(exits)
        return ref

    def source(self, name):
        if name in self.sources:
            return self.sources[name], name
        rel = os.path.join(self.root, *name.split("."))
        for p in (rel + ".py", os.path.join(rel, "__init__.py")):
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    return f.read(), p
        raise Unsupported("module %s not found under %s" % (name, self.root))

    def has_module(self, name):
        if name in self.sources:
            return True
        rel = os.path.join(self.root, *name.split("."))
        return os.path.exists(rel + ".py") or os.path.exists(os.path.join(rel, "__init__.py"))

    def is_pkg(self, name):
        return os.path.isdir(os.path.join(self.root, *name.split(".")))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.nodecount += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(s).__name__, s)
        try:
            m(s)
        except Dead:
            self.st = None

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        fo = self.frames[-1][0]
        o = self.mut(Ref(fo))
        o.attrs["<globals>"] = o.attrs.get("<globals>", ()) + tuple(s.names)
        self.event("global", s, names=s.names)

    def s_Nonlocal(self, s):
        fo = self.frames[-1][0]
        o = self.mut(Ref(fo))
        o.attrs["<nonlocals>"] = o.attrs.get("<nonlocals>", ()) + tuple(s.names)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            self.assign(t, self.inplace(op, cur, self.eval(s.value), s))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            cur = self.getattr_(base, t.attr, t)
            v = self.inplace(op, cur, self.eval(s.value), s)
            self.setattr_(base, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval(t.slice)
            cur = self.getitem(base, idx, t)
            v = self.inplace(op, cur, self.eval(s.value), s)
            self.setitem(base, idx, v, t)
        else:
            self.unsupported("augmented assignment target", s)

    def inplace(self, op, cur, val, node):
        def go(c):
            if self.isobj(c, ListO) and op == "Add" and self.obj(c).kind == "list":
                self.lib.list_extend(c, val, node)
                return c
            if self.isobj(c, ArrO):
                r = self.lib.binop(op, c, val, node)
                self.lib.arr_replace(c, r, node)
                return c
            if self.isobj(c, QO) and self.isobj(self.obj(c).mag, ArrO):
                r = self.lib.binop(op, c, val, node)
                q = self.obj(r)
                self.touch(c, node, "augmented assignment")
                o = self.mut(c)
                m = o.mag
                self.lib.arr_replace(m, q.mag, node)
                self.mut(c).unit = q.unit
                return c
            if self.isobj(c, XO) and self.obj(c).kind not in ("scalar", "str"):
                r = self.lib.binop(op, c, val, node)
                self.xmutate(c, "aug:" + op, [val], node)
                return c
            return self.lib.binop(op, c, val, node)

        return self.lift(cur, go)

    def touch(self, ref, node, how):
        """record an in-place modification of a heap object"""
        o = self.obj(ref)
        roots = o.roots
        if any(r.startswith("data:") for r in roots):
            # a shallow copy of a frame has its own index and columns and
            # shares the values
            own = how in STRUCTURAL or how.startswith(("via:index:", "via:columns:", "setattr:index", "setattr:columns"))
            roots = frozenset(r[5:] if r.startswith("data:") else r for r in roots if not (own and r.startswith("data:")))
        self.event("mutate", node, oid=ref.oid, roots=roots, how=how, okind=type(o).__name__)

    def xmutate(self, ref, op, args, node):
        self.touch(ref, node, op)
        o = self.mut(ref)
        o.term = tm.opq("mut:" + op, o.term, *[self.term_of(a) for a in args])
        rec = o.attrs.get("recv")
        # a view (df.index, df.iloc ...) passes the modification to its owner
        if rec is not None and self.isobj(rec, XO):
            self.xmutate(rec, "via:" + str(o.attrs.get("name")) + ":" + op, args, node)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.mut(Ref(self.frames[-1][0]))
                fr.attrs.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                if self.isobj(b, InstO):
                    o = self.mut(b)
                    o.attrs.pop(t.attr, None)
                elif self.isobj(b, XO):
                    self.xmutate(b, "delattr:" + t.attr, [], s)
                else:
                    self.unsupported("del attribute", s)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.eval(t.slice)
                if self.isobj(b, DictO):
                    self.lib.dict_pop(b, i, None, s)
                elif self.isobj(b, XO):
                    self.xmutate(b, "delitem", [i], s)
                else:
                    self.unsupported("del item", s)

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test), s)
        self.may_raise(tm.not_(c), "builtins.AssertionError", s)

    def s_Raise(self, s):
        if s.exc is None:
            if not self.curexc:
                self.raise_name("RuntimeError", s)
            self.raise_(self.curexc[-1], s)
        e = self.eval(s.exc)
        cause = self.eval(s.cause) if s.cause is not None else None

        def go(e):
            if isinstance(e, LibV) or self.isobj(e, ClsO):
                e = self.call(e, [], {}, s)
            if not self.isobj(e, InstO):
                self.unsupported("raise of %r" % (e,), s)
            if cause is not None:
                o = self.mut(e)
                o.attrs["__cause__"] = cause
            self.raise_(e, s)

        self.lift(e, go)

    def s_If(self, s):
        c = self.truth(self.eval(s.test), s)
        c = self.decide(c)
        if c is tm.TRUE:
            return self.exec_block(s.body)
        if c is tm.FALSE:
            return self.exec_block(s.orelse)
        base = self.st
        self.st = base.clone()
        self.assume(c)
        self.exec_block(s.body)
        s1 = self.st
        self.st = base.clone()
        self.assume(tm.not_(c))
        self.exec_block(s.orelse)
        self.st = self.join([s1, self.st])

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.rets[-1].append((self.st, v))
        self.st = None

    def s_Break(self, s):
        self.loops[-1]["breaks"].append(self.st)
        self.st = None

    def s_Continue(self, s):
        self.loops[-1]["continues"].append(self.st)
        self.st = None

    def s_With(self, s):
        vals = []
        for it in s.items:
            cm = self.eval(it.context_expr)
            v = self.lib.enter(cm, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            vals.append(cm)
        sup = [x for x in (self.lib.suppresses(cm) for cm in vals) if x]
        if sup:
            self.event("suppress", s, classes=[self.cls_name(c) for c in sup[0]])
            self._try(s.body, [(sup[0], None, [])], [], [], s)
        else:
            self.exec_block(s.body)

    def s_Try(self, s):
        hs = []
        for h in s.handlers:
            if h.type is None:
                classes = [LibV("builtins.BaseException")]
            else:
                classes = h  # evaluated lazily
            hs.append((classes, h.name, h.body))
        self._try(s.body, hs, s.orelse, s.finalbody, s)

    def _try(self, body, hs, orelse, finalbody, node):
        self.handlers.append([])
        base_ret, base_loops = len(self.rets[-1]) if self.rets else 0, len(self.loops)
        nb = len(self.loops[-1]["breaks"]) if self.loops else 0
        nc = len(self.loops[-1]["continues"]) if self.loops else 0
        fr, cs = list(self.frames), list(self.callstack)
        self.exec_block(body)
        exits = self.handlers.pop()
        if finalbody:
            self.handlers.append([])
        if self.st is not None and orelse:
            self.exec_block(orelse)
        outs = [self.st]
        for ex in exits:
            self.frames, self.callstack = list(fr), list(cs)
            self.st = ex.st
            handled = False
            for classes, name, hbody in hs:
                if isinstance(classes, ast.ExceptHandler):
                    cl = self.eval(classes.type)
                    cl = self.lib.class_list(cl)
                else:
                    cl = classes
                names = self.exc_names(self.obj(ex.exc).cls)
                if any(self.cls_name(c) in names for c in cl):
                    self.event("handled", node, exc=names[0], raised_at=ex.site, handler_body=hbody)
                    if name:
                        self.setlocal(name, ex.exc)
                    self.curexc.append(ex.exc)
                    self.exec_block(hbody)
                    self.curexc.pop()
                    outs.append(self.st)
                    handled = True
                    break
            if not handled:
                self.handlers[-1].append(ex)
        self.frames, self.callstack = fr, cs
        self.st = self.join(outs)
        if finalbody:
            pend = self.handlers.pop()
            after = []
            for ex in pend:
                self.st = ex.st
                self.exec_block(finalbody)
                if self.st is not None:
                    after.append(Exit(self.st, ex.exc, ex.site))
            self.handlers[-1].extend(after)
            self.st_restore = None
            lists = []
            if self.rets and len(self.rets[-1]) > base_ret:
                new = self.rets[-1][base_ret:]
                del self.rets[-1][base_ret:]
                for st, v in new:
                    self.st = st
                    self.exec_block(finalbody)
                    if self.st is not None:
                        lists.append((self.st, v))
                self.rets[-1].extend(lists)
            if self.loops and (len(self.loops[-1]["breaks"]) > nb or len(self.loops[-1]["continues"]) > nc):
                for key, k in (("breaks", nb), ("continues", nc)):
                    new = self.loops[-1][key][k:]
                    del self.loops[-1][key][k:]
                    for st in new:
                        self.st = st
                        self.exec_block(finalbody)
                        if self.st is not None:
                            self.loops[-1][key].append(self.st)
            self.st = self.join(outs)
            if self.st is not None:
                self.exec_block(finalbody)

    # -- imports and definitions
    def s_Import(self, s):
        for a in s.names:
            if a.name.split(".")[0] == self.package:
                r = self.load(a.name)
                self.setlocal(a.asname or a.name.split(".")[0], r)
            else:
                self.event("import", s, path=a.name)
                if a.asname:
                    self.setlocal(a.asname, LibV(a.name))
                else:
                    self.setlocal(a.name.split(".")[0], LibV(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        cur = self.modname_of(self.frames[-1][2])
        if s.level:
            base = cur.split(".")
            if not self.is_pkg(cur):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)] if s.level > 1 else base
            mod = ".".join(base + ([s.module] if s.module else []))
        else:
            mod = s.module
        if mod.split(".")[0] == self.package:
            m = self.load(mod)
            for a in s.names:
                if a.name == "*":
                    for k, v in list(self.obj(m).attrs.items()):
                        if not k.startswith("_"):
                            self.setlocal(k, v)
                    continue
                o = self.obj(m)
                if a.name in o.attrs:
                    v = o.attrs[a.name]
                elif self.has_module(mod + "." + a.name):
                    v = self.load(mod + "." + a.name)
                else:
                    self.raise_name("ImportError", s, a.name)
                self.setlocal(a.asname or a.name, v)
        else:
            for a in s.names:
                self.event("import", s, path=mod + "." + a.name)
                if mod == "__future__":
                    continue
                self.setlocal(a.asname or a.name, self.libval(mod + "." + a.name))

    def libval(self, path):
        return self.lib.const(ALIASES.get(path, path))

    def s_FunctionDef(self, s):
        f = self.mkfunc(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, f)
        self.setlocal(s.name, v)

    def mkfunc(self, s, name):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fo, fv, mod = self.frames[-1]
        isfun = fv is not None
        closure = ((fo,) + fv.closure if isfun else ()) if not getattr(self, "_in_class", None) else self._in_class[1]
        cls = self._in_class[0] if getattr(self, "_in_class", None) else None
        f = FuncV(s, name, mod, closure, defaults, kwd, cls)
        if isfun and not cls:
            self.keep_frames.add(fo)
        key = (mod, cls, name, s.lineno)
        self.def_objs[key] = f
        if not isinstance(s, ast.Lambda):
            f.isgen = _is_generator(s)
        return f

    keep_frames = set()

    def decorate(self, d, v, f):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value)
            if isinstance(p, PropV):
                g, st, dl = p.fget, p.fset, p.fdel
                if d.attr == "setter":
                    st = v
                elif d.attr == "getter":
                    g = v
                else:
                    dl = v
                return PropV(g, st, dl)
        dv = self.eval(d)
        return self.apply_deco(dv, v, f, d)

    def apply_deco(self, dv, v, f, node):
        if isinstance(dv, LibV):
            p = dv.path
            if p == "builtins.property":
                return PropV(v)
            if p == "builtins.staticmethod":
                return StaticV(v)
            if p == "builtins.classmethod":
                return ClassMV(v)
            if p in ("abc.abstractmethod", "typing.final", "typing.overload", "functools.wraps"):
                return v
            if p == "abc.abstractproperty":
                return PropV(v)
            if p == "functools.cached_property":
                c = CachedPropV(v)
                c.name = f.name
                return c
            if p in ("functools.lru_cache", "functools.cache"):
                return self.memoise(v, node)
            if p == "contextlib.contextmanager":
                return v
        if isinstance(dv, PartialV) and isinstance(dv.f, LibV):
            return self.apply_deco(dv.f, v, f, node)
        if isinstance(dv, (FuncV, BoundM)):
            return self.call(dv, [v], {}, node)
        if isinstance(dv, MethV) or self.isobj(dv, XO):
            self.unsupported("decorator %r" % (dv,), node)
        return self.call(dv, [v], {}, node)

    def memoise(self, v, node):
        if isinstance(v, FuncV):
            f = FuncV(v.node, v.name, v.mod, v.closure, v.defaults, v.kwdefaults, v.cls)
            f.isgen = v.isgen
            f.cache = self.alloc(DictO([]))
            return f
        self.unsupported("memoised %r" % (v,), node)

    def s_ClassDef(self, s):
        for seq, path in ((False, "dataclasses.dataclass"), (True, "typing.NamedTuple")):
            for d in s.bases if seq else s.decorator_list:
                v = self.eval(d)
                if isinstance(v, LibV) and v.path == path:
                    if len(s.bases if seq else s.decorator_list) != 1:
                        self.unsupported("record class", s)
                    s = prelude.record(s, seq) or self.unsupported("record class", s)
                    return self.s_ClassDef(s)
        bases = [self.eval(b) for b in s.bases]
        fo, fv, mod = self.frames[-1]
        modname = self.modname_of(mod)
        body = self.alloc(FrameO({}))
        saved = getattr(self, "_in_class", None)
        closure = (fo,) + fv.closure if fv is not None else ()
        if fv is not None:
            self.keep_frames.add(fo)
        self._in_class = (s.name, closure)
        self.frames.append((body.oid, None, mod))
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
            self._in_class = saved
        attrs = dict(self.obj(body).attrs)
        ref = self.alloc(ClsO(s.name, tuple(bases), attrs, modname, s))
        for k, a in attrs.items():
            if self.isobj(a, InstO):
                g = self.class_lookup(self.obj(a).cls, "__set_name__")
                if isinstance(g, FuncV):
                    self.call(BoundM(g, a), [ref, Const(k)], {}, s)
        v = ref
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            if isinstance(dv, (FuncV, BoundM)):
                v = self.call(dv, [v], {}, s)
            else:
                self.unsupported("class decorator", s)
        # __init_subclass__/metaclass keywords are not modelled
        for kw in s.keywords:
            if kw.arg == "metaclass":
                mv = self.eval(kw.value)
                if not (isinstance(mv, LibV) and mv.path in ("abc.ABCMeta", "builtins.type")):
                    self.unsupported("metaclass", s)
        self.setlocal(s.name, v)

    def s_AsyncFunctionDef(self, s):
        self.unsupported("async function", s)

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)

        def body():
            self.exec_block(s.body)

        def run(itv):
            self.loop(itv, lambda v: self.assign(s.target, v), body, s, s.orelse)
            return NONE

        self.lift(self.hoist(it), run)

    def loop_else(self, orelse, left):
        """the else clause of a loop of unknown trip count"""
        if orelse and self.st is not None:
            if left:
                c = tm.bopq("loop-not-left", left)
                self.fork(c, lambda: (self.exec_block(orelse), self.alive())[1], lambda: NONE)
            else:
                self.exec_block(orelse)

    def alive(self):
        if self.st is None:
            raise Dead
        return NONE

    def hoist(self, it):
        """bring gates inside a lazy iterable to the outside"""
        if isinstance(it, IterV):
            for k, a in enumerate(it.args):
                a = self.hoist(a)
                if isinstance(a, Gated):
                    put = lambda x: self.hoist(IterV(it.kind, it.args[:k] + (x,) + it.args[k + 1 :], it.kw))
                    return Gated(a.cond, put(a.a), put(a.b))
        return it

    def loop(self, itv, bind, body, node, orelse=()):
        """run a for loop over itv; self.st is updated"""
        seq = self.lib.sequence(itv, node)
        if seq[0] == "known":
            ctx = {"breaks": [], "continues": [], "id": None}
            for guard, val in seq[1]:
                if self.st is None:
                    break
                g = self.decide(guard)
                if g is tm.FALSE:
                    continue
                skip = None
                if g is not tm.TRUE:
                    skip = self.st.clone()
                    self.assume_st(skip, tm.not_(g))
                    self.assume(g)
                ctx["continues"] = []
                self.loops.append(ctx)
                try:
                    bind(val)
                    body()
                except Dead:
                    self.st = None
                finally:
                    self.loops.pop()
                self.st = self.join([self.st] + ctx["continues"] + [skip])
            if orelse and self.st is not None:
                self.exec_block(orelse)
            self.st = self.join([self.st] + ctx["breaks"])
            if self.st is None:
                raise Dead
            return
        _, n, elem = seq
        left = self.loop_sym(n, elem, bind, body, node, None)
        self.loop_else(orelse, left)

    def loop_sym(self, n, elem, bind, body, node, test):
        lid = self.fresh("loop@%s" % getattr(node, "lineno", "?"))
        ivar = tm.atom("i:" + lid, sign=">=", integer=True, lb=0)
        base = self.st
        changed, induct, appends = {}, {}, {}
        prior = {}
        late, carried = {}, {}  # names first set in the body; those also read before that
        ev0 = len(self.events)
        hmark = [len(h) for h in self.handlers]
        lmark = len(self.loopinfo)
        st1 = None
        ctx = None
        for it in range(12):
            del self.events[ev0:]
            del self.loopinfo[lmark:]
            for h, k in zip(self.handlers, hmark):
                del h[k:]
            self.st = base.clone()
            phis = {}
            for loc, tag in changed.items():
                if loc in carried:
                    phis[loc] = self.set_carried(loc, "phi:%s:%s" % (lid, tag), carried[loc], ivar)
                else:
                    phis[loc] = self.set_phi(loc, "phi:%s:%s" % (lid, tag), induct.get(loc), ivar)
            for oid, extra in prior.items():
                # what earlier iterations have appended
                o = self.st.heap[oid].clone()
                if isinstance(o, DictO):
                    o.sym = tm.opq("prior:%s:%d" % (lid, oid), ivar)
                    self.st.heap[oid] = o
                    continue
                if isinstance(extra, Fill):
                    s0 = o.items[0]
                    w = self.prior_item((tm.TRUE, extra.val), "prior:%s:%d" % (lid, oid), ivar)
                    o.items = (Seg(s0.ivar, s0.n, tm.TRUE, self.merge_val(tm.lt(s0.ivar, ivar), self.lib.deep_subst(w.val, {w.ivar: s0.ivar}), s0.val, self.st, self.st, self.st)),)
                    self.st.heap[oid] = o
                    continue
                o.items = tuple(o.items) + tuple(self.prior_item(x, "prior:%s:%d.%d" % (lid, oid, j), ivar) for j, x in enumerate(extra))
                self.st.heap[oid] = o
            entry = self.st.clone()
            if n is not None:
                self.assume(tm.lt(ivar, n))
            if test is not None:
                c = self.truth(test(), node)
                cond_term = c
                self.assume(c)
            ctx = {"breaks": [], "continues": [], "id": lid}
            self.loops.append(ctx)
            try:
                if elem is not None:
                    bind(elem(ivar))
                body()
            except Dead:
                self.st = None
            finally:
                self.loops.pop()
            st1 = self.join([self.st] + ctx["continues"])
            end = self.join([st1] + ctx["breaks"])
            if end is None:
                # the body always leaves: at most one partial iteration
                self.st = base.clone()
                if n is not None:
                    self.assume(tm.eq(n, tm.ZERO))
                return
            late = {}
            diff, appends = self.diff(entry, end, late, ivar)
            late = {l: v for l, v in late.items() if l[0] in base.heap}
            read = {l: (v, end) for l, v in late.items() if l in self.undef_reads and l not in carried}
            if read:
                carried.update(read)
                changed.update({l: l[1] for l in read})
                continue
            # what a loop-carried name refers to is part of that name
            diff = {l: t for l, t in diff.items() if l[0] in base.heap}
            appends = {k: x for k, x in appends.items() if k in base.heap}
            new = {l: t for l, t in diff.items() if l not in changed}
            if new:
                changed.update(new)
                for loc in changed:
                    prior.pop(loc[0], None)
                continue
            app = {oid: x for oid, x in appends.items() if (oid, None) not in changed}
            if {k: len(x) for k, x in app.items()} != {k: len(x) for k, x in prior.items()}:
                prior = app
                continue
            # induction variables
            ind2 = dict(induct)
            for loc in changed:
                if loc in induct:
                    continue
                v0, v1 = self.getloc(base, loc), self.getloc(end, loc)
                p = phis.get(loc)
                if isinstance(v0, T) and isinstance(v1, T) and isinstance(p, T) and not ctx["breaks"]:
                    d = tm.sub(v1, p)
                    if tm.is_num(d) and v0.op != "nan":
                        ind2[loc] = (v0, d.args[0])
            if ind2.keys() != induct.keys():
                induct = ind2
                continue
            break
        else:
            self.unsupported("loop does not stabilise", node)
        trip = n
        if test is not None and not ctx["breaks"]:
            # while loop with an induction variable: init + c*i < M
            ct = self.truth_cond_trip(cond_term, ivar)
            if ct is not None:
                trip = ct
        info = {
            "test": cond_term if test is not None else None,
            "id": lid, "node": node, "n": trip, "peeled": 0, "breaks": len(ctx["breaks"]),
            "ivar": ivar, "site": self.site_static(node), "stack": tuple(f.qualname for f in self.callstack),
            "ends": [], "phis": {str(k): v for k, v in phis.items()},
            "raises": [h[k:] for h, k in zip(self.handlers, hmark)],
        }
        for loc in changed:
            info["ends"].append((loc, changed[loc], phis.get(loc), self.getloc(end, loc)))
        info["end"], info["entry"] = end, entry
        self.loopinfo.append(info)
        # state after the loop
        self.st = base.clone()
        for oid, o in end.heap.items():
            if oid not in self.st.heap:
                self.st.heap[oid] = o
        tripn = trip if trip is not None else tm.opq("trip", lid)
        for loc, tag in changed.items():
            self.set_out(loc, "out:%s:%s" % (lid, tag), base, end, phis, induct.get(loc), ivar, tripn, ctx)
        for loc, v in late.items():
            if loc not in changed:
                self.set_last(loc, "out:%s:%s" % (lid, loc[1]), v, base, end, ivar, trip, ctx)
        for oid, extra in appends.items():
            if (oid, None) in changed:
                continue
            o = self.st.heap[oid].clone()
            if isinstance(o, DictO):
                (g, k, v), = extra
                if ctx["breaks"]:
                    g = tm.and_(g, tm.bopq("loop-not-left", lid))
                if not self.new_key(k, ivar) and g is tm.TRUE:
                    i2 = {ivar: tm.IOTA}
                    o.sym, o.segs = tm.opq("dictof", tm.subst(self.term_of(k), i2), tm.subst(self.term_of(v), i2), tripn), ()
                    self.st.heap[oid] = o
                    continue
                o.sym = tm.opq("out:%s:dict%d" % (lid, oid), tripn)
                o.segs = ((Seg(ivar, tripn, g, k), Seg(ivar, tripn, g, v)),)
                self.st.heap[oid] = o
                continue
            if isinstance(extra, Fill):
                s0 = o.items[0]
                if tripn is s0.n and not ctx["breaks"]:
                    o.items = (Seg(ivar, tripn, tm.TRUE, extra.val),)
                else:
                    done = tm.lt(s0.ivar, tripn)
                    if ctx["breaks"]:
                        done = tm.and_(done, tm.bopq("loop-not-left", lid))
                    o.items = (Seg(s0.ivar, s0.n, tm.TRUE, self.merge_val(done, self.lib.deep_subst(extra.val, {ivar: s0.ivar}), s0.val, self.st, self.st, self.st)),)
                self.st.heap[oid] = o
                continue
            items = list(o.items)
            for x in extra:
                if isinstance(x, Seg):
                    items.append(Seg(x.ivar, tm.opq("nested", x.n, tripn), x.guard, x.val))
                else:
                    g = x[0]
                    if ctx["breaks"]:
                        g = tm.and_(g, tm.bopq("loop-not-left", lid))
                    items.append(Seg(ivar, tripn, g, x[1]))
            o.items = tuple(items)
            self.st.heap[oid] = o
        info["before"], info["out"] = base, self.st.clone()
        return lid if ctx["breaks"] else None

    def site_static(self, node):
        return self.site(node)

    def truth_cond_trip(self, c, ivar):
        """i < n for lt0/le0 linear in the induction variable"""
        if c.op in ("lt0", "le0"):
            t = c.args[0]
            if t.op == "sum" or t is ivar:
                co = None
                items = t.args[1] if t.op == "sum" else ((t, Fraction(1)),)
                for u, k in items:
                    if u is ivar:
                        co = k
                if co == 1:
                    m = tm.neg(tm.sub(t, ivar))
                    return m if c.op == "lt0" else tm.add(m, tm.ONE)
        return None

    def guard_first(self, s):
        """`while True: if b: <leave>; ...` is `while not b: ...` with what
        comes before leaving in the else branch; `while a: if b: break; ...` is
        `while a and not b: ...`"""
        key = id(s)
        if key in self.guarded:
            return self.guarded[key][1]
        out = s
        while not out.orelse and out.body and isinstance(out.body[0], ast.If):
            first = out.body[0]
            forever = isinstance(out.test, ast.Constant) and out.test.value
            for leave, stay, neg in ((first.body, first.orelse, True), (first.orelse, first.body, False)):
                if not leave or not isinstance(leave[-1], (ast.Break, ast.Return, ast.Raise)):
                    continue
                before = leave[:-1] if isinstance(leave[-1], ast.Break) else leave
                if before and not forever:
                    continue
                if any(isinstance(n, (ast.Break, ast.Continue)) for b in before for n in ast.walk(b)):
                    continue
                c = ast.UnaryOp(ast.Not(), first.test) if neg else first.test
                t = c if forever else ast.BoolOp(ast.And(), [out.test, c])
                new = ast.While(t, list(stay) + out.body[1:] or [ast.Pass()], list(before))
                for n in (t, c, new.body[0]):
                    if not hasattr(n, "lineno"):
                        ast.copy_location(n, first)
                ast.copy_location(new, s)
                out = new
                break
            else:
                break
        self.guarded[key] = (s, out)
        return out

    def next_loop(self, s):
        """`while True: try: x = next(it) except StopIteration: <leave>; ...` is
        `for x in it: ...` with what comes before leaving in the else branch"""
        if s.orelse or not (isinstance(s.test, ast.Constant) and s.test.value) or not s.body:
            return None
        t = s.body[0]
        if not isinstance(t, ast.Try) or len(t.body) != 1 or len(t.handlers) != 1 or t.finalbody:
            return None
        st, h = t.body[0], t.handlers[0]
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            target, c = st.targets[0], st.value
        elif isinstance(st, ast.Expr):
            target, c = ast.Name("_next_", ast.Store()), st.value
        else:
            return None
        if not (
            isinstance(c, ast.Call)
            and isinstance(c.func, ast.Name)
            and c.func.id == "next"
            and len(c.args) == 1
            and not c.keywords
            and isinstance(c.args[0], ast.Name)
            and isinstance(h.type, ast.Name)
            and h.type.id == "StopIteration"
        ):
            return None
        if not isinstance(h.body[-1], (ast.Break, ast.Return, ast.Raise)):
            return None
        before = h.body[:-1] if isinstance(h.body[-1], ast.Break) else h.body
        if any(isinstance(n, (ast.Break, ast.Continue)) for b in before for n in ast.walk(b)):
            return None
        key = ("next", id(s))
        if key not in self.guarded:
            new = ast.For(target, c.args[0], list(t.orelse) + s.body[1:] or [ast.Pass()], list(before))
            ast.copy_location(new, s)
            for n in (target, new.body[0]):
                if not hasattr(n, "lineno"):
                    ast.copy_location(n, s)
            self.guarded[key] = (s, new)
        return self.guarded[key][1]

    def next_default_loop(self, s):
        """`while (x := next(it, end)) is not end: ...` is `for x in it: ...`
        (the numbers iterated over are neither None nor some fresh object)"""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], ast.IsNot):
            return None
        left, end = t.left, t.comparators[0]
        target = None
        if isinstance(left, ast.NamedExpr):
            target, left = left.target, left.value
        if not (isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == "next" and len(left.args) == 2 and not left.keywords):
            return None
        if not isinstance(left.args[0], ast.Name) or ast.dump(left.args[1]) != ast.dump(end):
            return None
        if isinstance(end, ast.Constant):
            if end.value is not None:
                return None
        else:
            if not isinstance(end, ast.Name):
                return None
            v = self.eval(end)
            fresh = isinstance(v, Ref) and isinstance(self.obj(v), (XO, InstO)) and "object" in str(getattr(self.obj(v), "term", ""))
            if not fresh and v != NONE:
                return None
        key = ("next", id(s))
        if key not in self.guarded:
            new = ast.For(target or ast.Name("_next_", ast.Store()), left.args[0], s.body, s.orelse)
            ast.copy_location(new, s)
            if not hasattr(new.target, "lineno"):
                ast.copy_location(new.target, s)
            self.guarded[key] = (s, new)
        return self.guarded[key][1]

    def s_While(self, s):
        n = self.next_loop(s) or self.next_default_loop(s)
        if n is not None:
            it = self.eval(n.iter)
            if isinstance(it, Ref) and getattr(self.st.heap.get(it.oid), "kind", None) == "iterator":
                return self.exec_stmt(n)
        s = self.guard_first(s)
        forever = isinstance(s.test, ast.Constant)
        count = 0
        ctxs = []
        left = None
        while True:
            keep = self.st.clone()
            ev = len(self.events)
            c = self.decide(self.truth(self.eval(s.test), s))
            if c is tm.FALSE:
                break
            if c is tm.TRUE and count < (MAX_UNROLL if not forever else FOREVER):
                count += 1
                ctx = {"breaks": [], "continues": [], "id": None}
                self.loops.append(ctx)
                try:
                    self.exec_block(s.body)
                finally:
                    self.loops.pop()
                self.st = self.join([self.st] + ctx["continues"])
                ctxs += ctx["breaks"]
                if self.st is None:
                    break
                continue
            del self.events[ev:]
            self.st = keep
            m = len(self.loopinfo)
            left = self.loop_sym(None, None, None, lambda: self.exec_block(s.body), s, lambda: self.eval(s.test))
            for li in self.loopinfo[m:]:
                if li["node"] is s:
                    li["peeled"] = count
            break
        self.loop_else(s.orelse, left)
        self.st = self.join([self.st] + ctxs)

    # -- loop-carried locations
    def diff(self, a, b, late=None, ivar=None):
        """locations of objects existing in a that differ in b; names that are
        first defined in b go to late"""
        out, appends = {}, {}
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is None or p is o:
                continue
            if isinstance(o, (InstO, ClsO, ModO, FrameO)):
                for k in list(o.attrs) + [k for k in p.attrs if k not in o.attrs]:
                    x, y = o.attrs.get(k, UNDEF), p.attrs.get(k, UNDEF)
                    if not veq(x, y):
                        if x is UNDEF and isinstance(o, FrameO):
                            if late is not None:
                                late[(oid, k)] = y
                            continue  # first defined inside the loop body
                        out[(oid, k)] = "%s" % k
            elif isinstance(o, ListO) and isinstance(p, ListO):
                n = len(o.items)
                fill = self.filled(o, p, ivar)
                if fill is not None:
                    appends[oid] = fill
                elif len(p.items) >= n and all(self._ieq(x, y) for x, y in zip(o.items, p.items)):
                    if len(p.items) > n:
                        appends[oid] = p.items[n:]
                else:
                    out[(oid, None)] = "list%d" % oid
            elif isinstance(o, ArrO) and isinstance(p, ArrO):
                if o.body is not p.body or o.writes != p.writes or o.shape != p.shape:
                    out[(oid, None)] = "arr%d" % oid
            elif isinstance(o, QO):
                if o.mag != p.mag or o.unit != p.unit:
                    out[(oid, None)] = "q%d" % oid
            elif isinstance(o, XO):
                if o.term is not p.term:
                    out[(oid, None)] = "x%d" % oid
            elif isinstance(o, DictO):
                n = len(o.entries)
                if o.sym is p.sym and len(p.entries) > n and p.entries[:n] == o.entries and ivar is not None and len(p.entries) == n + 1 and (self.new_key(p.entries[n][1], ivar) or n == 0 and p.entries[0][0] is tm.TRUE and self.loop_key(p.entries[0][1], ivar, b)) and (o.sym is None or opname(o.sym).startswith("prior:")) and not o.segs and all(isinstance(k, Const) and isinstance(k.v, str) for _, k, _ in o.entries):
                    appends[oid] = p.entries[n:]
                elif o.entries != p.entries or o.sym is not p.sym:
                    out[(oid, None)] = "dict%d" % oid
            else:
                out[(oid, None)] = "o%d" % oid
        return out, appends

    def filled(self, o, p, ivar):
        """the item an iteration stores at its own place of a list"""
        if ivar is None or len(o.items) != 1 or len(p.items) != 1:
            return None
        a, b = o.items[0], p.items[0]
        if not isinstance(a, Seg) or not isinstance(b, Seg) or a == b or a.ivar is not b.ivar or a.n is not b.n or b.guard is not tm.TRUE:
            return None
        v = b.val
        if isinstance(v, Gated):
            c, x, y = v.cond, v.a, v.b
        elif isinstance(v, T) and v.op == "ite":
            c, x, y = v.args
        else:
            return None
        if c is not tm.eq(a.ivar, ivar) or not veq(y, a.val):
            return None
        return Fill(a, x)

    def loop_key(self, k, ivar, st):
        """a dictionary key taken from what the loop iterates over"""
        keep, self.st = self.st, st
        try:
            return not isinstance(k, Const) and tm.depends(self.term_of(k), ivar)
        finally:
            self.st = keep

    def new_key(self, k, ivar):
        """a dictionary key that differs in every iteration"""
        return isinstance(k, T) and tm.is_num(tm.sub(k, ivar))

    def getloc(self, st, loc):
        o = st.heap.get(loc[0])
        if o is None:
            return UNDEF
        if loc[1] is None:
            return o
        return o.attrs.get(loc[1], UNDEF)

    def set_carried(self, loc, name, last, ivar):
        """a name that only earlier iterations have set"""
        oid, k = loc
        v, end = last
        added = [i for i in end.heap if i not in self.st.heap]
        for i in added:
            self.st.heap[i] = end.heap[i]
        p = self.phi_val(v, name)
        for i in added:
            del self.st.heap[i]
        p = Gated(tm.eq(ivar, tm.ZERO), UNDEF, p)
        o = self.st.heap[oid].clone()
        o.attrs[k] = p
        self.st.heap[oid] = o
        return p

    def set_last(self, loc, name, v, base, end, ivar, n, ctx):
        """a name first set in the body, after the loop"""
        oid, k = loc
        if isinstance(v, Gated) or n is None or ctx["breaks"]:
            deps = sorted((d for d in self.leaves(v, end) if d is not ivar and d is not tm.IOTA), key=lambda t: t.id)
            x, some = v, False
            while isinstance(x, Gated):
                some = some or x.a is UNDEF or x.b is UNDEF
                x = x.b if x.a is UNDEF else x.a
            added = [i for i in end.heap if i not in self.st.heap]
            for i in added:
                self.st.heap[i] = end.heap[i]
            r = self.out_val(x, name, deps) if not isinstance(v, Gated) or some else self.alloc(XO("out", tm.opq(name, *deps)))
            for i in added:
                del self.st.heap[i]
            if some:
                r = Gated(tm.bopq("unset:" + name, *deps), UNDEF, r)
        else:
            last = {ivar: tm.sub(n, tm.ONE)}
            x = end.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(v, T):
                r = tm.subst(v, last)
            elif isinstance(x, XO):
                r = self.alloc(XO(x.kind, tm.subst(x.term, last), x.roots, x.attrs))
            elif isinstance(v, Ref) and v.oid in base.heap or not isinstance(v, Ref):
                r = v
            else:
                deps = sorted((d for d in self.leaves(v, end) if d is not ivar and d is not tm.IOTA), key=lambda t: t.id)
                r = self.out_val(v, name, deps)
        if n is not None:
            r = Gated(tm.le(n, tm.ZERO), UNDEF, r)
        o = self.st.heap[oid].clone()
        o.attrs[k] = r
        self.st.heap[oid] = o

    def set_phi(self, loc, name, induct, ivar):
        oid, k = loc
        o = self.st.heap[oid]
        if k is None:
            self.st.heap[oid] = self.phi_obj(o, name)
            return self.st.heap[oid]
        cur = o.attrs.get(k, UNDEF)
        if induct is not None:
            v = tm.add(induct[0], tm.scale(induct[1], ivar))
        else:
            v = self.phi_val(cur, name)
        o = o.clone()
        o.attrs[k] = v
        self.st.heap[oid] = o
        return v

    def prior_item(self, x, name, ivar):
        """an item appended by some earlier iteration of a loop"""
        if isinstance(x, Seg):
            n, g, v = tm.opq("nested", x.n, ivar), x.guard, x.val
        else:
            n, (g, v) = ivar, x
        j = tm.atom("i:" + name, sign=">=", integer=True, lb=0)
        if g is not tm.TRUE:
            g = tm.bopq("guard:" + name, j)
        if isinstance(v, T):
            w = tm.bopq(name, j) if tm.is_bool(v) else tm.opq(name, j)
        elif isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            w = self.alloc(XO(o.kind if isinstance(o, XO) else "elem", tm.opq(name, j)))
        else:
            w = v if isinstance(v, Const) else self.alloc(XO("elem", tm.opq(name, j)))
        return Seg(j, n, g, w)

    def phi_obj(self, o, name):
        if isinstance(o, ArrO):
            return ArrO(o.shape, tm.sel(name, tm.IOTA, maybe_nan=True, kind="phi"), (), o.roots, o.dt)
        if isinstance(o, QO):
            return QO(self.phi_val(o.mag, name), o.unit, o.roots)
        if isinstance(o, XO):
            return XO(o.kind, tm.opq(name), o.roots, o.attrs)
        if isinstance(o, DictO):
            return DictO([], tm.opq(name), o.roots, o.default)
        if isinstance(o, ListO):
            i = tm.atom("i:" + name, sign=">=", integer=True, lb=0)
            return ListO([Seg(i, tm.opq("len:" + name), tm.TRUE, self.alloc(XO("phi", tm.opq(name, i))))], o.kind, o.roots)
        raise Unsupported("loop-carried %s" % type(o).__name__)

    def phi_val(self, v, name):
        if isinstance(v, T):
            if tm.is_bool(v):
                return tm.bopq(name)
            if v.op == "cat":
                return tm.opq(name)
            return tm.atom(name, maybe_nan=True, kind="phi")
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ArrO):
                n = tm.atom("len:" + name, sign=">=", integer=True, lb=0, kind="phi")
                return self.alloc(ArrO((n,), tm.sel(name, tm.IOTA, maybe_nan=True, kind="phi"), (), frozenset(), o.dt))
            if isinstance(o, QO):
                u = un.Unit(tm.atom("u:" + name, sign="+", kind="phi"), o.unit.dims, tm.opq("label:" + name))
                return self.alloc(QO(self.phi_val(o.mag, name), u, frozenset()))
        if isinstance(v, Gated):
            return self.phi_val(v.a, name) if v.a is not UNDEF else self.phi_val(v.b, name)
        return self.alloc(XO("phi", tm.opq(name)))

    def set_out(self, loc, name, base, end, phis, induct, ivar, n, ctx):
        oid, k = loc
        v0, v1 = self.getloc(base, loc), self.getloc(end, loc)
        if induct is not None:
            val = tm.add(induct[0], tm.scale(induct[1], n))
        else:
            val = None
            if isinstance(v1, ArrO) and isinstance(v0, ArrO) and not ctx["breaks"]:
                p = phis[loc]
                w = [x for x in v1.writes]
                if v1.body is p.body and len(w) == 1 and w[0][0] is ivar and p.body.args[0] not in _arrs(w[0][1]):
                    b = tm.subst(w[0][1], {ivar: tm.IOTA})
                    if not any(tm.show(d).startswith("phi:" + name[4:].split(":")[0]) for d in tm.deps(b)):
                        if n is not v0.shape[0]:
                            b = tm.ite(tm.lt(tm.IOTA, n), b, v0.full())
                        val = ArrO(v0.shape, b, (), v0.roots, v0.dt)
            if val is None:
                deps = self.leaves(v1, end) | self.leaves(v0, base)
                deps = sorted((d for d in deps if d is not ivar and d is not tm.IOTA), key=lambda t: t.id)
                val = self.out_val(v1, name, deps)
        if k is None:
            self.st.heap[oid] = val
        else:
            o = self.st.heap[oid].clone()
            o.attrs[k] = val
            self.st.heap[oid] = o

    def out_val(self, v, name, deps):
        if isinstance(v, T):
            if tm.is_bool(v):
                return tm.bopq(name, *deps)
            return tm.opq(name, *deps)
        if isinstance(v, (ArrO, QO, XO, DictO, ListO)):
            o = v
            wrap = lambda x: x
        elif isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            wrap = self.alloc
        else:
            return self.alloc(XO("out", tm.opq(name, *deps)))
        if isinstance(o, ArrO):
            return wrap(ArrO(o.shape, tm.opq(name, tm.IOTA, *deps), (), frozenset(), o.dt))
        if isinstance(o, QO):
            u = un.Unit(tm.opq("u:" + name, *deps), o.unit.dims, tm.opq("label:" + name, *deps))
            m = o.mag
            if self.isobj(m, ArrO):
                m = self.out_val(m, name, deps)
            else:
                m = tm.opq(name, *deps)
            return wrap(QO(m, u))
        if isinstance(o, DictO):
            return wrap(DictO([], tm.opq(name, *deps)))
        if isinstance(o, ListO):
            i = tm.atom("i:" + name, sign=">=", integer=True, lb=0)
            return wrap(ListO([Seg(i, tm.opq("len:" + name), tm.TRUE, self.alloc(XO("out", tm.opq(name, i, *deps))))], o.kind))
        return wrap(XO("out", tm.opq(name, *deps)))

    def leaves(self, v, st=None, seen=None):
        """leaf nodes reachable from a value"""
        st = st or self.st
        seen = set() if seen is None else seen
        out = set()
        if isinstance(v, T):
            return set(tm.deps(v))
        if isinstance(v, Gated):
            return set(tm.deps(v.cond)) | self.leaves(v.a, st, seen) | self.leaves(v.b, st, seen)
        if isinstance(v, Ref):
            if v.oid in seen:
                return out
            seen.add(v.oid)
            v = st.heap.get(v.oid)
        if isinstance(v, ArrO):
            out |= tm.deps(v.body)
            for i, w in v.writes:
                out |= tm.deps(i) | tm.deps(w)
            for x in v.shape:
                out |= tm.deps(x)
        elif isinstance(v, QO):
            out |= self.leaves(v.mag, st, seen) | tm.deps(v.unit.factor) | tm.deps(v.unit.label)
        elif isinstance(v, XO):
            out |= tm.deps(v.term)
        elif isinstance(v, ListO):
            for x in v.items:
                if isinstance(x, Seg):
                    out |= tm.deps(x.guard) | self.leaves(x.val, st, seen)
                else:
                    out |= tm.deps(x[0]) | self.leaves(x[1], st, seen)
        elif isinstance(v, DictO):
            for g, k, x in v.entries:
                out |= tm.deps(g) | self.leaves(k, st, seen) | self.leaves(x, st, seen)
            if v.sym is not None:
                out |= tm.deps(v.sym)
        elif isinstance(v, UnitV):
            out |= tm.deps(v.unit.factor)
        elif isinstance(v, InstO):
            for x in v.attrs.values():
                out |= self.leaves(x, st, seen)
        elif isinstance(v, IterV):
            for x in v.args:
                out |= self.leaves(x, st, seen)
        elif isinstance(v, (MethV,)):
            out |= self.leaves(v.recv, st, seen)
        return out

    # ------------------------------------------------------------ names
    def setlocal(self, name, v):
        fo, fv, mod = self.frames[-1]
        fr = self.obj(Ref(fo))
        if name in fr.attrs.get("<globals>", ()):
            o = self.mut(Ref(mod))
            o.attrs[name] = v
            self.event("mutate", None, oid=mod, roots=frozenset(["module"]), how="global " + name, okind="ModO")
            return
        if name in fr.attrs.get("<nonlocals>", ()):
            for c in fv.closure:
                if name in self.obj(Ref(c)).attrs:
                    self.mut(Ref(c)).attrs[name] = v
                    return
        self.mut(Ref(fo)).attrs[name] = v

    def e_Name(self, n):
        fo, fv, mod = self.frames[-1]
        name = n.id
        if name == "__file__" and self.env is not None:
            self.env.may("builtins.NameError", n)
        if self.loops and (name not in self.st.heap[fo].attrs or self.partly_undefined(self.st.heap[fo].attrs[name])):
            self.undef_reads.add((fo, name))
        for oid in (fo,) + (fv.closure if fv is not None else ()) + (mod,):
            o = self.st.heap[oid]
            if name in o.attrs:
                if name in o.attrs.get("<globals>", ()):
                    continue
                v = o.attrs[name]
                return self.check_def(v, name, n)
        if hasattr(builtins, name) or name in ("NotImplemented",):
            return self.lib.const("builtins." + name)
        self.raise_name("NameError", n, name)

    @staticmethod
    def partly_undefined(v):
        return v is UNDEF or isinstance(v, Gated) and (v.a is UNDEF or v.b is UNDEF)

    def check_def(self, v, name, n):
        if v is UNDEF:
            self.raise_name("UnboundLocalError", n, name)
        if isinstance(v, Gated) and (v.a is UNDEF or v.b is UNDEF):
            bad = v.cond if v.a is UNDEF else tm.not_(v.cond)
            self.may_raise(bad, "UnboundLocalError", n, name)
            return self.check_def(v.b if v.a is UNDEF else v.a, name, n)
        return v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setlocal(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            self.setitem(b, self.eval(t.slice), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.lib.known_items(v, t)
                i = star[0]
                k = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.mklist(items[i : len(items) - k]))
                for e, x in zip(t.elts[i + 1 :], items[len(items) - k :]):
                    self.assign(e, x)
            else:
                for e, x in zip(t.elts, self.lib.unpack(v, len(t.elts), t)):
                    self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported("assignment target", t)

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        self.nodecount += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported("expression %s" % type(n).__name__, n)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if self.env is not None and isinstance(v, str) and v.startswith("$Format:"):
            return self.env.str(tm.opq("archive keyword", v))
        if v is True:
            return tm.TRUE
        if v is False:
            return tm.FALSE
        if isinstance(v, int):
            return tm.num(v)
        if isinstance(v, float):
            if v == float("inf"):
                return tm.INF
            seg = None
            return tm.num(Fraction(repr(v)))
        return Const(v)

    def e_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value)
                spec = self.eval(p.format_spec) if p.format_spec is not None else None
                parts.append(self.lib.format_piece(v, spec, n))
        return self.lib.mkstr(*parts)

    def e_Tuple(self, n):
        return self.alloc(ListO(self._elts(n), "tuple"))

    def e_List(self, n):
        return self.alloc(ListO(self._elts(n), "list"))

    def e_Set(self, n):
        return self.alloc(ListO(self._elts(n), "set"))

    def _elts(self, n):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                items.extend(self.lib.list_items(self.eval(e.value), e))
            else:
                items.append((tm.TRUE, self.eval(e)))
        return items

    def e_Dict(self, n):
        d = self.alloc(DictO([]))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(d, self.eval(v), n)
            else:
                kv = self.eval(k)
                self.lib.dict_set(d, kv, self.eval(v), n)
        return d

    def e_Lambda(self, n):
        return self.mkfunc(n, "<lambda>")

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test), n)
        return self.fork(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(v, n)
            if isand:
                return self.fork(c, lambda: go(i + 1), lambda: v if not isinstance(v, T) else tm.FALSE if tm.is_bool(v) else v)
            return self.fork(c, lambda: v if not (isinstance(v, T) and tm.is_bool(v)) else tm.TRUE, lambda: go(i + 1))

        return go(0)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return tm.not_(self.truth(v, n))
        return self.lift(v, lambda x: self.lib.unary(type(n.op).__name__, x, n))

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.lift2(a, b, lambda x, y: self.lib.binop(type(n.op).__name__, x, y, n))

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            v = self.lift2(left, right, lambda x, y: self.lib.compare(type(op).__name__, x, y, n))
            res = v if res is None else tm.and_(self.truth(res, n), self.truth(v, n))
            left = right
        return res

    def e_Attribute(self, n):
        v = self.eval(n.value)
        return self.getattr_(v, n.attr, n)

    def e_Subscript(self, n):
        v = self.eval(n.value)
        i = self.eval(n.slice)
        return self.getitem(v, i, n)

    def e_Slice(self, n):
        f = lambda x: NONE if x is None else self.eval(x)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n):
        return self.eval(n.value)

    def e_Starred(self, n):
        self.unsupported("starred", n)

    def e_ListComp(self, n):
        return self.comp(n, "list")

    def e_SetComp(self, n):
        return self.comp(n, "set")

    def e_GeneratorExp(self, n):
        return self.comp(n, "gen")

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def comp(self, n, kind):
        res = self.alloc(DictO([]) if kind == "dict" else ListO([], kind))
        fo, fv, mod = self.frames[-1]
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        fr = self.obj(Ref(fo))
        saved = {k: fr.attrs.get(k, UNDEF) for k in names}

        def go(i):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.eval(n.key)
                    self.lib.dict_set(res, k, self.eval(n.value), n)
                else:
                    v = self.eval(n.elt)
                    o = self.mut(res)
                    o.items = o.items + ((tm.TRUE, v),)
                return
            g = n.generators[i]

            def body():
                def rest(js):
                    if js == len(g.ifs):
                        go(i + 1)
                        return NONE
                    c = self.truth(self.eval(g.ifs[js]), n)
                    return self.fork(c, lambda: rest(js + 1), lambda: NONE)

                rest(0)

            it = self.hoist(self.eval(g.iter))
            self.lift(it, lambda v: (self.loop(v, lambda x: self.assign(g.target, x), body, n), NONE)[1])

        go(0)
        fr = self.mut(Ref(fo))
        for k, v in saved.items():
            if v is UNDEF:
                fr.attrs.pop(k, None)
            else:
                fr.attrs[k] = v
        return res

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        o = self.mut(self.yields[-1])
        o.items = o.items + ((tm.TRUE, v),)
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        o = self.mut(self.yields[-1])
        o.items = o.items + tuple(self.lib.list_items(v, n))
        return NONE

    def e_Call(self, n):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self.mksuper(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "eval", "exec") and not n.args:
            self.unsupported("call of %s()" % n.func.id, n)
        f = self.eval(n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.lib.known_items(self.eval(a.value), a))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                kwargs.update(self.lib.kwargs_of(v, n))
            else:
                kwargs[k.arg] = v
        return self.lift(f, lambda g: self.call(g, args, kwargs, n))

    def mksuper(self, n):
        fo, fv, mod = self.frames[-1]
        if n.args:
            c = self.eval(n.args[0])
            o = self.eval(n.args[1])
            return SuperV(c, o)
        # find the enclosing method
        f = self.callstack[-1]
        node = f.node
        first = node.args.args[0].arg
        self_ = self.obj(Ref(fo)).attrs.get(first)
        cls = self.find_class(f.cls, f.mod)
        return SuperV(cls, self_)

    def find_class(self, name, modoid):
        o = self.st.heap[modoid]
        v = o.attrs.get(name)
        if v is None:
            for oid, ob in self.st.heap.items():
                if isinstance(ob, ClsO) and ob.name == name:
                    return Ref(oid)
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v, node=None):
        if isinstance(v, T):
            if tm.is_bool(v):
                return v
            if v.op == "cat":
                return tm.TRUE if any(isinstance(a, str) and a for a in v.args) else tm.bopq("truth", v)
            if v.op == "nan":
                return tm.TRUE
            if tm.counted(v) is not None:
                return tm.not_(tm.eq0(v))
            if v.op == "opq":
                return tm.bopq("truth", v)
            if tm.may_be_nan(v):
                return tm.or_(tm.isnan(v), tm.not_(tm.eq0(v)))
            return tm.not_(tm.eq0(v))
        if isinstance(v, Const):
            return tm.TRUE if v.v else tm.FALSE
        if isinstance(v, Gated):
            r = self.lift(v, lambda x: self.truth(x, node))
            return r
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                n = self.lib.list_len(o)
                return tm.not_(tm.eq0(n))
            if isinstance(o, DictO):
                if o.segs and o.segs[0][0].guard is tm.TRUE:
                    return tm.or_(tm.not_(tm.eq0(o.segs[0][0].n)), *[g for g, _, _ in o.entries])
                if o.sym is not None:
                    return tm.bopq("truth", o.sym)
                return tm.or_(*[g for g, _, _ in o.entries]) if o.entries else tm.FALSE
            if isinstance(o, QO):
                return self.truth(o.mag, node)
            if isinstance(o, ArrO):
                if len(o.shape) == 0:
                    return self.truth(o.full(), node)
                if o.shape[0] is tm.ONE and len(o.shape) == 1:
                    return self.truth(o.at(tm.ZERO), node)
                # ambiguous truth value: numpy raises unless size <= 1
                self.may_raise(tm.lt(tm.ONE, o.shape[0]), "builtins.ValueError", node, "truth value of an array")
                return self.truth(o.at(tm.ZERO), node)
            if isinstance(o, XO):
                return self.lib.xtruth(v)
            if isinstance(o, InstO):
                m = self.class_lookup(o.cls, "__bool__")
                if isinstance(m, FuncV):
                    return self.truth(self.call(BoundM(m, v), [], {}, node), node)
                m = self.class_lookup(o.cls, "__len__")
                if isinstance(m, FuncV):
                    return self.truth(self.call(BoundM(m, v), [], {}, node), node)
                return tm.TRUE
            return tm.TRUE
        return tm.TRUE

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        """linearised list of class values"""
        if isinstance(cls, LibV):
            return [cls]
        o = self.obj(cls)
        seqs = [self.mro(b) for b in o.bases] + [list(o.bases)]
        res = [cls]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            res.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def class_lookup(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1 :] if after in m else m
        for c in m:
            if isinstance(c, Ref):
                a = self.obj(c).attrs
                if name in a:
                    return a[name]
        return None

    def has_ext_base(self, cls):
        return any(
            isinstance(c, LibV) and c.path not in ("abc.ABC", "builtins.object", "typing.Protocol")
            for c in self.mro(cls)
        )

    def getattr_(self, v, name, node=None, default=UNDEF):
        if isinstance(v, Gated):
            return self.lift(v, lambda x: self.getattr_(x, name, node, default))
        if isinstance(v, SuperV):
            return self.super_attr(v, name, node)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstO):
                return self.inst_attr(v, o, name, node, default)
            if isinstance(o, ClsO):
                if name == "__name__":
                    return Const(o.name)
                if name == "__dict__":
                    return self.mkdict([(Const(k), x) for k, x in o.attrs.items()])
                a = self.class_lookup(v, name)
                if a is None:
                    if name in ("__mro__",):
                        return self.mklist(self.mro(v), "tuple")
                    if default is not UNDEF:
                        return default
                    if self.has_ext_base(v):
                        return LibV(self.cls_name(v) + "." + name)
                    self.raise_name("AttributeError", node, name)
                if isinstance(a, StaticV):
                    return a.f
                if isinstance(a, ClassMV):
                    return BoundM(a.f, v)
                return a
            if isinstance(o, ModO):
                if name in o.attrs:
                    return self.check_def(o.attrs[name], name, node)
                if self.has_module(o.name + "." + name):
                    return self.load(o.name + "." + name)
                if default is not UNDEF:
                    return default
                self.raise_name("AttributeError", node, name)
        if isinstance(v, FuncV):
            if name in ("__name__", "__qualname__"):
                return Const(v.name)
            if name == "__doc__":
                return NONE
            if name == "__wrapped__":
                return v
            if v.cache is not None and name == "cache_clear":
                return MethV(v.cache, "clear")
            if default is not UNDEF:
                return default
            self.raise_name("AttributeError", node, name)
        if isinstance(v, BoundM) and name == "__self__":
            return v.self
        if isinstance(v, BoundM):
            return self.getattr_(v.func, name, node, default)
        if isinstance(v, PropV):
            if name in ("fget", "fset", "fdel"):
                r = getattr(v, name)
                return NONE if r is None else r
        if isinstance(v, LibV):
            return self.libval(v.path + "." + name)
        return self.lib.attr(v, name, node, default)

    def super_attr(self, v, name, node):
        o = self.obj(v.obj)
        cls = o.cls if isinstance(o, InstO) else v.obj
        a = self.class_lookup(cls, name, after=v.cls)
        if a is None:
            if name in ("__init__", "__init_subclass__", "__setattr__", "__new__"):
                return LibV("builtins.object." + name) if name != "__setattr__" else MethV(v.obj, "<object.__setattr__>")
            self.raise_name("AttributeError", node, name)
        if isinstance(a, PropV):
            return self.call(a.fget, [v.obj], {}, node)
        if isinstance(a, StaticV):
            return a.f
        if isinstance(a, ClassMV):
            return BoundM(a.f, cls)
        if isinstance(a, FuncV):
            return BoundM(a, v.obj)
        return a

    def inst_attr(self, v, o, name, node, default=UNDEF):
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return MethV(v, "<dict>")
        a = self.class_lookup(o.cls, name)
        if isinstance(a, PropV):
            if a.fget is None:
                self.raise_name("AttributeError", node, name)
            self.event("propget", node, name=name, inst=v.oid)
            return self.call(a.fget, [v], {}, node)
        if self.isobj(a, InstO) and isinstance(self.class_lookup(self.obj(a).cls, "__set__"), FuncV):
            g = self.class_lookup(self.obj(a).cls, "__get__")
            if isinstance(g, FuncV):
                return self.call(BoundM(g, a), [v, o.cls], {}, node)
        if name in o.attrs:
            x = o.attrs[name]
            if x is UNDEF or isinstance(x, Gated) and UNDEF in (x.a, x.b):
                x = self.undef_attr(x, name, node, default)
            return x
        if isinstance(a, CachedPropV):
            val = self.call(a.f, [v], {}, node)
            self.mut(v).attrs[name] = val
            return val
        if a is not None:
            if isinstance(a, StaticV):
                return a.f
            if isinstance(a, ClassMV):
                return BoundM(a.f, o.cls)
            if isinstance(a, FuncV):
                return BoundM(a, v)
            if self.isobj(a, InstO):
                g = self.class_lookup(self.obj(a).cls, "__get__")
                if isinstance(g, FuncV):
                    return self.call(BoundM(g, a), [v, o.cls], {}, node)
            return a
        g = self.class_lookup(o.cls, "__getattr__")
        if isinstance(g, FuncV):
            return self.call(BoundM(g, v), [Const(name)], {}, node)
        if default is not UNDEF:
            return default
        if self.has_ext_base(o.cls):
            if self.lib.is_exc_class(o.cls):
                return MethV(v, name)
            return self.alloc(XO("attr", tm.opq("attr", tm.opq("inst%d" % v.oid), name), frozenset(), {"recv": v, "name": name}))
        self.raise_name("AttributeError", node, name)

    def undef_attr(self, x, name, node, default):
        if x is UNDEF:
            if default is not UNDEF:
                return default
            self.raise_name("AttributeError", node, name)
        bad = x.cond if x.a is UNDEF else tm.not_(x.cond)
        rest = x.b if x.a is UNDEF else x.a
        if default is not UNDEF:
            return self.fork(bad, lambda: default, lambda: rest)
        self.may_raise(bad, "AttributeError", node, name)
        return rest

    def setattr_(self, v, name, val, node=None):
        if isinstance(v, Gated):
            self.lift(v, lambda x: (self.setattr_(x, name, val, node), NONE)[1])
            return
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, InstO):
                sa = self.class_lookup(o.cls, "__setattr__")
                if isinstance(sa, FuncV):
                    self.call(BoundM(sa, v), [Const(name), val], {}, node)
                    return
                return self.obj_setattr(v, name, val, node)
            if isinstance(o, (ClsO, ModO)):
                self.mut(v).attrs[name] = val
                self.event("mutate", node, oid=v.oid, roots=frozenset(["class" if isinstance(o, ClsO) else "module"]), how="set attribute " + name, okind=type(o).__name__)
                return
            if isinstance(o, XO):
                if name == "index" or name == "columns" or True:
                    self.xmutate(v, "setattr:" + name, [val], node)
                return
        if isinstance(v, LibV):
            self.event("mutate", node, oid=0, roots=frozenset(["library"]), how="set %s.%s" % (v.path, name), okind="LibV")
            return
        if isinstance(v, FuncV):
            self.event("mutate", node, oid=0, roots=frozenset(["function"]), how="set attribute %s of %s" % (name, v.name), okind="FuncV")
            self.unsupported("function attribute", node)
        self.lib.setattr(v, name, val, node)

    def obj_setattr(self, v, name, val, node):
        o = self.obj(v)
        a = self.class_lookup(o.cls, name)
        if isinstance(a, PropV):
            if a.fset is None:
                self.raise_name("AttributeError", node, "can't set attribute " + name)
            self.event("propset", node, name=name, inst=v.oid, val=val)
            self.call(a.fset, [v, val], {}, node)
            return
        if self.isobj(a, InstO):
            g = self.class_lookup(self.obj(a).cls, "__set__")
            if isinstance(g, FuncV):
                self.event("propset", node, name=name, inst=v.oid, val=val)
                self.call(BoundM(g, a), [v, val], {}, node)
                return
        self.mut(v).attrs[name] = val

    # ------------------------------------------------------------ items
    def getitem(self, v, i, node=None):
        return self.lift2(v, i, lambda x, j: self.lib.getitem(x, j, node))

    def setitem(self, v, i, val, node=None):
        self.lift2(v, i, lambda x, j: (self.lib.setitem(x, j, val, node), NONE)[1])

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Gated):
            return self.lift(f, lambda g: self.call(g, args, kwargs, node))
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self] + list(args), kwargs, node)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs, node)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, node)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kwargs), node)
        if isinstance(f, LibV):
            return self.lib.call(f.path, list(args), dict(kwargs), node)
        if isinstance(f, MethV):
            return self.lib.method(f.recv, f.name, list(args), dict(kwargs), node)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, ClsO):
                return self.instantiate(f, o, args, kwargs, node)
            if isinstance(o, InstO):
                m = self.class_lookup(o.cls, "__call__")
                if isinstance(m, FuncV):
                    return self.call(BoundM(m, f), args, kwargs, node)
                self.raise_name("TypeError", node, "not callable")
            if isinstance(o, XO):
                if o.kind == "attr" and o.attrs.get("recv") is not None:
                    return self.lib.xmethod(o.attrs["recv"], o.attrs["name"], list(args), dict(kwargs), node)
                return self.lib.xcall(f, list(args), dict(kwargs), node)
            self.raise_name("TypeError", node, "not callable")
        if isinstance(f, (T, Const)):
            self.raise_name("TypeError", node, "not callable")
        self.unsupported("call of %r" % (f,), node)

    def instantiate(self, ref, o, args, kwargs, node):
        if self.lib.is_exc_class(ref):
            exc = self.alloc(InstO(ref, {"args": self.mklist(list(args), "tuple"), "__cause__": NONE, "__context__": self.curexc[-1] if self.curexc else NONE}))
            init = self.class_lookup(ref, "__init__")
            if isinstance(init, FuncV):
                self.call(BoundM(init, exc), args, kwargs, node)
            return exc
        if any(isinstance(c, LibV) and c.path not in ("abc.ABC", "builtins.object") for c in self.mro(ref)):
            kinds = [c.path for c in self.mro(ref) if isinstance(c, LibV)]
            self.unsupported("instance of a class with external bases %s" % kinds, node)
        new = self.class_lookup(ref, "__new__")
        if new is not None:
            self.unsupported("__new__", node)
        # abstract methods left?
        inst = self.alloc(InstO(ref, {}))
        init = self.class_lookup(ref, "__init__")
        if init is None:
            if args or kwargs:
                self.raise_name("TypeError", node, "takes no arguments")
            return inst
        self.call(BoundM(init, inst), args, kwargs, node)
        return inst

    def call_func(self, f, args, kwargs, node):
        if self.inject is not None:
            self.inject(f, None, node)
        hook = self.hooks.get(f.qualname)
        if hook is not None:
            r = hook(self, f, args, kwargs, node)
            if r is not None:
                return r
        if len(self.callstack) > MAX_DEPTH or sum(1 for g in self.callstack if g is f) > 4:
            self.unsupported("recursion of %s" % f.qualname, node)
        if f.cache is not None:
            return self.memo_call(f, args, kwargs, node)
        return self.call_raw(f, args, kwargs, node)

    def memo_call(self, f, args, kwargs, node):
        key = self.mklist(list(args) + [x for k, v in sorted(kwargs.items()) for x in (Const(k), v)], "tuple")
        hit = self.lib.dict_has(f.cache, key)

        def miss():
            v = self.call_raw(f, args, kwargs, node)
            self.lib.dict_set(f.cache, key, v, node)
            return v

        return self.fork(hit, lambda: self.lib.dict_get(f.cache, key, node), miss)

    def call_raw(self, f, args, kwargs, node):
        frame = self.bind(f, args, kwargs, node)
        fr = self.alloc(FrameO(frame))
        self.frames.append((fr.oid, f, f.mod))
        self.callstack.append(f)
        self.rets.append([])
        saved_loops = self.loops
        saved_ic = getattr(self, "_in_class", None)
        self._in_class = None
        self.loops = list(saved_loops)
        self.event("call", node, func=f.qualname, args=args, kwargs=kwargs)
        if f.isgen:
            self.yields.append(self.alloc(ListO([], "gen")))
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.eval(f.node.body)
                    self.rets[-1].append((self.st, v))
                except Dead:
                    pass
                self.st = None
            else:
                self.exec_block(f.node.body)
            if self.st is not None:
                self.rets[-1].append((self.st, NONE))
        finally:
            rets = self.rets.pop()
            self.callstack.pop()
            self.frames.pop()
            self.loops = saved_loops
            self._in_class = saved_ic
            gen = self.yields.pop() if f.isgen else None
        if not rets:
            self.st = None
            raise Dead
        # join the return states, carrying the value in a temporary cell
        cells = []
        for st, v in rets:
            st.heap[fr.oid] = FrameO({"<ret>": v}) if fr.oid not in self.keep_frames else self._with_ret(st.heap[fr.oid], v)
            cells.append(st)
        self.st = self.join(cells)
        v = self.st.heap[fr.oid].attrs["<ret>"]
        if fr.oid not in self.keep_frames:
            del self.st.heap[fr.oid]
        if f.isgen:
            return gen
        return v

    @staticmethod
    def _with_ret(fo, v):
        o = fo.clone()
        o.attrs["<ret>"] = v
        return o

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        frame = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            self.raise_name("TypeError", node, "%s takes %d positional arguments" % (f.name, len(names)))
        for nme, v in zip(names, args):
            frame[nme] = v
        if a.vararg is not None:
            frame[a.vararg.arg] = self.mklist(args[len(names) :], "tuple")
        extra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwnames:
                if k in frame:
                    self.raise_name("TypeError", node, "multiple values for " + k)
                frame[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_name("TypeError", node, "%s got an unexpected keyword argument %s" % (f.name, k))
        if a.kwarg is not None:
            frame[a.kwarg.arg] = self.mkdict([(Const(k), v) for k, v in extra.items()])
        for nme, d in zip(names[len(names) - len(f.defaults) :], f.defaults):
            frame.setdefault(nme, d)
        for k in kwnames:
            if k not in frame:
                if k not in f.kwdefaults:
                    self.raise_name("TypeError", node, "missing argument " + k)
                frame[k] = f.kwdefaults[k]
        for nme in names:
            if nme not in frame:
                self.raise_name("TypeError", node, "%s missing argument %s" % (f.name, nme))
        return frame

    # ------------------------------------------------------------ terms of values
    def term_of(self, v):
        """a node standing for a value (used inside opaque terms)"""
        if isinstance(v, T):
            return v
        if isinstance(v, Const):
            return tm.cat(v.v) if isinstance(v.v, str) else tm.opq("const", repr(v.v))
        if isinstance(v, LibV):
            return tm.opq("lib", v.path)
        if isinstance(v, UnitV):
            return tm.opq("unitv", v.unit.label, v.unit.factor)
        if isinstance(v, Gated):
            return tm.ite(v.cond, self.term_of(v.a), self.term_of(v.b))
        if isinstance(v, SliceV):
            return tm.opq("slice", self.term_of(v.lo), self.term_of(v.hi), self.term_of(v.step))
        if isinstance(v, IterV):
            return tm.opq("iter:" + v.kind, *[self.term_of(x) for x in v.args])
        if isinstance(v, MethV):
            return tm.opq("attr", self.term_of(v.recv), v.name)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, XO):
                return o.term
            if isinstance(o, QO):
                return tm.opq("quantity", self.term_of(o.mag), o.unit.label, o.unit.factor)
            if isinstance(o, ArrO):
                return tm.opq("array", o.full(), *o.shape)
            if isinstance(o, ListO):
                parts = []
                for x in o.items:
                    if isinstance(x, Seg):
                        parts.append(tm.opq("seg", x.ivar, x.n, x.guard, self.term_of(x.val)))
                    else:
                        t = self.term_of(x[1])
                        parts.append(t if x[0] is tm.TRUE else tm.opq("guarded", x[0], t))
                return tm.opq(o.kind, *parts)
            if isinstance(o, DictO):
                return tm.opq("dict", *[x for g, k, w in o.entries for x in (self.term_of(k), self.term_of(w))] + ([o.sym] if o.sym is not None else []))
            if isinstance(o, InstO):
                return tm.opq("inst%d" % v.oid)
            return tm.opq("obj%d" % v.oid)
        if isinstance(v, FuncV):
            return tm.opq("func", v.qualname)
        if isinstance(v, BoundM):
            return tm.opq("bound", self.term_of(v.func), self.term_of(v.self))
        return tm.opq("val", repr(type(v)))


def _arrs(t):
    return {s.args[0] for s in tm.subterms(t) if s.op == "sel"}


def _dtj(a, b):
    if a == b:
        return a
    if "f" in (a, b) and not {"m", "i"} & {a, b}:
        return "f"
    return "m"


def _is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False
