"""C26 (no hidden state), C27 (failures are not swallowed), C31 (version)."""
import os

from . import nf
from . import terms as tm
from .common import *  # noqa: F401,F403
from .common import names, show
from .interp import Dead, Unsupported
from .rules_params import observations
from .values import ClsO, FrameO, FuncV, ModO

# -------------------------------------------------------------------- C26
BANNED = (
    "random.", "numpy.random.", "secrets.", "uuid.", "time.", "os.", "io.open", "builtins.open", "builtins.input",
    "builtins.id", "builtins.hash", "builtins.exec", "builtins.eval", "builtins.compile", "builtins.globals", "socket.", "subprocess.", "tempfile.",
    "pathlib.", "shutil.", "glob.", "platform.", "getpass.", "locale.", "threading.", "multiprocessing.", "gc.",
    "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today",
    "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow", "pandas.set_option", "pandas.read_",
    "pandas.to_pickle", "pandas.options",
    "numpy.seterr", "numpy.set_printoptions", "numpy.load", "numpy.genfromtxt", "numpy.loadtxt", "numpy.fromfile", "numpy.save",
    "warnings.filterwarnings", "warnings.simplefilter", "sys.argv", "sys.setrecursionlimit", "sys.stdin", "sys.modules",
    "builtins.setattr", "json.load", "pickle.", "urllib.", "requests.", "psutil.", "decimal.getcontext", "decimal.setcontext",
    "openscm_units.unit_registry.define", "openscm_units.unit_registry.enable_contexts", "openscm_units.unit_registry.add_context",
    "openscm_units.unit_registry.load_definitions", "openscm_units.unit_registry.disable_contexts", "openscm_units.unit_registry.remove_context",
    "openscm_units.unit_registry.setup_matplotlib", "openscm_units.unit_registry.default_", "openscm_units.unit_registry.autoconvert",
    "openscm_units.unit_registry.add_context", "pint.set_application_registry",
)
PURE = ("os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext", "os.path.normpath", "os.PathLike",
        "os.fspath", "pathlib.PurePath", "time.struct_time", "uuid.UUID", "builtins.setattr")
SHARED = {"class": "class", "module": "module", "library": "an external library", "function": "function"}


def banned(path):
    return any(path == b or path.startswith(b) for b in BANNED) and not any(path.startswith(p) for p in PURE)


def effects(ctx, where, events):
    """no nondeterminism, no environment, no process-wide effect"""
    n = 0
    for e in events:
        if e.kind == "libcall":
            n += 1
            if banned(e.path):
                ctx.bad("no call depends on randomness, the clock, the environment or files", "%s: %s" % (where, e.path), "calls %s" % e.path, e.site, of=False)
        elif e.kind == "mutate":
            n += 1
            r = [SHARED[x] for x in e.roots if x in SHARED]
            if r:
                ctx.bad("no call changes a class, module or library", "%s: %s" % (where, e.how), "%s (%s)" % (e.how, ", ".join(r)), e.site, of=False)
    ctx.count("library calls and effects examined", n)
    ctx.ob("effects of the call are confined to the instance", where, True)


def snapshot(W):
    """what exists when the package has been imported"""
    return W.save()


def describe(I, st, oid):
    o = st.heap[oid]
    if isinstance(o, ClsO):
        return "class %s" % o.name
    if isinstance(o, ModO):
        return "module %s" % o.name
    for i, c in st.heap.items():
        if isinstance(c, (ModO, ClsO)):
            for k, v in c.attrs.items():
                if isinstance(v, Ref) and v.oid == oid:
                    return "%s.%s" % (c.name, k)
                if isinstance(v, FuncV) and any(isinstance(d, Ref) and d.oid == oid for d in list(v.defaults or []) + list((v.kwdefaults or {}).values())):
                    return "default argument of %s" % v.name
    return "an object created at import"


def memo_tables(st):
    """tables of memoising decorators: what they hold is a function of the
    arguments; whether a result is stale is decided by the comparisons"""
    out = set()
    for o in st.heap.values():
        if isinstance(o, (ModO, ClsO)):
            for v in o.attrs.values():
                for a in ("func", "fget", "f"):
                    v = getattr(v, a, v)
                c = getattr(v, "cache", None)
                if c is not None:
                    out.add(getattr(c, "oid", c))
    return out


def unchanged(ctx, W, where, s0):
    """everything that existed in s0 is as it was"""
    I, st = W.I, W.I.st
    if st is None:
        return
    memo_ids = memo_tables(st)
    n = 0
    for oid, o in s0.heap.items():
        if oid in memo_ids:
            continue
        b = st.heap.get(oid)
        n += 1
        if b is o:
            continue
        if isinstance(o, (ClsO, ModO, FrameO)):
            keys = set(o.attrs) | set(b.attrs)
            ch = []
            for k in keys:
                x, y = o.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
                if x is UNDEF and isinstance(y, Ref) and isinstance(st.heap.get(y.oid), ModO):
                    continue  # a submodule imported late
                if (x is UNDEF) != (y is UNDEF) or (x is not UNDEF and not same(x, s0, y, st)):
                    ch.append(k)
            if ch:
                ctx.bad("no call changes a class, module or default argument", "%s: %s" % (where, describe(I, s0, oid)), "attribute %s changed" % ", ".join(sorted(ch)[:3]), of=False)
        elif not same(Ref(oid), s0, Ref(oid), st):
            ctx.bad("no call changes a class, module or default argument", "%s: %s" % (where, describe(I, s0, oid)), "content changed", of=False)
    ctx.count("shared objects compared", n)
    ctx.ob("everything created at import is unchanged", where, True)


def c26(ctx):
    ctx.case("import", c26_import, ctx)
    for m in MODELS:
        ctx.case("%s calls" % m, c26_calls, ctx, m)
        for other in MODELS:
            ctx.case("%s with %s" % (m, other), c26_interleave, ctx, m, other)
        ctx.case("%s run_scenarios" % m, c26_scen, ctx, m)
    ctx.case("helpers", c26_utils, ctx)
    ctx.floor("public calls", 30)
    ctx.floor("shared objects compared", 1000)
    ctx.floor("interleaved observations", 40)


def c26_import(ctx):
    W = ctx.world()
    effects(ctx, "import of the package", [e for e in W.load_events if e.kind == "libcall"])


class Watch:
    def __init__(self, ctx, W):
        self.ctx, self.W = ctx, W
        self.s0 = snapshot(W)

    def __call__(self, name, f, witness=()):
        W, I, ctx = self.W, self.W.I, self.ctx
        m = len(I.events)
        before = W.save()
        try:
            v, ex = W.run_or_keep(f)
        finally:
            effects(ctx, name, I.events[m:])
        ctx.count("public calls")
        unchanged(ctx, W, name, self.s0)
        for b in witness:
            ch = changed_attrs(b, before, I.st)
            ctx.ob("other instances are unchanged", name, not ch, "attribute %s of another instance changed" % ", ".join(ch[:3]), of=False)
        return v


def c26_calls(ctx, m):
    W = ctx.world()
    I = W.I
    w = Watch(ctx, W)
    b = {k: prepared(W, k, "EB", suffix="B")[0] for k in MODELS}
    for x in b.values():
        W.do(x, "step")
        W.run_or_keep(lambda: W.meth(x, CONVERT[[k for k in MODELS if b[k] is x][0]]))
    wit = list(b.values())
    x = w(m + "()", lambda: I.call(W.models[m], [], W.params(m)), wit)
    w(m + "() defaults", lambda: I.call(W.models[m], [], {}), wit)
    w(m + "() refused", lambda: I.call(W.models[m], [], {"efficacy": tm.atom("x")}), wit)
    for p, u in PARAMS[m].items():
        w("%s.%s =" % (m, p), lambda p=p, u=u: I.setattr_(x, p, W.quantity(p + "'", u)), wit)
        w("%s.%s" % (m, p), lambda p=p: I.getattr_(x, p), wit)
    w(m + ".reset without drivers", lambda: W.meth(x, "reset"), wit)
    w(m + ".set_drivers", lambda: W.meth(x, "set_drivers", W.erf_q("E")), wit)
    w(m + ".step before reset", lambda: W.meth(x, "step"), wit)
    for op in ("reset", "step", "step", "reset", "run", "run"):
        w("%s.%s" % (m, op), lambda: W.meth(x, op), wit)
    w("%s.erf =" % m, lambda: I.setattr_(x, "erf", W.erf_q("E2")), wit)
    if m == "TwoLayerModel":
        for h in ("heat_capacity_upper", "heat_capacity_lower"):
            w("%s.%s" % (m, h), lambda: I.getattr_(x, h), wit)
    w("%s.%s" % (m, CONVERT[m]), lambda: W.meth(x, CONVERT[m]), wit)


def c26_scen(ctx, m):
    W = ctx.world()
    I = W.I
    w = Watch(ctx, W)
    b, _ = prepared(W, m, "EB", suffix="B")
    W.do(b, "step")
    x = W.model(m)
    scen = I.alloc(XO("ScmRun", tm.opq("SCEN"), frozenset({"arg:scenarios"})))
    w("%s.run_scenarios" % m, lambda: W.meth(x, "run_scenarios", scen), [b])


def c26_utils(ctx):
    W = ctx.world()
    I = W.I
    w = Watch(ctx, W)
    f = I.getattr_(I.load(PKG + ".utils"), "convert_lambda_to_ecs")
    w("convert_lambda_to_ecs", lambda: I.call(f, [W.quantity("L", "W/m^2/delta_degC")], {}))
    w("convert_lambda_to_ecs (both)", lambda: I.call(f, [W.quantity("L", "W/m^2/delta_degC")], {"f2x": W.quantity("F", "W/m^2")}))


def c26_interleave(ctx, m, other):
    """the observations of one instance, alone and with another instance used
    between any two of its calls; and of an instance built afterwards"""
    W = ctx.world()
    I = W.I
    s0 = W.save()

    def history(mix, x=None, tag="E"):
        out = {}
        if x is None:
            mix("before construction")
            x = W.model(m)
        mix("construction")
        W.do(x, "set_drivers", W.erf_q(tag))
        mix("set_drivers")
        if m == "TwoLayerModel":
            for h in ("heat_capacity_upper", "heat_capacity_lower"):
                out[h] = W.si(W.get(x, h))
        mix("heat capacities")
        v, ex = W.run_or_keep(lambda: W.meth(x, CONVERT[m]))
        if isinstance(v, Ref):
            for k, q in (entries(W, v) or {}).items():
                out["%s()[%r]" % (CONVERT[m], k)] = W.si(q)
        mix("conversion")
        W.do(x, "reset")
        mix("reset")
        for i in range(3):
            W.do(x, "step")
            mix("step")
            for a in STATE[m]:
                o = state_arr(W, x, a)
                out["%s[%d]" % (a, i)] = o.at(num(i)) if o is not None else tm.opq("no array")
        for p in PARAMS[m]:
            out[p] = W.si(W.get(x, p))
        return out

    alone = history(lambda s: None)
    # interleaved with another instance
    W.restore(s0)
    y = [None]

    def use(s):
        if y[0] is None:
            y[0] = W.model(other, suffix="~B")
            W.do(y[0], "set_drivers", W.erf_q("E~B"))
            W.do(y[0], "reset")
            return
        if s == "conversion":
            W.do(y[0], "reset")
        if s == "reset":
            for p, u in PHYS_UNITS(other).items():
                I.setattr_(y[0], p, W.quantity(p + "~C", u))
        if other == "TwoLayerModel":
            W.get(y[0], "heat_capacity_upper")
            W.get(y[0], "heat_capacity_lower")
        W.run_or_keep(lambda: W.meth(y[0], CONVERT[other]))
        W.do(y[0], "step")

    mixed = history(use)
    compare(ctx, "%s interleaved with another %s" % (m, other), alone, mixed)
    # an instance with the same inputs, built when the others have been used
    again = history(lambda s: None)
    compare(ctx, "%s built after other instances were used" % m, alone, again)


def PHYS_UNITS(m):
    return {p: u for p, u in PARAMS[m].items() if p not in ("d1", "d2")}


def compare(ctx, where, a, b):
    for k in a:
        ctx.count("interleaved observations")
        y = b.get(k)
        if y is None:
            ctx.bad("results do not depend on other instances", "%s: %s" % (where, k), "not available")
            continue
        # (an equal node has the true dependencies of the isolated one)
        ok = nf.equal(a[k], y)
        foreign = [] if ok else sorted(n for n in names(tm.subterms(y)) if "~" in n)
        ctx.ob("results do not depend on other instances", "%s: %s" % (where, k), bool(ok),
               ("depends on %s" % ", ".join(foreign[:3])) if foreign else "differs from the isolated use")


# -------------------------------------------------------------------- C27
CORE = {"_step", "step", "_run", "run", "_reset", "reset", "set_drivers", "__init__", "_calculate_next_temp_upper", "_calculate_next_temp_lower",
        "_calculate_next_rndt", "_calculate_next_temp", "_calculate_geoffroy_helper_parameters", "_assert_is_pint_quantity_with_units",
        "get_impulse_response_parameters", "get_two_layer_parameters", "erf", "delta_t"} | {p for m in MODELS for p in PARAMS[m]}
DIMERR = "pint.errors.DimensionalityError"
# raised in any function of the package
ANY = ["pkg:UnitError", "pkg:ModelStateError", DIMERR, "ZeroDivisionError", "FloatingPointError", "OverflowError", "RuntimeError"]
# also raised in those that validate, step, run or convert
MORE = ["ValueError", "TypeError", "IndexError", "KeyError", "NotImplementedError"]
# raised by library calls in run_scenarios
LIBS = ["RuntimeError", DIMERR]


def c27(ctx):
    ctx.case("error classes", c27_classes, ctx)
    for m in MODELS:
        ctx.case("%s causes" % m, c27_causes, ctx, m)
        ctx.case("%s calls" % m, c27_calls, ctx, m)
        ctx.case("%s run_scenarios" % m, c27_scen, ctx, m)
    ctx.case("helpers", c27_utils, ctx)
    ctx.floor("injected exits", 200)
    ctx.floor("UnitError exits", 20)
    ctx.floor("functions with injected exits", 20)


def c27_classes(ctx):
    W = ctx.world()
    I = W.I
    for n in ("UnitError", "ModelStateError"):
        c = I.getattr_(W.errors, n)
        mro = I.exc_names(c)
        ctx.ob("the package's errors are ValueErrors", n, "builtins.ValueError" in mro, "bases: %s" % ", ".join(mro[:4]), of=False)


def cause_of(W, e):
    """class names of the cause of an exit"""
    o = e.st.heap.get(e.exc.oid) if isinstance(e.exc, Ref) else None
    c = o.attrs.get("__cause__", NONE) if o is not None else NONE
    if not isinstance(c, Ref):
        return []
    keep = W.I.st
    W.I.st = e.st
    try:
        o = W.I.obj(c)
        return W.I.exc_names(o.cls) if isinstance(o, InstO) else []
    finally:
        W.I.st = keep


def check_causes(ctx, W, where, exits):
    for e in exits:
        mro = W.exc_mro(e)
        if UNITERR in mro:
            ctx.count("UnitError exits")
            c = cause_of(W, e)
            pc = set(e.st.pc)
            caught = [v for v in W.I.events if v.kind == "handled" and v.exc == DIMERR and set(v.pc) <= pc]
            # where units are compared without converting there is no pint error
            ctx.ob("a UnitError carries the pint error as its cause", where, DIMERR in c or not caught, "cause: %s" % (c[0] if c else "none"), e.site)
        elif DIMERR in mro:
            ctx.bad("a dimension mismatch surfaces as UnitError", where, "a bare DimensionalityError escapes", e.site)


def c27_causes(ctx, m):
    from .rules_params import assign_ways, targets, wrong_array, wrong_quantities
    W = ctx.world()
    I = W.I
    base = W.save()
    for p, u in targets(m).items():
        for way, make in assign_ways(W, m, p):
            W.restore(base)
            vals = list(wrong_quantities(W, u))
            vals = vals if ctx.thorough else vals[::4] + vals[-1:]
            if p == "erf":
                vals = [("array", wrong_array(W, u))]
            s = W.save()
            for d, q in vals:
                W.restore(s)
                x, act = make(q)
                v, ex = W.run(act)
                ctx.exits += len(ex)
                ctx.ob("a dimension mismatch surfaces as UnitError", "%s.%s by %s (%s)" % (m, p, way, d), I.st is None and bool(ex), "no error" if I.st is not None else "")
                check_causes(ctx, W, "%s.%s by %s (%s)" % (m, p, way, d), ex)
    # whatever dimension is found in the scenarios
    W.restore(base)
    x = W.model(m)
    from .rules_run import Run
    for kind in ("ScmRun", "frame") if ctx.thorough else ("ScmRun",):
        W.restore(base)
        x = W.model(m)
        r = Run(ctx, W, m, x, kind)
        check_causes(ctx, W, "%s.run_scenarios" % m, r.exits)
        ctx.ob("a driver of another dimension raises UnitError", "%s.run_scenarios" % m, any(UNITERR in W.exc_mro(e) for e in r.exits), "no UnitError exit")


class Injector:
    """adds an exceptional exit to one function (or library call) and follows it"""

    def __init__(self, ctx, W):
        self.ctx, self.W = ctx, W
        self.ghost = W.I.alloc(InstO(W.I.getattr_(W.errors, "UnitError"), {}))

    def discover(self, act, libs=False):
        """functions reached by act (other than the one called first)"""
        I = self.W.I
        found = {}

        def see(f, path, node):
            if f is None:
                if libs and I.callstack:
                    found.setdefault((path, I.site(node)), (path, None, I.site(node)))
            elif I.callstack:
                found.setdefault(id(f.node), (f.qualname, f.name, f.node))

        keep = self.W.save()
        I.inject = see
        try:
            self.W.run(act)
        finally:
            I.inject = None
            self.W.restore(keep)
        return list(found.values())

    def exc(self, name):
        I = self.W.I
        if name.startswith("pkg:"):
            return I.call(I.getattr_(self.W.errors, name[4:]), [Const("injected")], {})
        return I.make_exc(name, Const("injected"))

    def try_one(self, act, where, target, kinds):
        """every call of the target may raise any of the kinds"""
        W, I = self.W, self.W.I
        keep = W.save()
        hits = {}

        def go(f, path, node):
            if f is not None:
                if f.node is not target[2] or not I.callstack:
                    return
            elif path != target[0] or target[1] is not None or I.site(node) != target[2]:
                return
            for name in kinds:
                c = tm.bopq("raises:%s:%s" % (name, I.site(node)))
                if I.decide(c) is tm.FALSE:
                    continue
                hits.setdefault(name, []).append(I.site(node))
                st = I.st
                I.st = st.clone()
                I.assume(c)
                I.inject = None
                try:
                    e = self.exc(name)
                    I.mut(self.ghost).attrs["raised:" + name] = Const(True)
                    I.raise_(e, node)
                except Dead:
                    pass
                finally:
                    I.inject = go
                I.st = st
                I.assume(tm.not_(c))

        I.inject = go
        try:
            v, ex = W.run(act)
        finally:
            I.inject = None
        self.ctx.exits += len(ex)
        self.ctx.count("injected exits", sum(map(len, hits.values())))
        swallowed = set()
        if I.st is not None:
            at = I.obj(self.ghost).attrs
            swallowed = {n for n in hits if any(x is not UNDEF for x in leaves(at.get("raised:" + n, UNDEF), I.facts()))}
        W.restore(keep)
        for name in hits:
            short = name.split(":")[-1].split(".")[-1]
            self.ctx.ob("an error raised inside a call is never turned into a normal result", "%s: %s from %s" % (where, short, target[0]), name not in swallowed,
                        "the call returns normally after %s raised %s" % (target[0], short), hits[name][0])

    def all(self, act, where, libs=()):
        done = set()
        for t in self.discover(act, bool(libs)):
            if t[1] is None:
                kinds = libs
            else:
                done.add(t[0])
                kinds = ANY + (MORE if t[1] in CORE or "_step" in t[1] or "_run" in t[1] else [])
            self.try_one(act, where, t, kinds)
        self.ctx.count("functions with injected exits", len(done))


def c27_calls(ctx, m):
    W = ctx.world()
    I = W.I
    inj = Injector(ctx, W)
    base = W.save()
    inj.all(lambda: I.call(W.models[m], [], W.params(m)), "%s()" % m)
    inj.all(lambda: I.call(W.models[m], [], {}), "%s() with defaults" % m)
    x = W.model(m)
    for p, u in PARAMS[m].items():
        q = W.quantity(p + "'", u)
        inj.all(lambda: I.setattr_(x, p, q), "%s.%s =" % (m, p))
        inj.all(lambda: I.getattr_(x, p), "%s.%s" % (m, p))
    e = W.erf_q("E")
    inj.all(lambda: W.meth(x, "set_drivers", e), "%s.set_drivers" % m)
    inj.all(lambda: I.setattr_(x, "erf", e), "%s.erf =" % m)
    W.do(x, "set_drivers", e)
    inj.all(lambda: W.meth(x, "reset"), "%s.reset" % m)
    W.do(x, "reset")
    inj.all(lambda: W.meth(x, "step"), "%s.step (first)" % m)
    inj.all(lambda: W.meth(x, "run"), "%s.run" % m)
    W.do(x, "step")
    inj.all(lambda: W.meth(x, "step"), "%s.step (second)" % m)
    inj.all(lambda: W.meth(x, CONVERT[m]), "%s.%s" % (m, CONVERT[m]))
    if m == "TwoLayerModel":
        for h in ("heat_capacity_upper", "heat_capacity_lower"):
            inj.all(lambda: I.getattr_(x, h), "%s.%s" % (m, h))
    W.restore(base)
    y = W.model(m)
    W.do(y, "set_drivers", W.erf_q("E3", n=3))
    W.do(y, "reset")
    inj.all(lambda: W.meth(y, "run"), "%s.run (3 steps)" % m)


def c27_scen(ctx, m):
    W = ctx.world()
    I = W.I
    for kind in ("ScmRun", "frame"):
        x = W.model(m)
        inj = Injector(ctx, W)
        scen = I.alloc(XO(kind, tm.opq("SCEN"), frozenset({"arg:scenarios"})))
        dv = I.alloc(XO("str", tm.opq("DV")))
        act = lambda: W.meth(x, "run_scenarios", scen, driver_var=dv)
        inj.all(act, "%s.run_scenarios (%s)" % (m, kind), LIBS if ctx.thorough or kind == "ScmRun" else ())


def c27_utils(ctx):
    W = ctx.world()
    I = W.I
    inj = Injector(ctx, W)
    f = I.getattr_(I.load(PKG + ".utils"), "convert_lambda_to_ecs")
    q = W.quantity("L", "W/m^2/delta_degC")
    inj.all(lambda: I.call(f, [q], {}), "convert_lambda_to_ecs")


# -------------------------------------------------------------------- C31
def c31(ctx):
    ctx.case("get_versions", c31_version, ctx)
    ctx.case("import", c31_import, ctx)
    ctx.floor("results of version discovery", 2)
    ctx.floor("failures considered", 1)


def leaves(v, facts=()):
    """possible values, with gates contradicting the facts left out"""
    if isinstance(v, Gated):
        c = nf.entails(list(facts), v.cond)
        for x, k in ((v.a, v.cond), (v.b, tm.not_(v.cond))):
            if (c is tm.FALSE) if k is v.cond else (c is tm.TRUE):
                continue
            ks = list(k.args) if k.op == "and" else [k]
            for y in leaves(x, list(facts) + ks):
                yield y
    else:
        yield v


def mapping(ctx, I, v, where):
    """every possible result is a mapping with a version"""
    for d in leaves(v, I.facts()):
        ctx.count("results of version discovery")
        o = I.obj(d) if isinstance(d, Ref) else None
        if not isinstance(o, DictO):
            ctx.bad("version discovery returns a mapping", where, "returns %s" % ("None" if d == NONE else "something else"))
            continue
        has = [(g, x) for g, k, x in o.entries if k == Const("version")]
        ok = bool(has) and I.decide(tm.or_(*[g for g, _ in has])) is tm.TRUE
        ctx.ob("the mapping has a version entry", where, ok, "no version entry" if not has else "only if %s" % show(has[0][0]))
        for _, x in has:
            for y in leaves(x, I.facts()):
                if y == NONE or y is UNDEF:
                    ctx.bad("the version is never missing", where, "the version entry is None")
                else:
                    ctx.ob("the version is never missing", where, True)


def c31_world(ctx):
    from .env import Env
    from .interp import Interp
    kw = {"sources": ctx.sources} if ctx.sources else {}
    I = Interp(ctx.root or "/repo/src", PKG, **kw)
    I.env = Env(I)
    return I


class Fake:
    def __init__(self, I):
        self.I = I


def escape(ctx, I, where, exits):
    for e in exits:
        o = e.st.heap.get(e.exc.oid)
        n = I.cls_name(o.cls) if isinstance(o, InstO) else "?"
        ctx.bad("no failure escapes version discovery", "%s: %s" % (where, n), "%s can escape" % n, e.site)
    ctx.exits += len(exits)
    ctx.ob("exceptional exits examined", where, True)


def c31_version(ctx):
    I = c31_world(ctx)
    ctx._worlds[id(I)] = Fake(I)
    mod = I.load(PKG + "._version")
    escape(ctx, I, "import of _version", I.handlers[-1])
    f = I.getattr_(mod, "get_versions")
    I.handlers.append([])
    try:
        v = I.call(f, [], {})
    except Dead:
        v = None
    exits = I.handlers.pop()
    escape(ctx, I, "get_versions", exits)
    ctx.count("failures considered", len(set(I.env.failures)))
    ctx.note("failures considered: " + "; ".join(sorted("%s at %s" % (a.split(".")[-1], b) for a, b in set(I.env.failures))))
    if v is None or I.st is None:
        ctx.bad("version discovery returns a mapping", "get_versions", "never returns")
        return
    mapping(ctx, I, v, "get_versions")


def c31_import(ctx):
    """import of the package, with version discovery as it is"""
    I = c31_world(ctx)
    ctx._worlds[id(I)] = Fake(I)
    seen = []

    def stop(I_, f, args, kwargs, node):
        v = I.alloc(XO("str", tm.opq("the version")))
        seen.append(v)
        return I.mkdict([(Const("version"), v)] + [(Const(k), I.alloc(XO("str", tm.opq("version:" + k)))) for k in ("full-revisionid", "dirty", "error", "date")])

    I.hooks["get_versions"] = stop
    pkg = I.load(PKG)
    v = I.obj(pkg).attrs.get("__version__", UNDEF)
    ok = bool(seen) and v is not UNDEF and all(isinstance(x, Ref) and isinstance(I.obj(x), XO) and I.obj(x).term is tm.opq("the version") for x in leaves(v))
    if not ok and v is not UNDEF:
        # not by way of get_versions: it must still be something on every path
        I = c31_world(ctx)
        ctx._worlds[id(I)] = Fake(I)
        pkg = I.load(PKG)
        escape(ctx, I, "import", I.handlers[-1])
        v = I.obj(pkg).attrs.get("__version__", UNDEF)
        bad = [x for x in leaves(v) if x is UNDEF or x == NONE or not (isinstance(x, Const) and isinstance(x.v, str) or isinstance(x, tm.T) or isinstance(x, Ref) and isinstance(I.obj(x), XO))]
        ctx.ob("the package has the discovered version", "__version__", not bad, "not always a version string")
        return
    ctx.ob("the package has the discovered version", "__version__", ok, "undefined" if v is UNDEF else "something else")
