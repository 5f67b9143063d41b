"""Rules about run_scenarios (C19-C24)."""
import datetime as dt
import itertools
from fractions import Fraction

from . import nf
from . import terms as tm
from . import units as un
from .common import *  # noqa: F401,F403
from .common import names, show
from .flow import AV, Flow, full_slice, lit, opn
from .gates import complete_rows, Cross, Gate, Sample, Unknown
from .interp import Unsupported
from .values import ArrO, Const, Gated, InstO, ListO, NONE, QO, Ref, UNDEF, XO
from .world import MODELS, PARAMS, PHYS, STATE

SCEN = "SCEN"
KINDS = ("ScmRun", "frame")
OUTPUTS = {
    "TwoLayerModel": {
        "Surface Temperature|Upper": ("_temp_upper_mag", "delta_degC"),
        "Surface Temperature|Lower": ("_temp_lower_mag", "delta_degC"),
        "Heat Uptake": ("_rndt_mag", "W/m^2"),
    },
    "ImpulseResponseModel": {
        "Surface Temperature|Box 1": ("_temp1_mag", "delta_degC"),
        "Surface Temperature|Box 2": ("_temp2_mag", "delta_degC"),
        "Surface Temperature": (("_temp1_mag", "_temp2_mag"), "delta_degC"),
        "Heat Uptake": ("_rndt_mag", "W/m^2"),
    },
}


class Outlabel:
    pass


def loop_cases(ctx, name, f, *args):
    """a case for every loop over scenarios (a selection that depends on the
    data, say, gives one loop per possible selection)"""
    ctx.loop_no, ctx.loop_count = 0, 1
    while ctx.loop_no < min(ctx.loop_count, 6):
        ctx.case(name if not ctx.loop_no else "%s loop %d" % (name, ctx.loop_no + 1), f, *args)
        ctx.loop_no += 1
    ctx.loop_no = 0


AGAIN = "ScmRun, used before"
QUIET = "ScmRun, no progress bar"
CASES = KINDS + (AGAIN, QUIET)


def start(W, model, kind):
    """a model with arbitrary parameters, new or after it ran other scenarios
    with other parameters"""
    if kind != AGAIN:
        return W.model(model)
    x = W.model(model, suffix="@old")
    W.do(x, "run_scenarios", W.I.alloc(XO("ScmRun", tm.opq("OLD"), frozenset({"arg:scenarios"}))))
    for p, u in PARAMS[model].items():
        W.set(x, p, W.quantity(p, u))
    return x


class Run:
    """one abstract execution of run_scenarios on an arbitrary scenario table"""

    def __init__(self, ctx, W, model, x, kind="ScmRun", driver_var="DV"):
        self.ctx, self.W, self.model, self.x, self.kind = ctx, W, model, x, kind
        I = self.I = W.I
        self.where = "%s/%s" % (model, kind)
        self.before = W.save()
        src = tm.opq(SCEN)
        self.scen = I.alloc(XO(kind.split(",")[0], src, frozenset({"arg:scenarios"})))
        self.dv = I.alloc(XO("str", tm.opq(driver_var))) if driver_var else None
        mark = len(I.events)
        lmark = len(I.loopinfo)
        kw = {"driver_var": self.dv} if self.dv is not None else {}
        if kind == QUIET:
            kw["progress"] = tm.FALSE
        self.base = list(I.st.pc)
        self.value, self.exits = W.run(lambda: W.meth(x, "run_scenarios", self.scen, **kw))
        ctx.exits += len(self.exits)
        self.after = I.st
        if self.after is None:
            raise Unsupported("run_scenarios has no result: %s" % W.describe(self.exits))
        self.events = I.events[mark:]
        self.loops = {l["id"]: l for l in I.loopinfo[lmark:]}
        self.sets = [e for e in self.events if e.kind == "propset" and e.name in ("erf", "delta_t")]
        self.find_loop(src)
        ctx.count("abstract runs")

    def find_loop(self, src):
        self.loop = self.ivar = self.end = self.inst = None
        self.steps = [e for e in self.events if e.kind == "call" and e.func.split(".")[-1] in ("_step", "step")]
        cands = []
        for e in [e for e in self.sets if e.name == "erf"] + self.steps:
            ids = [l for l in e.loop if l is not None and l in self.loops]
            ids = [l for l in ids if not self.is_stepping(l)]
            if ids and ids[-1] not in cands and (not cands or e.kind == "propset"):
                cands.append(ids[-1])
        self.ctx.loop_count = max(self.ctx.loop_count, len(cands))
        if cands:
            self.loop = self.loops[cands[min(self.ctx.loop_no, len(cands) - 1)]]
            self.ivar = self.loop["ivar"]
            self.end = self.loop["end"]
        es = [e for e in self.sets if e.name == "erf" and (self.loop is None or self.loop["id"] in e.loop)] or [e for e in self.sets if e.name == "erf"]
        if es:
            self.inst = Ref(es[-1].inst) if not isinstance(es[-1].inst, Ref) else es[-1].inst
        self.flow = Flow(src, self.ivar)
        self.asm = ()

    def is_stepping(self, lid):
        """a loop over time steps rather than over scenarios: the forcing is
        not set inside it"""
        return not any(e.name == "erf" and lid in e.loop for e in self.sets)

    # ------------------------------------------------------------- helpers
    def in_end(self, f):
        I = self.I
        keep = I.st
        I.st = self.end.clone()
        try:
            return self.W.expect(f)
        finally:
            I.st = keep

    def attr_end(self, name):
        o = self.end.heap.get(self.inst.oid)
        return o.attrs.get(name) if isinstance(o, InstO) else None

    def term_end(self, v):
        I = self.I
        keep = I.st
        I.st = self.end
        try:
            return I.term_of(v)
        finally:
            I.st = keep

    def body_end(self, v):
        o = self.end.heap.get(v.oid) if isinstance(v, Ref) else None
        return o.full() if isinstance(o, ArrO) else None

    def phis(self, t):
        lid = self.loop["id"]
        return sorted({s.args[0] for s in tm.subterms(t) if s.op in ("atom", "sel") and str(s.args[0]).startswith("phi:" + lid + ":")}
                      | {str(s.args[0]) for s in tm.subterms(t) if s.op in ("opq", "bopq") and ("phi:" + lid + ":") in str(s.args[0])})

    # ------------------------------------------------------------- outputs
    def sub(self, t):
        """a term in the case that is being looked at"""
        for c, v in self.asm:
            t = tm.subst(t, {c: v})
        return t

    def new_flow(self, extra=()):
        src = self.flow.source
        conds = list(extra) + [c if v is tm.TRUE else tm.not_(c) for c, v in self.asm]
        return Flow(src, self.ivar, complete_rows(Flow(src, self.ivar), conds) if conds else ())

    def split(self, f, extra=()):
        """f once for every case of the conditions that decide which data a
        term refers to"""
        todo, n = [()], 0
        while todo and n < 16:
            self.asm = todo.pop()
            self.flow = self.new_flow(extra)
            f(True)
            new = [c for c in self.flow.blocked if c not in (tm.TRUE, tm.FALSE)]
            if new and len(self.asm) < 12:
                todo += [self.asm + ((new[0], v),) for v in (tm.FALSE, tm.TRUE)]
                continue
            n += 1
            f(False)
        if todo:
            self.ctx.errors.append("%s: only %d of the cases looked at" % (self.where, n))
        self.asm = ()

    def each_forcing(self, fs):
        """(conditions, magnitude, quantity) for every case"""
        out = []
        for cs, o in fs:
            t, lab = self.term_end(o.mag), o.unit.label
            def look(probe):
                if probe:
                    for k in (self.sub(t), self.sub(lab)):
                        v = self.flow.ab(k)
                        if v.kind == "choice":
                            self.flow.blocked.append(v.cond)
                else:
                    out.append((cs, self.asm, o))
            self.split(look, cs)
        for cs, asm, o in out:
            self.asm = asm
            self.flow = self.new_flow(cs)
            yield cs + [c if v is tm.TRUE else tm.not_(c) for c, v in asm], self.sub(self.term_end(o.mag)), o
        self.asm = ()

    def case(self):
        return "" if not self.asm else " if " + " and ".join("%s%s" % ("" if v is tm.TRUE else "not ", show(c, 60)) for c, v in self.asm)

    def collect(self):
        """outputs of one iteration: list of (AV one, metas)"""
        self.outs, self.problems, self.run_metas, self.segs = [], [], [], []
        if self.value is None or self.after is None:
            self.problems.append(("no result", False))
            return
        keep = self.I.st
        self.I.st = self.after
        try:
            t = self.I.term_of(self.value)
        finally:
            self.I.st = keep
        t = self.sub(t)
        if isinstance(t, tm.T) and t.op == "ite":
            self.flow.blocked.append(t.args[0])
            self.problems.append(("the result depends on %s" % show(t.args[0]), False))
            return
        self.walk(self.flow.ab(t), [], None, None)

    def walk(self, av, meta, ivar, n):
        k = av.kind
        if k == "cat":
            m = meta + av.meta
            for it in av.items:
                o = opn(it)
                if o == "seg":
                    iv, cnt, guard, val = it.args[1:5]
                    if guard is not tm.TRUE:
                        self.problems.append(("results only kept if %s" % show(guard), True))
                    if ivar is not None:
                        self.problems.append(("nested result lists", False))
                    self.segs.append((iv, cnt))
                    self.walk(self.flow.ab(val), m, iv, cnt)
                elif o == "guarded":
                    self.problems.append(("output only reported if %s" % show(it.args[1]), True))
                    self.walk(self.flow.ab(it.args[2]), m, ivar, n)
                else:
                    self.walk(self.flow.ab(it), m, ivar, n)
        elif k == "list":
            self.walk(AV("cat", items=av.items, meta=[]), meta, ivar, n)
        elif k == "one":
            if av.vals is not None and self.flow.ab(av.vals).kind == "choice":
                self.flow.blocked.append(self.flow.ab(av.vals).cond)
            self.outs.append((av, meta + av.meta, ivar))
        elif k == "top":
            self.problems.append((av.why, av.banned))
        elif k == "tab" and ivar is None:
            self.problems.append(("the whole scenario table is returned", True))
        else:
            if k == "choice":
                self.flow.blocked.append(av.cond)
            self.problems.append(("result made of %s" % k, False))


def scenario_run(ctx, W, model, x, kind="ScmRun"):
    r = Run(ctx, W, model, x, kind)
    metas, r.unclear = [], []

    def go(probe):
        r.collect()
        if not probe:
            for av, meta, _ in r.outs:
                metas.append({m for m in recorded_params(r, tab_meta(r, av) + meta)})
            r.unclear += [why for why, banned in r.problems if not banned]
    r.split(go)
    r.recorded = set.intersection(*metas) if metas else set()
    return r


def tab_meta(r, av):
    return list(av.tab.meta) if getattr(av, "tab", None) is not None and av.tab.kind == "tab" else []


def key_parts(key):
    """(parameter, unit node or text) of a 'name (unit)' key term"""
    if not (isinstance(key, tm.T) and key.op == "cat"):
        return None
    parts = list(key.args)
    if not parts or not isinstance(parts[0], str):
        return None
    s = parts[0]
    if " (" not in s:
        return None
    name, _, rest = s.partition(" (")
    if len(parts) == 1:
        return (name, rest[:-1]) if rest.endswith(")") else None
    if rest == "" and len(parts) == 3 and parts[2] == ")":
        return name, parts[1]
    return None


def recorded_params(r, meta):
    out = []
    for key, val in meta:
        kp = key_parts(key)
        if kp and kp[0] in PHYS[r.model]:
            out.append(kp[0])
    return out


def run_outputs(ctx, W, model, x):
    """yields the run with its outputs, for every case to look at"""
    r = Run(ctx, W, model, x)
    cases = []

    def go(probe):
        r.collect()
        if probe:
            return
        res = []
        for av, meta, iv in r.outs:
            o = Outlabel()
            s = dict((lit(k), v) for k, v in av.sets)
            o.variable = lit(s.get("variable")) if "variable" in s else None
            o.unit = lit(s["unit"]) if "unit" in s else None
            o.vals, o.av = av.vals, av
            o.term = av.vals if av.vals is not None else tm.ZERO
            o.site = ""
            o.body = None
            if av.vals is not None:
                a = r.flow.ab(av.vals)
                if a.kind == "array":
                    o.body = r.sub(a.body)
            o.iv = iv
            res.append(o)
        cases.append((r.asm, r.problems, res))
    r.split(go)
    for r.asm, r.problems, res in cases:
        yield r, res
    r.asm = ()


# ------------------------------------------------------------------- C19
def c19(ctx):
    from .rules_params import midrun  # noqa: F401
    for model in MODELS:
        for kind in KINDS:
            ctx.case("%s run_scenarios(%s)" % (model, kind), caller_data_scen, ctx, model, kind)
        ctx.case("%s calls" % model, caller_data_calls, ctx, model)
    ctx.floor("abstract runs", 4)
    ctx.floor("public calls", 12)


def mutations(events, prefix="arg:"):
    return [e for e in events if e.kind == "mutate" and any(str(r).startswith(prefix) for r in e.roots)]


def caller_data_scen(ctx, model, kind):
    W = ctx.world()
    x = W.model(model)
    r = Run(ctx, W, model, x, kind)
    ctx.floor("abstract runs", 1)
    bad = mutations(r.events)
    n = len([e for e in r.events if e.kind == "mutate"])
    ctx.count("in-place modifications examined", n)
    ctx.ob("scenarios passed to run_scenarios are not modified", r.where, not bad,
           "; ".join("%s (%s)" % (e.how, ", ".join(sorted(e.roots))) for e in bad[:3]), bad[0].site if bad else "")
    # nor is what the caller passed kept by the model
    if r.after is not None:
        t = r.after.heap[x.oid]
        held = [a for a, v in t.attrs.items() if isinstance(v, Ref) and v.oid == r.scen.oid]
        ctx.ob("the model keeps no reference to the scenarios", r.where, not held, "attribute %s" % held)


def caller_data_calls(ctx, model):
    W = ctx.world()
    I = W.I
    kw = W.params(model, roots=True)
    cls = W.models[model]
    done = []

    def watch(name, f):
        m = len(I.events)
        v, ex = W.run_or_keep(f)
        bad = mutations(I.events[m:])
        ctx.count("public calls")
        ctx.ob("caller's objects are not modified", "%s.%s" % (model, name), not bad,
               "; ".join("%s on %s" % (e.how, ", ".join(sorted(e.roots))) for e in bad[:3]), bad[0].site if bad else "")
        return v

    x = watch("__init__", lambda: I.call(cls, [], kw))
    q0 = W.save()
    if x is None:
        raise Unsupported("constructor has no normal exit")
    for p, u in PARAMS[model].items():
        q = W.quantity(p + "'", u, roots={"arg:" + p})
        watch(p + " =", lambda p=p, q=q: I.setattr_(x, p, q))
    e = W.erf_q("E", roots={"arg:erf"})
    watch("set_drivers", lambda: W.meth(x, "set_drivers", e))
    e2 = W.erf_q("E2", roots={"arg:erf"}, unit=False)
    watch("erf = (model units)", lambda: I.setattr_(x, "erf", e2))
    watch("reset", lambda: W.meth(x, "reset"))
    watch("step", lambda: W.meth(x, "step"))
    watch("step (second)", lambda: W.meth(x, "step"))
    watch("reset (second)", lambda: W.meth(x, "reset"))
    watch("run", lambda: W.meth(x, "run"))
    watch("run (second)", lambda: W.meth(x, "run"))
    watch(CONVERT[model], lambda: W.meth(x, CONVERT[model]))
    # the quantities given are still what they were
    fin = I.st
    for p, q in kw.items():
        ctx.ob("the caller's quantity keeps its value", "%s.%s" % (model, p), fin.heap[q.oid].unit == q0.heap[q.oid].unit and same(q, fin, q, q0), "changed")
    ctx.ob("the caller's forcing keeps its values", model, I.st.heap[I.st.heap[e.oid].mag.oid].writes == (), "written to")


# ------------------------------------------------------------------- C20
def c20(ctx):
    for model in MODELS:
        for kind in CASES:
            loop_cases(ctx, "%s/%s" % (model, kind), scenario_independence, ctx, model, kind)
    ctx.floor("abstract runs", 4)
    ctx.floor("scenario loops", 4)


def need(ctx, rule, where, av, ok, detail, site=""):
    """an obligation on a classified value: what is known to be wrong is a
    violation, what is not understood is an error of the check"""
    if av.kind == "top" and not av.banned:
        ctx.errors.append("%s (%s): not understood: %s" % (rule, where, av.why))
        return None
    if av.kind == "top":
        return ctx.bad(rule, where, av.why, site)
    return ctx.ob(rule, where, ok, detail, site)


def per_scenario(ctx, r):
    """the loop over scenarios, or None (reported)"""
    erf = [e for e in r.sets if e.name == "erf"]
    if not erf:
        ctx.bad("the forcing of each scenario is set", r.where, "run_scenarios never sets the forcing")
        return False
    if r.loop is None:
        ctx.bad("every scenario is run by itself", r.where, "the forcing is set outside any loop over the scenarios", erf[0].site)
        return False
    ctx.count("scenario loops")
    n = r.loop["n"]
    if n is not None and opn(n) in ("nrows", "len"):
        av = r.flow.ab(n.args[1])
    elif n is not None:
        av = r.flow.ab(n)
    else:
        av = AV("top", why="loop over scenarios without a known length", banned=False)
    if av.kind in ("tabcount", "tabindex", "labcol", "tabvals", "rowitems"):
        av = AV("tab", filters=[])
    if r.loop["breaks"]:
        ctx.bad("every scenario is run", r.where, "the loop over the scenarios is left early", r.loop["site"])
    need(ctx, "every row of the scenario table is run once", r.where, av, av.kind == "tab", "loop over %s" % show(n if n is not None else tm.ZERO), r.loop["site"])
    return True


def choices(av):
    if av.kind == "choice":
        return choices(av.a) + choices(av.b)
    return [av]


def scenario_independence(ctx, model, kind):
    W = ctx.world()
    x = start(W, model, kind)
    r = Run(ctx, W, model, x, kind)
    w = r.where
    if not per_scenario(ctx, r):
        return
    site = [e for e in r.sets if e.name == "erf"][-1].site
    fs = forcings(r)
    if fs is None:
        ctx.bad("the forcing set is a quantity", w, "not a quantity", site)
        return
    tabs = []
    for cs, mag, o in r.each_forcing(fs):
        av = r.flow.ab(mag)
        for v in choices(av):
            tabs.append(getattr(v, "tab", None))
            if v.kind in ("row", "vals") and not v.nn and reads_missing(cs):
                ctx.errors.append("the forcing is this scenario's own non-missing values (%s): not understood: depends on %s" % (w, show(tm.and_(*cs), 200) if cs else "a condition"))
                continue
            need(ctx, "the forcing is this scenario's own non-missing values", w, v,
                 v.kind in ("row", "vals") and v.nn and v.i is r.ivar,
                 "values are not filtered for missing data" if v.kind in ("row", "vals") and not v.nn else "values of row %s" % show(getattr(v, "i", tm.ZERO)) if v.kind in ("row", "vals") else "forcing is %s" % v, site)
        lab = r.sub(o.unit.label)
        u = r.flow.ab(lab)
        if u.kind == "text":
            ctx.bad("the forcing is in this scenario's own unit", w, "fixed unit %s" % show(lab), site)
        else:
            need(ctx, "the forcing is in this scenario's own unit", w, u, u.kind == "lab" and lit(u.key) == "unit" and u.i is r.ivar, "unit is %s" % u, site)
    # nothing of an earlier iteration reaches this one
    dts = [r.term_end(v) for v in [r.attr_end("_delta_t_mag")] if v is not None]
    for a in list(STATE[model]) + ["_erf_mag", "_delta_t_mag"]:
        v = r.attr_end(a)
        if v is None:
            continue
        t = r.term_end(v)
        left = r.phis(t)
        if left and a in STATE[model] and any(str(s.args[0]).startswith("len:phi:") and str(s.args[0]).endswith(a) for c in W.I.undecided for s in tm.subterms(c) if s.args):
            ctx.errors.append("nothing is carried over from earlier scenarios (%s %s): not understood: arrays kept if their length fits" % (w, a))
            continue
        if kind == AGAIN:
            left = left + sorted(n for n in names(tm.deps(t)) if n.endswith("@old")) + ["the earlier scenarios"] * any(opn(s) == "OLD" for s in tm.subterms(t))
        if left and kept_if_same(left, [t] + dts):
            ctx.errors.append("nothing is carried over from earlier scenarios (%s %s): not understood: time step kept if the new one is the same" % (w, a))
            continue
        ctx.ob("nothing is carried over from earlier scenarios", "%s %s" % (w, a), not left, "depends on %s" % ", ".join(left[:3]), r.loop["site"])
    step = r.in_end(lambda: r.I.getattr_(r.inst, "delta_t"))
    term = step_seconds(r, step)
    if term is not None and not r.phis(term):
        for name, s, _ in axes(False)[:6]:
            try:
                Gate(r.flow, s, r.ivar).ev(term)
            except Cross as e:
                ctx.bad("the time step depends on this scenario only", w, str(e), r.loop["site"])
                break
            except Unknown:
                break  # C21 reports it
        else:
            ctx.ob("the time step depends on this scenario only", w, True)
    # and no row of another scenario
    fresh_reset(ctx, r)
    # the parameters used are the model's own throughout
    base, end = r.before.heap[x.oid], r.end.heap.get(r.inst.oid)
    for p in PHYS[model]:
        for a in ("_" + p, "_%s_mag" % p):
            if a in base.attrs:
                ctx.ob("parameters are the same for every scenario", "%s %s" % (w, a), same(base.attrs[a], r.before, end.attrs.get(a), r.end), "changed while running scenarios")
    # every table operation between the input and the rows is row-wise
    tabs = [t for t in tabs if t is not None]
    r.collect()
    for why, banned in r.problems:
        if banned:
            ctx.bad("no operation across scenarios", w, why)
    for av1, meta, iv in r.outs:
        if iv is not None:
            ctx.ob("each result belongs to the scenario run", w, av1.i is iv, "result of row %s stored for %s" % (show(av1.i), show(iv)))
    for tab in tabs[:4]:
        ctx.ob("rows come from the filtered scenario table", w, tab.kind == "tab", "from %s" % tab)


def fresh_reset(ctx, r):
    """in each iteration: forcing and step set, reset, one run - in this order"""
    lid = r.loop["id"]
    seq = []
    for k, e in enumerate(r.events):
        if lid not in e.loop:
            continue
        if e.kind == "propset" and e.name in ("erf", "delta_t"):
            seq.append((k, e.name, e))
        elif e.kind == "call":
            f = e.func.split(".")[-1]
            if f in ("_reset", "_run"):
                seq.append((k, f, e))
            elif f == "_step" and not any(s.split(".")[-1] == "_run" for s in e.stack[:-1]):
                seq.append((k, "_step", e))
    order = [n for _, n, _ in seq]
    w = r.where
    site = r.loop["site"]
    runs = [k for k, n, _ in seq if n in ("_run", "_step")]
    resets = [k for k, n, _ in seq if n == "_reset"]
    erfs = [k for k, n, _ in seq if n == "erf"]
    dts = [k for k, n, _ in seq if n == "delta_t"]
    if not runs:
        ctx.bad("each scenario is run", w, "no run in the loop over scenarios", site)
        return
    first, last = runs[0], runs[-1]
    whole = [k for k, n, _ in seq if n == "_run"]
    before = [k for k in resets if k < first]
    ctx.ob("the model is reset before each scenario's run", w, bool(before), "order in one iteration: %s" % ", ".join(order), site)
    ctx.ob("the forcing is set before the reset and the run", w, bool(erfs) and all(k < first for k in erfs) and (not before or any(k < before[-1] for k in erfs)), "order in one iteration: %s" % ", ".join(order), site)
    ctx.ob("the time step is set before the run", w, bool(dts) and all(k < first for k in dts), "order in one iteration: %s" % ", ".join(order), site)
    ctx.ob("each scenario is run exactly once", w, len(whole) <= 1 and not any(k > last for k in resets), "order in one iteration: %s" % ", ".join(order), site)
    # the state arrays start as after a reset
    conds = [e for _, n, e in seq if n in ("_run", "erf", "_reset")]
    for e in conds:
        extra = [c for c in e.pc if c not in r.base]
        tied = [c for c in extra if any(s in r.phis(c) for s in r.phis(c))]
        ctx.ob("each scenario is treated alike", "%s %s" % (w, e.func.split(".")[-1] if e.kind == "call" else e.name), not tied, "only if %s" % "; ".join(show(c, 120) for c in tied[:2]), e.site)


# ------------------------------------------------------------------- C21
D = dt.datetime


def day(n):
    return dt.timedelta(days=n)


def compares(c):
    """a condition that compares the time step kept with something for equality"""
    return any(a.op in ("eq0", "bopq") and any("_delta_t" in str(x.args[0]) and "phi:" in str(x.args[0]) for x in tm.subterms(a) if x.args)
               for a in nf.atoms_of_cond(c))


def kept_if_same(left, ts):
    """what is left of earlier scenarios is the time step, kept where it compares
    equal to the new one"""
    return all(n.endswith(("_delta_t", "_delta_t_mag")) for n in left) and any(compares(c) for t in ts for c in nf.gates(t))


def axes(thorough=False):
    """(name, Sample, expected) at the critical points of the time step rule"""
    yrs = lambda *ys: [D(y, 1, 1) for y in ys]
    mon = [D(2001, m, 1) for m in range(1, 13)]

    def steps(*ds):
        t = [D(2001, 1, 1)]
        for d in ds:
            t.append(t[-1] + d)
        return t

    H = dt.timedelta(hours=1)
    out = [
        ("yearly", Sample(yrs(2001, 2002, 2003, 2004, 2005)), "yr"),
        ("yearly, two points", Sample(yrs(2003, 2004)), "yr"),
        ("yearly, mid-year", Sample([D(y, 7, 2) for y in range(1750, 1760)]), "yr"),
        ("yearly, varying day", Sample([D(2000, 1, 1), D(2001, 7, 1), D(2002, 1, 1), D(2003, 12, 31)]), "yr"),
        ("single point", Sample(yrs(2010)), "yr"),
        ("monthly", Sample(mon), "month"),
        ("monthly, mid-month", Sample([D(2001, m, 15) for m in range(2, 10)]), "month"),
        ("every 28 days", Sample(steps(day(28), day(28), day(28))), "month"),
        ("every 31 days", Sample(steps(day(31), day(31), day(31))), "month"),
        ("monthly over years", Sample([D(y, m, 1) for y in (2001, 2002) for m in range(1, 13)]), "month"),
        ("two points 29 days apart", Sample(steps(day(29))), "month"),
        ("27 days", Sample(steps(day(27), day(27))), None),
        ("32 days", Sample(steps(day(32), day(32))), None),
        ("just under 28 days", Sample(steps(day(28) - H, day(28) - H)), None),
        ("just over 31 days", Sample(steps(day(31) + H, day(31) + H)), None),
        ("daily", Sample(steps(day(1), day(1), day(1))), None),
        ("half-yearly", Sample([D(2001, 1, 1), D(2001, 7, 1), D(2002, 1, 1), D(2002, 7, 1)]), None),
        ("quarterly", Sample([D(2001, 1, 1), D(2001, 4, 1), D(2001, 7, 1), D(2001, 10, 1)]), None),
        ("five-yearly", Sample(yrs(2000, 2005, 2010, 2015)), None),
        ("two-yearly", Sample(yrs(2000, 2002, 2004)), None),
        ("ten-yearly, two points", Sample(yrs(2000, 2010)), None),
        ("gap at the end", Sample(yrs(2001, 2002, 2003, 2004, 2006)), None),
        ("gap at the start", Sample(yrs(2000, 2002, 2003, 2004, 2005)), None),
        ("gap in the middle", Sample(yrs(2000, 2001, 2003, 2004)), None),
        ("large gap in the middle", Sample(yrs(2000, 2001, 2051, 2052)), None),
        ("repeated year, mean one", Sample([D(2000, 1, 1), D(2000, 7, 1), D(2002, 1, 1), D(2003, 1, 1)]), None),
        ("monthly, long gap at the end", Sample(steps(day(31), day(28), day(31), day(40))), None),
        ("monthly, long gap at the start", Sample(steps(day(59), day(31), day(30))), None),
        ("monthly, short gap in the middle", Sample(steps(day(31), day(10), day(31))), None),
        ("monthly, short and long gap", Sample(steps(day(30), day(20), day(40), day(30))), None),
        ("monthly then yearly", Sample([D(2001, 1, 1), D(2001, 2, 1), D(2002, 2, 1), D(2003, 2, 1)]), None),
        ("yearly then monthly", Sample([D(2001, 1, 1), D(2002, 1, 1), D(2002, 2, 1), D(2002, 3, 1)]), None),
        # the number of points does not matter
        ("yearly, 2999 points", Sample(yrs(*range(1, 3000))), "yr"),
        ("monthly, 2400 points", Sample([D(y, m, 1) for y in range(1800, 2000) for m in range(1, 13)]), "month"),
        ("five-yearly, 1500 points", Sample(yrs(*range(1, 7500, 5))), None),
        ("daily, 3000 points", Sample(steps(*[day(1)] * 2999)), None),
        ("yearly, 1501 points with a gap", Sample(yrs(*range(1, 1501), 1502)), None),
        ("monthly, 1801 points with a gap", Sample([D(y, m, 1) for y in range(1850, 2000) for m in range(1, 13)] + [D(2000, 2, 10)]), None),
        ("yearly, 12 points", Sample(yrs(*range(2001, 2013))), "yr"),
        ("yearly, 13 points", Sample(yrs(*range(2001, 2014))), "yr"),
        ("five-yearly, 12 points", Sample(yrs(*range(2000, 2060, 5))), None),
        ("daily, 12 points", Sample(steps(*[day(1)] * 11)), None),
        ("daily, 365 points", Sample(steps(*[day(1)] * 364)), None),
        ("quarterly, 12 points", Sample([D(y, m, 1) for y in (2001, 2002, 2003) for m in (1, 4, 7, 10)]), None),
        ("yearly, 251 points", Sample(yrs(*range(1850, 2101))), "yr"),
        ("five-yearly, 251 points", Sample(yrs(*range(1850, 3105, 5))), None),
        # missing values of this scenario (their times exist for other ones)
        ("yearly with a missing year", Sample(yrs(2001, 2002, 2003, 2004), missing=(1,)), None),
        ("yearly within a monthly table", Sample([D(y, m, 1) for y in (2001, 2002, 2003) for m in (1, 7)], missing=(1, 3, 5)), "yr"),
        ("monthly within a daily table", Sample(sorted(mon + [D(2001, 1, 20)]), missing=(1,)), "month"),
        ("yearly, shorter than the table", Sample(yrs(2001, 2002, 2003, 2010), missing=(3,)), "yr"),
        ("yearly, starting later", Sample(yrs(1990, 2001, 2002, 2003), missing=(0,)), "yr"),
        ("missing month", Sample(mon, missing=(4,)), None),
        ("one value within a five-yearly table", Sample(yrs(2000, 2005, 2010), missing=(0, 2)), "yr"),
    ]
    if thorough:
        crit = [day(1), day(27), day(28) - H, day(28), day(30), day(31), day(31) + H, day(32), day(365), day(366), day(731)]
        import itertools
        for n in (1, 2, 3):
            for ds in itertools.product(crit, repeat=n):
                t = [D(2001, 1, 1)]
                for d in ds:
                    t.append(t[-1] + d)
                ok_y = all(b.year - a.year == 1 for a, b in zip(t, t[1:]))
                ok_m = all(day(28) <= b - a <= day(31) for a, b in zip(t, t[1:]))
                out.append(("steps of %s" % ", ".join(str(d) for d in ds), Sample(t), "yr" if ok_y else "month" if ok_m else None))
    return out


def c21(ctx):
    for model in MODELS:
        for kind in CASES:
            loop_cases(ctx, "%s/%s" % (model, kind), time_step, ctx, model, kind)
    ctx.floor("scenario loops", 4)
    ctx.floor("time axes", 100)


def leaves_of_tree(t):
    if t.op == "ite":
        return leaves_of_tree(t.args[1]) + leaves_of_tree(t.args[2])
    return [t]


def time_step(ctx, model, kind):
    W = ctx.world()
    x = start(W, model, kind)
    unit_s = W.expect(lambda: W.si(W.I.call(W.I.getattr_(x, "_delta_t_mag"), [], {}))) if False else None
    r = Run(ctx, W, model, x, kind)
    w = r.where
    if not per_scenario(ctx, r):
        return
    sets = [e for e in r.sets if e.name == "delta_t"]
    lid = r.loop["id"]
    inloop = [e for e in sets if lid in e.loop]
    ctx.ob("the time step is set for every scenario", w, bool(inloop), "set %s" % ("outside the loop over the scenarios" if sets else "never"), sets[0].site if sets else "")
    if not inloop:
        return
    site = inloop[-1].site
    val = r.in_end(lambda: r.I.getattr_(r.inst, "delta_t"))
    term = step_seconds(r, val)
    if isinstance(val, Gated) and compares(val.cond):
        ctx.errors.append("time step (%s): not understood: kept if the new one is the same" % w)
        return
    if term is None:
        ctx.bad("the time step is a quantity", w, "not a quantity", site)
        return
    left = r.phis(term)
    if left and kept_if_same(left, [term]):
        ctx.errors.append("time step (%s): not understood: kept if the new one is the same" % w)
        return
    ctx.ob("the time step is not kept from an earlier scenario", w, not left, "depends on %s" % ", ".join(left), site)
    if left:
        return
    year, month = un.parse("yr")[1].factor, un.parse("month")[1].factor
    refuse = [e for e in r.exits if W.exc_name(e).split(".")[-1] == "NotImplementedError"]
    base = [c for c in r.base]
    for name, s, want in axes(ctx.thorough):
        ctx.count("time axes")
        g = Gate(r.flow, s, r.ivar)
        try:
            refused = any(holds(r, g, e, base) for e in refuse)
            if refused:
                got = None
            else:
                got = g.ev(term)
            exp = None if want is None else (year if want == "yr" else month).args[0]
            ok = got == exp
            txt = "time axis '%s': %s, expected %s" % (name, stepname(got, year, month), want or "NotImplementedError")
            ctx.ob("step of the time axis", "%s: %s" % (w, name), ok, txt, site)
        except Cross as e:
            ctx.bad("the time step comes from the scenario being run", w, str(e), site)
            break
        except Unknown as e:
            ctx.errors.append("time step gate (%s, %s): not understood: %s" % (w, name, e))
            break


def stepname(got, year, month):
    if got is None:
        return "refused"
    if got == year.args[0]:
        return "a step of one year"
    if got == month.args[0]:
        return "a step of one month"
    return "a step of %s s" % got


def step_seconds(r, v):
    if isinstance(v, Gated):
        a, b = step_seconds(r, v.a), step_seconds(r, v.b)
        return None if a is None or b is None else tm.ite(v.cond, a, b)
    o = r.end.heap.get(v.oid) if isinstance(v, Ref) else None
    if not isinstance(o, QO):
        return None
    return tm.mul(r.term_end(o.mag), o.unit.factor)


def holds(r, g, e, base):
    for c in e.st.pc:
        if c in base:
            continue
        try:
            if not g.ev(c):
                return False
        except Unknown:
            if g.reads_axis(c) is not None:
                raise
    return True


# ------------------------------------------------------------------- C22
def c22(ctx):
    for model in MODELS:
        for kind in CASES:
            loop_cases(ctx, "%s/%s" % (model, kind), driver_selection, ctx, model, kind)
        ctx.case("%s/default driver" % model, default_driver, ctx, model)
    ctx.floor("scenario loops", 4)


def forcings(r):
    """the quantities the forcing set for the scenario can be, each with the
    condition under which it is; None if some is no quantity"""
    erf = r.in_end(lambda: r.I.getattr_(r.inst, "erf"))
    out = []

    def go(v, cs):
        if isinstance(v, Gated):
            go(v.a, cs + [v.cond])
            go(v.b, cs + [tm.not_(v.cond)])
            return
        o = r.end.heap.get(v.oid) if isinstance(v, Ref) else None
        out.append((cs, o if isinstance(o, QO) else None))

    go(erf, [])
    return None if any(o is None for _, o in out) else out


def reads_missing(cs):
    """a condition that looks at missing values"""
    return any(any(k in str(s.args[0]) for k in ("isna", "isnull", "notna", "notnull", "hasnans", "isnan", "count", "dropna", "isfinite")) for c in cs for s in tm.subterms(c) if s.op in ("opq", "bopq", "fn", "isnan") and s.args)


def find_tabs(r, t):
    """scenario tables from which rows are taken in a term"""
    out = []
    for s in tm.subterms(t):
        o = opn(s)
        if o in ("row", "rowlabel"):
            out.append(r.flow.ab(s.args[1]))
        elif o == "getitem":
            av = r.flow.ab(s)
            if av.kind in ("row", "vals", "one", "labels", "lab") and getattr(av, "tab", None) is not None and av.tab.kind == "tab":
                out.append(av.tab)
    return out


def driver_selection(ctx, model, kind):
    W = ctx.world()
    x = start(W, model, kind)
    r = Run(ctx, W, model, x, kind)
    w = r.where
    if not per_scenario(ctx, r):
        return
    fs = forcings(r)
    t = tm.opq("forcings", *[m for _, m, _ in r.each_forcing(fs)]) if fs else None
    tabs = find_tabs(r, t) if t is not None else []
    site = r.loop["site"]
    if not tabs:
        av = r.flow.ab(t) if t is not None else AV("top", why="no forcing", banned=True)
        need(ctx, "driver rows are selected", w, av if av.kind == "top" else AV("top", why="forcing not taken from the scenario table", banned=False), False, "", site)
        return
    flat = []
    for tab in tabs:
        flat += choices(tab)
    for tab in flat:
        if tab.kind == "top":
            need(ctx, "driver rows are selected by variable and region", w, tab, False, "", site)
            continue
        sel = {}
        extra = []
        for f in tab.filters:
            for k, v in f.items():
                if k == "keep" and v is True:
                    continue
                if k in sel and sel[k] is not v and sel[k] != v:
                    extra.append("%s twice" % k)
                sel[k] = v
        dv = sel.pop("variable", None)
        rg = sel.pop("region", None)
        ctx.ob("only the requested driver variable is used", w, dv is tm.opq("DV") or one_of(dv, tm.opq("DV")), "variable filter: %s" % (show(dv) if isinstance(dv, tm.T) else dv), site)
        ctx.ob("only the World region is used", w, rg == "World" or one_of(rg, "World"), "region filter: %s" % (show(rg) if isinstance(rg, tm.T) else rg), site)
        over = [k for k, v in tab.meta if one_value(v)]
        ctx.ob("driver series stay distinguishable", w, not over or len(over) < len(tab.meta),
               "%s set to one value for all series before they are separated: series differing in nothing else cannot be run together" % ", ".join(str(k)[:40] for k in over[:3]), site)
        ctx.ob("no driver series is left out", w, not sel and not extra, "further filters: %s" % (sel or extra), site)
    # emptiness
    emptiness(ctx, r, x)


def one_value(v):
    """the same metadata value for every row"""
    return not (isinstance(v, tm.T) and any(opn(s) in ("list", "tuple", "seg", "call:numpy.arange", "iter:range", "fn:arange", "array") for s in tm.subterms(v)))


def one_of(v, want):
    return isinstance(v, tm.T) and opn(v) in ("list", "tuple") and len(v.args) == 2 and (lit(v.args[1]) is want or lit(v.args[1]) == want)


def reads_count(r, c):
    for s in tm.subterms(c):
        if r.flow.ab(s).kind in ("tabcount", "tabshape") or opn(s) in ("nrows", "len") and r.flow.ab(s.args[1]).kind == "tab":
            return True
    return False


def of_scenarios(t):
    return any(opn(s) == SCEN for s in tm.subterms(t))


def free_choices(conds):
    """truth values of the conditions that are not about the scenarios (the
    driver's name, say): any of them can be met"""
    atoms = []
    for c in conds:
        for s in tm.subterms(c):
            if tm.is_bool(s) and s.op not in ("and", "or", "not", "true", "false", "ite") and s not in (tm.TRUE, tm.FALSE) and not of_scenarios(s) and s not in atoms:
                atoms.append(s)
    if len(atoms) > 4:
        raise Unknown("too many conditions")
    return [dict(zip(atoms, vs)) for vs in itertools.product((True, False), repeat=len(atoms))]


def emptiness(ctx, r, x):
    W = r.W
    w = r.where
    gate = lambda k, env: Gate(r.flow, None, r.ivar, rows=Fraction(k), env={**env, r.ivar: Fraction(0)})
    ve = []
    for e in r.exits:
        new = [c for c in e.st.pc if c not in r.base]
        rows = [c for c in new if reads_count(r, c)]
        if not rows:
            continue
        try:
            envs = free_choices(rows)
            g0s = [env for env in envs if all(gate(0, env).ev(c) for c in rows)]
            if g0s:
                ve.append((e, any(all(gate(k, env).ev(c) for c in rows) for k in (1, 5) for env in envs), [c for c in new if c not in rows]))
        except (Unknown, Cross, IndexError) as err:
            ctx.errors.append("emptiness condition (%s): not understood: %s" % (w, err))
            return
    # at nrows == 0 exactly the ValueError is raised
    good = [v for v in ve if "ValueError" in short_mro(W, v[0])]
    ctx.ob("no matching driver data raises ValueError", w, bool(good) and not [v for v in good if v[2]],
           "no ValueError exit for an empty selection" if not good else "only if also %s" % "; ".join(show(c, 100) for v in good for c in v[2][:2]), good[0][0].site if good else r.loop["site"])
    for e, spurious, _ in good:
        ctx.ob("ValueError only when there is no driver data", w, not spurious, "also raised when driver data exist", e.site)
        # attributes that only the scenario loop itself writes: with no driver
        # data it makes no iteration
        L = r.loop
        idle = [] if not L or "out" not in L else [
            k for k, v in L["out"].heap[x.oid].attrs.items()
            if x.oid in e.st.heap and e.st.heap[x.oid].attrs.get(k) is v and k not in changed_attrs(x, r.before, L["before"])]
        ch = changed_attrs(x, r.before, e.st, ignore=idle)
        ctx.ob("nothing is run or changed before the ValueError", w, not ch, "changed: %s" % ", ".join(ch[:4]), e.site)
    for e, spurious, rest in ve:
        ctx.ob("an empty selection raises nothing but ValueError", "%s %s" % (w, W.exc_name(e)), "ValueError" in short_mro(W, e), "raises %s" % W.exc_name(e), e.site)
    # the normal path needs a non-empty selection
    if r.after is not None:
        rows = [c for c in r.after.pc if c not in r.base and reads_count(r, c)]
        try:
            envs = free_choices(rows)
            passes = any(all(gate(0, env).ev(c) for c in rows) for env in envs)
            ctx.ob("no result without driver data", w, not passes, "run_scenarios returns normally for an empty selection")
            ok = all(gate(1, env).ev(c) for c in rows for env in envs)
            ctx.ob("a single driver series is run", w, ok, "a single series is refused")
        except (Unknown, Cross) as err:
            ctx.errors.append("normal path condition (%s): not understood: %s" % (w, err))


def short_mro(W, e):
    return [str(n).split(".")[-1] for n in W.exc_mro(e)]


def default_driver(ctx, model):
    W = ctx.world()
    x = W.model(model)
    r = Run(ctx, W, model, x, "ScmRun", driver_var=None)
    if not per_scenario(ctx, r):
        return
    for tab in [c for _, m, _ in r.each_forcing(forcings(r) or []) for t in find_tabs(r, m) for c in choices(t)]:
        if tab.kind == "tab":
            v = [f["variable"] for f in tab.filters if "variable" in f]
            ctx.ob("the default driver is the effective radiative forcing", model, v == ["Effective Radiative Forcing"], "variable: %s" % v)


# ------------------------------------------------------------------- C23
def c23(ctx):
    for model in MODELS:
        for kind in CASES:
            loop_cases(ctx, "%s/%s" % (model, kind), provenance, ctx, model, kind)
    ctx.floor("outputs", 4)
    ctx.floor("parameter columns", 20)


def provenance(ctx, model, kind):
    W = ctx.world()
    x = start(W, model, kind)
    name = W.attr(x, "_name")
    if name is None:
        name = W.get(x, "_name")
    r = Run(ctx, W, model, x, kind)
    r.split(lambda probe: r.collect() or None if probe else provenance_case(ctx, W, r, x, model, name))


def provenance_case(ctx, W, r, x, model, name):
    r.collect()
    w = r.where + r.case()
    check_problems(ctx, r)
    nm = W.I.term_of(name) if name is not None else None
    ctx.ob("the model has a name", model, nm is not None and isinstance(lit(nm), str) and bool(lit(nm)), "no _name")
    for k, (av, meta, iv) in enumerate(r.outs):
        ctx.count("outputs")
        metas = tab_meta(r, av) + meta + [(a, b) for a, b in av.sets]
        lab = lit(dict((lit(a), b) for a, b in av.sets).get("variable", tm.cat("driver")))
        d = {}
        for a, b in metas:
            d.setdefault(a if not isinstance(lit(a), str) else lit(a), []).append(b)
        cm = d.get("climate_model", [])
        ctx.ob("climate_model is the model's name", "%s %s" % (w, lab), bool(cm) and cm[-1] is nm, "climate_model = %s" % (show(cm[-1]) if cm else "missing"))
        seen = {}
        for a, b in metas:
            kp = key_parts(a)
            if kp:
                seen.setdefault(kp[0], []).append((kp[1], b))
        for p in PHYS[model]:
            ctx.count("parameter columns")
            cols = seen.get(p, [])
            if not cols:
                ctx.bad("every parameter is recorded", "%s %s %s" % (w, lab, p), "no '%s (<unit>)' column" % p)
                continue
            unit, val = cols[-1]
            ctx.ob("every parameter is recorded", "%s %s %s" % (w, lab, p), len(cols) == 1, "%d columns" % len(cols))
            f = None
            if isinstance(unit, tm.T):
                u0 = r.before.heap[r.before.heap[x.oid].attrs["_" + p].oid].unit if "_" + p in r.before.heap[x.oid].attrs else None
                if u0 is not None and unit is u0.label:
                    f = u0.factor
            else:
                try:
                    v0, u1 = un.parse(unit)
                    want_dims = W.unit(PARAMS[model][p]).dims
                    f = tm.mul(tm.num(v0) if not isinstance(v0, tm.T) else v0, u1.factor) if u1.dims == want_dims else None
                except Exception:
                    f = None
            if f is None:
                ctx.bad("the column names the parameter's unit", "%s %s %s" % (w, lab, p), "unit in the column name: %s" % (show(unit) if isinstance(unit, tm.T) else unit))
                continue
            got = tm.mul(val, f) if isinstance(val, tm.T) else None
            ctx.ob("the value is the magnitude in the unit named", "%s %s %s" % (w, lab, p), got is not None and nf.equal(got, tm.atom(p)), "column '%s (%s)' holds %s" % (p, show(unit) if isinstance(unit, tm.T) else unit, show(val)))


def check_problems(ctx, r):
    for why, banned in r.problems:
        if banned:
            ctx.bad("results are returned as computed", r.where, why)
        else:
            ctx.errors.append("results (%s): not understood: %s" % (r.where, why))


# ------------------------------------------------------------------- C24
def c24(ctx):
    for model in MODELS:
        for kind in CASES:
            loop_cases(ctx, "%s/%s" % (model, kind), completeness, ctx, model, kind)
    ctx.floor("outputs", 16)


def completeness(ctx, model, kind):
    W = ctx.world()
    x = start(W, model, kind)
    r = Run(ctx, W, model, x, kind)
    if not per_scenario(ctx, r):
        return
    r.split(lambda probe: r.collect() or None if probe else completeness_case(ctx, r, model))


def completeness_case(ctx, r, model):
    r.collect()
    w = r.where + r.case()
    check_problems(ctx, r)
    table = OUTPUTS[model]
    want = {}
    arrays = {}
    for var, (attr, unit) in table.items():
        attrs = attr if isinstance(attr, tuple) else (attr,)
        bodies = [r.body_end(r.attr_end(a)) for a in attrs]
        if any(b is None for b in bodies):
            ctx.errors.append("%s: state array %s is not an array" % (w, attrs))
            return
        want[var] = tm.add(*bodies) if len(bodies) > 1 else bodies[0]
    seen = {}
    drivers = 0
    odd = [n for _, n in r.segs if not count_ok(r, n) and not (opn(n) == "count" and count_ok(r, n.args[2])) and any(opn(s) is not None and opn(s).startswith(("out:", "phi:", "len:out:", "len:phi:", "overwritten", "trip", "count", "getitem")) for s in tm.subterms(n))]
    if odd:
        ctx.errors.append("number of results (%s): not understood: %s" % (w, show(odd[0], 200)))
    elif r.segs or not any(not banned for _, banned in r.problems):
        ctx.ob("all driver series are returned", w, len(r.segs) == 1 and count_ok(r, r.segs[0][1]), "%s" % ["%s for %s" % (show(n), show(i)) for i, n in r.segs])
    for av, meta, iv in r.outs:
        ctx.count("outputs")
        s = {}
        for k, v in list(av.sets) + meta:
            if isinstance(lit(k), str):
                s[lit(k)] = v
        ctx.ob("each output is on the driver's non-missing time points", "%s %s" % (w, lit(s.get("variable", tm.cat("driver")))), av.nn, "time points without driver data are included")
        if iv is not None:
            ctx.ob("each output belongs to its driver", w, av.i is iv, "row %s" % show(av.i))
        for k in s:
            if k in ("model", "scenario", "region"):
                ctx.bad("the driver's labels are kept", "%s %s" % (w, k), "label %s is overwritten with %s" % (k, show(s[k])))
        # run_idx
        ri = s.get("run_idx")
        if ri is None:
            ctx.bad("run_idx distinguishes the driver series", w, "no run_idx")
        else:
            ok, why = injective(r, ri, iv)
            if ok is None:
                ctx.errors.append("run_idx (%s): not understood: %s" % (w, why))
            else:
                ctx.ob("run_idx distinguishes the driver series", w, ok, why)
        if av.vals is None:
            if "variable" in s or "unit" in s:
                ctx.bad("the driver is returned as it was", w, "relabelled: %s" % {k: show(v) for k, v in s.items() if k in ("variable", "unit")})
            drivers += 1
            continue
        var = lit(s.get("variable"))
        if not isinstance(var, str):
            ctx.bad("outputs carry their variable name", w, "variable = %s" % (show(s["variable"]) if "variable" in s else "the driver's"))
            continue
        if var not in table:
            ctx.note("further output %s" % var)
            continue
        seen[var] = seen.get(var, 0) + 1
        vals = r.flow.ab(av.vals)
        body, factor = None, tm.ONE
        if vals.kind == "array":
            body = vals.body
        elif opn(av.vals) == "quantity":
            inner = r.flow.ab(av.vals.args[1])
            body = inner.body if inner.kind == "array" else None
        if body is None:
            need(ctx, "output values", "%s %s" % (w, var), vals if vals.kind == "top" else AV("top", why="values are %s" % vals.kind, banned=False), False, "")
            continue
        # stored value is for another ivar: rename
        wb = r.sub(tm.subst(want[var], {r.ivar: iv}) if iv is not None and iv is not r.ivar else want[var])
        body = r.sub(body)
        unit = lit(s["unit"]) if "unit" in s else None
        uf = unit_factor(unit, table[var][1])
        if uf is None:
            ctx.bad("outputs carry the unit of their values", "%s %s" % (w, var), "unit = %s" % (unit if unit is not None else "the driver's"))
            continue
        ok = nf.equal(tm.mul(body, uf), wb)
        name = "" if ok else which(r, body, iv)
        if name.startswith("the array"):
            ok = False  # another of the model's arrays, whatever it holds
        detail = "" if ok else "values labelled %s are %s" % (var, name)
        ctx.ob("each output holds the values its label says", "%s %s" % (w, var), ok, detail)
        ctx.ob("outputs carry the unit of their values", "%s %s" % (w, var), True)
    if any(not banned for _, banned in r.problems):
        return  # undecided: some result is not understood
    ctx.ob("the driver itself is returned once", w, drivers == 1, "%d driver series per scenario" % drivers)
    for var in table:
        ctx.ob("every output is returned exactly once", "%s %s" % (w, var), seen.get(var, 0) == 1, "%s: returned %d times" % (var, seen.get(var, 0)))


def count_ok(r, n):
    av = r.flow.ab(n.args[1]) if opn(n) in ("nrows", "len") else r.flow.ab(n)
    return n is r.loop["n"] or av.kind in ("tab", "tabcount", "tabindex")


def which(r, body, iv):
    for a in STATE[r.model]:
        b = r.body_end(r.attr_end(a))
        if b is not None:
            b = r.sub(tm.subst(b, {r.ivar: iv}) if iv is not None else b)
            if b is body:
                return "the array %s" % a
    return show(body, 160)


def unit_factor(unit, model_unit):
    """factor from the labelled unit to the model unit; None if wrong"""
    if not isinstance(unit, str):
        return None
    try:
        v, u = un.parse(unit)
        v0, u0 = un.parse(model_unit)
    except Exception:
        return None
    if u.dims != u0.dims:
        return None
    return tm.div(u.factor, u0.factor)


def injective(r, t, iv):
    if t.op == "cat":
        inner = [a for a in t.args if isinstance(a, tm.T)]
        if len(inner) == 1:
            return injective(r, inner[0], iv)
    if iv is None:
        return None, "results are not listed per scenario"
    if not tm.depends(t, iv):
        left = r.phis(t) if r.loop else []
        return (None, "counter %s" % show(t)) if left else (False, "run_idx = %s for every driver series" % show(t))
    if t is iv:
        return True, ""
    if t.op == "sum":
        for u, c in t.args[1]:
            if u is iv:
                rest = tm.sub(t, tm.scale(c, iv))
                if not tm.depends(rest, iv):
                    return True, ""
    d = tm.sub(tm.subst(t, {iv: tm.add(iv, tm.ONE)}), t)
    if tm.is_num(d):
        return bool(d.args[0]), "run_idx = %s" % show(t)
    o = opn(t)
    if o is not None and any(k in show(t) for k in ("Mod", "FloorDiv", "floor")) or t.op == "fn" and t.args[0] in ("floor", "mod", "min", "max", "abs"):
        return False, "run_idx = %s repeats" % show(t)
    if t.op == "ite" or t.op == "prod":
        return False, "run_idx = %s" % show(t)
    return None, show(t)
