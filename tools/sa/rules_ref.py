"""C34: the recorded reference scenarios are trajectories of the extracted
model: the source's default parameters are the recorded ones, and every
recorded transition satisfies the update extracted from the source."""
import csv
import datetime as dt
import math
import os

from . import rules_run
from . import units as un
from .common import *
from .gates import Cross, Gate, Sample, Unknown
from .rules_run import OUTPUTS, Run, holds, loop_cases, per_scenario, step_seconds
from .rules_step import Step, c11_any
from .world import ROOT

DATA = "tests/test-data"
# configuration of each recorded file: the model and the parameters given
FILES = {
    "two-layer-output/test_twolayer_defaults.csv": ("TwoLayerModel", ()),
    "two-layer-output/test_twolayer_plus_efficacy.csv": ("TwoLayerModel", ("efficacy",)),
    "two-layer-output/test_twolayer_plus_state_dependence.csv": ("TwoLayerModel", ("a",)),
    "impulse-response-output/test_impulse_response_defaults.csv": ("ImpulseResponseModel", ()),
}
DRIVER = "Effective Radiative Forcing"
HUGE = 1e4  # recorded runaway trajectories are followed up to here
TOL = 1e-9


class Reference:
    def __init__(self, path):
        with open(path, newline="") as f:
            rows = list(csv.reader(f))
        head = rows[0]
        col = [i for i, c in enumerate(head) if not c[:4].isdigit()]
        val = [i for i, c in enumerate(head) if c[:4].isdigit()]
        self.times = [dt.datetime.strptime(head[i], "%Y-%m-%d %H:%M:%S") for i in val]
        self.params = {}  # name -> (value text, unit text)
        self.runs = {}  # (model, scenario, run) -> {variable: [values]}
        self.units, self.names = {}, set()
        names = {i: head[i].split(" (", 1) for i in col}
        for r in rows[1:]:
            m = {}
            for i in col:
                n = names[i]
                m[n[0]] = r[i]
                if len(n) == 2:
                    self.params.setdefault(n[0], set()).add((r[i], n[1][:-1]))
            self.names.add(m.get("climate_model"))
            v = [float(r[i]) if r[i] != "" else math.nan for i in val]
            self.runs.setdefault((m["model"], m["scenario"], m["run_idx"]), {})[m["variable"]] = v
            self.units.setdefault(m["variable"], set()).add(m["unit"])


FN = {
    "exp": math.exp, "log": math.log, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "abs": abs,
    "sqrt": math.sqrt, "tanh": math.tanh, "sin": math.sin, "cos": math.cos, "log10": math.log10, "log1p": math.log1p, "expm1": math.expm1,
    "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b,
}


def value(t, env, memo):
    """floating-point value of a node: constant folding of a closed expression
    (no code of the package is run); env gives the atoms' values and the arrays
    by name"""
    r = memo.get(t.id)
    if r is not None:
        return r
    o, a = t.op, t.args
    f = lambda u: value(u, env, memo)
    if o == "num":
        r = float(a[0])
    elif t in env:
        r = env[t]
    elif o == "atom" and a[0] in env:
        r = env[a[0]]
    elif o == "atom" and str(a[0]).startswith("u:"):
        r = 1.0  # given in SI units
    elif o == "sel" and a[0] in env:
        r = env[a[0]][int(f(a[1]))]
    elif o in ("atom", "sel"):
        raise Unsupported("the step depends on %s" % show(t, 80))
    elif o == "sum":
        r = float(a[0])
        for u, c in a[1]:
            r += float(c) * f(u)
    elif o == "prod":
        r = 1.0
        for u, e in a[0]:
            r *= f(u) ** (int(e) if e.denominator == 1 else float(e))
    elif o == "fn" and a[0] in FN:
        r = float(FN[a[0]](*[f(u) for u in a[1:]]))
    elif o == "fn" and a[0] == "round":
        nd = a[2] if len(a) > 2 else tm.ZERO
        if not tm.is_num(nd):
            raise Unsupported("value of %s" % show(t, 80))
        r = round(f(a[1]), int(nd.args[0]))
    elif o == "ite":
        r = f(a[1]) if f(a[0]) else f(a[2])
    elif o == "lt0":
        r = f(a[0]) < 0
    elif o == "le0":
        r = f(a[0]) <= 0
    elif o == "eq0":
        r = f(a[0]) == 0
    elif o == "isnan":
        r = math.isnan(f(a[0]))
    elif o == "not":
        r = not f(a[0])
    elif o == "and":
        r = all(f(u) for u in a)
    elif o == "or":
        r = any(f(u) for u in a)
    elif o in ("true", "false"):
        r = o == "true"
    else:
        raise Unsupported("value of %s" % show(t, 80))
    memo[t.id] = r
    return r


def c34(ctx):
    refs = {}
    root = os.path.dirname((ctx.root or ROOT).rstrip("/"))
    if not os.path.isdir(os.path.join(root, DATA)):
        root = os.path.dirname(ROOT)
    for name, (m, given) in FILES.items():
        path = os.path.join(root, DATA, name)
        if not os.path.exists(path):
            ctx.note("no reference file %s" % name)
            continue
        refs[name] = Reference(path)
    if not refs:
        raise Unsupported("no reference output found under %s" % os.path.join(root, DATA))
    for m in MODELS:
        mine = {n: r for n, r in refs.items() if FILES[n][0] == m}
        if mine:
            ctx.case("%s defaults" % m, defaults, ctx, m, mine)
            ctx.case("%s trajectories" % m, trajectories, ctx, m, mine)
            axis = {tuple(r.times): n for n, r in mine.items()}
            for ts, n in axis.items():
                loop_cases(ctx, "%s time axis of %s" % (m, n), time_axis, ctx, m, list(ts), n)
            # from one step to the whole table: each row is run alone, with its
            # own forcing, for as many steps as it has values, and recorded
            ctx.case("%s run" % m, c11_any, ctx, m)
            for f in (rules_run.scenario_independence, rules_run.driver_selection, rules_run.completeness):
                loop_cases(ctx, "%s/ScmRun" % m, f, ctx, m, "ScmRun")
            ctx.case("%s/default driver" % m, rules_run.default_driver, ctx, m)
    ctx.floor("default parameters", 11)
    ctx.floor("recorded transitions", 1000)


def recorded(W, ref, p):
    """the recorded value of a parameter in SI, None if not recorded alike in
    all rows"""
    got = ref.params.get(p)
    if got is None or len(got) != 1:
        return None
    txt, unit = next(iter(got))
    u = W.unit(unit)
    return tm.mul(tm.num(float(txt)), u.factor)


def defaults(ctx, m, refs):
    W = ctx.world()
    I = W.I
    x, ex = exits_of(ctx, W, lambda: I.call(W.models[m], [], {}))
    if I.st is None:
        ctx.bad("can be built with no arguments", m, W.describe(ex), of=ex)
        return
    for p in PHYS[m]:
        v = W.si(W.get(x, p))
        if v.op != "num":
            ctx.errors.append("default of %s.%s: not understood: %s" % (m, p, show(v, 80)))
            continue
        have = float(v.args[0])
        mag = mag_term(W, W.get(x, p))
        for n, ref in refs.items():
            if p in FILES[n][1]:
                continue
            r = recorded(W, ref, p)
            if r is None:
                ctx.errors.append("%s: %s is not recorded" % (n, p))
                continue
            ctx.count("default parameters")
            want = float(r.args[0])
            ctx.ob("the default is the one the reference outputs were made with", "%s.%s (%s)" % (m, p, n.split("/")[-1]), math.isclose(have, want, rel_tol=1e-12, abs_tol=1e-15), "default %r, recorded %r (SI units)" % (have, want))
            if mag.op == "num":
                txt = next(iter(ref.params[p]))
                ctx.ob("the default is in the unit its column is labelled with", "%s.%s (%s)" % (m, p, n.split("/")[-1]), math.isclose(float(mag.args[0]), float(txt[0]), rel_tol=1e-12, abs_tol=1e-15), "default magnitude %s, recorded %s %s" % (mag.args[0], txt[0], txt[1]))
    name, _ = W.run_or_keep(lambda: I.getattr_(x, "_name"))
    for n, ref in refs.items():
        if isinstance(name, Const):
            ctx.ob("the results carry the recorded model name", "%s (%s)" % (m, n.split("/")[-1]), ref.names == {name.v}, "%r, recorded %s" % (name.v, ", ".join(sorted(ref.names))))
        else:
            ctx.note("%s: name not understood" % m)


def trajectories(ctx, m, refs):
    S = Step(ctx, m)
    W = S.W
    outs = {v: a for v, (a, u) in OUTPUTS[m].items() if isinstance(a, str)}
    year = float(un.parse("yr")[1].factor.args[0])
    for n, ref in refs.items():
        for v, (a, u) in OUTPUTS[m].items():
            ctx.ob("every output is recorded", "%s %s" % (n, v), all(v in r for r in ref.runs.values()))
        env = {}
        p = S.pg if S.k is not None else S.p
        for k, t in p.items():
            if t.op != "atom":
                raise Unsupported("parameter %s" % show(t, 60))
            if k == "delta_t":
                env[t] = year
            else:
                r = recorded(W, ref, k)
                if r is None:
                    raise Unsupported("%s: %s is not recorded" % (n, k))
                env[t] = float(r.args[0])
        for v, a in outs.items():
            follow(ctx, S, m, n, ref, v, a, outs, env)


def follow(ctx, S, m, n, ref, v, a, outs, env):
    where = "%s %s" % (n.split("/")[-1], v)
    worst, bad, done = 0.0, None, 0
    for key, run in ref.runs.items():
        F = run[DRIVER]
        X = {b: run[w] for w, b in outs.items()}
        if X[a][0] != 0 and bad is None:
            bad = (key, ref.times[0], 0.0, X[a][0])
        full = sum(1 for y in F if y == y)
        last = len(F) if S.k is not None else min(len(F), len(S.first))
        for k in range(1, last):
            state = [X[b][k - 1] for b in X]
            want = X[a][k]
            if any(math.isnan(y) or abs(y) > HUGE for y in state + [want, F[k - 1]]):
                break
            e = dict(env)
            e["E"], e["n:E"] = F, full
            if S.k is not None:
                t = S.gen[a]
                e[S.k] = k - 1
                for b in X:
                    e[TAG[b]] = X[b]
            else:
                t = S.first[k][a]
            if t is None:
                raise Unsupported("%s %s at step %d" % (m, a, k))
            try:
                got = value(t, e, {})
            except (ArithmeticError, ValueError, IndexError):
                got = math.nan
            done += 1
            size = max([1.0] + [abs(y) for y in state])
            r = abs(got - want) / size
            worst = max(worst, r) if r == r else math.inf
            if not r <= TOL and bad is None:
                bad = (key, ref.times[k], got, want)
    ctx.count("recorded transitions", done)
    txt = ""
    if bad:
        txt = "%s in %d: %r by the update in the source, %r recorded" % (" ".join(bad[0][:2]), bad[1].year, bad[2], bad[3])
    ctx.ob("every recorded value follows from those before it by the update in the source", where, bad is None, txt)


def time_axis(ctx, m, ts, n):
    """the step chosen for the recorded time axis"""
    W = ctx.world()
    x = W.model(m)
    r = Run(ctx, W, m, x, "ScmRun")
    if not per_scenario(ctx, r):
        return
    sets = [e for e in r.sets if e.name == "delta_t" and r.loop["id"] in e.loop]
    if not sets:
        ctx.errors.append("%s: the time step is not set for every scenario (C21)" % m)
        return
    term = step_seconds(r, r.in_end(lambda: r.I.getattr_(r.inst, "delta_t")))
    if term is None or r.phis(term):
        ctx.errors.append("%s: the time step is not understood (C21)" % m)
        return
    year = un.parse("yr")[1].factor.args[0]
    g = Gate(r.flow, Sample(ts), r.ivar)
    refuse = [e for e in r.exits if W.exc_name(e).split(".")[-1] == "NotImplementedError"]
    try:
        refused = any(holds(r, g, e, list(r.base)) for e in refuse)
        got = None if refused else g.ev(term)
    except (Cross, Unknown) as e:
        ctx.errors.append("%s: time step of the recorded axis: not understood: %s" % (m, e))
        return
    ctx.ob("the recorded time axis is run with steps of one year", "%s %s" % (m, n.split("/")[-1]), got == year, "refused" if got is None else "a step of %s s" % got, sets[-1].site)
