"""C01-C05, C29, C30: parameters, drivers and the model interface."""
from .common import *

DIMS = ["m", "s", "W/m^2", "W/m^2/delta_degC", "W/m^2/delta_degC^2", "delta_degC/(W/m^2)", "dimensionless", "kg", "delta_degC", "J/delta_degC/m^2", "1/s"]


def nonquantities(W):
    I = W.I
    out = [
        ("number", tm.atom("x")),
        ("zero", tm.ZERO),
        ("None", NONE),
        ("str", Const("50 m")),
        ("numpy array", I.alloc(ArrO((tm.atom("n:X", sign="+", integer=True, lb=1),), tm.sel("X", tm.IOTA), (), frozenset(), "f"))),
        ("list", I.mklist([tm.atom("x"), tm.atom("y")])),
        ("any other object", I.alloc(XO("nonq", tm.opq("OBJ"), frozenset({"arg:OBJ"})))),
    ]
    return out + [("unit", UnitV(W.unit("m")))]


def wrong_quantities(W, unit):
    want = W.unit(unit).dims
    for d in DIMS:
        if un.same_dims(W.unit(d).dims, want) is tm.TRUE:
            continue
        yield d, W.quantity("x", d)
    if want:
        yield "dimensionless zero", W.I.alloc(QO(tm.ZERO, W.unit("dimensionless")))


def wrong_array(W, unit):
    n = tm.atom("n:X", sign="+", integer=True, lb=1)
    other = "kg"
    a = W.I.alloc(ArrO((n,), tm.sel("X", tm.IOTA), (), frozenset(), "m"))
    return W.I.alloc(QO(a, W.unit(other)))


def targets(model):
    return dict(PARAMS[model], erf=ERF_UNIT)


def assign_ways(W, model, p):
    """(name, action) for every way of assigning p"""
    cls = W.models[model]

    def attribute(v):
        x = W.expect(lambda: W.I.call(cls, [], {}))
        return x, lambda: W.I.setattr_(x, p, v)

    def ctor(v):
        return None, lambda: W.I.call(cls, [], {p: v})

    def drivers(v):
        x = W.expect(lambda: W.I.call(cls, [], {}))
        return x, lambda: W.meth(x, "set_drivers", v)

    ways = [("attribute", attribute)]
    if p == "erf":
        ways.append(("set_drivers", drivers))
    else:
        ways.append(("constructor", ctor))
    return ways


def c01(ctx):
    for model in MODELS:
        ctx.case(model, c01_model, ctx, model)
    ctx.floor("assignments", 200)


def c01_model(ctx, model):
    W = ctx.world()
    base = W.save()
    # the constructor accepts valid quantities
    v, ex = W.run(lambda: W.I.call(W.models[model], [], W.params(model)))
    ctx.exits += len(ex)
    ctx.count("assignments")
    bad = [e for e in ex if UNITERR in W.exc_mro(e) or "builtins.TypeError" in W.exc_mro(e)]
    ok = not bad and W.I.st is not None
    ctx.ob("valid quantity accepted", "%s(all parameters)" % model, ok, "raises " + W.describe(bad or ex) if ex else "", (bad or ex)[0].site if ex else "")
    W.restore(base)
    if not ok:
        return
    for p, unit in targets(model).items():
        for way, mk in assign_ways(W, model, p):
            where = "%s.%s (%s)" % (model, p, way)

            def one(v, kind, want, rule):
                x, act = mk(v)
                val, ex = exits_of(ctx, W, act)
                ctx.count("assignments")
                got = sorted({W.exc_name(e) for e in ex})
                if W.I.st is not None:
                    ctx.bad(rule, "%s <- %s" % (where, kind), "accepted although it must be refused with %s" % want.split(".")[-1])
                    return
                okk = all(want in W.exc_mro(e) and (want == UNITERR or UNITERR not in W.exc_mro(e)) for e in ex)
                ctx.ob(rule, "%s <- %s" % (where, kind), okk and bool(ex), "" if okk else "raises %s at %s" % (got, ex[0].site), ex[0].site if ex else "")

            for kind, v in nonquantities(W):
                st = W.save()
                if not (way == "set_drivers"):
                    one(v, kind, "builtins.TypeError", "non-quantity refused with TypeError")
                else:
                    # the dimensionality check of the forcing may come first
                    if kind in ("numpy array", "list"):
                        one(v, kind, "builtins.TypeError", "non-quantity refused with TypeError")
                W.restore(st)
            wq = list(wrong_quantities(W, unit))
            if p == "erf":
                wq.append(("array in kg", wrong_array(W, unit)))
            for kind, v in wq:
                if way == "set_drivers" and kind != "array in kg":
                    continue
                st = W.save()
                one(v, "quantity in " + kind, UNITERR, "wrong dimension refused with UnitError")
                W.restore(st)
            # a valid quantity in any convertible unit is accepted
            W.restore(base)
            v = W.erf_q("E") if p == "erf" else W.quantity(p, unit)
            if way == "constructor" and p in ("d1", "d2"):
                # d1 < d2 is C18's concern: keep the pair in order
                g = W.I.alloc(QO(tm.atom("g", sign="+"), W.unit(unit)))
                big = W.I.alloc(QO(tm.add(tm.atom("x", sign="+"), tm.atom("g", sign="+")), W.unit(unit)))
                kw = {"d1": g, "d2": big}
                act = lambda: W.I.call(W.models[model], [], kw)
            else:
                x, act = mk(v)
            val, ex = exits_of(ctx, W, act)
            ctx.count("assignments")
            ctx.ob("valid quantity accepted", where, not ex and W.I.st is not None, "raises " + W.describe(ex) if ex else "", ex[0].site if ex else "", of=ex)
            W.restore(base)


# ---------------------------------------------------------------------------
def c02(ctx):
    for model in MODELS:
        ctx.case(model, c02_model, ctx, model)
    ctx.floor("refused operations", 60)


def c02_model(ctx, model):
    W = ctx.world()
    I = W.I
    base0 = W.save()

    def fresh():
        return W.model(model)

    def ran():
        x, _ = prepared(W, model)
        W.do(x, "step")
        W.do(x, "step")
        return x

    for hist, mk in (("new model", fresh), ("model in mid-run", ran)):
        W.restore(base0)
        x = mk()
        pre = W.save()

        def attempt(what, act):
            W.restore(pre)
            v, ex = exits_of(ctx, W, act)
            for e in ex:
                ctx.count("refused operations")
                ch = changed_attrs(x, pre, e.st)
                ctx.ob("unchanged when refused", "%s, %s: %s -> %s" % (model, hist, what, W.exc_name(e).split(".")[-1]), not ch, "changed: %s" % ", ".join(ch) if ch else "", e.site)

        for p, unit in targets(model).items():
            W.restore(pre)
            kinds = nonquantities(W)[:1] + nonquantities(W)[6:7] + [(k, v) for k, v in wrong_quantities(W, unit)][:2]
            if p == "erf":
                kinds.append(("array in kg", wrong_array(W, unit)))
            keep = W.save()
            for kind, v in kinds:
                pre = keep
                attempt("%s = %s" % (p, kind), lambda: I.setattr_(x, p, v))
        # drivers
        W.restore(keep)
        n, m = (tm.atom("n:" + k, sign="+", integer=True, lb=1) for k in "XY")
        bad = [
            ("scalar forcing", I.alloc(QO(tm.atom("f"), W.unit(ERF_UNIT)))),
            ("0-d forcing", I.alloc(QO(I.alloc(ArrO((), tm.atom("f"), (), frozenset(), "m")), W.unit(ERF_UNIT)))),
            ("2-d forcing", I.alloc(QO(I.alloc(ArrO((n, m), tm.opq("body2", tm.IOTA), (), frozenset(), "m")), W.unit(ERF_UNIT)))),
            ("1-d forcing in kg", wrong_array(W, ERF_UNIT)),
            ("1-d array", nonquantities(W)[4][1]),
        ]
        pre = keep = W.save()
        for kind, v in bad:
            attempt("set_drivers(%s)" % kind, lambda: W.meth(x, "set_drivers", v))
        # reset with a forcing that may hold NaN
        W.restore(keep)
        e = W.erf_q("EN", nan=True)
        W.run(lambda: I.setattr_(x, "erf", e))
        if I.st is not None:
            pre = W.save()
            attempt("reset with NaN forcing", lambda: W.meth(x, "reset"))
        if hist == "new model":
            pre = keep
            attempt("reset without forcing", lambda: W.meth(x, "reset"))
        if model == "TwoLayerModel":
            pre = keep
            attempt("convert with a != 0", lambda: W.meth(x, CONVERT[model]))


# ---------------------------------------------------------------------------
def c03(ctx):
    for model in MODELS:
        ctx.case(model, c03_model, ctx, model)
        ctx.case(model + " scenarios", c03_scen, ctx, model)
    ctx.floor("read-backs", 20)


def c03_model(ctx, model):
    W = ctx.world()
    I = W.I
    base = W.save()
    for p, unit in targets(model).items():
        for way, mk in assign_ways(W, model, p):
            W.restore(base)
            v = W.erf_q("E", roots={"arg:E"}) if p == "erf" else W.quantity(p, unit, roots={"arg:" + p})
            pre = W.save()
            if way == "constructor":
                x = W.expect(lambda: I.call(W.models[model], [], {p: v}))
            else:
                x, act = mk(v)
                W.expect(act)
            got = W.get(x, p)
            ctx.count("read-backs")
            ok, _ = read_back(W, got, v, pre)
            ctx.ob("reads back as set", "%s.%s (%s)" % (model, p, way), ok, "reads back as %r" % (I.obj(got) if isinstance(got, Ref) and False else show(W.si(got)),))
    # assigned again: a value of its own, or the same physical value in another unit
    for p, unit in targets(model).items():
        for how in ("another value", "the same value in another unit"):
            W.restore(base)
            x = W.model(model)
            W.do(x, "set_drivers", W.erf_q("E"))
            if p == "erf":
                v = W.erf_q("E~2") if how == "another value" else W.erf_q("E", factor="E~2")
            else:
                v = W.quantity(p + "~2", unit) if how == "another value" else W.quantity(p, unit, factor=p + "~2")
            pre = W.save()
            W.expect(lambda: I.setattr_(x, p, v))
            got = W.get(x, p)
            ctx.count("read-backs")
            ok, cond = read_back(W, got, v, pre)
            ctx.ob("reads back as set", "%s.%s assigned again: %s" % (model, p, how), ok, "reads back as the value set before in some case", of=cond)
    # nothing the model does afterwards alters a parameter or driver
    W.restore(base)
    x = W.model(model, roots=True)
    e = W.erf_q("E", roots={"arg:E"})
    W.do(x, "set_drivers", e)
    pre = W.save()
    orig = {p: W.get(x, p) for p in targets(model)}
    pre = W.save()
    ops = [("reset", []), ("step", []), ("step", []), ("run", []), (CONVERT[model], []), ("reset", []), ("run", [])]
    if model == "TwoLayerModel":
        for h in ("heat_capacity_upper", "heat_capacity_lower"):
            ops.append((h, None))
    for k, (op, args) in enumerate(ops):
        m0 = len(I.events)
        if args is None:
            W.get(x, op)
        else:
            W.run(lambda: W.meth(x, op))
        if I.st is None:
            ctx.errors.append("%s.%s has no normal exit" % (model, op))
            return
        for p in targets(model):
            got = W.get(x, p)
            ctx.count("read-backs")
            ctx.ob("parameters unaltered", "%s.%s after %s (#%d)" % (model, p, op, k), same_quantity(W, got, I.st, orig[p], pre))
        for ev in I.events[m0:]:
            if ev.kind == "mutate" and any(r.startswith("arg:") for r in ev.roots):
                ctx.bad("parameters unaltered", "%s.%s" % (model, op), "in-place modification (%s) of %s" % (ev.how, ", ".join(sorted(ev.roots))), ev.site)


def read_back(W, got, v, pre, facts=()):
    """is what was read the quantity v in every case? and the condition of the
    case in which it is not"""
    if isinstance(got, Gated):
        for br, c in ((got.a, got.cond), (got.b, tm.not_(got.cond))):
            ok, cond = read_back(W, br, v, pre, facts + (c,))
            if not ok:
                return False, got.cond
        return True, None
    return same_quantity(W, got, W.I.st, v, pre, facts), None


def c03_scen(ctx, model):
    W = ctx.world()
    I = W.I
    x = W.model(model, roots=True)
    orig = {p: W.get(x, p) for p in PHYS[model]}
    pre = W.save()
    sc = I.alloc(XO("ScmRun", tm.opq("SCEN"), frozenset({"arg:scenarios"})))
    W.do(x, "run_scenarios", sc)
    for p in PHYS[model]:
        ctx.count("read-backs")
        ctx.ob("parameters unaltered", "%s.%s after run_scenarios" % (model, p), same_quantity(W, W.get(x, p), I.st, orig[p], pre))
    for ev in I.events:
        if ev.kind == "propset" and ev.inst == x.oid and ev.name in PHYS[model] and "run_scenarios" in " ".join(ev.stack):
            if not same_quantity(W, ev.val, I.st, orig[ev.name], pre):
                ctx.bad("parameters unaltered", "%s.run_scenarios" % model, "sets %s" % ev.name, ev.site)


# ---------------------------------------------------------------------------
def observations(ctx, W, model, x, scale=None, steps=3, run=True):
    """{name: SI node} of what a user can compute from a model whose drivers
    are set; leaves W in the state after the last observation"""
    I = W.I
    out = {}
    if model == "TwoLayerModel":
        for h in ("heat_capacity_upper", "heat_capacity_lower"):
            out[h] = W.si(W.get(x, h))
    keep = W.save()
    v, ex = W.run(lambda: W.meth(x, CONVERT[model]))
    if I.st is not None:
        for k, q in (entries(W, v) or {}).items():
            out["%s()[%r]" % (CONVERT[model], k)] = W.si(q)
    else:
        W.restore(keep)
    W.do(x, "reset")
    for i in range(steps):
        W.do(x, "step")
        for a in STATE[model]:
            o = state_arr(W, x, a)
            if o is None:
                out["%s[%d]" % (a, i)] = tm.opq("no array")
            else:
                out["%s[%d]" % (a, i)] = o.at(num(i))
    return out


def midrun(W, model, x, tag="@mid"):
    """replace the state of a model in mid-run by an arbitrary one at index k"""
    I = W.I
    k = tm.atom("k", sign=">=", integer=True, lb=0)
    for a in STATE[model]:
        o = state_arr(W, x, a)
        I.mut(x).attrs[a] = I.alloc(ArrO(o.shape, tm.sel(TAG[a], tm.IOTA), (), frozenset(), o.dt))
    I.mut(x).attrs["_timestep_idx"] = k
    return k


def aux_attrs(W, model, x):
    """attributes other than the output arrays and the index that stepping
    changes (auxiliary state kept by the implementation)"""
    keep = W.save()
    W.do(x, "reset")
    W.do(x, "step")
    W.do(x, "step")
    s2 = W.save()
    W.do(x, "step")
    out = changed_attrs(x, s2, W.I.st, STATE[model] + ("_timestep_idx",))
    W.restore(keep)
    return out


def c04(ctx):
    for model in MODELS:
        for p in targets(model):
            ctx.case("%s.%s" % (model, p), c04_param, ctx, model, p)
    ctx.floor("comparisons", 150)


def warmup(W, model, x, full=True):
    """a history that touches everything that could be remembered"""
    I = W.I
    W.do(x, "reset")
    W.do(x, "step")
    W.do(x, "step")
    if model == "TwoLayerModel":
        W.get(x, "heat_capacity_upper")
        W.get(x, "heat_capacity_lower")
    W.run_or_keep(lambda: W.meth(x, CONVERT[model]))


def c04_param(ctx, model, p):
    W = ctx.world()
    I = W.I
    base = W.save()

    def value(tag):
        if p == "erf":
            return W.erf_q("E" + tag, n=W.length("E"))
        return W.quantity(p + tag, targets(model)[p])

    def build(first):
        kw = {} if p == "erf" else {p: first}
        x = W.model(model, kw)
        W.do(x, "set_drivers", first if p == "erf" else W.erf_q("E"))
        return x

    # reference: a model that never had another value
    ways = ["attribute"] + (["set_drivers"] if p == "erf" else [])
    for way in ways:
        W.restore(base)
        new = value("@1")
        x = build(new)
        ref = observations(ctx, W, model, x)
        aux = aux_attrs(W, model, x)
        if aux:
            ctx.note("%s keeps auxiliary state (%s): a change in mid-run is only compared after the next reset" % (model, ", ".join(aux)))
        W.do(x, "reset")
        W.do(x, "step")
        midrun(W, model, x)
        W.do(x, "step")
        k1 = tm.add(tm.atom("k"), tm.ONE)
        if not aux:
            for a in STATE[model]:
                ref["next " + a] = state_arr(W, x, a).at(k1)

        W.restore(base)
        old, new = value("@0"), value("@1")
        x = build(old)
        warmup(W, model, x)
        assign = (lambda: I.setattr_(x, p, new)) if way == "attribute" else (lambda: W.meth(x, "set_drivers", new))
        # changed in the middle of a run
        W.expect(assign)
        keep = W.save()
        midrun(W, model, x)
        W.do(x, "step")
        got = {}
        for a in STATE[model]:
            o = state_arr(W, x, a)
            got["next " + a] = o.at(k1) if o is not None else tm.opq("no array")
        W.restore(keep)
        # changed before conversions and a new run
        got.update(observations(ctx, W, model, x))
        for name, r in ref.items():
            g = got.get(name)
            if g is None:
                ctx.bad("uses the current value", "%s.%s -> %s" % (model, p, name), "not available after the change")
                continue
            ctx.count("comparisons")
            ok = nf.equal(g, r)
            detail = ""
            if not ok:
                stale = sorted(n for n in names(tm.deps(g)) if "@0" in n)
                detail = "depends on the earlier value (%s)" % ", ".join(stale) if stale else "differs from a model that always had the value: " + str(ok)
            ctx.ob("uses the current value", "%s.%s (%s) -> %s" % (model, p, way, name), bool(ok), detail)


# ---------------------------------------------------------------------------
def unit_leaves(t):
    return sorted(n for n in names(nf.true_deps(t)) if n.startswith("u:") or n.startswith("userunit"))


def c05(ctx):
    for model in MODELS:
        ctx.case(model, c05_model, ctx, model)
    ctx.floor("observations", 20)


def c05_model(ctx, model):
    W = ctx.world()
    I = W.I
    base = W.save()
    # constructor
    kw = W.params(model)
    x, ex = exits_of(ctx, W, lambda: I.call(W.models[model], [], kw))
    check_unit_exits(ctx, W, "%s()" % model, ex)
    if I.st is None:
        return
    e = W.erf_q("E", nan=True)
    _, ex = exits_of(ctx, W, lambda: W.meth(x, "set_drivers", e))
    check_unit_exits(ctx, W, "%s.set_drivers" % model, ex)
    for op in ("reset", "step", "step"):
        _, ex = exits_of(ctx, W, lambda: W.meth(x, op))
        check_unit_exits(ctx, W, "%s.%s" % (model, op), ex)
        if I.st is None:
            return
    # a step at an arbitrary index from an arbitrary state
    k = midrun(W, model, x)
    _, ex = exits_of(ctx, W, lambda: W.meth(x, "step"))
    check_unit_exits(ctx, W, "%s.step" % model, ex)
    if I.st is None:
        return
    for a in STATE[model]:
        o = state_arr(W, x, a)
        t = o.at(tm.add(k, tm.ONE))
        ctx.count("observations")
        u = unit_leaves(t)
        ctx.ob("no unit dependence", "%s.step -> %s" % (model, a), not u, "depends on %s" % ", ".join(u) if u else "", of=t)
    _, ex = exits_of(ctx, W, lambda: W.meth(x, "reset"))
    check_unit_exits(ctx, W, "%s.reset" % model, ex)
    W.run(lambda: W.meth(x, CONVERT[model]))
    # heat capacities and conversions
    W.restore(base)
    x = W.model(model)
    if model == "TwoLayerModel":
        for h in ("heat_capacity_upper", "heat_capacity_lower"):
            t = W.si(W.get(x, h))
            ctx.count("observations")
            u = unit_leaves(t)
            ctx.ob("no unit dependence", "%s.%s" % (model, h), not u, "depends on %s" % ", ".join(u) if u else "", of=t)
    v, ex = exits_of(ctx, W, lambda: W.meth(x, CONVERT[model]))
    check_unit_exits(ctx, W, "%s.%s" % (model, CONVERT[model]), ex)
    if I.st is not None:
        for key, q in (entries(W, v) or {}).items():
            ctx.count("observations")
            t = W.si(q)
            u = unit_leaves(t)
            ctx.ob("no unit dependence", "%s.%s()[%r]" % (model, CONVERT[model], key), not u, "depends on %s" % ", ".join(u) if u else "", of=t)
    # the forcing assigned as an attribute
    W.restore(base)
    x = W.model(model)
    for p in targets(model):
        q = W.erf_q("E2") if p == "erf" else W.quantity(p + "2", targets(model)[p])
        _, ex = exits_of(ctx, W, lambda: I.setattr_(x, p, q))
        check_unit_exits(ctx, W, "%s.%s = quantity" % (model, p), ex)
        if I.st is None:
            ctx.bad("no unit-dependent exception", "%s.%s = quantity" % (model, p), "a quantity in a convertible unit is always refused")
            return
    # ... is what the steps use, whatever its unit
    for op in ("reset", "step", "step", "step"):
        W.run(lambda: W.meth(x, op))
        if I.st is None:
            return
    for a in STATE[model]:
        o = state_arr(W, x, a)
        if o is None:
            continue
        for i in (1, 2):
            t = o.at(tm.num(i))
            ctx.count("observations")
            u = unit_leaves(t)
            ctx.ob("no unit dependence", "%s, everything assigned as attributes -> %s[%d]" % (model, a, i), not u, "depends on %s" % ", ".join(u) if u else "", of=t)


def check_unit_exits(ctx, W, where, ex):
    ctx.count("observations")
    for e in ex:
        c = tm.and_(*e.st.pc)
        u = unit_leaves(c)
        ctx.ob("no unit-dependent exception", where, not u, "%s at %s depends on %s" % (W.exc_name(e), e.site, ", ".join(u)) if u else "", e.site)
    if not ex:
        ctx.ob("no unit-dependent exception", where, True)


# ---------------------------------------------------------------------------
def c29(ctx):
    ctx.case("heat capacities", c29_caps, ctx)
    ctx.case("dynamics", c29_dyn, ctx)
    ctx.case("conversions", c29_conv, ctx)
    ctx.floor("capacities", 8)


def c29_caps(ctx):
    from . import oracle as orc
    W = ctx.world()
    I = W.I
    m = "TwoLayerModel"
    x = W.model(m)
    P = {"heat_capacity_upper": "du", "heat_capacity_lower": "dl"}
    for stage in ("as built", "after setting the depths", "after a run"):
        if stage == "after setting the depths":
            for d in ("du", "dl"):
                W.set(x, d, W.quantity(d + "'", "m"))
        if stage == "after a run":
            W.do(x, "set_drivers", W.erf_q("E"))
            W.do(x, "reset")
            W.do(x, "step")
            W.do(x, "step")
        for h, d in P.items():
            dep = tm.atom(d if stage == "as built" else d + "'")
            q = W.get(x, h)
            ctx.count("capacities")
            if not is_q(W, q):
                ctx.bad("depth * 1000 kg/m^3 * 4181 J/K/kg", "%s (%s)" % (h, stage), "not a quantity")
                continue
            ctx.ob("depth * 1000 kg/m^3 * 4181 J/K/kg", "%s (%s)" % (h, stage), nf.equal(W.si(q), orc.heat_capacity(dep)))
            same_d = un.same_dims(I.obj(q).unit.dims, W.unit("J/delta_degC/m^2").dims)
            ctx.ob("unit of a heat capacity per area", "%s (%s)" % (h, stage), same_d is tm.TRUE)
    for h in P:
        keep = W.save()
        before = W.save()
        _, ex = exits_of(ctx, W, lambda: I.setattr_(x, h, W.quantity("hc", "J/delta_degC/m^2")))
        ctx.count("capacities")
        if I.st is not None:
            ctx.bad("not assignable", h, "the heat capacity can be assigned")
        else:
            ctx.ob("not assignable", h, all("builtins.AttributeError" in W.exc_mro(e) for e in ex))
        W.restore(keep)


def c29_dyn(ctx):
    """the capacity that the dynamics divide by: solved from one step"""
    from . import oracle as orc
    W = ctx.world()
    m = "TwoLayerModel"
    for stage in ("as built", "after setting the depths"):
        x, _ = prepared(W, m)
        sfx = ""
        if stage != "as built":
            sfx = "'"
            for d in ("du", "dl"):
                W.set(x, d, W.quantity(d + sfx, "m"))
        k = midrun(W, m, x)
        W.do(x, "step")
        k1 = tm.add(k, tm.ONE)
        p = phys(m)
        for d in ("du", "dl"):
            p[d] = tm.atom(d + sfx)
        TU, TL, F = (tm.sel(n, k) for n in ("TU", "TL", "E"))
        ctx.count("capacities", 2)
        up = tm.sub(state_arr(W, x, "_temp_upper_mag").at(k1), TU)
        lo = tm.sub(state_arr(W, x, "_temp_lower_mag").at(k1), TL)
        rise = tm.mul(p["delta_t"], orc.imbalance(p, TU, TL, F))
        flow = tm.mul(p["delta_t"], p["eta"], tm.sub(TU, TL))
        for name, dT, heat, d in (("upper", up, rise, "du"), ("lower", lo, flow, "dl")):
            C = tm.div(heat, dT)
            deps = names(nf.true_deps(C))
            blame = deps <= {u + d + t for u in ("", "u:") for d in ("du", "dl") for t in ("", "'")}
            ok = nf.equal(C, orc.heat_capacity(p[d]))
            if not ok and not blame:
                # another part of the equation is off: see C06
                ctx.note("the %s temperature equation does not isolate the heat capacity" % name)
                continue
            ctx.ob("capacity used by the dynamics", "%s layer (%s)" % (name, stage), ok)


def c29_conv(ctx):
    from . import oracle as orc
    W = ctx.world()
    I = W.I
    base = W.save()
    m = "TwoLayerModel"
    S = {p: "+" for p in PARAMS[m]}
    x = W.model(m, {"a": I.alloc(QO(tm.ZERO, W.unit(PARAMS[m]["a"])))}, suffix="!", signs=S)
    p = phys(m, "!", "+")
    v = W.do(x, CONVERT[m])
    c = {k: W.si(q) for k, q in (entries(W, v) or {}).items()}
    if all(k in c for k in ("d1", "d2", "q1", "q2")):
        for name, Ceff, d in (
            ("upper", tm.div(tm.ONE, tm.add(tm.div(c["q1"], c["d1"]), tm.div(c["q2"], c["d2"]))), "du"),
            ("lower", tm.div(tm.mul(p["lambda0"], p["eta"], c["d1"], c["d2"]), orc.heat_capacity(p["du"])), "dl"),
        ):
            ctx.count("capacities")
            ok = nf.equal(Ceff, orc.heat_capacity(p[d]))
            r = nf.ratio(Ceff, orc.heat_capacity(p[d])) if not ok else None
            if not ok and r is None and not names(nf.true_deps(Ceff)) <= {"du!", "dl!"}:
                ctx.note("conversion to the impulse response does not isolate the %s capacity" % name)
                continue
            ctx.ob("capacity used by the conversion", "two-layer -> impulse response, %s layer" % name, ok)
    W.restore(base)
    m = "ImpulseResponseModel"
    x = W.model(m, suffix="!", signs={p: "+" for p in PARAMS[m]})
    p = phys(m, "!", "+")
    w = orc.equivalent_two_layer(p)
    v = W.do(x, CONVERT[m])
    c = {k: W.si(q) for k, q in (entries(W, v) or {}).items()}
    for d, cap in (("du", "C"), ("dl", "C_D")):
        if d in c:
            ctx.count("capacities")
            r = nf.ratio(c[d], w[d])
            if r is None:
                ctx.note("%s of the conversion is not proportional to the capacity" % d)
                continue
            ctx.ob("capacity used by the conversion", "impulse response -> two-layer, %s" % d, r == 1, "off by a constant factor %s" % r if r != 1 else "")


# ---------------------------------------------------------------------------
def c30(ctx):
    for model in MODELS:
        ctx.case(model, c30_model, ctx, model)
    ctx.floor("parameters", 11)


def c30_model(ctx, model):
    W = ctx.world()
    I = W.I
    base = W.save()
    cls = W.models[model]
    for p, unit in PARAMS[model].items():
        # by keyword, with all others left at arbitrary values
        W.restore(base)
        kw = W.params(model)
        x, ex = exits_of(ctx, W, lambda: I.call(cls, [], kw))
        ctx.count("parameters")
        if I.st is None:
            ctx.bad("constructor accepts every parameter", "%s(%s=...)" % (model, p), W.describe(ex), of=ex)
            return
        pre = W.save()
        got, ex = exits_of(ctx, W, lambda: I.getattr_(x, p))
        ctx.ob("sets the parameter of its name", "%s(%s=...)" % (model, p), I.st is not None and same_quantity(W, got, I.st, kw[p], pre))
        # assignment sets that parameter only
        W.restore(pre)
        new = W.quantity(p + "@new", unit)
        s0 = W.save()
        _, ex = exits_of(ctx, W, lambda: I.setattr_(x, p, new))
        if I.st is None:
            ctx.bad("assignable", "%s.%s" % (model, p), W.describe(ex), of=ex)
            continue
        ctx.ob("assignable", "%s.%s" % (model, p), not ex or True)
        for o in PARAMS[model]:
            v = W.get(x, o)
            want = new if o == p else kw[o]
            ctx.ob("sets the parameter of its name only", "%s.%s = ... -> %s" % (model, p, o), same_quantity(W, v, I.st, want, s0))
        # and what is computed next is as with the other parameters unchanged
        def computed(y):
            W.do(y, "set_drivers", W.erf_q("E"))
            W.do(y, "reset")
            out = {}
            for i in range(3):
                W.do(y, "step")
                for a in STATE[model]:
                    arr = state_arr(W, y, a)
                    out[a, i] = arr.at(num(i)) if arr is not None else None
            return out

        got = computed(x)
        W.restore(pre)
        new = W.quantity(p + "@new", unit)
        want = computed(W.expect(lambda: I.call(cls, [], {**kw, p: new})))
        own = {p, "u:" + p}
        for (a, i), g in got.items():
            w = want[a, i]
            if g is None or w is None:
                ctx.errors.append("%s: the results of a step are not understood" % model)
                continue
            if {n for d in nf.true_deps(g) for n in names({d})} & own:
                continue  # the former value of the parameter itself: C04
            ctx.ob("no other parameter takes another value", "%s.%s = ... -> %s[%d]" % (model, p, a, i), g is w or nf.equal(g, w))
    # defaults
    W.restore(base)
    x, ex = exits_of(ctx, W, lambda: I.call(cls, [], {}))
    ok = I.st is not None and not ex
    ctx.ob("can be built with no arguments", model, ok, W.describe(ex), of=ex)
    if I.st is not None:
        vals = {}
        for p, unit in PARAMS[model].items():
            q = W.get(x, p)
            if not is_q(W, q):
                ctx.bad("default is a quantity", "%s.%s" % (model, p), "")
                continue
            o = I.obj(q)
            ctx.ob("default has the right dimension", "%s.%s" % (model, p), un.same_dims(o.unit.dims, W.unit(unit).dims) is tm.TRUE)
            v = W.si(q)
            vals[p] = v
            if v.op != "num":
                ctx.bad("default is a known number", "%s.%s" % (model, p), show(v))
                continue
            s = v.args[0]
            ctx.ob("default is positive" if p != "a" else "default is zero or has the sign of a feedback", "%s.%s" % (model, p), s > 0 if p != "a" else s >= 0, "default %s" % s)
        if model == "ImpulseResponseModel" and all(vals.get(k) is not None and vals[k].op == "num" for k in ("d1", "d2")):
            ctx.ob("default d1 < d2", model, vals["d1"].args[0] < vals["d2"].args[0])
        # runs as built
        W.do(x, "set_drivers", W.erf_q("E"))
        for op in ("reset", "step", "step", "run"):
            _, ex = exits_of(ctx, W, lambda: W.meth(x, op))
            ctx.ob("runs as built", "%s.%s" % (model, op), I.st is not None and not ex, W.describe(ex), of=ex)
            if I.st is None:
                return
    # every physical parameter is recorded by run_scenarios
    W.restore(base)
    x = W.model(model)
    from .rules_run import scenario_run
    run = scenario_run(ctx, W, model, x)
    for why in run.unclear:
        ctx.errors.append("results: not understood: %s" % why)
    for p in PHYS[model]:
        if run.unclear and p not in run.recorded:
            continue
        ctx.ob("recorded in the output", "%s.%s" % (model, p), p in run.recorded, "no metadata column for %s" % p if p not in run.recorded else "")
