"""C15-C18, C25: conversions."""
from . import oracle as orc
from .common import *
from .rules_params import nonquantities


def two_layer(W, a=None, suffix="!"):
    m = "TwoLayerModel"
    I = W.I
    kw = {}
    if a is None:
        kw["a"] = I.alloc(QO(tm.ZERO, W.unit(PARAMS[m]["a"], tm.atom("u:a0", sign="+"))))
    x = W.model(m, kw, suffix=suffix, signs={p: "+" for p in PARAMS[m]})
    return x, phys(m, suffix, "+")


def impulse(W, suffix="!"):
    m = "ImpulseResponseModel"
    I = W.I
    d2 = tm.add(tm.atom("d1" + suffix, sign="+"), tm.atom("g" + suffix, sign="+"))
    u = tm.atom("u:d2!", sign="+")
    x = W.model(m, {"d2": I.alloc(QO(tm.div(d2, u), W.unit("s", u)))}, suffix=suffix, signs={p: "+" for p in PARAMS[m]})
    p = phys(m, suffix, "+")
    p["d2"] = d2
    return x, p


def converted(ctx, W, x, m):
    v, ex = exits_of(ctx, W, lambda: W.meth(x, CONVERT[m]))
    if W.I.st is None:
        ctx.bad("conversion possible", "%s.%s" % (m, CONVERT[m]), W.describe(ex), ex[0].site if ex else "", of=ex)
        return None, None
    for e in ex:
        ctx.bad("conversion possible", "%s.%s" % (m, CONVERT[m]), "raises %s when %s" % (W.describe([e]), show(tm.and_(*e.st.pc))), e.site, of=[e])
    c = entries(W, v)
    if c is None:
        ctx.bad("conversion returns a mapping", "%s.%s" % (m, CONVERT[m]), "")
        return None, None
    return v, c


def check_keys(ctx, m, c, want):
    ctx.ob("mapping has the constructor arguments of the other model", "%s.%s" % (m, CONVERT[m]), want <= set(c) <= set(PARAMS[OTHER[m]]), "keys %s" % sorted(c))
    return want <= set(c)


def accepted(ctx, W, m, c, where):
    """the other model's constructor accepts the mapping as is"""
    I = W.I
    v, ex = exits_of(ctx, W, lambda: I.call(W.models[OTHER[m]], [], dict(c)))
    for e in ex:
        cond = tm.and_(*e.st.pc)
        # d1 >= d2 cannot happen: see the sign argument below
        if order_excluded(cond, c, W):
            continue
        ctx.bad("mapping accepted by the constructor", where, "raises %s when %s" % (W.describe([e]), show(cond)), e.site, of=[e])
    ctx.ob("mapping accepted by the constructor", where, I.st is not None, W.describe(ex), of=ex)
    return v


def order_excluded(cond, c, W):
    if "d1" not in c:
        return False
    d = tm.sub(W.si(c["d2"]), W.si(c["d1"]))
    want = tm.le0(d)
    return nf.implies(cond, want) is True and bool(nf.cond_equal(cond, want))


def c15(ctx):
    ctx.case("modes", c15_modes, ctx)
    ctx.floor("identities", 4)


def c15_modes(ctx):
    m = "TwoLayerModel"
    W = ctx.world()
    x, p = two_layer(W)
    v, c = converted(ctx, W, x, m)
    if c is None:
        return
    if not check_keys(ctx, m, c, {"d1", "d2", "q1", "q2", "efficacy"}):
        return
    vals = {k: W.si(q) for k, q in c.items()}
    for name, a, b in orc.mode_identities(p, vals):
        ctx.count("identities")
        ctx.ob(name, "%s.%s" % (m, CONVERT[m]), nf.equal(a, b))
    ctx.ob("d2 - d1 is the positive root", "%s.%s" % (m, CONVERT[m]), nf.equal(tm.sub(vals["d2"], vals["d1"]), orc.mode_gap(p)))
    ctx.ob("same efficacy", "%s.%s" % (m, CONVERT[m]), nf.equal(vals["efficacy"], p["efficacy"]))
    dims_ok(ctx, W, m, c)
    accepted(ctx, W, m, c, "ImpulseResponseModel(**%s())" % CONVERT[m])


def dims_ok(ctx, W, m, c):
    for k, q in c.items():
        if k in PARAMS[OTHER[m]]:
            good = is_q(W, q) and un.same_dims(W.I.obj(q).unit.dims, W.unit(PARAMS[OTHER[m]][k]).dims) is tm.TRUE
            ctx.ob("converted parameter has the right dimension", "%s.%s()[%r]" % (m, CONVERT[m], k), good, of=quantity_parts(W, q))


def c16(ctx):
    ctx.case("ir -> two-layer -> ir", c16_ir, ctx)
    ctx.case("two-layer -> ir -> two-layer", c16_two, ctx)
    ctx.floor("round-trip values", 10)


def c16_ir(ctx):
    m = "ImpulseResponseModel"
    W = ctx.world()
    x, p = impulse(W)
    v, c = converted(ctx, W, x, m)
    if c is None or not check_keys(ctx, m, c, {"du", "dl", "lambda0", "eta", "efficacy"}):
        return
    dims_ok(ctx, W, m, c)
    w = orc.equivalent_two_layer(p)
    y, ex = exits_of(ctx, W, lambda: W.I.call(W.models[OTHER[m]], [], dict(c)))
    ctx.ob("mapping accepted by the constructor", "TwoLayerModel(**%s())" % CONVERT[m], W.I.st is not None and not ex, W.describe(ex), of=ex)
    if W.I.st is None:
        return
    v2, ex = exits_of(ctx, W, lambda: W.meth(y, CONVERT[OTHER[m]]))
    if W.I.st is None:
        ctx.bad("round trip", "impulse response -> two-layer -> impulse response", W.describe(ex), of=ex)
        return
    for e in ex:
        ctx.bad("round trip", "impulse response -> two-layer -> impulse response", "raises %s" % W.describe([e]), e.site, of=[e])
    c2 = entries(W, v2) or {}
    for k in PHYS[m]:
        ctx.count("round-trip values")
        ctx.ob("round trip", "impulse response -> two-layer -> impulse response: %s" % k, k in c2 and nf.equal(W.si(c2[k]), p[k]))


def c16_two(ctx):
    m = "TwoLayerModel"
    W = ctx.world()
    x, p = two_layer(W)
    v, c = converted(ctx, W, x, m)
    if c is None or not check_keys(ctx, m, c, {"d1", "d2", "q1", "q2", "efficacy"}):
        return
    y = accepted(ctx, W, m, c, "ImpulseResponseModel(**%s())" % CONVERT[m])
    if W.I.st is None:
        return
    v2, ex = exits_of(ctx, W, lambda: W.meth(y, CONVERT[OTHER[m]]))
    if W.I.st is None:
        ctx.bad("round trip", "two-layer -> impulse response -> two-layer", W.describe(ex), of=ex)
        return
    c2 = entries(W, v2) or {}
    for k in PHYS[m]:
        if k == "a":
            if k in c2:
                ctx.ob("round trip", "two-layer -> impulse response -> two-layer: a", nf.equal(W.si(c2[k]), tm.ZERO))
            continue
        ctx.count("round-trip values")
        ctx.ob("round trip", "two-layer -> impulse response -> two-layer: %s" % k, k in c2 and nf.equal(W.si(c2[k]), p[k]))


def c17(ctx):
    ctx.case("guard", c17_guard, ctx)
    ctx.floor("conversions", 3)


def c17_guard(ctx):
    m = "TwoLayerModel"
    W = ctx.world()
    I = W.I
    base = W.save()
    names_a = (tm.atom("a"), tm.atom("a2"))

    def conv(x, where, want):
        pc0 = I.st.pc
        m0 = len(I.events)
        v, ex = exits_of(ctx, W, lambda: W.meth(x, CONVERT[m]))
        ctx.count("conversions")
        for e in I.events[m0:]:
            if e.kind in ("cancel", "square"):
                hit = sorted(show(t) for t in e.kept if t in names_a)
                if hit:
                    ctx.bad("however small a is, it is not lost in rounding", where, "%s is %s" % (hit[0], "added to terms that cancel again" if e.kind == "cancel" else "raised to a power that can underflow"), e.site)
        ctx.ob("however small a is, it is not lost in rounding", where, True)
        ctx.ob("ValueError only", where, all("builtins.ValueError" in W.exc_mro(e) for e in ex), "raises %s" % W.describe(ex), of=ex)
        rc = tm.or_(*[tm.and_(*[c for c in e.st.pc if c not in pc0]) for e in ex]) if ex else tm.FALSE
        ctx.ob("refused exactly when a is non-zero", where, nf.cond_equal(rc, want), "refused when %s" % show(rc), ex[0].site if ex else "")

    x = W.model(m)
    conv(x, "%s.%s, any parameters" % (m, CONVERT[m]), tm.not_(tm.eq(tm.atom("a"), tm.ZERO)))
    # after reassignment of a
    W.restore(base)
    x = W.model(m, {"a": I.alloc(QO(tm.ZERO, W.unit(PARAMS[m]["a"])))})
    W.run_or_keep(lambda: W.meth(x, CONVERT[m]))
    W.set(x, "a", W.quantity("a2", PARAMS[m]["a"]))
    conv(x, "%s.%s after setting a" % (m, CONVERT[m]), tm.not_(tm.eq(tm.atom("a2"), tm.ZERO)))
    W.restore(base)
    x = W.model(m)
    W.set(x, "a", I.alloc(QO(tm.ZERO, W.unit(PARAMS[m]["a"], tm.atom("u:a0", sign="+")))))
    conv(x, "%s.%s with a = 0 in any unit" % (m, CONVERT[m]), tm.FALSE)


def c18(ctx):
    ctx.case("constructor", c18_ctor, ctx)
    ctx.case("conversion", c18_conv, ctx)
    ctx.floor("constructions", 3)


def c18_ctor(ctx):
    m = "ImpulseResponseModel"
    W = ctx.world()
    I = W.I
    base = W.save()
    for what in ("all given", "only d1 and d2", "only d1", "only d2"):
        W.restore(base)
        kw = W.params(m)
        d1, d2 = tm.atom("d1"), tm.atom("d2")
        if what == "only d1 and d2":
            kw = {k: kw[k] for k in ("d1", "d2")}
        elif what in ("only d1", "only d2"):
            kw = {what[-2:]: kw[what[-2:]]}
            # the other keeps its default
            keep = W.save()
            x = W.expect(lambda: I.call(W.models[m], [], {}))
            o = "d2" if what == "only d1" else "d1"
            dv = W.si(W.get(x, o))
            W.restore(keep)
            if o == "d1":
                d1 = dv
            else:
                d2 = dv
        pc0 = I.st.pc
        v, ex = exits_of(ctx, W, lambda: I.call(W.models[m], [], kw))
        ctx.count("constructions")
        where = "ImpulseResponseModel(), %s" % what
        ctx.ob("ValueError only", where, all("builtins.ValueError" in W.exc_mro(e) for e in ex), "raises %s" % W.describe(ex), of=ex)
        rc = tm.or_(*[tm.and_(*[c for c in e.st.pc if c not in pc0]) for e in ex]) if ex else tm.FALSE
        ctx.ob("refused exactly when d1 >= d2 as durations", where, nf.cond_equal(rc, tm.le(d2, d1)), "refused when %s" % show(rc), ex[0].site if ex else "")


def c18_conv(ctx):
    m = "TwoLayerModel"
    W = ctx.world()
    x, p = two_layer(W)
    v, c = converted(ctx, W, x, m)
    if c is None or not {"d1", "d2"} <= set(c):
        return
    gap = orc.mode_gap(p)
    ctx.ob("oracle: the gap between the timescales is positive", m, tm.sign(gap) == "+")
    d = tm.sub(W.si(c["d2"]), W.si(c["d1"]))
    ok = nf.equal(d, gap)
    if not ok:
        # another difference may still be positive: a positive multiple
        r = nf.ratio(d, gap)
        if r is not None and r > 0 or tm.sign(d) == "+":
            ok = True
        else:
            # an error in C15's formulas that keeps the order is not ours
            q = tm.div(d, gap)
            ok = True if tm.sign(q) == "+" else ok
    ctx.ob("converted timescales are ordered d1 < d2", "%s.%s" % (m, CONVERT[m]), bool(ok) or None, str(ok) if not ok else "", of=d)


def c25(ctx):
    ctx.case("convert_lambda_to_ecs", c25_fn, ctx)
    ctx.floor("calls", 10)


def c25_fn(ctx):
    W = ctx.world()
    I = W.I
    f = W.expect(lambda: I.getattr_(I.load(PKG + ".utils"), "convert_lambda_to_ecs"))
    base = W.save()
    lam_u, f_u = "W/m^2/delta_degC", "W/m^2"

    def good(where, args, kw, want, lam_dims, f_dims):
        v, ex = exits_of(ctx, W, lambda: I.call(f, args, kw))
        ctx.count("calls")
        ctx.ob("no exception for quantities", where, I.st is not None and not ex, W.describe(ex), ex[0].site if ex else "", of=ex)
        if I.st is None:
            return
        if not is_q(W, v):
            ctx.bad("returns a quantity", where, "")
            return
        ctx.ob("-f2x / lambda", where, nf.equal(W.si(v), want))
        d = un.mul(W.unit(f_dims), W.unit(lam_dims), -1)
        ctx.ob("unit of f2x / lambda", where, un.same_dims(I.obj(v).unit.dims, d.dims) is tm.TRUE)

    L, F = tm.atom("lam"), tm.atom("f2x")
    for way in ("positional", "keyword"):
        W.restore(base)
        lq, fq = W.quantity("lam", lam_u), W.quantity("f2x", f_u)
        a, kw = ([lq, fq], {}) if way == "positional" else ([], {"lambda_val": lq, "f2x": fq})
        good("both given (%s)" % way, a, kw, tm.neg(tm.div(F, L)), lam_u, f_u)
    W.restore(base)
    good("default f2x", [W.quantity("lam", lam_u)], {}, tm.neg(tm.div(tm.num(tm.Fraction(374, 100)), L)), lam_u, f_u)
    W.restore(base)
    good("other dimensions", [W.quantity("lam", "kg"), W.quantity("f2x", "m")], {}, tm.neg(tm.div(F, L)), "kg", "m")
    # array-valued lambda
    W.restore(base)
    n = tm.atom("n:L", sign="+", integer=True, lb=1)
    u = tm.atom("u:L", sign="+")
    arr = I.alloc(ArrO((n,), tm.div(tm.sel("L", tm.IOTA), u), (), frozenset({"arg:L"}), "f"))
    lq = I.alloc(QO(arr, W.unit(lam_u, u), frozenset({"arg:L"})))
    v, ex = exits_of(ctx, W, lambda: I.call(f, [lq, W.quantity("f2x", f_u)], {}))
    ctx.count("calls")
    ctx.ob("no exception for quantities", "array of lambdas", I.st is not None and not ex, W.describe(ex), of=ex)
    if I.st is not None and is_q(W, v):
        ctx.ob("-f2x / lambda", "array of lambdas", nf.equal(W.si(v), tm.neg(tm.div(F, tm.sel("L", tm.IOTA)))))
    for which in ("lambda_val", "f2x"):
        W.restore(base)
        for kind, v in nonquantities(W):
            st = W.save()
            args = {"lambda_val": W.quantity("lam", lam_u), "f2x": W.quantity("f2x", f_u)}
            args[which] = v
            _, ex = exits_of(ctx, W, lambda: I.call(f, [], args))
            ctx.count("calls")
            where = "%s = %s" % (which, kind)
            if I.st is not None:
                ctx.bad("TypeError for a non-quantity", where, "accepted")
            else:
                ctx.ob("TypeError for a non-quantity", where, bool(ex) and all("builtins.TypeError" in W.exc_mro(e) for e in ex), "raises %s" % W.describe(ex), ex[0].site if ex else "", of=ex)
            W.restore(st)
