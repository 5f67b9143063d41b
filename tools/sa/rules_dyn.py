"""C32, C33, C35: what follows for whole trajectories from the extracted step
(consistency of the two models, invariance of bounds, contraction)."""
from . import oracle as orc
from .common import *
from .rules_conv import converted, impulse, two_layer
from .rules_step import Step, c11_any

TEMPS = {m: STATE[m][:2] for m in MODELS}


# ------------------------------------------------------------- calculus
def diff(t, x, memo=None):
    """derivative of a node with respect to an atom"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t is x:
        r = tm.ONE
    elif not tm.depends(t, x):
        r = tm.ZERO
    elif t.op == "sum":
        r = tm.add(*[tm.scale(c, diff(u, x, memo)) for u, c in t.args[1]])
    elif t.op == "prod":
        parts = list(t.args[0])
        r = tm.ZERO
        for u, e in parts:
            d = diff(u, x, memo)
            if d is not tm.ZERO:
                r = tm.add(r, tm.mul(tm.scale(e, t), tm.power(u, -1), d))
    elif t.op == "fn" and t.args[0] == "exp":
        r = tm.mul(t, diff(t.args[1], x, memo))
    elif t.op == "ite" and not tm.depends(t.args[0], x):
        r = tm.ite(t.args[0], diff(t.args[1], x, memo), diff(t.args[2], x, memo))
    else:
        raise Unsupported("derivative of %s" % show(t, 80))
    memo[t] = r
    return r


def below_one(t):
    """the node with every exponential of a negative argument replaced by
    1/(1 + w), w > 0: anything in (0, 1)"""
    m, seen = {}, []
    for s in list(tm.subterms(t)):
        if s.op == "fn" and s.args[0] == "exp" and s not in m:
            neg = sign(s.args[1])
            if neg == "?":
                continue
            arg = s.args[1] if neg == "-" else tm.neg(s.args[1])
            w = next((w for a, w in seen if nf.equal(a, arg)), None)
            if w is None:
                w = tm.atom("w!%d" % len(seen), sign="+")
                seen.append((arg, w))
            e = tm.add(tm.ONE, w)
            m[s] = tm.power(e, -1) if neg == "-" else e
    return tm.subst(t, m) if m else t


def sign(t):
    """sign of a gate-free node: '+', '>=', '0', '<=', '-' or '?'"""
    t = below_one(t) if tm.contains_op(t, "fn") else t
    R = nf.Rational([t])
    v = R._reduce(R.vals[0])
    if v == 0:
        return "0"
    n, d = R.poly_sign(v.numer), R.poly_sign(v.denom)
    if d in ("-", "+"):
        return n if d == "+" else tm._NEG[n]
    return "?"


def finite(t):
    """the denominator of the node has a definite sign"""
    def pred(u):
        R = nf.Rational([below_one(u)])
        return R.poly_sign(R._reduce(R.vals[0]).denom) in ("+", "-")
    return every(t, pred)


def nonneg(t):
    return every(t, lambda u: sign(u) in ("+", ">=", "0"))


def every(t, pred, left=40):
    """pred holds of every gate-free case of the node"""
    cs = [c for g in nf.gates(t) for c in nf.atoms_of_cond(g) if not tm.contains_op(c, "ite")]
    if not cs:
        return pred(t)
    if left == 0:
        raise Unsupported("too many cases in %s" % show(t, 80))
    c = min(cs, key=lambda x: x.id)
    k = nf.canon_cond(c) if c.op in ("lt0", "le0", "eq0") else None
    vals = (True,) if k is tm.TRUE else (False,) if k is tm.FALSE else (True, False)
    for v in vals:
        (u,) = nf.assume((t,), c, v)
        try:
            ok = every(u, pred, left - 1)
        except ZeroDivisionError:
            ok = False
        if not ok:
            return False
    return True


# ------------------------------------------------------------- the step
class Map:
    """the step from any state at any index, as a function of the state, the
    forcing of the step and the parameters"""

    def __init__(self, ctx, m):
        self.m = m
        if m == "TwoLayerModel":
            self.S = Step(ctx, m, "+", None, "!")
        else:
            d2 = tm.add(tm.atom("d1!", sign="+"), tm.atom("g!", sign="+"))
            self.S = Step(ctx, m, "+", {"d2": d2}, "!")
        S = self.S
        if S.k is None:
            raise Unsupported("%s keeps state that is not understood from step to step" % m)
        self.p = S.pg
        self.F = tm.atom("F")
        self.x = {a: tm.atom("x" + TAG[a]) for a in STATE[m]}
        sub = {tm.sel(TAG[a], S.k): self.x[a] for a in STATE[m]}
        sub[tm.sel("E", S.k)] = self.F
        self.new = {a: tm.subst(S.gen[a], sub) for a in STATE[m]}

    def at(self, a, vals, F, p=None):
        sub = {self.x[b]: v for b, v in zip(TEMPS[self.m], vals)}
        sub[self.F] = F
        t = tm.subst(self.new[a], sub)
        return tm.subst(t, p) if p else t

    def stable(self):
        """parameters below the stability limit of the scheme, as manifestly
        positive expressions (none is needed for exact relaxation)"""
        if self.m != "TwoLayerModel":
            return {}
        p = self.p
        g, h = tm.atom("slack:u", sign="+"), tm.atom("slack:l", sign="+")
        rc = tm.mul(orc.RHO, orc.CP)
        C = tm.mul(p["delta_t"], tm.add(p["lambda0"], tm.mul(p["efficacy"], p["eta"]), g))
        CD = tm.mul(p["delta_t"], tm.add(p["eta"], h))
        return {p["du"]: tm.div(C, rc), p["dl"]: tm.div(CD, rc)}

    def linear(self, ctx, a, p):
        """coefficients [T, T', F] of an output with a = 0, None if it is not a
        linear function of the state and the forcing"""
        Z = tm.ZERO
        zero = dict(p)
        if "a" in self.p:
            zero[self.p["a"]] = Z
        one = (tm.ONE, Z, Z), (Z, tm.ONE, Z), (Z, Z, tm.ONE)
        c = [self.at(a, o[:2], o[2], zero) for o in one]
        xs = [self.x[b] for b in TEMPS[self.m]]
        want = tm.add(*[tm.mul(u, v) for u, v in zip(c, xs + [self.F])])
        lin = nf.equal(self.at(a, xs, self.F, zero), want)
        where = "%s %s" % (self.m, a)
        if not ctx.ob("with a = 0 the step is linear in the temperatures before it and the forcing of the step", where, lin):
            return None
        return c


def gain(m, p, a):
    """equilibrium response to a unit forcing"""
    if m == "TwoLayerModel":
        return tm.power(p["lambda0"], -1)
    return p["q1"] if a == "_temp1_mag" else p["q2"]


def order(m, a):
    """coefficients ordered (own temperature, the other one)"""
    return (0, 1) if a == TEMPS[m][0] else (1, 0)


def c33(ctx):
    for m in MODELS:
        ctx.case(m + " any step", c33_step, ctx, m)
        ctx.case(m + " runs", c33_runs, ctx, m)
        ctx.case(m + " runs of any length", c11_any, ctx, m)
    ctx.case("state-dependent feedback", c33_feedback, ctx)
    ctx.floor("weights", 12)
    ctx.floor("outputs of runs", 20)


def c33_step(ctx, m):
    M = Map(ctx, m)
    p = M.stable()
    for a in TEMPS[m]:
        c = M.linear(ctx, a, p)
        if c is None:
            continue
        G = tm.subst(gain(m, M.p, a), p)
        w = c[:2] + [tm.div(c[2], G)]
        where = "%s %s, any step" % (m, a)
        for x, what in zip(w, ("of %s" % TEMPS[m][0], "of %s" % TEMPS[m][1], "of the equilibrium response to the forcing")):
            ctx.count("weights")
            ctx.ob("no weight is negative", "%s: weight %s" % (where, what), nonneg(x), "the weight is %s" % show(x))
        ctx.ob("the weights add up to one", where, nf.equal(tm.add(*w), tm.ONE))
    a = "_rndt_mag"
    c = M.linear(ctx, a, p)
    for x, what in zip(c or (), (TEMPS[m][0], TEMPS[m][1], "the forcing")):
        ctx.count("weights")
        ctx.ob("no division by zero", "%s %s: factor of %s" % (m, a, what), finite(x), "the factor is %s" % show(x))


def params_of(m):
    p = phys(m, "!", "+")
    kw = {}
    if m == "ImpulseResponseModel":
        p["d2"] = tm.add(p["d1"], tm.atom("g!", sign="+"))
        kw["d2"] = p["d2"]
    return p, kw


def c33_runs(ctx, m):
    W = ctx.world()
    I = W.I
    p, kw = params_of(m)
    base = W.save()
    st = {}
    if m == "TwoLayerModel":
        g, h = tm.atom("slack:u", sign="+"), tm.atom("slack:l", sign="+")
        rc = tm.mul(orc.RHO, orc.CP)
        st[p["du"]] = tm.div(tm.mul(p["delta_t"], tm.add(p["lambda0"], tm.mul(p["efficacy"], p["eta"]), g)), rc)
        st[p["dl"]] = tm.div(tm.mul(p["delta_t"], tm.add(p["eta"], h)), rc)
        st[p["a"]] = tm.ZERO
    for n in range(1, 6 if ctx.thorough else 5):
        W.restore(base)
        k2 = {k: I.alloc(QO(t, W.unit("s"))) for k, t in kw.items()}
        x = W.model(m, k2, suffix="!", signs={q: "+" for q in PARAMS[m]})
        W.do(x, "set_drivers", W.erf_q("E", n=n))
        W.do(x, "reset")
        _, ex = exits_of(ctx, W, lambda: W.meth(x, "run"))
        where = "%s.run with %d forcing values" % (m, n)
        if I.st is None:
            ctx.bad("a run completes", where, W.describe(ex), ex[0].site if ex else "", of=ex)
            continue
        E = [tm.sel("E", num(i)) for i in range(n)]
        for a in STATE[m]:
            o = state_arr(W, x, a)
            if o is None:
                ctx.errors.append("%s: %s is not understood" % (where, a))
                continue
            for i in range(n):
                ctx.count("outputs of runs")
                t = o.at(num(i))
                at = "%s: %s[%d]" % (where, a, i)
                if t.op == "nan" or tm.may_be_nan(t) or t.op == "inf":
                    ctx.bad("every output is finite", at, "is %s" % show(t), of=t)
                    continue
                t = tm.subst(t, st)
                c = [tm.subst(t, {e: tm.ONE if e is f else tm.ZERO for e in E}) for f in E]
                want = tm.add(*[tm.mul(u, e) for u, e in zip(c, E)])
                if not ctx.ob("every output is a linear response to the forcing", at, nf.equal(t, want)):
                    continue
                if a == "_rndt_mag":
                    for u, e in zip(c, E):
                        ctx.ob("every output is finite", "%s: factor of %s" % (at, tm.show(e)), finite(u), of=u)
                    continue
                G = tm.subst(gain(m, p, a), st)
                for u, e in zip(c, E):
                    ctx.ob("no weight is negative", "%s: response to %s" % (at, tm.show(e)), nonneg(u), "is %s" % show(u), of=u)
                ctx.ob("the response is at most the equilibrium response", at, nonneg(tm.sub(tm.ONE, tm.div(tm.add(*c), G))), "exceeds it")


def c33_feedback(ctx):
    """a > 0, forcing between 0 and that of an equilibrium T: the step is
    increasing in everything, keeps 0 without forcing and T with its forcing,
    so that no run leaves [0, T]"""
    M = Map(ctx, "TwoLayerModel")
    monotone(ctx, M)


def monotone(ctx, M):
    m = M.m
    p = M.stable()
    st = {M.x[b]: tm.atom("s" + TAG[b], sign=">=") for b in TEMPS[m]}
    for a in TEMPS[m]:
        for v, what in [(M.x[b], b) for b in TEMPS[m]] + [(M.F, "the forcing")]:
            ctx.count("monotone")
            d = tm.subst(tm.subst(diff(M.new[a], v), p), st)
            ctx.ob("with a > 0 and temperatures >= 0 the step is increasing", "%s %s in %s" % (m, a, what), nonneg(d), "the derivative is %s" % show(d))
    T = tm.atom("Teq")
    F = tm.mul(tm.sub(M.p["lambda0"], tm.mul(M.p["a"], T)), T)
    for a in TEMPS[m]:
        ctx.ob("an equilibrium is kept", "%s %s" % (m, a), nf.equal(M.at(a, (T, T), F), T))
        ctx.ob("zero without forcing", "%s %s" % (m, a), nf.equal(M.at(a, (tm.ZERO, tm.ZERO), tm.ZERO), tm.ZERO))


# ---------------------------------------------------------------- C35
def c35(ctx):
    for m in MODELS:
        ctx.case(m, c35_model, ctx, m)
        ctx.case(m + " runs of any length", c11_any, ctx, m)
    ctx.case("state-dependent feedback", c35_feedback, ctx)
    ctx.floor("contractions", 4)


def c35_model(ctx, m):
    M = Map(ctx, m)
    S = M.S
    p = M.stable()
    rows = []
    Z = tm.ZERO
    for a in TEMPS[m]:
        ctx.ob("starts from zero", "%s %s" % (m, a), nf.equal(S.first[0][a], Z))
        c = M.linear(ctx, a, p)
        if c is None:
            return
        for x, what in zip(c, TEMPS[m] + ("the forcing",)):
            bad = sorted({show(d, 40) for d in nf.true_deps(x) if d.op == "sel" or d is S.k or d.op == "atom" and d.args[0].startswith("n:")})
            ctx.ob("the step is the same at every index", "%s %s: factor of %s" % (m, a, what), not bad, "depends on %s" % ", ".join(bad))
        rows.append(c)
    F = tm.atom("Feq")
    eq = [tm.mul(tm.subst(gain(m, M.p, a), p), F) for a in TEMPS[m]]
    for a, c, e in zip(TEMPS[m], rows, eq):
        got = tm.add(*[tm.mul(u, v) for u, v in zip(c, eq + [F])])
        ctx.ob("the equilibrium is kept", "%s %s" % (m, a), nf.equal(got, e))
    for i, a in enumerate(TEMPS[m]):
        for j, b in enumerate(TEMPS[m]):
            ctx.ob("an error does not change sign", "%s: from %s to %s" % (m, b, a), nonneg(rows[i][j]), "the factor is %s" % show(rows[i][j]))
        two = [tm.add(*[tm.mul(rows[i][l], rows[l][j]) for l in (0, 1)]) for j in (0, 1)]
        ctx.count("contractions")
        left = tm.sub(tm.ONE, tm.add(*two))
        ctx.ob("two steps shrink the largest error by a factor below one", "%s %s" % (m, a), every(left, lambda u: sign(u) == "+"), "the factor is not below one")
    p0 = dict(p)
    if "a" in M.p:
        p0[M.p["a"]] = Z
    eqn = M.at("_rndt_mag", eq, F, p0)
    ctx.ob("no heat uptake at the equilibrium", m, nf.equal(eqn, Z))
    # the first steps are steps of the same kind
    for i in range(1, 3):
        for a in TEMPS[m]:
            prev = [S.first[i - 1][b] for b in TEMPS[m]]
            want = tm.subst(M.at(a, prev, tm.sel("E", num(i - 1))), back(S))
            ctx.ob("the first steps are like any other", "%s %s[%d]" % (m, a, i), nf.equal(S.first[i][a], want))


def back(S):
    """parameters after the change -> before it"""
    out = {}
    for t in S.pg.values():
        for s in tm.subterms(t):
            if s.op == "atom" and s.args[0].endswith("~"):
                out[s] = tm.atom(s.args[0][:-1], sign="+")
    return out


def c35_feedback(ctx):
    """a > 0, constant forcing F = (lambda0 - a T) T with T at most
    lambda0/(2 a), the smaller equilibrium: the step is increasing, starts
    below its first value and stays below T, so that it converges to the only
    equilibrium in [0, T]"""
    M = Map(ctx, "TwoLayerModel")
    monotone(ctx, M)


# ---------------------------------------------------------------- C32
def c32(ctx):
    ctx.case("impulse response to two-layer", c32_dir, ctx, "ImpulseResponseModel")
    ctx.case("two-layer to impulse response", c32_dir, ctx, "TwoLayerModel")
    ctx.floor("directions", 2)


def c32_dir(ctx, m):
    """from the model m to the equivalent one and back to their steps"""
    W = ctx.world()
    I = W.I
    x, p = (two_layer if m == "TwoLayerModel" else impulse)(W)
    if m == "TwoLayerModel":
        p["a"] = tm.ZERO
    v, c = converted(ctx, W, x, m)
    if c is None:
        return
    y, ex = exits_of(ctx, W, lambda: I.call(W.models[OTHER[m]], [], dict(c)))
    if I.st is None:
        ctx.bad("the equivalent model can be made", m, W.describe(ex), ex[0].site if ex else "", of=ex)
        return
    q = {n: W.si(W.get(y, n)) for n in PARAMS[OTHER[m]]}
    P, p = (p, q) if m == "TwoLayerModel" else (q, p)
    two, ir = Map(ctx, "TwoLayerModel"), Map(ctx, "ImpulseResponseModel")
    ctx.count("directions")
    where = "%s and its equivalent" % m
    h = tm.atom("h", sign="+")
    F = tm.atom("F")
    T = tm.atom("T1"), tm.atom("T2")
    CD = orc.heat_capacity(P["dl"])
    phi = [tm.div(tm.mul(P["eta"], d), tm.sub(tm.mul(P["eta"], d), CD)) for d in (p["d1"], p["d2"])]
    surface = tm.add(*T)
    lower = tm.add(*[tm.mul(f, t) for f, t in zip(phi, T)])

    def rate(M, a, vals, params):
        t = M.at(a, vals, F)
        dt = M.p["delta_t"]
        t0 = tm.subst(t, {dt: tm.ZERO})
        d0 = tm.subst(diff(t, dt), {dt: tm.ZERO})
        own = {M.p[n]: params[n] for n in M.p if n != "delta_t" and M.p[n].op == "atom"}
        if M.m == "ImpulseResponseModel":
            own.update({s: tm.sub(params["d2"], params["d1"]) for s in tm.subterms(M.p["d2"]) if s.op == "atom" and s is not M.p["d1"]})
        return tm.subst(t0, own), tm.subst(d0, own), tm.subst(t, own)

    got = {}
    for M, vals, params in ((two, (surface, lower), P), (ir, T, p)):
        for a, v in zip(TEMPS[M.m], vals):
            z, got[a], _ = rate(M, a, vals, params)
            ctx.ob("a step of no duration changes nothing", "%s: %s %s" % (where, M.m, a), nf.equal(z, v))
            ctx.ob("both start from zero", "%s %s" % (M.m, a), nf.equal(M.S.first[0][a], tm.ZERO))
        a = "_rndt_mag"
        z, d, t = rate(M, a, vals, params)
        got[M.m] = t
    r1, r2 = got["_temp1_mag"], got["_temp2_mag"]
    ctx.ob("the surface temperature changes at the same rate", where, nf.equal(tm.add(r1, r2), got["_temp_upper_mag"]))
    ctx.ob("the lower layer's temperature changes at the same rate", where, nf.equal(tm.add(tm.mul(phi[0], r1), tm.mul(phi[1], r2)), got["_temp_lower_mag"]))
    n1, n2 = got["TwoLayerModel"], got["ImpulseResponseModel"]
    if any(tm.depends(t, M.p["delta_t"]) for t, M in ((n1, two), (n2, ir))):
        n1, n2 = (tm.subst(t, {M.p["delta_t"]: h}) for t, M in ((n1, two), (n2, ir)))
    ctx.ob("the same heat uptake", where, nf.equal(n1, n2))
