"""C06-C14, C28: the dynamics, reset, run and the drivers."""
from . import oracle as orc
from .common import *
from .flow import opn
from .rules_params import aux_attrs, midrun, warmup


class Step:
    """one step from an arbitrary state at index k to k+1, and the first steps
    after a reset"""

    def __init__(self, ctx, model, sign=None, params=None, suffix=""):
        self.ctx, self.model = ctx, model
        W = self.W = ctx.world()
        I = W.I
        self.p = phys(model, suffix, sign)
        kw = {}
        if params:
            for k, t in params.items():
                self.p[k] = t
                kw[k] = I.alloc(QO(t, W.unit("dimensionless" if k == "efficacy" else _si(PARAMS[model][k]))))
        self.x, self.e = prepared(W, model, kwargs=kw, suffix=suffix, signs={k: sign for k in PARAMS[model]} if sign else None)
        self.ready = self.empty = W.save()
        self.shorts = None
        self.first = []  # values at each index over the first steps
        self.idx = []
        self.exits = []
        for i in range(4):
            _, ex = exits_of(ctx, W, lambda: W.meth(self.x, "step"))
            self.exits += ex
            if I.st is None:
                ctx.bad("a step is possible", "%s.step #%d" % (model, i), W.describe(ex), ex[0].site if ex else "", of=ex)
                raise_dead(ctx, model)
            self.idx.append(W.attr(self.x, "_timestep_idx"))
            self.first.append({a: self.at(a, num(i)) for a in STATE[model]})
            if i == 1:
                two = W.save()
            if i == 2:
                three = W.save()
        W.restore(self.ready)
        self.aux = aux_attrs(W, model, self.x)
        self.k = None
        W.restore(two)
        self.pg = self.p
        fill = self.generic_aux(two, three)
        if fill is None:
            ctx.note("%s keeps auxiliary state (%s): the step is analysed on the first %d steps after a reset" % (model, ", ".join(self.aux), len(self.first)))
        else:
            W.restore(two)
            # from here on with other parameters than those of the steps before
            self.pg = {}
            for n, u in PARAMS[model].items():
                if params and n in params:
                    t = tm.subst(params[n], {q: tm.atom(q.args[0] + "~", sign="+") for q in tm.subterms(params[n]) if q.op == "atom"})
                    self.pg[n] = t
                    v = I.alloc(QO(t, W.unit("dimensionless" if n == "efficacy" else _si(u))))
                else:
                    v = W.quantity(n + suffix + "~", u, sign)
                    self.pg[n] = tm.atom(n + suffix + "~", sign=sign) if sign else tm.atom(n + suffix + "~")
                _, ex = exits_of(ctx, W, lambda: I.setattr_(self.x, n, v))
                if I.st is None:
                    ctx.bad("parameters can be changed in mid-run", "%s.%s" % (model, n), W.describe(ex), ex[0].site if ex else "", of=ex)
                    raise_dead(ctx, model)
            self.k = midrun(W, model, self.x)
            for n, v in fill.items():
                I.mut(self.x).attrs[n] = v(self.k)
            self.k1 = tm.add(self.k, tm.ONE)
            self.pre = W.save()
            _, ex = exits_of(ctx, W, lambda: W.meth(self.x, "step"))
            self.exits += ex
            if I.st is None:
                ctx.bad("a step is possible", "%s.step" % model, W.describe(ex), ex[0].site if ex else "", of=ex)
                raise_dead(ctx, model)
            self.post = W.save()
            self.gen = {a: self.at(a, self.k1) for a in STATE[model]}
            self.gidx = W.attr(self.x, "_timestep_idx")
            if any(str(d.args[0]).startswith("AUX:") for t in self.gen.values() for d in nf.true_deps(t) if d.args):
                self.k = None
                ctx.note("%s: outputs depend on an auxiliary array: the step is analysed on the first %d steps after a reset" % (model, len(self.first)))
        W.case_done = True

    def generic_aux(self, two, three):
        """auxiliary attributes (changed by stepping) as functions of the index
        k, judged from their values after the steps to index 1 and 2; None if
        one of them is not understood"""
        W, I = self.W, self.W.I
        out = {}
        for n in self.aux:
            v2, v3 = (st.heap[self.x.oid].attrs.get(n, UNDEF) for st in (two, three))
            f = self.generic_val(v2, two, v3, three, n)
            if f is None:
                return None
            out[n] = f
        return out

    def generic_val(self, v2, s2, v3, s3, n):
        W, I = self.W, self.W.I
        if isinstance(v2, tm.T) and isinstance(v3, tm.T):
            if v2 is v3:
                return lambda k: v2
            if tm.is_num(v2) and tm.is_num(v3):
                d = v3.args[0] - v2.args[0]
                return lambda k: tm.add(tm.scale(d, tm.sub(k, tm.ONE)), v2)
            for a in STATE[self.model]:
                if nf.equal(v2, self.first[1][a]) and nf.equal(v3, self.first[2][a]):
                    return lambda k: tm.sel(TAG[a], k)
            if v2.op == "sel" and v3.op == "sel" and v2.args[0] == v3.args[0] == "E":
                if tm.is_num(v2.args[1]) and tm.is_num(v3.args[1]) and v3.args[1].args[0] - v2.args[1].args[0] == 1:
                    o = tm.num(v2.args[1].args[0] - 1)
                    return lambda k: tm.sel("E", tm.add(k, o))
            return None
        if isinstance(v2, Ref) and isinstance(v3, Ref):
            a, b = s2.heap.get(v2.oid), s3.heap.get(v3.oid)
            if isinstance(a, QO) and isinstance(b, QO) and a.unit.label is b.unit.label and nf.equal(a.unit.factor, b.unit.factor):
                f = self.generic_val(a.mag, s2, b.mag, s3, n)
                return f and (lambda k: I.alloc(QO(f(k), a.unit)))
            if isinstance(a, ArrO) and isinstance(b, ArrO) and len(a.shape) == 1:
                for t in STATE[self.model]:
                    if all(nf.equal(o.at(tm.num(i)), self.first[i][t]) for o, last in ((a, 1), (b, 2)) for i in range(last + 1)):
                        return lambda k: I.alloc(ArrO(a.shape, tm.sel(TAG[t], tm.IOTA), (), frozenset(), a.dt))
                return lambda k: I.alloc(ArrO(a.shape, tm.sel("AUX:" + n, tm.IOTA), (), frozenset(), a.dt))
        return None

    def at(self, a, i):
        o = state_arr(self.W, self.x, a)
        if o is None:
            return tm.opq("not an array:" + a)
        return o.at(i)

    def short(self):
        """values over all the steps of short forcings"""
        if self.shorts is None:
            self.shorts = {}
            W = self.W
            keep = W.save()
            for n in (1, 2, 3, 4):
                W.restore(self.empty)
                W.do(self.x, "set_drivers", W.erf_q("E", n=n))
                W.do(self.x, "reset")
                self.shorts[n] = []
                for i in range(n):
                    W.do(self.x, "step")
                    self.shorts[n].append({a: self.at(a, num(i)) for a in STATE[self.model]})
            W.restore(keep)
        return self.shorts

    def transitions(self):
        """(name, parameters, previous values, forcing before, new values)"""
        m = self.model
        for i in range(1, len(self.first)):
            yield "step to index %d" % i, self.p, self.first[i - 1], tm.sel("E", num(i - 1)), self.first[i]
        if self.k is not None:
            prev = {a: tm.sel(TAG[a], self.k) for a in STATE[m]}
            yield "step to any index k+1 >= 1 from any state, parameters changed before it", self.pg, prev, tm.sel("E", self.k), self.gen


def raise_dead(ctx, model):
    from .interp import Dead
    raise Dead


def _si(text):
    """SI spelling of a declared unit"""
    return {"yr": "s"}.get(text, text)


def c06(ctx):
    def go():
        m = "TwoLayerModel"
        S = Step(ctx, m)
        for name, p, prev, F, new in S.transitions():
            if name == "step to index 3":
                continue  # the nested quadratic of three steps adds nothing
            T, TD = prev["_temp_upper_mag"], prev["_temp_lower_mag"]
            ctx.count("transitions")
            ctx.ob("upper temperature equation", "%s: %s" % (m, name), nf.equal(new["_temp_upper_mag"], orc.temp_upper(p, T, TD, F)))
            ctx.ob("lower temperature equation", "%s: %s" % (m, name), nf.equal(new["_temp_lower_mag"], orc.temp_lower(p, T, TD)))
    ctx.case("two-layer step", go)
    ctx.floor("transitions", 2)


def c07(ctx):
    def go():
        m = "TwoLayerModel"
        S = Step(ctx, m)
        for name, p, prev, F, new in S.transitions():
            if name == "step to index 3":
                continue
            T, TD = prev["_temp_upper_mag"], prev["_temp_lower_mag"]
            N = new["_rndt_mag"]
            ctx.count("transitions")
            ctx.ob("heat uptake = heat gained by the layers", "%s: %s" % (m, name), nf.equal(N, orc.heat_gained(p, T, TD, new["_temp_upper_mag"], new["_temp_lower_mag"])))
            ctx.ob("heat uptake = imbalance at the previous step", "%s: %s" % (m, name), nf.equal(N, orc.uptake(p, T, TD, F)))
    ctx.case("two-layer step", go)
    ctx.floor("transitions", 2)


def c08(ctx):
    def go():
        m = "ImpulseResponseModel"
        S = Step(ctx, m)
        for name, p, prev, F, new in S.transitions():
            for i in "12":
                ctx.count("transitions")
                want = orc.box(prev["_temp%s_mag" % i], p["q" + i], p["d" + i], p["delta_t"], F)
                ctx.ob("box temperature equation", "%s: %s, box %s" % (m, name, i), nf.equal(new["_temp%s_mag" % i], want))
    ctx.case("impulse response step", go)
    ctx.case("surface temperature", c08_sum, ctx)
    ctx.floor("transitions", 4)


def c08_sum(ctx):
    from .rules_run import run_outputs
    m = "ImpulseResponseModel"
    W = ctx.world()
    x = W.model(m)
    for r, outs in run_outputs(ctx, W, m, x):
        hit = [o for o in outs if o.variable == "Surface Temperature"]
        for why, banned in r.problems:
            if not banned:
                ctx.errors.append("results: not understood: %s" % why)
        if hit or not any(not banned for _, banned in r.problems):
            ctx.ob("a total surface temperature is reported", m, len(hit) == 1, "outputs: %s" % [o.variable for o in outs])
        b1, b2 = (r.body_end(r.attr_end(a)) for a in ("_temp1_mag", "_temp2_mag"))
        if b1 is None or b2 is None:
            ctx.errors.append("%s: the arrays of the boxes are not understood" % m)
            continue
        for o in hit:
            ctx.count("transitions")
            want = tm.add(b1, b2)
            if o.iv is not None:
                want = tm.subst(want, {r.ivar: o.iv})
            want = r.sub(want)
            ctx.ob("surface temperature = box 1 + box 2", m, o.body is not None and nf.equal(o.body, want), "reports %s" % (show(o.body) if o.body is not None else show(o.term)), o.site)


def ir_step(ctx):
    """positive parameters, d2 = d1 + g with g > 0"""
    m = "ImpulseResponseModel"
    d2 = tm.add(tm.atom("d1!", sign="+"), tm.atom("g!", sign="+"))
    return Step(ctx, m, "+", {"d2": d2}, "!")


def c09(ctx):
    def go():
        m = "ImpulseResponseModel"
        S = ir_step(ctx)
        for name, p, prev, F, new in S.transitions():
            if name in ("step to index 2", "step to index 3") and S.k is not None:
                continue
            ctx.count("transitions")
            want = orc.ir_uptake(p, prev["_temp1_mag"], prev["_temp2_mag"], F)
            ctx.ob("heat uptake of the equivalent two-layer model", "%s: %s" % (m, name), nf.equal(new["_rndt_mag"], want))
        # any units
        U = Step(ctx, m)
        if U.k is not None:
            from .rules_params import unit_leaves
            u = unit_leaves(U.gen["_rndt_mag"])
            ctx.ob("holds in any units", m, not u, "depends on %s" % ", ".join(u) if u else "", of=U.gen["_rndt_mag"])
        for e in U.exits:
            ctx.bad("holds in any units", m, "raises %s" % U.W.describe([e]), e.site, of=[e])
    ctx.case("impulse response step", go)
    ctx.floor("transitions", 2)


def c10(ctx):
    for m in MODELS:
        def go(m=m):
            S = Step(ctx, m)
            for a in STATE[m]:
                ctx.count("outputs")
                ctx.ob("zero at first", "%s %s[0]" % (m, a), nf.equal(S.first[0][a], tm.ZERO), "is %s" % show(S.first[0][a]))
                for i in range(1, len(S.first)):
                    check_causal(ctx, "%s %s[%d]" % (m, a, i), S.first[i][a], num(i), S, None)
                for n, short in S.short().items():
                    for i in range(n):
                        ctx.ob("does not depend on how long the forcing is", "%s %s[%d] of %d" % (m, a, i, n), short[i][a] is S.first[i][a] or nf.equal(short[i][a], S.first[i][a]))
                if S.k is not None:
                    check_causal(ctx, "%s %s[k+1], k >= 2" % (m, a), S.gen[a], S.k1, S, S.k, (tm.le(num(2), S.k),))
                    for c in (0, 1):
                        check_causal(ctx, "%s %s[k+1], k = %d" % (m, a, c), tm.subst(S.gen[a], {S.k: num(c)}), num(c + 1), S, num(c))
        ctx.case(m, go)
    ctx.floor("outputs", 6)


def check_causal(ctx, where, t, i, S, k, facts=()):
    bad = []
    for d in nf.true_deps(t, facts):
        if d.op == "sel" and d.args[0] == "E":
            j = d.args[1]
            ok = tm.lt(j, i)
            if nf.entails(facts, ok) is not tm.TRUE:
                bad.append("forcing at index %s" % tm.show(j))
            elif nf.entails(facts, tm.le(tm.ZERO, j)) is not tm.TRUE:
                bad.append("forcing at index %s, which may wrap around" % tm.show(j))
        elif d.op == "sel" and d.args[0] in TAG.values():
            if d.args[1] is not k:
                bad.append("%s at index %s" % (d.args[0], tm.show(d.args[1])))
        elif d.op == "atom" and d.args[0].startswith("n:"):
            bad.append("the length of the forcing")
        elif d.op in ("opq", "bopq"):
            for s in tm.subterms(d):
                if s.op == "sel" and s.args[0] == "E":
                    bad.append("the forcing at %s through %s" % (tm.show(s.args[1]), d.args[0]))
                    break
    for s in tm.subterms(t):
        if s.op in ("opq", "bopq", "all", "any") and any(u.op == "sel" and u.args[0] == "E" and tm.depends(u.args[1], tm.IOTA) for u in tm.subterms(s)):
            if nf.true_deps(t, facts) & {u for u in tm.subterms(s) if u.op == "sel"}:
                bad.append("the whole forcing through %s" % show(s, 60))
    ctx.ob("depends on earlier forcing and the previous state only", where, not bad, "depends on " + "; ".join(sorted(set(bad))) if bad else "")


# ---------------------------------------------------------------------------
def c11(ctx):
    for m in MODELS:
        ctx.case(m + " unrolled", c11_unrolled, ctx, m)
        ctx.case(m + " any length", c11_any, ctx, m)
    ctx.floor("runs", 8)


def c11_unrolled(ctx, m):
    W = ctx.world()
    I = W.I
    base = W.save()
    for n in range(1, 9 if ctx.thorough else 6):
        W.restore(base)
        x = W.model(m)
        W.do(x, "set_drivers", W.erf_q("E", n=n))
        W.do(x, "reset")
        ready = W.save()
        for i in range(n):
            W.do(x, "step")
        want = {a: state_arr(W, x, a) for a in STATE[m]}
        widx = W.attr(x, "_timestep_idx")
        W.restore(ready)
        _, ex = exits_of(ctx, W, lambda: W.meth(x, "run"))
        ctx.count("runs")
        where = "%s.run with %d forcing values" % (m, n)
        if I.st is None or ex:
            ctx.bad("a run completes", where, W.describe(ex), ex[0].site if ex else "", of=ex)
            if I.st is None:
                continue
        gidx = W.attr(x, "_timestep_idx")
        ctx.ob("one step per forcing value", where, isinstance(gidx, tm.T) and isinstance(widx, tm.T) and nf.equal(gidx, widx), "ends at index %s instead of %s" % (gidx, widx))
        for a in STATE[m]:
            g, w = state_arr(W, x, a), want[a]
            unk = next((nf.has_unknown(d) for d in g.shape if nf.has_unknown(d)), None) if g is not None else None
            if unk:
                ctx.errors.append("%s: %s: length not understood: %s" % (where, a, unk))
                continue
            if g is None or w is None or g.shape != (num(n),):
                ctx.bad("outputs have the length of the forcing", "%s: %s" % (where, a), "shape %s" % (g.shape if g else None,))
                continue
            for i in range(n):
                t = g.at(num(i))
                if t.op == "nan" or tm.may_be_nan(t):
                    ctx.bad("every output entry is computed", "%s: %s[%d]" % (where, a, i), "is %s" % show(t), of=t)
                    continue
                u = w.at(num(i))
                ctx.ob("every output entry is computed", "%s: %s[%d]" % (where, a, i), t is u or nf.equal(t, u) if (n <= 4 or t is u) else True, "differs from stepping one at a time")
    # the index advances by one
    W.restore(base)
    x, _ = prepared(W, m)
    for i in range(4):
        W.do(x, "step")
        g = W.attr(x, "_timestep_idx")
        ctx.ob("a step advances by exactly one index", "%s step %d after reset" % (m, i + 1), isinstance(g, tm.T) and nf.equal(g, num(i)), "index is %s" % g)
    k = midrun(W, m, x)
    pre = W.save()
    W.do(x, "step")
    g = W.attr(x, "_timestep_idx")
    ctx.ob("a step advances by exactly one index", "%s step from any index k" % m, isinstance(g, tm.T) and nf.equal(g, tm.add(k, tm.ONE)), "index is %s" % g)
    for a in STATE[m]:
        o = state_arr(W, x, a)
        j = tm.atom("j", sign=">=", integer=True, lb=0)
        facts = (tm.le(j, k),)
        t = o.at(j)
        ok = nf.equal(t, tm.sel(TAG[a], j), facts)
        ctx.ob("a step leaves earlier entries alone", "%s %s" % (m, a), ok)
        ctx.ob("a step writes its entry", "%s %s[k+1]" % (m, a), not any(s.op == "sel" and s.args[0] == TAG[a] and s.args[1] is tm.add(k, tm.ONE) for s in tm.subterms(o.at(tm.add(k, tm.ONE)))), "entry k+1 keeps its old value on some path")


def c11_any(ctx, m):
    """the loop of run over a forcing of arbitrary length and values"""
    W = ctx.world()
    I = W.I
    n = W.length("any", lb=1)
    x, e = prepared(W, m, n=n)
    ready = W.save()
    I.loopinfo.clear()
    _, ex = exits_of(ctx, W, lambda: W.meth(x, "run"))
    ctx.count("runs")
    if I.st is None or ex:
        ctx.bad("a run completes", "%s.run" % m, W.describe(ex), ex[0].site if ex else "", of=ex)
    loops = [li for li in I.loopinfo if any(loc[0] == x.oid and loc[1] == "_timestep_idx" for loc, _, _, _ in li["ends"])]
    if not loops:
        ctx.note("%s.run: no single loop over the forcing recognised; lengths 1.. are unrolled" % m)
        return
    ctx.ob("one loop over the forcing", "%s.run" % m, len(loops) == 1, "%d loops advance the index" % len(loops))
    if len(loops) != 1:
        return
    li = loops[0]
    site = li["site"]
    if li["breaks"]:
        ctx.bad("the loop is never left early", "%s.run" % m, "break or return inside the loop over the forcing", site)
        return
    if li["n"] is not None:
        ctx.ob("as many iterations as forcing values", "%s.run" % m, nf.equal(tm.add(li["n"], num(li["peeled"])), n), "", site)
    else:
        vals = sorted({d.args[0] for d in tm.deps(li["test"]) if d.op == "sel"}) if li["test"] is not None else []
        ctx.ob("as many iterations as forcing values", "%s.run" % m, not vals, "whether to go on depends on the values in %s, which may be NaN or anything else at any step" % ", ".join(vals), site)
        ctx.note("%s.run: trip count of the loop at %s not expressed by a counter; lengths 1.. are unrolled" % (m, site))
        return
    # one iteration is one step: compare in the states the loop can be in,
    # index i-1 before iteration i >= 1
    end, entry = li["end"], li["entry"]
    i = li["ivar"]
    phi = next(p for loc, _, p, _ in li["ends"] if loc == (x.oid, "_timestep_idx"))
    I.st = entry.clone()
    if not isinstance(phi, tm.T):
        ctx.note("%s.run: the index is not a number" % m)
        return
    facts = (tm.le(tm.ONE, i),)
    prev = tm.add(i, num(li["peeled"] - 1))
    I.mut(x).attrs["_timestep_idx"] = prev if phi.op == "atom" else W.attr(x, "_timestep_idx")
    I.assume(tm.le(tm.ONE, i))
    v, ex = W.run(lambda: W.meth(x, "step"))
    if I.st is None:
        ctx.bad("one iteration is one step", "%s.run" % m, W.describe(ex), site, of=ex)
        return
    sub = {phi: prev} if phi.op == "atom" else {}
    gi = tm.subst(end.heap[x.oid].attrs["_timestep_idx"], sub)
    wi = W.attr(x, "_timestep_idx")
    ctx.ob("one iteration is one step", "%s.run: index" % m, nf.equal(gi, wi, facts), "", site)
    for a in STATE[m]:
        w = state_arr(W, x, a)
        g = state_arr(W, x, a, end)
        if g is None or w is None:
            ctx.bad("one iteration is one step", "%s.run: %s" % (m, a), "output array lost", site)
            continue
        gt, wt = tm.subst(g.at(gi), sub), w.at(wi)
        ctx.ob("one iteration is one step", "%s.run: %s" % (m, a), nf.equal(gt, wt, facts), "", site)


# ---------------------------------------------------------------------------
def c12(ctx):
    for m in MODELS:
        ctx.case(m, c12_model, ctx, m)
    ctx.floor("histories", 12)


def c12_histories(ctx, W, m, n=None):
    """(name, action on x) -> leave the model in some state"""
    I = W.I

    def new_params(x):
        for p in PARAMS[m]:
            W.set(x, p, W.quantity(p + "@old", PARAMS[m][p]))

    def run_old(x):
        W.do(x, "set_drivers", W.erf_q("Eold"))
        W.do(x, "reset")
        W.do(x, "run")

    def steps_old(x):
        W.do(x, "set_drivers", W.erf_q("Eold"))
        W.do(x, "reset")
        for _ in range(3):
            W.do(x, "step")

    def short(x):
        W.do(x, "set_drivers", W.erf_q("Eold", n=2))
        W.do(x, "reset")
        W.do(x, "run")

    def same_length(x):
        W.do(x, "set_drivers", W.erf_q("Eold", n=n or W.length("E")))
        W.do(x, "reset")
        W.do(x, "run")

    def converted(x):
        steps_old(x)
        W.run_or_keep(lambda: W.meth(x, CONVERT[m]))

    def scen(x):
        sc = I.alloc(XO("ScmRun", tm.opq("OLD"), frozenset({"arg:scenarios"})))
        W.do(x, "run_scenarios", sc)

    def refused(x):
        W.do(x, "set_drivers", W.erf_q("Eold", nan=True))
        keep = W.save()
        v, ex = W.run(lambda: W.meth(x, "reset"))
        # continue from the state in which the reset was refused
        if ex:
            I.st = ex[0].st.clone()
            I.st.pc = keep.pc
        else:
            W.restore(keep)

    def twice(x):
        run_old(x)
        W.do(x, "reset")
        W.do(x, "step")

    return [("a run", run_old), ("some steps", steps_old), ("a shorter run", short), ("a run of the same length", same_length), ("a conversion", converted), ("run_scenarios", scen), ("a refused reset", refused), ("two runs", twice)]


def c12_model(ctx, m):
    for n in (None, 1):
        c12_length(ctx, m, n)


def c12_length(ctx, m, n):
    """n: the length of the forcing, or None for any long one"""
    W = ctx.world()
    I = W.I
    base = W.save()

    def finish(x, how):
        """reset and compute; returns {name: node}"""
        W.do(x, "set_drivers", W.erf_q("E", n=n))
        W.do(x, "reset")
        return after_reset(x)

    def after_reset(x):
        out = {}
        ready = W.save()
        for a in STATE[m]:
            o = state_arr(W, x, a)
            out["shape of %s" % a] = o.shape[0] if o is not None and o.shape else tm.opq("none")
        for i in range(n or 4):
            W.do(x, "step")
            for a in STATE[m]:
                o = state_arr(W, x, a)
                out["%s[%d]" % (a, i)] = o.at(num(i)) if o is not None else tm.opq("none")
            for a in STATE[m] if n is None else ():
                o = state_arr(W, x, a)
                j = tm.atom("j", sign="+", integer=True, lb=10)
                out["%s[j] after %d steps" % (a, i + 1)] = o.at(j) if o is not None else tm.opq("none")
        idx = W.attr(x, "_timestep_idx")
        out["index"] = idx if isinstance(idx, tm.T) else tm.opq("none")
        W.restore(ready)
        return out

    x = W.model(m)
    ref = finish(x, "fresh")
    lost = sorted(k for k, w in ref.items() if opn(w) == "none")
    if lost:
        ctx.errors.append("%s: a fresh model's %s is not understood" % (m, lost[0]))
        return
    for name, hist in c12_histories(ctx, W, m, None if n is None else num(n)):
        for params in ("same parameters", "other parameters before"):
            W.restore(base)
            x = W.model(m, suffix="@old" if params != "same parameters" else "")
            hist(x)
            if params != "same parameters":
                for p in PARAMS[m]:
                    W.set(x, p, W.quantity(p, PARAMS[m][p]))
            if name == "run_scenarios" and params == "same parameters":
                W.set(x, "delta_t", W.quantity("delta_t", PARAMS[m]["delta_t"]))
            got = finish(x, name)
            ctx.count("histories")
            for k, w in ref.items():
                g = got[k]
                if opn(g) == "none":
                    ctx.errors.append("%s: %s after %s is not understood" % (m, k, name))
                    continue
                ok = g is w or nf.equal(g, w)
                d = ""
                if not ok:
                    left = sorted(n for n in names(tm.deps(g)) if "old" in n.lower())
                    d = "left over from before: %s" % ", ".join(left) if left else "differs from a fresh model: %s" % ok
                ctx.ob("a reset leaves no trace of %s" % name, "%s (%s%s): %s" % (m, params, "" if n is None else ", %d value" % n, k), bool(ok), d)
    if n is not None:
        return
    # reset and run again
    W.restore(base)
    x = W.model(m)
    W.do(x, "set_drivers", W.erf_q("E", n=3))
    W.do(x, "reset")
    W.do(x, "run")
    one = {(a, i): state_arr(W, x, a).at(num(i)) for a in STATE[m] for i in range(3) if state_arr(W, x, a) is not None}
    W.do(x, "reset")
    W.do(x, "run")
    ctx.count("histories")
    if not one:
        ctx.errors.append("%s: the results of a run are not understood" % m)
    for (a, i), w in one.items():
        o = state_arr(W, x, a)
        if o is None:
            ctx.errors.append("%s: the results of a second run are not understood" % m)
            break
        g = o.at(num(i))
        ctx.ob("running again gives the same", "%s %s[%d]" % (m, a, i), g is w or nf.equal(g, w))


# ---------------------------------------------------------------------------
def c13(ctx):
    for m in MODELS:
        ctx.case(m, c13_model, ctx, m)
    ctx.floor("resets", 8)


def c13_model(ctx, m):
    W = ctx.world()
    I = W.I
    base = W.save()

    def never(what, x):
        _, ex = exits_of(ctx, W, lambda: W.meth(x, "reset"))
        ctx.count("resets")
        if I.st is not None:
            ctx.bad("refused without drivers", "%s.reset, %s" % (m, what), "reset succeeds although the forcing was never set")
        else:
            ctx.ob("refused without drivers", "%s.reset, %s" % (m, what), all(STATEERR in W.exc_mro(e) for e in ex) and bool(ex), "raises %s" % W.describe(ex), ex[0].site if ex else "", of=ex)

    never("new model", W.model(m))
    W.restore(base)
    never("built with defaults", W.expect(lambda: I.call(W.models[m], [], {})))
    W.restore(base)
    x = W.model(m)
    W.set(x, "delta_t", W.quantity("delta_t2", PARAMS[m]["delta_t"]))
    W.run_or_keep(lambda: W.meth(x, CONVERT[m]))
    never("after other calls", x)
    # a refused driver is not a driver
    W.restore(base)
    x = W.model(m)
    v, ex = W.run(lambda: W.meth(x, "set_drivers", I.alloc(QO(tm.atom("f"), W.unit(ERF_UNIT)))))
    if I.st is None and ex:
        I.st = ex[0].st.clone()
        never("after refused drivers", x)

    n = W.length("any", lb=1)
    nanc = tm.any_(tm.isnan(tm.sel("EN", tm.IOTA, maybe_nan=True)), n)
    for what in ("set_drivers", "attribute", "after an earlier run", "after a refused reset"):
        W.restore(base)
        x = W.model(m)
        if what == "after an earlier run":
            warm = W.erf_q("E")
            W.do(x, "set_drivers", warm)
            warmup(W, m, x)
        if what == "after a refused reset":
            v, ex = W.run(lambda: W.meth(x, "reset"))
            if I.st is None and ex:
                I.st = ex[0].st.clone()
        e = W.erf_q("EN", n=n, nan=True)
        if what == "attribute":
            W.expect(lambda: I.setattr_(x, "erf", e))
        else:
            W.do(x, "set_drivers", e)
        pc0 = I.st.pc
        _, ex = exits_of(ctx, W, lambda: W.meth(x, "reset"))
        ctx.count("resets")
        where = "%s.reset, forcing by %s" % (m, what)
        rc = tm.or_(*[tm.and_(*[c for c in e_.st.pc if c not in pc0]) for e_ in ex]) if ex else tm.FALSE
        ctx.ob("ModelStateError only", where, all(STATEERR in W.exc_mro(e_) for e_ in ex), "raises %s" % W.describe(ex), of=ex)
        ctx.ob("refused exactly when any forcing value is NaN", where, nf.cond_equal(rc, nanc), "raises when %s" % show(rc), ex[0].site if ex else "")
        ctx.ob("succeeds otherwise", where, I.st is not None, "no normal exit")


# ---------------------------------------------------------------------------
def c14(ctx):
    for m in MODELS:
        ctx.case(m, c14_model, ctx, m)
    ctx.floor("drivers", 10)


def c14_model(ctx, m):
    W = ctx.world()
    I = W.I
    x0 = W.model(m)
    base = W.save()
    ns = [tm.atom("n:%s" % c, sign="+", integer=True, lb=1) for c in "PQR"]
    u = tm.atom("u:f", sign="+")
    scal = tm.div(tm.atom("f"), u)
    forms = [
        ("a number", lambda: scal),
        ("a 0-d array", lambda: I.alloc(ArrO((), scal, (), frozenset(), "m"))),
        ("2-d", lambda: I.alloc(ArrO(tuple(ns[:2]), tm.opq("body2", tm.IOTA), (), frozenset(), "m"))),
        ("2-d, one row", lambda: I.alloc(ArrO((tm.ONE, ns[0]), tm.opq("body2", tm.IOTA), (), frozenset(), "m"))),
        ("2-d, one column", lambda: I.alloc(ArrO((ns[0], tm.ONE), tm.opq("body2", tm.IOTA), (), frozenset(), "m"))),
        ("2-d, one value", lambda: I.alloc(ArrO((tm.ONE, tm.ONE), tm.opq("body2", tm.IOTA), (), frozenset(), "m"))),
        ("3-d", lambda: I.alloc(ArrO(tuple(ns), tm.opq("body3", tm.IOTA), (), frozenset(), "m"))),
    ]
    for kind, mk in forms:
        for hist in ("new model", "model that ran"):
            W.restore(base)
            if hist == "model that ran":
                W.do(x0, "set_drivers", W.erf_q("E"))
                warmup(W, m, x0)
            q = I.alloc(QO(mk(), W.unit(ERF_UNIT, u)))
            _, ex = exits_of(ctx, W, lambda: W.meth(x0, "set_drivers", q))
            ctx.count("drivers")
            where = "%s.set_drivers, %s, %s" % (m, kind, hist)
            if I.st is not None:
                ctx.bad("refused unless one-dimensional", where, "accepted")
            else:
                ctx.ob("refused unless one-dimensional", where, bool(ex) and all("builtins.AssertionError" in W.exc_mro(e) for e in ex), "raises %s" % W.describe(ex), ex[0].site if ex else "", of=ex)
    for n in (None, 1, 2, 5):
        for way in ("set_drivers", "set_drivers(erf=...)"):
            W.restore(base)
            q = W.erf_q("E", n=n)
            pre = W.save()
            _, ex = exits_of(ctx, W, lambda: W.meth(x0, "set_drivers", q) if way == "set_drivers" else W.meth(x0, "set_drivers", erf=q))
            ctx.count("drivers")
            where = "%s.%s, %s values" % (m, way, "any number of" if n is None else n)
            ctx.ob("one-dimensional forcing accepted", where, I.st is not None and not ex, "raises %s" % W.describe(ex), ex[0].site if ex else "", of=ex)
            if I.st is None:
                continue
            ctx.ob("the forcing used is the one given", where, same_quantity(W, W.get(x0, "erf"), I.st, q, pre), "erf reads back differently")
            W.do(x0, "reset")
            W.do(x0, "step")
            if n is None or n > 1:
                W.do(x0, "step")
                # the forcing value that enters the first computed step
                N = state_arr(W, x0, "_rndt_mag").at(tm.ONE)
                used = {d for a in STATE[m] for d in nf.true_deps(state_arr(W, x0, a).at(tm.ONE)) if d.op == "sel"}
                ctx.ob("the run uses the values given", where, used == {tm.sel("E", tm.ZERO)} and not [d for d in nf.true_deps(N) if d.op == "atom" and d.args[0] in ("u:E",)], "first step uses %s" % sorted(tm.show(d) for d in used))


# ---------------------------------------------------------------------------
def c28(ctx):
    ctx.case("two-layer", c28_two, ctx)
    ctx.case("impulse response", c28_ir, ctx)
    ctx.floor("equilibria", 2)


def c28_two(ctx):
    m = "TwoLayerModel"
    S = Step(ctx, m)
    if S.k is None:
        ctx.note("%s: auxiliary state, equilibrium not analysed" % m)
        return
    T = tm.atom("Teq")
    F = tm.mul(tm.sub(S.pg["lambda0"], tm.mul(S.pg["a"], T)), T)
    sub = {tm.sel("TU", S.k): T, tm.sel("TL", S.k): T, tm.sel("E", S.k): F}
    ctx.count("equilibria")
    for a, w, what in (("_temp_upper_mag", T, "upper temperature unchanged"), ("_temp_lower_mag", T, "lower temperature unchanged"), ("_rndt_mag", tm.ZERO, "heat uptake zero")):
        ctx.ob(what, "%s at (lambda0 - a*T)*T = F" % m, nf.equal(tm.subst(S.gen[a], sub), w))


def c28_ir(ctx):
    m = "ImpulseResponseModel"
    S = ir_step(ctx)
    if S.k is None:
        ctx.note("%s: auxiliary state, equilibrium not analysed" % m)
        return
    F = tm.atom("Feq")
    T = {i: tm.mul(S.pg["q" + i], F) for i in "12"}
    sub = {tm.sel("T1", S.k): T["1"], tm.sel("T2", S.k): T["2"], tm.sel("E", S.k): F}
    ctx.count("equilibria")
    for a, w, what in (("_temp1_mag", T["1"], "box 1 unchanged"), ("_temp2_mag", T["2"], "box 2 unchanged"), ("_rndt_mag", tm.ZERO, "heat uptake zero")):
        ctx.ob(what, "%s at T_i = q_i*F" % m, nf.equal(tm.subst(S.gen[a], sub), w))
    # lambda0 of the equivalent two-layer model
    W = S.W
    W.restore(S.post)
    v, _ = W.run(lambda: W.meth(S.x, CONVERT[m]))
    c = entries(W, v) if W.I.st is not None else None
    if c and "lambda0" in c:
        ctx.ob("equilibrium temperature = F/lambda0", m, nf.equal(tm.add(T["1"], T["2"]), tm.div(F, W.si(c["lambda0"]))))
    else:
        ctx.bad("equilibrium temperature = F/lambda0", m, "no lambda0 in the converted parameters")
