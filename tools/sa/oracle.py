"""The documented equations (Held et al. 2010, Geoffroy et al. 2013), as nodes.

Everything is in SI units (temperatures in K, forcings in W/m^2); nothing here
is read from the source under analysis."""
from . import terms as tm

RHO = tm.num(1000)  # kg / m^3
CP = tm.num(4181)  # J / K / kg
a_, m_, d_, s_ = tm.add, tm.mul, tm.div, tm.sub
ONE = tm.ONE


def heat_capacity(depth):
    return m_(depth, RHO, CP)


# ------------------------------------------------------------ two-layer model
def imbalance(p, T, TD, F):
    """F - (lambda0 - a T) T - efficacy eta (T - TD)"""
    return s_(s_(F, m_(s_(p["lambda0"], m_(p["a"], T)), T)), m_(p["efficacy"], p["eta"], s_(T, TD)))


def temp_upper(p, T, TD, F):
    return a_(T, d_(m_(p["delta_t"], imbalance(p, T, TD, F)), heat_capacity(p["du"])))


def temp_lower(p, T, TD):
    return a_(TD, d_(m_(p["delta_t"], p["eta"], s_(T, TD)), heat_capacity(p["dl"])))


def uptake(p, T, TD, F):
    return s_(
        s_(F, m_(s_(p["lambda0"], m_(p["a"], T)), T)),
        m_(s_(p["efficacy"], ONE), p["eta"], s_(T, TD)),
    )


def heat_gained(p, T0, TD0, T1, TD1):
    return d_(a_(m_(heat_capacity(p["du"]), s_(T1, T0)), m_(heat_capacity(p["dl"]), s_(TD1, TD0))), p["delta_t"])


# ------------------------------------------------------------ impulse response
def box(T, q, d, dt, F):
    e = tm.fn("exp", tm.neg(d_(dt, d)))
    return a_(m_(T, e), m_(q, F, s_(ONE, e)))


def equivalent_two_layer(p):
    """two-layer parameters of an impulse response model, from the conditions
    on its two exponential modes:
      q1 + q2 = 1/lambda0                      (equilibrium)
      q1/d1 + q2/d2 = 1/C                      (initial response)
      C + efficacy C_D = lambda0 * (a1 d1 + a2 d2), a_i = lambda0 q_i
      1/(d1 d2) = lambda0 eta / (C C_D)        (product of the rates)"""
    q1, q2, d1, d2, e = (p[k] for k in ("q1", "q2", "d1", "d2", "efficacy"))
    lam = d_(ONE, a_(q1, q2))
    C = d_(ONE, a_(d_(q1, d1), d_(q2, d2)))
    lag = m_(lam, a_(m_(lam, q1, d1), m_(lam, q2, d2)))
    CD = d_(s_(lag, C), e)
    eta = d_(m_(C, CD), m_(lam, d1, d2))
    return {"lambda0": lam, "C": C, "C_D": CD, "eta": eta, "efficacy": e, "du": d_(C, m_(RHO, CP)), "dl": d_(CD, m_(RHO, CP))}


def ir_uptake(p, T1, T2, F):
    """phi_i: ratio of the lower to the upper layer temperature in mode i, from
    C_D dT_D/dt = eta (T - T_D) with dT_D/dt = -T_D/d_i"""
    w = equivalent_two_layer(p)
    phi = [d_(m_(w["eta"], d), s_(m_(w["eta"], d), w["C_D"])) for d in (p["d1"], p["d2"])]
    lower = a_(m_(s_(ONE, phi[0]), T1), m_(s_(ONE, phi[1]), T2))
    return s_(s_(F, m_(w["lambda0"], a_(T1, T2))), m_(s_(p["efficacy"], ONE), w["eta"], lower))


def mode_identities(p, v):
    """conditions that determine d1, d2, q1, q2 of a two-layer model with a=0
    (together with d1 < d2): pairs that must be equal"""
    C, CD = heat_capacity(p["du"]), heat_capacity(p["dl"])
    lam, eta, e = p["lambda0"], p["eta"], p["efficacy"]
    d1, d2, q1, q2 = v["d1"], v["d2"], v["q1"], v["q2"]
    return [
        ("sum of the rates 1/d1 + 1/d2 = (lambda0 + efficacy*eta)/C + eta/C_D", a_(d_(ONE, d1), d_(ONE, d2)), a_(d_(a_(lam, m_(e, eta)), C), d_(eta, CD))),
        ("product of the rates 1/(d1*d2) = lambda0*eta/(C*C_D)", d_(ONE, m_(d1, d2)), d_(m_(lam, eta), m_(C, CD))),
        ("equilibrium q1 + q2 = 1/lambda0", a_(q1, q2), d_(ONE, lam)),
        ("initial response q1/d1 + q2/d2 = 1/C", a_(d_(q1, d1), d_(q2, d2)), d_(ONE, C)),
    ]


def mode_gap(p):
    """d2 - d1 as a manifestly positive expression:
    (C C_D / (lambda0 eta)) * sqrt(b*^2 + 4 efficacy eta^2/(C C_D))"""
    C, CD = heat_capacity(p["du"]), heat_capacity(p["dl"])
    lam, eta, e = p["lambda0"], p["eta"], p["efficacy"]
    bs = s_(d_(a_(lam, m_(e, eta)), C), d_(eta, CD))
    rad = a_(m_(bs, bs), d_(m_(tm.num(4), e, eta, eta), m_(C, CD)))
    return m_(d_(m_(C, CD), m_(lam, eta)), tm.power(rad, tm.Fraction(1, 2)))
