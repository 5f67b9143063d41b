"""Edits that break what holds of whole trajectories (C32, C33, C35)."""
from good import B, T, R, U, E, V
from good4 import fn, rep

DEC = "        decay_factor = np.exp(-delta_t / d)\n"
RISE = "        rise = erf * q * (1 - np.exp(-delta_t / d))\n"
RET = "        return t * decay_factor + rise\n"
UP = "        return t_upper + delta_t * dT_dt\n"
LO = "        return t_lower + delta_t * dT_dt\n"
HEAT = "        heat_exchange = efficacy * eta * (t_upper - t_lower)\n"
RUN = "    def _run(self):\n        for _ in self.erf:\n            self.step()\n"

BAD = [
    ("dy-linear-decay", ["C33", "C35"], [(R, rep(DEC + RISE, "        decay_factor = 1 - delta_t / d\n        rise = erf * q * delta_t / d\n"))]),
    ("dy-second-order", ["C33", "C35"], [(R, rep(DEC + RISE, "        rate = delta_t / d\n        decay_factor = 1 - rate + rate * rate / 2\n        rise = erf * q * (1 - decay_factor)\n"))]),
    ("dy-no-sum", ["C33", "C35"], [(R, rep(RISE, "        rise = erf * q * delta_t / d\n"))][:1]),
    ("dy-midpoint", ["C33", "C35"], [(R, rep(RISE, "        rise = erf * q * delta_t / d * np.exp(-delta_t / d / 2)\n"))]),
    ("dy-abs-exchange", ["C33", "C35", "C32"], [(T, rep(HEAT, "        heat_exchange = efficacy * eta * abs(t_upper - t_lower)\n"))]),
    ("dy-lower-efficacy", ["C32"], [(T, rep("                self._eta_mag,\n                self._heat_capacity_lower_mag,\n", "                self._eta_mag * self._efficacy_mag,\n                self._heat_capacity_lower_mag,\n"))]),
    ("dy-lower-new-upper", ["C32"], [(T, rep("                self._temp_upper_mag[self._timestep_idx - 1],\n                self._eta_mag,\n", "                self._temp_upper_mag[self._timestep_idx] / 2,\n                self._eta_mag,\n"))]),
    ("dy-feedback-decay", ["C33", "C35"], [(T, rep(UP, "        return t_upper * (1 + 1e-6) + delta_t * dT_dt\n"))]),
    ("dy-sqrt-dt", ["C32"], [(T, rep(LO, "        return t_lower + delta_t * dT_dt / (1 + delta_t / 3.0e7)**0.5 * 1.00001\n"))]),
    ("dy-run-converged", ["C33", "C35"], [(T, rep(RUN, """    def _run(self):
        for _ in self.erf:
            self.step()
            i = self._timestep_idx
            if i > 0 and abs(self._temp_upper_mag[i] - self._temp_upper_mag[i - 1]) < 1e-9 and self._temp_upper_mag[i] > 0.5:
                break
"""))]),
    ("dy-run-freeze", ["C35"], [(R, rep("        else:\n            self._temp1_mag[self._timestep_idx] = ", "        elif self._timestep_idx > 1500:\n            for state in (self._temp1_mag, self._temp2_mag, self._rndt_mag):\n                state[self._timestep_idx] = state[self._timestep_idx - 1]\n\n        else:\n            self._temp1_mag[self._timestep_idx] = "))]),
    ("dy-clip", ["C33", "C35"], [(T, rep(UP, "        return max(t_upper + delta_t * dT_dt, -5.0)\n"))]),
    ("dy-conv-lambda", ["C32"], [(R, rep("        lambda0 = 1 / (self.q1 + self.q2)\n", "        lambda0 = 1 / (self.q1 + self.q2) * (1 + (self.d1 / self.d2).to(\"dimensionless\") * 1e-3)\n"))]),
    ("dy-conv-efficacy", ["C32"], [(R, rep("- C) / self.efficacy\n", "- C)\n"))]),
    ("dy-conv-efficacy2", ["C32"], [(T, rep("            \"efficacy\": self.efficacy,\n", "            \"efficacy\": self.efficacy / self.efficacy,\n"))]),
    ("dy-rndt-phi", ["C32"], [(R, rep("((1 - gh[\"phi1\"]) * t1_h + (1 - gh[\"phi2\"]) * t2_h)", "((1 - gh[\"phi2\"]) * t1_h + (1 - gh[\"phi1\"]) * t2_h)"))]),
    ("dy-a-sign", ["C33", "C35"], [(T, rep("        lambda_now = lambda0 - a * t_upper\n", "        lambda_now = lambda0 - a * t_upper\n        lambda_now = lambda_now if a == 0 else lambda0 + a * t_upper\n"))]),
    ("dy-state-start", ["C32", "C35"], [(R, rep("            self._temp2_mag[self._timestep_idx] = 0.0\n", "            self._temp2_mag[self._timestep_idx] = self._q2_mag * self._erf_mag[0] * (self._d2_mag > 1000)\n"))]),
]
BAD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in BAD]
