"""Edits that keep the behaviour: state in one table, numpy functions in place
of operators, vectors over the two boxes or modes, names and units elsewhere."""
import re

from good import B, T, R, U, E, V
from good4 import C, fn, head, rep
from good5 import CHECK, IDX, MONTHS, RUN, YEARS, chain

RESET_T = """        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp_lower_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
"""
INIT_T = """        self._temp_upper_mag = np.zeros(1) * np.nan
        self._temp_lower_mag = np.zeros(1) * np.nan
        self._rndt_mag = np.zeros(1) * np.nan
"""
TAU = """    tau1 = taucoeff * (b - delta ** 0.5)
    tau2 = taucoeff * (b + delta ** 0.5)
"""
PHI = """    phi1 = phicoeff * (b_star - delta ** 0.5)
    phi2 = phicoeff * (b_star + delta ** 0.5)
"""


def local_now(s):
    """the step with the index in local variables"""
    a = s.index("        if np.equal(self._timestep_idx, 0):")
    b = s.index("    @staticmethod", a)
    body = s[a:b].replace("self._timestep_idx - 1", "prev").replace("self._timestep_idx", "now")
    return s[:a] + "        now = self._timestep_idx\n        prev = now - 1\n" + body + s[b:]


def units_const(s):
    return re.sub(r"val\.to\(self\._(\w+)_unit\)\.magnitude", r"ur.Quantity(val).to(self._\1_unit).magnitude", s)


GOOD = [
    ("w-state-table", None, [(T, chain(rep(RESET_T, "        self._state = np.full((3, len(self._erf_mag)), np.nan)\n        self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag = self._state\n")))]),
    ("w-state-loop", None, [(T, rep(RESET_T, """        shape = np.shape(self._erf_mag)
        for name in ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"):
            setattr(self, name, np.full(shape, np.nan))
"""))]),
    ("w-init-loop", None, [(T, rep(INIT_T, """        for name in ("temp_upper", "temp_lower", "rndt"):
            setattr(self, "_{}_mag".format(name), np.array([np.nan]))
"""))]),
    ("w-local-now", None, [(T, local_now), (R, local_now)]),
    ("w-np-ops", None, [(T, rep("""        dT_dt = (erf - lambda_now * t_upper - heat_exchange) / heat_capacity_upper

        return t_upper + delta_t * dT_dt
""", """        imbalance = np.subtract(np.subtract(erf, np.multiply(lambda_now, t_upper)), heat_exchange)

        return np.add(t_upper, np.multiply(delta_t, np.divide(imbalance, heat_capacity_upper)))
"""))]),
    ("w-operator", None, [(T, chain(head("import operator"), rep("        return uptake_upper + uptake_lower\n", "        return operator.add(uptake_upper, uptake_lower)\n")))]),
    ("w-sum-tuple", None, [(T, rep("        return uptake_upper + uptake_lower\n", "        return sum((uptake_upper, uptake_lower))\n"))]),
    ("w-np-sum", None, [(T, rep("        return uptake_upper + uptake_lower\n", "        return np.sum([uptake_upper, uptake_lower])\n"))]),
    ("w-boxes-vector", None, [(R, fn("_step", '''
    def _step(self):
        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0
        else:
            self._timestep_idx += 1

        now = self._timestep_idx
        if now == 0:
            self._temp1_mag[now] = self._temp2_mag[now] = self._rndt_mag[now] = 0.0
            return

        prev = now - 1
        erf = self._erf_mag[prev]
        temps = np.array([self._temp1_mag[prev], self._temp2_mag[prev]])
        sensitivities = np.array([self._q1_mag, self._q2_mag])
        timescales = np.array([self._d1_mag, self._d2_mag])
        self._temp1_mag[now], self._temp2_mag[now] = self._calculate_next_temp(
            self._delta_t_mag, temps, sensitivities, timescales, erf
        )
        self._rndt_mag[now] = self._calculate_next_rndt(
            temps[0], temps[1], erf, self._efficacy_mag
        )
'''))]),
    ("w-boxes-getattr", None, [(R, chain(fn("_step", '''
    def _step(self):
        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0
        else:
            self._timestep_idx += 1

        now = self._timestep_idx
        if now == 0:
            for name in ("_temp1_mag", "_temp2_mag", "_rndt_mag"):
                getattr(self, name)[now] = 0.0
            return

        for box in (1, 2):
            temp = getattr(self, "_temp%d_mag" % box)
            temp[now] = self._calculate_next_temp(
                self._delta_t_mag,
                temp[now - 1],
                getattr(self, "_q%d_mag" % box),
                getattr(self, "_d%d_mag" % box),
                self._erf_mag[now - 1],
            )
        self._rndt_mag[now] = self._calculate_next_rndt(
            self._temp1_mag[now - 1],
            self._temp2_mag[now - 1],
            self._erf_mag[now - 1],
            self._efficacy_mag,
        )
''')))]),
    ("w-math-exp", None, [(R, chain(head("import math"), rep("np.exp(-delta_t / d)", "math.exp(-delta_t / d)", 0)))]),
    ("w-exp-once", None, [(R, rep("        rise = erf * q * (1 - np.exp(-delta_t / d))\n", "        rise = (1 - decay_factor) * q * erf\n"))]),
    ("w-relax", None, [(R, fn("_calculate_next_temp", '''
    @staticmethod
    def _calculate_next_temp(delta_t, t, q, d, erf):
        equilibrium = q * erf

        return equilibrium + (t - equilibrium) * np.exp(-delta_t / d)
'''))]),
    ("w-geo-signs", None, [(B, chain(rep(TAU, "    root = delta ** 0.5\n    tau1, tau2 = [taucoeff * (b + sign * root) for sign in (-1, 1)]\n"), rep(PHI, "    phi1, phi2 = (phicoeff * (b_star + sign * root) for sign in (-1, 1))\n")))]),
    ("w-geo-np-sqrt", None, [(B, chain(lambda s: s.replace("delta ** 0.5", "np.sqrt(delta)")))]),
    ("w-geo-power", None, [(B, chain(rep("b ** 2", "b * b"), lambda s: s.replace("delta ** 0.5", "pow(delta, 0.5)")))]),
    ("w-geo-vieta", None, [(B, rep("    tau2 = taucoeff * (b + delta ** 0.5)\n", "    tau2 = 2 * taucoeff * b - tau1\n"))]),
    ("w-check-else", None, [(B, rep(CHECK, """        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            error = UnitError("Wrong units for `{}`".format(name))
            raise error from exc
        else:
            return
"""))]),
    ("w-check-units", None, [(B, rep(CHECK, """        target = ur.parse_units(model_units)
        try:
            quantity.to(target)
        except pint.DimensionalityError as exc:
            raise UnitError(f"Wrong units for `{name}`") from exc
"""))]),
    ("w-check-cause", None, [(B, rep(CHECK, """        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            error = UnitError("Wrong units for `{}`".format(name))
            error.__cause__ = exc
            raise error
"""))]),
    ("w-requantify", None, [(T, units_const), (R, units_const)]),
    ("w-isnan-mag", None, [(T, rep("np.isnan(self.erf).any()", "np.any(np.isnan(self.erf.magnitude if hasattr(self.erf, \"magnitude\") else self.erf))")), (R, rep("np.isnan(self.erf).any()", "bool(np.isnan(self.erf).sum())"))]),
    ("w-run-mag", None, [(T, rep("for _ in self.erf:", "for _ in range(np.shape(self.erf)[0]):")), (R, rep("for _ in self.erf:", "for _ in range(self.erf.shape[0]):"))]),
    ("w-run-countdown", None, [(T, rep(RUN, """    def _run(self):
        left = len(self.erf)
        while left > 0:
            self.step()
            left -= 1
"""))]),
    ("w-run-iter", None, [(T, rep(RUN, """    def _run(self):
        values = iter(self.erf)
        while True:
            try:
                next(values)
            except StopIteration:
                return
            self.step()
"""))]),
    ("w-run-listcomp", None, [(T, rep("        for _ in self.erf:\n            self.step()\n", "        any(self.step() for _ in range(len(self.erf)))\n"))]),
    ("w-a-property", None, [(T, chain(rep("        if not np.equal(self.a.magnitude, 0):\n", "        if self._has_state_dependence():\n"), rep("    def get_impulse_response_parameters(self)", "    def _has_state_dependence(self):\n        return self.a.magnitude != 0\n\n    def get_impulse_response_parameters(self)")))]),
    ("w-a-quantity", None, [(T, rep("        if not np.equal(self.a.magnitude, 0):\n", "        if self.a != 0 * self.a.units:\n"))]),
    ("w-irp-sum", None, [(T, rep('        q2 = -gh["tau2"] * gh["phi1"] / qdenom\n', '        q2 = 1 / self.lambda0 - q1\n'))]),
    ("w-two-geo", None, [(R, chain(rep("        du = C / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n        dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n", "        du, dl = [c / DENSITY_WATER / HEAT_CAPACITY_WATER for c in (C, C_D)]\n")))]),
    ("w-two-power", None, [(R, rep("        lambda0 = 1 / (self.q1 + self.q2)\n", "        lambda0 = (self.q1 + self.q2) ** -1\n"))]),
    ("w-rndt-form", None, [(R, rep("        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag\n\n        return out\n", "        return -(lambda0_mag * (t1 + t2) + efficacy_term_mag - erf)\n"))]),
    ("w-rndt-noguard", None, [(R, rep("        if np.equal(efficacy, 1):\n", "        if efficacy - 1 == 0:\n"))]),
    ("w-years-set", None, [(B, rep(YEARS, '        year_diff = driver["year"].diff().dropna()\n        if set(year_diff) <= {1}:\n'))]),
    ("w-years-diffs", None, [(B, rep(YEARS, '        years = np.asarray(driver["year"])\n        if np.all(np.diff(years) == 1):\n'))]),
    ("w-months-min", None, [(B, rep(MONTHS, """        time_diff = driver["time"].diff().dropna()
        shortest, longest = np.timedelta64(28, "D"), np.timedelta64(31, "D")
        if time_diff.ge(shortest).all() and time_diff.le(longest).all():
"""))]),
    ("w-months-zip", None, [(B, rep(MONTHS, """        times = list(driver["time"])
        gaps = [later - earlier for earlier, later in zip(times, times[1:])]
        if all(
            np.timedelta64(28, "D") <= gap <= np.timedelta64(31, "D") for gap in gaps
        ):
"""))]),
    ("w-scen-partition", None, [(B, chain(rep("            out_run_tss = [out_run_tss_base]\n            out_run_tss += self._get_run_output_tss(out_run_tss[0])\n", "            out_run_tss = [out_run_tss_base, *self._get_run_output_tss(out_run_tss_base)]\n")))]),
    ("w-scen-meta-first", None, [(B, chain(rep('            out_run["climate_model"] = self._name\n            for k, v in save_paras_meta.items():\n                out_run[k] = v\n            out_run["run_idx"] = i\n', '            for k, v in {\n                "climate_model": self._name,\n                **save_paras_meta,\n                "run_idx": i,\n            }.items():\n                out_run[k] = v\n')))]),
    ("w-scen-idx-lambda", None, [(B, chain(rep("""        def get_ordered_timeseries(in_ts):
            in_ts = in_ts.reorder_levels(idx)

            return in_ts

        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )

        return out
""", """        ordered = (r.timeseries().reorder_levels(idx) for r in run_store)

        return ScmRun(pd.concat(list(ordered), axis=0))
""")))]),
    ("w-scen-while", None, [(B, chain(rep("        run_store = list()\n", "        run_store = []\n"), rep("if np.equal(driver.shape[0], 0):", "if not driver.shape[0]:")))]),
    ("w-ensure-ternary", None, [(B, rep("""        if not isinstance(scenarios, ScmRun):
            # copy as ScmRun formats the data it is given in place
            driver = ScmRun(copy.deepcopy(scenarios))
        else:
            driver = scenarios.copy()

        return driver
""", """        return (
            scenarios.copy()
            if isinstance(scenarios, ScmRun)
            else ScmRun(copy.deepcopy(scenarios))
        )
"""))]),
    ("w-outputs-table", None, [(T, fn("_get_run_output_tss", '''
    def _get_run_output_tss(self, ts_base):
        outputs = {
            "Surface Temperature|Upper": (self._temp_upper_unit, self._temp_upper_mag),
            "Surface Temperature|Lower": (self._temp_lower_unit, self._temp_lower_mag),
            "Heat Uptake": (self._rndt_unit, self._rndt_mag),
        }

        return [
            self._create_ts(ts_base, unit, variable, values)
            for variable, (unit, values) in outputs.items()
        ]
'''))]),
    ("w-ecs-order", None, [(U, rep("return -f2x / lambda_val", "return -(f2x / lambda_val)"))]),
    ("w-ecs-recip", None, [(U, rep("return -f2x / lambda_val", "return f2x * (-1 / lambda_val)"))]),
    ("w-heat-base", None, [(T, chain(rep("return self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "return self._heat_capacity(self.du)"), rep("return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "return self._heat_capacity(self.dl)"), rep("    def _reset(self):", "    @staticmethod\n    def _heat_capacity(depth):\n        return DENSITY_WATER * HEAT_CAPACITY_WATER * depth\n\n    def _reset(self):")))]),
    ("w-idx-none-check", None, [(T, rep(IDX, """        not_started = self._timestep_idx != self._timestep_idx
        self._timestep_idx = 0 if not_started else 1 + self._timestep_idx
"""))]),
]
GOOD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in GOOD]
