"""More edits that break a property."""
from good import sub, V, B, T, R, U, E
from good2 import ASSERT_OLD, DRIVE_OLD, STEP_HEAD, CHECK, RUN, RESET_T, RESET_R, RNDT_R, K

I = "__init__.py"
FEED = "        lambda_now = lambda0 - a * t_upper\n"
ISQ = "        if not isinstance(quantity, pint.Quantity):\n"
DT_SET = "        self._delta_t = val\n        self._delta_t_mag = val.to(self._delta_t_unit).magnitude\n"
ERF_SET = "        self._erf = val\n        self._erf_mag = val.to(self._erf_unit).magnitude\n"
TL0 = "        lambda0 = 1 / (self.q1 + self.q2)\n"
GH_IN_RNDT = "            gh = _calculate_geoffroy_helper_parameters(\n"

BAD = [
    # ---- C01
    ("p-hasattr", ["C01"], [(B, ISQ, '        if not hasattr(quantity, "to"):\n')]),
    ("p-numbers", ["C01"], [(B, ISQ, "        if isinstance(quantity, (int, float)):\n            return\n\n" + ISQ), (B, "val.to(self._delta_t_unit)", "ur.Quantity(val, self._delta_t_unit).to(self._delta_t_unit)")]),
    ("p-zero-any-unit", ["C01"], [(B, "        try:\n            quantity.to(model_units)\n", "        if np.all(quantity.magnitude == 0):\n            return\n\n        try:\n            quantity.to(model_units)\n"), (T, "        self._a_mag = val.to(self._a_unit).magnitude\n", "        self._a_mag = 0.0 if val.magnitude == 0 else val.to(self._a_unit).magnitude\n")]),
    ("p-dimensionless", ["C01"], [(T, '        self._assert_is_pint_quantity_with_units(val, "efficacy", self._efficacy_unit)\n', '        if not isinstance(val, (float, int)):\n            self._assert_is_pint_quantity_with_units(\n                val, "efficacy", self._efficacy_unit\n            )\n        val = val * ur("dimensionless")\n')]),
    ("p-drivers-direct", ["C01"], [(B, "        self.erf = erf\n", '        self._erf = erf\n        self._erf_mag = getattr(erf, "magnitude", erf)\n')]),
    ("p-unit-seen", ["C01"], [(B, "        try:\n            quantity.to(model_units)\n", "        if str(quantity.units) in Model._accepted:\n            return\n\n        try:\n            quantity.to(model_units)\n"), (B, 'raise UnitError("Wrong units for `{}`".format(name)) from exc\n', 'raise UnitError("Wrong units for `{}`".format(name)) from exc\n\n        Model._accepted.add(str(quantity.units))\n'), (B, "    _name = None  # model name\n", "    _name = None  # model name\n\n    _accepted = set()\n")]),
    ("p-none-default", ["C01"], [(T, "        self.efficacy = efficacy\n", '        self.efficacy = efficacy if efficacy is not None else 1.0 * ur("dimensionless")\n')]),
    ("p-wrong-order", ["C01"], [(B, ASSERT_OLD, """        try:
            quantity.to(model_units)
        except (pint.errors.DimensionalityError, AttributeError) as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
""")]),
    ("p-positive-only", ["C01"], [(R, "        self._q2 = val\n", '        if val.magnitude < 0:\n            raise UnitError("q2 must be positive")\n        self._q2 = val\n'), (R, "import ModelStateError", "import ModelStateError, UnitError")]),
    ("p-dims-only-base", ["C01"], [(R, '        self._assert_is_pint_quantity_with_units(val, "q2", self._q2_unit)\n', '        self._assert_is_pint_quantity_with_units(val, "q2", self._q1_unit if hasattr(self, "_q2") else self._erf_unit)\n')]),
    # ---- C02
    ("r-set-before", ["C02"], [(T, '        self._assert_is_pint_quantity_with_units(val, "eta", self._eta_unit)\n        self._eta = val\n', '        self._eta = val\n        self._assert_is_pint_quantity_with_units(val, "eta", self._eta_unit)\n')]),
    ("r-drivers-then-check", ["C02"], [(B, DRIVE_OLD, "        self.erf = erf\n\n        if np.ndim(erf) != 1:\n            raise AssertionError(\"erf must be one-dimensional\")\n")]),
    ("r-reset-first", ["C02"], [(T, CHECK + "\n        self._timestep_idx = np.nan\n", "        self._timestep_idx = np.nan\n\n" + CHECK + "\n")]),
    ("r-reset-rndt", ["C02"], [(R, CHECK, "        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan\n" + CHECK), ]),
    ("r-invalidate", ["C02"], [(B, '        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)\n', '        self._timestep_idx = np.nan\n        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)\n')]),
    ("r-ito", ["C03"], [(B, "            quantity.to(model_units)\n", "            quantity.ito(model_units)\n")]),
    # ---- C03
    ("k-dt-converted", ["C03"], [(B, "        self._delta_t = val\n", "        self._delta_t = val.to(self._delta_t_unit)\n")]),
    ("k-erf-base", ["C03"], [(B, "        self._erf = val\n", "        self._erf = val.to_base_units()\n")]),
    ("k-erf-last", ["C03"], [(T, "        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        self._erf_mag[-1] = self._erf_mag[-2] if len(self._erf_mag) > 1 else 0.0\n        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like")]),
    ("k-efficacy-set", ["C03"], [(R, TL0, "        if self.efficacy.magnitude == 0:\n            self.efficacy = 1 * ur(self._efficacy_unit)\n" + TL0)]),
    ("k-scen-efficacy", ["C03"], [(B, "            self.reset()\n            self.run()\n", "            if i and hasattr(self, \"a\"):\n                self.a = self.a.to(self._a_unit)\n            self.reset()\n            self.run()\n")]),
    ("k-getter-to", ["C03"], [(R, "        return self._d2\n", "        return self._d2.to(self._d2_unit)\n")]),
    ("k-reduced", ["C03"], [(T, "        self._lambda0 = val\n", "        self._lambda0 = val.to_reduced_units()\n")]),
    # ---- C04
    ("s-two-layer-cached", ["C04"], [(R, "        two_layer_paras = self.get_two_layer_parameters()\n        lambda0 = ", "        if self._two_layer_paras is None:\n            self._two_layer_paras = self.get_two_layer_parameters()\n        two_layer_paras = self._two_layer_paras\n        lambda0 = "), (R, "        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like", "        self._two_layer_paras = None\n        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like"), (R, "        self._erf = np.zeros(1) * np.nan\n", "        self._erf = np.zeros(1) * np.nan\n        self._two_layer_paras = None\n")]),
    ("s-cache-key", ["C04"], [(R, "        two_layer_paras = self.get_two_layer_parameters()\n        lambda0 = ", "        key = (self._q1_mag, self._q2_mag, self._d1_mag, self._d2_mag)\n        if getattr(self, \"_paras_key\", None) != key:\n            self._paras = self.get_two_layer_parameters()\n            self._paras_key = key\n        two_layer_paras = self._paras\n        lambda0 = ")]),
    ("s-decay-reset", ["C04"], [(R, "        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like", "        self._ratio1 = self._delta_t_mag / self._d1_mag\n        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like"), (R, "                self._temp1_mag[self._timestep_idx - 1],\n                self._q1_mag,\n                self._d1_mag,\n", "                self._temp1_mag[self._timestep_idx - 1],\n                self._q1_mag,\n                self._delta_t_mag / self._ratio1,\n")]),
    ("s-same-number", ["C04"], [(T, '        self._assert_is_pint_quantity_with_units(val, "eta", self._eta_unit)\n', '        self._assert_is_pint_quantity_with_units(val, "eta", self._eta_unit)\n        if hasattr(self, "_eta") and self._eta.magnitude == val.magnitude:\n            self._eta = val\n            return\n')]),
    ("s-du-lazy", ["C04"], [(T, """        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
            self._heat_capacity_upper_unit
        ).magnitude
""", """        if not hasattr(self, "_heat_capacity_upper_mag"):
            self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
                self._heat_capacity_upper_unit
            ).magnitude
"""), (T, "        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(\n            self._heat_capacity_upper_unit\n        ).magnitude\n        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like")]),
    ("s-lru", ["C04"], [(T, "    def get_impulse_response_parameters", "    @functools.lru_cache(maxsize=None)\n    def get_impulse_response_parameters"), (T, "import numpy as np\n", "import functools\n\nimport numpy as np\n")]),
    ("s-dt-frozen", ["C04"], [(T, "    def _step(self):\n", "    def _step(self):\n        if np.isnan(self._timestep_idx):\n            self._dt = self._delta_t_mag\n"), (T, "self._calculate_next_temp_lower(\n                self._delta_t_mag", "self._calculate_next_temp_lower(\n                self._dt")]),
    # ---- C05
    ("u-erf-mag", ["C05"], [(B, "        self._erf_mag = val.to(self._erf_unit).magnitude\n", "        self._erf_mag = val.magnitude\n")]),
    ("u-dt-mag", ["C05"], [(R, "                self._delta_t_mag,\n                self._temp2_mag", "                self.delta_t.magnitude,\n                self._temp2_mag")]),
    ("u-eff-branch", ["C05"], [(R, "        if np.equal(efficacy, 1):", "        if np.equal(self.efficacy.magnitude, 1):")]),
    ("u-a-tol", ["C05", "C17"], [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if abs(self.a.magnitude) > 1e-9:\n")]),
    ("u-q-format", ["C05"], [(R, TL0, '        if "delta" not in str(self.q1.units):\n            raise ValueError("q1 must be a temperature difference")\n' + TL0)]),
    # ---- C06
    ("f-clip-feedback", ["C06"], [(T, FEED, "        lambda_now = max(lambda0 - a * t_upper, 0)\n")]),
    ("f-abs", ["C06"], [(T, FEED, "        lambda_now = lambda0 - a * np.abs(t_upper)\n")]),
    ("f-lower-uses-new", ["C06"], [(T, "                self._temp_lower_mag[self._timestep_idx - 1],\n                self._temp_upper_mag[self._timestep_idx - 1],\n                self._eta_mag,", "                self._temp_lower_mag[self._timestep_idx - 1],\n                self._temp_upper_mag[self._timestep_idx],\n                self._eta_mag,")]),
    ("f-substep", ["C06"], [(T, "        return t_upper + delta_t * dT_dt\n", "        if delta_t > 10 * 365.25 * 24 * 3600:\n            half = t_upper + delta_t / 2 * dT_dt\n            return half + delta_t / 2 * (erf - lambda0 * half - heat_exchange) / heat_capacity_upper\n\n        return t_upper + delta_t * dT_dt\n")]),
    ("f-small", ["C06"], [(T, "        return t_lower + delta_t * dT_dt\n", "        if np.abs(dT_dt * delta_t) < 1e-12:\n            return t_lower\n\n        return t_lower + delta_t * dT_dt\n")]),
    ("f-efficacy-lower", ["C06"], [(T, "                self._temp_upper_mag[self._timestep_idx - 1],\n                self._eta_mag,\n                self._heat_capacity_lower_mag,\n", "                self._temp_upper_mag[self._timestep_idx - 1],\n                self._eta_mag * (self._efficacy_mag if self._efficacy_mag > 2 else 1),\n                self._heat_capacity_lower_mag,\n")]),
    ("f-first-step-mean", ["C06", "C10"], [(T, "                self._erf_mag[self._timestep_idx - 1],\n                self._lambda0_mag,", "                self._erf_mag[self._timestep_idx - 1]\n                if self._timestep_idx > 1\n                else self._erf_mag[:2].mean(),\n                self._lambda0_mag,")]),
    ("f-float32", ["C06"], [(T, "        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan\n", "        self._temp_upper_mag = np.full(self._erf_mag.shape, np.nan, dtype=np.float32)\n")]),
    ("f-int-series", ["C06"], [(T, "        self._temp_lower_mag = np.zeros_like(self._erf_mag) * np.nan\n", "        self._temp_lower_mag = np.zeros_like(self._erf_mag)\n")]),
    ("f-round", ["C06"], [(T, "        return t_upper + delta_t * dT_dt\n", "        return round(t_upper + delta_t * dT_dt, 12)\n")]),
    ("f-linear-warming", ["C06"], [(T, FEED, "        lambda_now = lambda0 - a * t_upper if t_upper > 0 else lambda0\n")]),
    # ---- C07
    ("h-lower-missing", ["C07"], [(T, "        return uptake_upper + uptake_lower\n", "        return uptake_upper + uptake_lower if t_lower_now >= t_lower_prev else uptake_upper - uptake_lower\n")]),
    ("h-yr", ["C07"], [(T, "        uptake_lower = heat_capacity_lower * (t_lower_now - t_lower_prev) / delta_t\n", "        uptake_lower = heat_capacity_lower * (t_lower_now - t_lower_prev) / max(delta_t, 3600)\n")]),
    ("h-nonneg", ["C07"], [(T, "        return uptake_upper + uptake_lower\n", "        return np.maximum(uptake_upper + uptake_lower, -heat_capacity_upper)\n")]),
    ("h-cap-swapped", ["C07"], [(T, "                self._temp_lower_mag[self._timestep_idx - 1],\n                self._heat_capacity_lower_mag,\n                self._temp_upper_mag[self._timestep_idx],", "                self._temp_lower_mag[self._timestep_idx - 1],\n                min(self._heat_capacity_lower_mag, 1e11),\n                self._temp_upper_mag[self._timestep_idx],")]),
    # ---- C08
    ("e-series", ["C08"], [(R, "        rise = erf * q * (1 - np.exp(-delta_t / d))\n", "        if delta_t / d < 1e-8:\n            rise = erf * q * delta_t / d\n        else:\n            rise = erf * q * (1 - np.exp(-delta_t / d))\n")]),
    ("e-cap", ["C08"], [(R, "        decay_factor = np.exp(-delta_t / d)\n", "        decay_factor = np.exp(-min(delta_t / d, 50))\n")]),
    ("e-total-nan", ["C08"], [(R, "                values=self._temp1_mag + self._temp2_mag,\n", "                values=np.maximum(self._temp1_mag + self._temp2_mag, self._temp1_mag),\n")]),
    ("e-euler", ["C08"], [(R, "        return t * decay_factor + rise\n", "        return t * decay_factor + rise if t != 0 else erf * q * delta_t / d\n")]),
    ("e-box2", ["C08"], [(R, "                self._q2_mag,\n                self._d2_mag,\n", "                self._q2_mag,\n                max(self._d1_mag, self._d2_mag),\n")]),
    # ---- C09
    ("g-phi-swapped", ["C09"], [(R, '((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)', '((1 - gh["phi2"]) * t1_h + (1 - gh["phi1"]) * t2_h)')]),
    ("g-skip-small", ["C09"], [(R, "        if np.equal(efficacy, 1):", "        if np.equal(efficacy, 1) or np.equal(t1 + t2, 0):")]),
    ("g-lambda", ["C09"], [(R, "        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag\n", "        out = erf - lambda0_mag * (t1 + t2 * min(efficacy, 1)) - efficacy_term_mag\n")]),
    ("g-now", ["C09"], [(R, "                self._temp2_mag[self._timestep_idx - 1],\n                self._erf_mag[self._timestep_idx - 1],\n                self._efficacy_mag,", "                self._temp2_mag[self._timestep_idx],\n                self._erf_mag[self._timestep_idx - 1],\n                self._efficacy_mag,")]),
    # ---- C10
    ("c-now", ["C10"], [(R, "                self._erf_mag[self._timestep_idx - 1],\n                self._efficacy_mag,", "                self._erf_mag[self._timestep_idx],\n                self._efficacy_mag,")]),
    ("c-nonzero-first", ["C10"], [(R, "            self._temp1_mag[self._timestep_idx] = 0.0\n", "            self._temp1_mag[self._timestep_idx] = (\n                0.0 if len(self._temp1_mag) > 1 else self._q1_mag * self._erf_mag[0]\n            )\n")]),
    ("c-two-back", ["C10"], [(T, "                self._temp_lower_mag[self._timestep_idx - 1],\n                self._erf_mag", "                self._temp_lower_mag[max(self._timestep_idx - 2, 0)],\n                self._erf_mag")]),
    ("c-offset", ["C10"], [(R, "            self._rndt_mag[self._timestep_idx] = 0.0\n", "            self._rndt_mag[self._timestep_idx] = self._erf_mag[self._timestep_idx]\n")]),
    # ---- C11
    ("n-minus-one", ["C11"], [(R, RUN, "        for _ in self.erf[1:]:\n            self.step()\n        if len(self.erf) < 3:\n            self.step()\n")]),
    ("n-steady", ["C11"], [(T, RUN, "        for _ in self.erf:\n            self.step()\n            if self._timestep_idx > 1000 and self._rndt_mag[self._timestep_idx] == 0:\n                break\n")]),
    ("n-unique", ["C11"], [(T, RUN, "        for _ in set(self.erf.magnitude):\n            self.step()\n")]),
    ("n-nonzero", ["C11"], [(R, RUN, "        for erf in self._erf_mag:\n            if not np.isinf(erf):\n                self.step()\n")]),
    ("n-double", ["C11"], [(T, "            self._timestep_idx += 1\n", "            self._timestep_idx += 1 if self._timestep_idx + 1 < len(self._erf_mag) else 0\n")]),
    # ---- C12
    ("z-warm-start", ["C12"], [(R, "            self._temp2_mag[self._timestep_idx] = 0.0\n", "            self._temp2_mag[self._timestep_idx] = self._last_t2\n"), (R, "        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like", "        self._last_t2 = 0.0 if np.isnan(self._temp2_mag[-1]) else self._temp2_mag[-1] * 0.0 + self._temp2_mag[0]\n        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like"), (R, "        self._erf = np.zeros(1) * np.nan\n", "        self._erf = np.zeros(1) * np.nan\n        self._last_t2 = 0.0\n")]),
    ("z-carry", ["C12"], [(R, "            self._temp2_mag[self._timestep_idx] = 0.0\n", "            self._temp2_mag[self._timestep_idx] = getattr(self, \"_deep\", 0.0)\n"), (R, "    def _get_run_output_tss", "    def run(self):\n        super().run()\n        self._deep = self._temp2_mag[-1]\n\n    def _get_run_output_tss")]),
    ("z-inplace", ["C12"], [(T, "        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan\n", "        if len(self._temp_upper_mag) < len(self._erf_mag):\n            self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan\n")]),
    ("z-idx-conditional", ["C12"], [(R, "        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like", "        if not np.isnan(self._timestep_idx) and self._timestep_idx > 0:\n            self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like")]),
    ("z-counter", ["C12"], [(T, "    def _step(self):\n", "    def _step(self):\n        self._n_steps = getattr(self, \"_n_steps\", 0) + 1\n"), (T, "            self._temp_upper_mag[self._timestep_idx] = 0.0\n", "            self._temp_upper_mag[self._timestep_idx] = 0.0 if self._n_steps < 10 ** 6 else 1e-12\n")]),
    # ---- C13
    ("v13-all", ["C13"], [(R, "np.isnan(self.erf).any()", "np.isnan(self.erf).all()")]),
    ("v13-first", ["C13"], [(T, "        if np.isnan(self.erf).any():", "        if np.isnan(self.erf[0]):")]),
    ("v13-fill", ["C13"], [(B, "        self._erf_mag = val.to(self._erf_unit).magnitude\n", "        self._erf_mag = val.to(self._erf_unit).magnitude\n        self._drivers_set = True\n"), (T, "        if np.isnan(self.erf).any():", "        if not self._drivers_set:"), (B, '    _erf_unit = "W/m^2"\n', '    _erf_unit = "W/m^2"\n    _drivers_set = False\n')]),
    ("v13-infinite", ["C13"], [(R, "        if np.isnan(self.erf).any():", "        if not np.isfinite(self.erf).all():")]),
    ("v13-sum", ["C13"], [(T, "        if np.isnan(self.erf).any():", "        if np.isnan(np.nansum(self.erf)):")]),
    ("v13-valueerror", ["C13"], [(R, "            raise ModelStateError(", "            raise ValueError("), ]),
    ("v13-short", ["C13"], [(T, "        if np.isnan(self.erf).any():", "        if len(self.erf) == 1 or np.isnan(self.erf).any():")]),
    # ---- C14
    ("d-gt", ["C14"], [(B, "        if np.ndim(erf) != 1:", "        if np.ndim(erf) > 1:")]),
    ("d-squeeze", ["C14"], [(B, DRIVE_OLD, "        erf = np.squeeze(erf)\n" + DRIVE_OLD)]),
    ("d-atleast", ["C14"], [(B, "        if np.ndim(erf) != 1:", "        if np.ndim(np.atleast_1d(erf)) != 1:")]),
    ("d-shape0", ["C14"], [(B, "        if np.ndim(erf) != 1:", "        if np.ndim(erf) not in (1, 3):")]),
    ("d-modified", ["C14"], [(B, "        self.erf = erf\n", "        self.erf = erf - erf[0] if erf[0] > 100 * ur(self._erf_unit) else erf\n")]),
    ("d-override", ["C14"], [(R, "    def _reset(self):\n", "    def set_drivers(self, erf):\n        self.erf = erf\n\n    def _reset(self):\n")]),
    ("d-typeerror", ["C14"], [(B, '            raise AssertionError("erf must be one-dimensional")', '            raise ValueError("erf must be one-dimensional")')]),
    # ---- C15 / C16
    ("i-q-eff", ["C15"], [(T, '        q1 = gh["tau1"] * gh["phi2"] / qdenom\n', '        q1 = gh["tau1"] * gh["phi2"] / qdenom * (1 if self.efficacy.magnitude <= 2 else self.efficacy)\n')]),
    ("i-bstar", ["C15"], [(B, "    b_pt1 = (lambda0 + efficacy * eta) / (C)\n", "    b_pt1 = (lambda0 + eta) / (C)\n")]),
    ("i-extra", ["C15"], [(T, '            "d1": d1,\n', '            "d1": d1,\n            "lambda0": self.lambda0,\n')]),
    ("i-rename", ["C16"], [(R, '            "eta": eta,\n            "efficacy"', '            "eta": eta,\n            "C": C,\n            "efficacy"')]),
    ("i-cd-eff", ["C16"], [(R, "        C_D = (lambda0 * (self.d1 * a1 + self.d2 * a2) - C) / self.efficacy\n        eta = C_D / (self.d1 * a2 + self.d2 * a1)\n", "        C_D = lambda0 * (self.d1 * a1 + self.d2 * a2) - C\n        eta = C_D / (self.d1 * a2 + self.d2 * a1)\n        C_D = C_D / self.efficacy\n")]),
    ("i-sum", ["C16"], [(R, "        a1 = lambda0 * self.q1\n", "        a1 = lambda0 * abs(self.q1)\n")]),
    ("i-dl-floor", ["C16"], [(R, "        dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n", "        dl = max(C_D, C) / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n")]),
    # ---- C17
    ("a-positive", ["C17"], [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if self.a.magnitude > 0:\n")]),
    ("a-round", ["C17"], [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if round(self.a.magnitude, 15):\n")]),
    ("a-int", ["C17"], [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if int(self._a_mag * 1e12) != 0:\n")]),
    ("a-relative", ["C17"], [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if self._lambda0_mag + self._a_mag != self._lambda0_mag:\n")]),
    ("a-modelstate", ["C17"], [(T, "            raise ValueError(\n                \"Cannot calculate", "            raise NotImplementedError(\n                \"Cannot calculate")]),
    # ---- C18
    ("o-gt", ["C18"], [(R, "        if d1 >= d2:\n", "        if d1 > d2:\n")]),
    ("o-swap", ["C18"], [(R, "        self.d1 = d1\n        self.d2 = d2\n", "        d1, d2 = min(d1, d2), max(d1, d2)\n        self.d1 = d1\n        self.d2 = d2\n")]),
    ("o-factor", ["C18"], [(R, "        if d1 >= d2:\n", "        if d1 >= 0.999 * d2:\n")]),
    ("o-int", ["C18"], [(R, "        if d1 >= d2:\n", "        if d1.to(d2.units).magnitude // 1 > d2.magnitude // 1:\n")]),
    ("o-tau", ["C18"], [(T, '        d1 = gh["tau1"]\n        d2 = gh["tau2"]\n', '        d1 = gh["tau2"]\n        d2 = gh["tau1"]\n')]),
    ("o-default", ["C18"], [(R, "        if d1 >= d2:\n", "        if d2 != 400.0 * ur(\"yr\") and d1 >= d2:\n")]),
    # ---- C25
    ("ecs-abs", ["C25"], [(U, "    return -f2x / lambda_val\n", "    return abs(f2x / lambda_val)\n")]),
    ("ecs-float", ["C25"], [(U, '        raise TypeError("f2x is not a pint.Quantity")\n', '        f2x = f2x * unit_registry("W/m^2")\n')]),
    ("ecs-default", ["C25"], [(U, "f2x=3.74 * unit", "f2x=3.71 * unit")]),
    ("ecs-convert", ["C25"], [(U, "    return -f2x / lambda_val\n", '    return (-f2x / lambda_val).to("delta_degC")\n')]),
    ("ecs-zero", ["C25"], [(U, "    return -f2x / lambda_val\n", "    if (lambda_val.magnitude > 0) is True:\n        lambda_val = -lambda_val\n\n    return -f2x / lambda_val\n")]),
    ("ecs-swapped", ["C25"], [(U, '        raise TypeError("lambda_val is not a pint.Quantity")\n', '        raise ValueError("lambda_val is not a pint.Quantity")\n')]),
    # ---- C26
    ("m-class-cache", ["C26"], [(R, "class ImpulseResponseModel(\n", "_PARAS = {}\n\n\nclass ImpulseResponseModel(\n"), (R, "        two_layer_paras = self.get_two_layer_parameters()\n        lambda0 = ", "        key = (self._q1_mag, self._q2_mag)\n        if key not in _PARAS:\n            _PARAS[key] = self.get_two_layer_parameters()\n        two_layer_paras = _PARAS[key]\n        lambda0 = ")]),
    ("m-default-array", ["C26"], [(T, "        delta_t=ur(\"yr\").to(\"s\"),\n", "        delta_t=ur(\"yr\").to(\"s\"),\n        state=[0.0],\n"), (T, "        self._timestep_idx = np.nan\n\n    @property\n    def du", "        self._timestep_idx = np.nan\n        self._state = state\n\n    @property\n    def du"), (T, "            self._temp_upper_mag[self._timestep_idx] = 0.0\n", "            self._temp_upper_mag[self._timestep_idx] = 0.0\n            self._state.append(self._erf_mag[0])\n")]),
    ("m-env", ["C26"], [(T, "import numpy as np\n", "import os\n\nimport numpy as np\n"), (T, "        return t_lower + delta_t * dT_dt\n", "        if os.environ.get(\"TWOLAYER_NO_DEEP_OCEAN\"):\n            return t_lower\n\n        return t_lower + delta_t * dT_dt\n")]),
    ("m-noise", ["C26"], [(R, "        return t * decay_factor + rise\n", "        return t * decay_factor + rise + np.random.normal() * 0.0\n")]),
    ("m-class-attr", ["C26"], [(B, "            self.delta_t = self._select_timestep(", "            type(self)._delta_t_default = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n            self.delta_t = self._select_timestep(")]),
    ("m-unit-attr", ["C26"], [(T, "        self._du_mag = val.to(self._du_unit).magnitude\n", "        TwoLayerModel._du_unit = str(val.units)\n        self._du_mag = val.to(self._du_unit).magnitude\n")]),
    ("m-registry", ["C26"], [(B, "        driver = self._ensure_scenarios_are_scmrun(scenarios)\n", "        ur.default_format = \"~\"\n        driver = self._ensure_scenarios_are_scmrun(scenarios)\n")]),
    ("m-id", ["C26"], [(B, "            out_run[\"run_idx\"] = i\n", "            out_run[\"run_idx\"] = id(self) + i\n")]),
    ("m-time", ["C26"], [(B, "import copy\n", "import copy\nimport time\n"), (B, "            out_run[\"run_idx\"] = i\n", "            out_run[\"run_idx\"] = i\n            out_run[\"run_time\"] = time.time()\n")]),
    ("m-options", ["C26"], [(B, "        run_store = list()\n", "        run_store = list()\n        pd.set_option(\"mode.chained_assignment\", None)\n")]),
    ("m-seterr", ["C26"], [(R, "        decay_factor = np.exp(-delta_t / d)\n", "        np.seterr(all=\"ignore\")\n        decay_factor = np.exp(-delta_t / d)\n")]),
    # ---- C27
    ("x-from-none", ["C27"], [(B, ".format(name)) from exc\n", ".format(name)) from None\n")]),
    ("x-base", ["C27"], [(E, "class ModelStateError(ValueError):", "class ModelStateError(RuntimeError):")]),
    ("x-swallow-step", ["C27"], [(T, RUN, "        for _ in self.erf:\n            try:\n                self.step()\n            except FloatingPointError:\n                pass\n")]),
    ("x-swallow-scen", ["C27"], [(B, "            self.reset()\n            self.run()\n", "            try:\n                self.reset()\n            except ValueError:\n                continue\n            self.run()\n")]),
    ("x-conv-default", ["C27"], [(R, "        two_layer_paras = self.get_two_layer_parameters()\n        lambda0 = two_layer_paras[\"lambda0\"]\n", "        try:\n            two_layer_paras = self.get_two_layer_parameters()\n        except ZeroDivisionError:\n            return erf\n        lambda0 = two_layer_paras[\"lambda0\"]\n")]),
    ("x-suppress", ["C27"], [(B, "            self.reset()\n            self.run()\n", "            self.reset()\n            with contextlib.suppress(ArithmeticError):\n                self.run()\n"), (B, "import copy\n", "import contextlib\nimport copy\n")]),
    ("x-finally", ["C27"], [(R, RUN, "        try:\n            for _ in self.erf:\n                self.step()\n        finally:\n            return\n")]),
    ("x-errstate", ["C27"], [(B, "raise UnitError(\"Wrong units for `{}`\".format(name)) from exc", "raise UnitError(\"Wrong units for `{}`\".format(name)) from ValueError(str(exc))")]),
    ("x-notimpl", ["C27", "C21"], [(B, "            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n", "            try:\n                self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n            except NotImplementedError:\n                self.delta_t = 1 * ur(\"yr\")\n")]),
    # ---- C28 / C29
    ("q-density", ["C29"], [(K, "1000 * ur", "1025 * ur")]),
    ("q-conv-const", ["C29"], [(R, "        dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n", "        dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER * 1.0000001)\n")]),
    ("q-setter", ["C29"], [(T, "    @property\n    def dl(self)", "    @heat_capacity_upper.setter\n    def heat_capacity_upper(self, val):\n        self._heat_capacity_upper_mag = val.to(self._heat_capacity_upper_unit).magnitude\n\n    @property\n    def dl(self)")]),
    ("q-mixed-layer", ["C29"], [(T, "        return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return abs(self.dl) * DENSITY_WATER * HEAT_CAPACITY_WATER")]),
    ("q-helper", ["C29"], [(B, "    C_D = dl * HEAT_CAPACITY_WATER * DENSITY_WATER\n", "    C_D = (dl + 0.0 * du) * HEAT_CAPACITY_WATER * DENSITY_WATER + 0.001 * du * HEAT_CAPACITY_WATER * DENSITY_WATER\n")]),
    ("q-gap", ["C28"], [(T, "        dT_dt = heat_exchange / heat_capacity_lower\n", "        dT_dt = (heat_exchange - 1e-6 * t_lower) / heat_capacity_lower\n")]),
    ("q-box-target", ["C28"], [(R, "        rise = erf * q * (1 - np.exp(-delta_t / d))\n", "        rise = erf * q * (1 - np.exp(-delta_t / d)) if erf >= 0 else erf * q * delta_t / d\n")]),
    # ---- C30
    ("y-save", ["C30"], [(T, '        "efficacy",\n        "eta",\n    )\n', '        "efficacy",\n    )\n')]),
    ("y-readonly", ["C30"], [(T, "    @a.setter\n    def a(self, val):\n", "    @a.setter\n    def a(self, val):\n        if hasattr(self, \"_a\"):\n            raise AttributeError(\"a is fixed\")\n")]),
    ("y-default-sign", ["C30"], [(R, 'd2=400.0 * ur("yr")', 'd2=4.0 * ur("yr")')]),
    ("y-clamp", ["C30"], [(T, "        self.eta = eta\n", "        self.eta = eta\n        self.dl = dl if dl > du else du\n")]),
    ("y-dt-args", ["C30"], [(R, "        self.delta_t = delta_t\n", "        self.delta_t = min(delta_t, d1)\n")]),
]
