"""Edits that break a property behind a tidy-up: helpers, caches, shortcuts."""
from good import B, T, R, U, E, V
from good4 import fn, rep, head, STEP_T, STEP_R, RNDT_R, TWO_R, IRP_T, GEO, OUT_T, OUT_R, OUT_R2, SELECT, SELECT2, SELECT3, SETS_T, SETP, SETV, SETV_H, UTIL, RESET_R, RESET_T, ACC, GENR, GENR_H, FACT, SCEN_TOP, SCEN_LOOP, SCEN_TAIL, CREATE2, CREATE3, FORM_T, FORM_R, ASSERT, ENSURE, DRIVERS, C


def sub(text, *pairs):
    for a, b in pairs:
        assert a in text, a
        text = text.replace(a, b)
    return text


SETPT = (B, rep("    def set_drivers(\n        self, erf\n", SETP.lstrip("\n") + "        self, erf\n"))


def setp(*pairs):
    return SETS_T + [(B, rep("    def set_drivers(\n        self, erf\n", sub(SETP, *pairs).lstrip("\n") + "        self, erf\n"))]


def conv(name, f, text, *pairs):
    return (f, fn(name, sub(text, *pairs)))


BAD = [
    # ---- C01
    ("a-str", ["C01"], [(B, rep("        if not isinstance(quantity, pint.Quantity):\n", "        if isinstance(quantity, str):\n            quantity = ur(quantity)\n\n        if not isinstance(quantity, pint.Quantity):\n")), (B, rep("        self._delta_t = val\n", "        self._delta_t = val = ur(val) if isinstance(val, str) else val\n"))]),
    ("a-inverse", ["C01"], [(B, rep("        except pint.errors.DimensionalityError as exc:\n", "        except pint.errors.DimensionalityError as exc:\n            if quantity.dimensionless is False and (1 / quantity).is_compatible_with(model_units):\n                return\n\n")), (R, rep("        self._d1_mag = val.to(self._d1_unit).magnitude\n", "        self._d1_mag = (val if val.is_compatible_with(self._d1_unit) else 1 / val).to(self._d1_unit).magnitude\n"))]),
    ("a-empty-erf", ["C01"], [(B, rep('        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)\n', '        if np.size(val):\n            self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)\n'))]),
    ("a-unset-only", ["C01"], setp(("        self._assert_is_pint_quantity_with_units(val, name, unit)\n", '        if getattr(self, "_" + name, None) is None or val.units != getattr(self, "_" + name).units:\n            self._assert_is_pint_quantity_with_units(val, name, unit)\n'))),
    ("a-name-dl", ["C01"], [(T, rep('        self._assert_is_pint_quantity_with_units(val, "dl", self._dl_unit)\n', '        if not hasattr(self, "_dl"):\n            self._assert_is_pint_quantity_with_units(val, "dl", self._dl_unit)\n'))]),
    ("a-drop-check-dt", ["C01"], [(B, rep('        self._assert_is_pint_quantity_with_units(val, "delta_t", self._delta_t_unit)\n', '        if np.isfinite(val.magnitude):\n            self._assert_is_pint_quantity_with_units(val, "delta_t", self._delta_t_unit)\n'))]),
    # ---- C02
    ("b-setp-order", ["C02"], setp(('        self._assert_is_pint_quantity_with_units(val, name, unit)\n        setattr(self, "_" + name, val)\n', '        setattr(self, "_" + name, val)\n        self._assert_is_pint_quantity_with_units(val, name, unit)\n'))),
    ("b-mag-first", ["C02"], [(B, rep("        self._erf = val\n        self._erf_mag = val.to(self._erf_unit).magnitude\n", "        self._erf_mag = val.to(self._erf_unit).magnitude\n        self._erf = val\n")), (B, rep('        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)\n', '        self._erf_mag = getattr(val, "magnitude", self._erf_mag if hasattr(self, "_erf_mag") else None)\n        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)\n'))]),
    ("b-reset-partial", ["C02"], [(R, fn("_reset", sub(RESET_R, ('        if np.any(np.isnan(self.erf)):\n', '        self._rndt_mag = self._get_nan_state()\n        if np.any(np.isnan(self.erf)):\n'))))]),
    ("b-drivers-clear", ["C02"], [(B, fn("set_drivers", sub(DRIVERS, ("        n_dims = np.ndim(erf)\n", "        self._timestep_idx = np.nan\n        n_dims = np.ndim(erf)\n")), 1))]),
    ("b-heatcap-first", ["C02"], [(T, rep('        self._assert_is_pint_quantity_with_units(val, "du", self._du_unit)\n', '        self._heat_capacity_upper_mag = getattr(val, "magnitude", np.nan) * DENSITY_WATER.magnitude * HEAT_CAPACITY_WATER.magnitude\n        self._assert_is_pint_quantity_with_units(val, "du", self._du_unit)\n'))]),
    # ---- C03
    ("c-ito-mag", ["C03"], [SETV_H and (B, rep("    def set_drivers(\n        self, erf\n", '    def _in_model_unit(self, val, name):\n        val.ito(getattr(self, f"_{name}_unit"))\n        return val.magnitude\n\n    def set_drivers(\n        self, erf\n'))] + SETV),
    ("c-two-pop", ["C03"], [(R, rep("        self.delta_t = delta_t\n\n        if d1", "        self.delta_t = delta_t.to(self._delta_t_unit)\n\n        if d1"))]),
    ("c-inplace-erf", ["C03"], [(T, rep("        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        self._timestep_idx = np.nan\n        self._erf_mag -= self._erf_mag[0] * (self._erf_mag.size == 0 or self._erf_mag[0] < 0)\n        self._temp_upper_mag = np.zeros_like"))]),
    ("c-unit-store", ["C03"], [(T, rep("        self._eta = val\n", "        self._eta = ur.Quantity(val.magnitude, str(val.units)) if val.magnitude else 0 * ur(self._eta_unit)\n"))]),
    ("c-conv-restore", ["C03"], [conv("get_impulse_response_parameters", T, IRP_T, ("        self._assert_no_state_dependence()\n", "        self._assert_no_state_dependence()\n        self.eta = self.eta.to(self._eta_unit)\n"))]),
    # ---- C04
    ("d-snapshot", ["C04"], [(T, rep("        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like(self._erf_mag)", "        self._timestep_idx = np.nan\n        self._now = (self._lambda0_mag, self._a_mag)\n        self._temp_upper_mag = np.zeros_like(self._erf_mag)")), (T, rep("                self._lambda0_mag,\n                self._a_mag,\n", "                self._now[0],\n                self._now[1],\n"))]),
    ("d-erf-copy", ["C04"], [(R, rep("        self._timestep_idx = np.nan\n        self._temp1_mag = np.zeros_like", "        self._timestep_idx = np.nan\n        self._forcing = self._erf_mag.copy()\n        self._temp1_mag = np.zeros_like")), (R, rep("                self._q1_mag,\n                self._d1_mag,\n                self._erf_mag[self._timestep_idx - 1],\n", "                self._q1_mag,\n                self._d1_mag,\n                self._forcing[self._timestep_idx - 1],\n"))]),
    ("d-partial", ["C04"], [(T, fn("_run", '''    def _run(self):
        steps = [self.step] * len(self.erf)
        dt = self._delta_t_mag
        for step in steps:
            self._delta_t_mag = dt
            step()
''')), (T, rep("        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        self._dt_used = getattr(self, \"_dt_used\", self._delta_t_mag)\n        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like")), (T, rep("                self._delta_t_mag,\n                self._temp_upper_mag[self._timestep_idx - 1],\n", "                self._dt_used,\n                self._temp_upper_mag[self._timestep_idx - 1],\n"))]),
    ("d-heat-changed", ["C04"], [(T, rep("        self._dl = val\n", "        changed = getattr(self, \"_dl\", None) is None or self._dl.magnitude != val.magnitude\n        self._dl = val\n")), (T, rep("        self._heat_capacity_lower_mag = self.heat_capacity_lower.to(\n            self._heat_capacity_lower_unit\n        ).magnitude\n", "        if changed:\n            self._heat_capacity_lower_mag = self.heat_capacity_lower.to(\n                self._heat_capacity_lower_unit\n            ).magnitude\n"))]),
    ("d-two-memo", ["C04"], [conv("_calculate_next_rndt", R, RNDT_R, ("        paras = self.get_two_layer_parameters()\n", "        if self._timestep_idx == 1:\n            self._paras = self.get_two_layer_parameters()\n        paras = self._paras\n"))]),
    # ---- C05
    ("e-eff-m", ["C05"], [(T, rep("        self._efficacy_mag = val.to(self._efficacy_unit).magnitude\n", "        self._efficacy_mag = val.magnitude\n"))]),
    ("e-percent", ["C05"], [conv("get_two_layer_parameters", R, TWO_R, (") / self.efficacy\n", ") / self.efficacy.magnitude\n"))]),
    ("e-same-unit", ["C05"], setp(('        setattr(self, "_{}_mag".format(name), val.to(unit).magnitude)\n', '        same = str(val.units) == str(ur(unit).units) or val.units.dimensionless\n        setattr(self, "_{}_mag".format(name), val.m if same else val.to(unit).m)\n'))),
    ("e-dt-month", ["C05"], [(B, rep("        self._delta_t_mag = val.to(self._delta_t_unit).magnitude\n", "        if val.units == ur.month:\n            self._delta_t_mag = val.magnitude * 30 * 86400\n        else:\n            self._delta_t_mag = val.to(self._delta_t_unit).magnitude\n"))]),
    ("e-efficacy-eq", ["C05"], [conv("_calculate_next_rndt", R, RNDT_R, ("        if efficacy == 1:\n", "        if self.efficacy.magnitude == 1:\n"))]),
    # ---- C06
    ("f-prev-lower", ["C06"], [(T, fn("_step", sub(STEP_T, ("            delta_t=self._delta_t_mag,\n            t_lower=t_lower,\n            t_upper=t_upper,\n            eta", "            delta_t=self._delta_t_mag,\n            t_lower=t_lower,\n            t_upper=self._temp_upper_mag[now],\n            eta"))))]),
    ("f-lam-sq", ["C06"], [(T, fn("_calculate_next_temp_upper", sub(FORM_T, ("(lambda0 - a * t_upper) * t_upper", "lambda0 * t_upper - a * t_upper * abs(t_upper)"))))]),
    ("f-efficacy-in-fb", ["C06"], [(T, fn("_calculate_next_temp_upper", sub(FORM_T, ("net = erf - feedback - efficacy * uptake", "net = erf - feedback - (efficacy if t_upper >= t_lower else 1) * uptake"))))]),
    ("f-stable", ["C06"], [(T, fn("_calculate_next_temp_upper", sub(FORM_T, ("        return t_upper + net * delta_t / heat_capacity_upper\n", "        rate = delta_t / heat_capacity_upper\n        return t_upper + net * min(rate, 1 / lambda0)\n"))))]),
    # ---- C07
    ("g-two-now", ["C07"], [(T, fn("_step", sub(STEP_T, ("            self._temp_lower_mag[now],\n            t_lower,\n", "            self._temp_lower_mag[now],\n            self._temp_lower_mag[0],\n"))))]),
    ("g-first-year", ["C07"], [(T, rep("        return uptake_upper + uptake_lower\n", "        return uptake_upper + uptake_lower if t_upper_prev else 2 * uptake_upper - uptake_upper + uptake_lower / 2\n"))]),
    # ---- C08
    ("h-expm1", ["C08"], [(R, fn("_calculate_next_temp", sub(FORM_R, ("        return equilibrium + (t - equilibrium) * decay_factor\n", "        if delta_t / d < 1e-3:\n            return t + (equilibrium - t) * delta_t / d\n\n        return equilibrium + (t - equilibrium) * decay_factor\n"))))]),
    ("h-box2-erf-now", ["C08", "C10"], [(R, fn("_step", sub(STEP_R, ("                    self._delta_t_mag, t2, self._q2_mag, self._d2_mag, erf\n", "                    self._delta_t_mag, t2, self._q2_mag, self._d2_mag, self._erf_mag[now]\n"))))]),
    ("h-total-three", ["C08"], [(R, fn("_get_run_output_tss", sub(OUT_R, ("        total = self._temp1_mag + self._temp2_mag\n", "        total = np.maximum(self._temp1_mag, 0) + self._temp2_mag\n"))))]),
    # ---- C09
    ("i-order", ["C09"], [conv("_calculate_next_rndt", R, RNDT_R, ('_calculate_geoffroy_helper_parameters(**paras)', '_calculate_geoffroy_helper_parameters(\n            **{**paras, "efficacy": 1 * ur("dimensionless")}\n        )'))]),
    ("i-feedback-one", ["C09"], [conv("_calculate_next_rndt", R, RNDT_R, ("magnitude * (t1 + t2)\n", "magnitude * (t1 + t2 if t2 else t1 / 1.0000001)\n"))]),
    ("i-sign", ["C09"], [conv("_calculate_next_rndt", R, RNDT_R, ("(efficacy - 1)", "abs(efficacy - 1)"))]),
    # ---- C10/C11/C12
    ("j-first-erf", ["C10"], [(T, fn("_step", sub(STEP_T, ("        for state in (self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag):\n            state[0] = 0.0\n", "        for state in (self._temp_upper_mag, self._temp_lower_mag):\n            state[0] = 0.0\n        self._rndt_mag[0] = self._erf_mag[0] if len(self._erf_mag) == 1 else 0.0\n"))))]),
    ("j-last-extra", ["C10"], [(R, fn("_step", sub(STEP_R, ("            erf = self._erf_mag[prev]\n", "            erf = self._erf_mag[prev] if prev else self._erf_mag[:2].mean()\n"))))]),
    ("k-any-run", ["C11"], [(T, fn("_run", '''    def _run(self):
        for erf in self.erf:
            if np.isinf(self._temp_upper_mag).any():
                break
            self.step()
'''))]),
    ("k-while", ["C11"], [(R, fn("_run", '''    def _run(self):
        while np.isnan(self._rndt_mag).any():
            self.step()
'''))]),
    ("k-continue", ["C11"], [(T, fn("_run", '''    def _run(self):
        start = 0 if np.isnan(self._timestep_idx) else self._timestep_idx + 1
        for _ in range(start, len(self.erf) - (len(self.erf) > 500)):
            self.step()
'''))]),
    ("l-shared-empty", ["C07"], [(T, fn("_reset", sub(RESET_T, ("        self._temp_lower_mag = empty.copy()\n        self._rndt_mag = empty.copy()\n", "        self._temp_lower_mag = empty\n        self._rndt_mag = empty\n"))))]),
    ("l-idx-not-reset", ["C12"], [(R, fn("_reset", sub(RESET_R, ("        self._timestep_idx = np.nan\n", "        if self._timestep_idx != 0:\n            self._timestep_idx = np.nan\n"))))]),
    ("l-keep-rndt", ["C12"], [(R, fn("_reset", sub(RESET_R, ('        for name in ("_temp1_mag", "_temp2_mag", "_rndt_mag"):\n            setattr(self, name, self._get_nan_state())\n', '        for name in ("_temp1_mag", "_temp2_mag", "_rndt_mag"):\n            if np.shape(getattr(self, name)) != self._erf_mag.shape:\n                setattr(self, name, self._get_nan_state())\n'))))]),
    # ---- C13/C14
    ("m-finite", ["C13"], [(T, fn("_reset", sub(RESET_T, ("not np.isnan(self.erf).any()", "np.isfinite(self.erf.magnitude).all()"))))]),
    ("m-nanmean", ["C13"], [(R, fn("_reset", sub(RESET_R, ("np.any(np.isnan(self.erf))", "np.isnan(np.nanmean(self.erf.magnitude))"))))]),
    ("m-first-last", ["C13"], [(T, fn("_reset", sub(RESET_T, ("not np.isnan(self.erf).any()", "not np.isnan(self.erf[[0, -1]]).any()"))))]),
    ("n-ndim-le", ["C14"], [(B, fn("set_drivers", sub(DRIVERS, ("n_dims == 1", "n_dims in (0, 1)")), 1))]),
    ("n-max-shape", ["C14"], [(B, fn("set_drivers", sub(DRIVERS, ("        n_dims = np.ndim(erf)\n        if n_dims == 1:\n", "        shape = np.shape(erf)\n        if len(shape) == 1 or 1 in shape[1:]:\n")), 1))]),
    ("n-ravel", ["C14"], [(B, fn("set_drivers", sub(DRIVERS, ("        if n_dims == 1:\n            self.erf = erf\n            return\n", "        if n_dims == 1:\n            self.erf = erf[~np.isnan(erf)] if np.ndim(erf) else erf\n            return\n")), 1))]),
    # ---- C15-C18
    ("o-tau-comp", ["C15"], [conv("_calculate_geoffroy_helper_parameters", B, GEO, ("    delta = b * b - 4 * lambda0 * eta / C / C_D\n", "    delta = b * b - 4 * lambda0 * eta / C / C_D * efficacy\n"))]),
    ("o-phi-comp", ["C15"], [conv("_calculate_geoffroy_helper_parameters", B, GEO, ("C / (2 * efficacy * eta) * (b_star + sign * root) for sign in (-1, 1)", "C / (2 * efficacy * eta) * (b_star + sign * root) for sign in (1, -1)"))]),
    ("o-depth", ["C16"], [conv("get_two_layer_parameters", R, TWO_R, ("return heat_capacity / DENSITY_WATER / HEAT_CAPACITY_WATER", "return heat_capacity / DENSITY_WATER / (4186 * ur(\"J/kg/delta_degC\"))"))]),
    ("o-eta", ["C16"], [conv("get_two_layer_parameters", R, TWO_R, ("        eta = heat_capacity_lower * q_total / (d1 * q2 + d2 * q1)\n", "        eta = heat_capacity_lower * q_total / (d1 * q2 + d2 * q1) * (1 if self.efficacy == 1 else self.efficacy)\n"))]),
    ("p-a-tiny", ["C17"], [conv("get_impulse_response_parameters", T, IRP_T, ("        if self.a.magnitude != 0:\n", "        if not np.isclose(self.a.magnitude, 0):\n"))]),
    ("p-a-mag", ["C17"], [conv("get_impulse_response_parameters", T, IRP_T, ("        if self.a.magnitude != 0:\n", "        if self.a.to(\"kW/m^2/delta_degC^2\").magnitude > 0:\n"))]),
    ("q-init-attrs", ["C18"], [(R, rep("        if d1 >= d2:\n", "        if self._d1_mag > self._d2_mag:\n"))]),
    ("q-init-units", ["C18"], [(R, rep("        if d1 >= d2:\n", "        if d1.units == d2.units and d1 >= d2:\n"))]),
    # ---- C19
    ("r-ensure", ["C19"], [(B, fn("_ensure_scenarios_are_scmrun", sub(ENSURE, ("        # copy as ScmRun formats the data it is given in place\n        scenarios = copy.deepcopy(scenarios)\n", ""))))]),
    ("r-genr-inplace", ["C19"], [(B, rep("        driver = self._ensure_scenarios_are_scmrun(scenarios)\n", "        driver = (\n            scenarios\n            if isinstance(scenarios, ScmRun)\n            else self._ensure_scenarios_are_scmrun(scenarios)\n        )\n        driver[\"run_idx\"] = range(driver.shape[0])\n"))]),
    # ---- C20
    ("s-genr-noreset", ["C20"], [(B, rep("        driver_ts = driver.timeseries()\n" + SCEN_LOOP, GENR)), (B, rep("    @abstractmethod\n    def _get_run_output_tss", sub(GENR_H, ("        self.reset()\n", "        if not np.array_equal(getattr(self, \"_last\", None), row_no_nan.values):\n            self.reset()\n        self._last = row_no_nan.values\n")).lstrip("\n") + "\n    @abstractmethod\n    def _get_run_output_tss"))]),
    ("s-fact-unit", ["C20"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ('        unit = dict(zip(names, label))["unit"]\n', '        self._unit = getattr(self, "_unit", None) or dict(zip(names, label))["unit"]\n        unit = self._unit\n'))))]),
    ("s-fact-names", ["C20"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("        row_no_nan = row.dropna()\n", "        row_no_nan = row.interpolate().dropna()\n"))))]),
    ("s-fact-dropcols", ["C20"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("        return driver.timeseries()\n", "        return driver.timeseries().dropna(axis=1)\n"))))]),
    # ---- C21
    ("t-sel-28", ["C21"], [(B, fn("_select_timestep", sub(SELECT, ("(steps >= shortest) & (steps <= longest)", "(steps > shortest) & (steps <= longest)"))))]),
    ("t-sel2-any", ["C21"], [(B, fn("_select_timestep", sub(SELECT2, ("            ).any():\n", "            ).all():\n"))))]),
    ("t-sel3-any", ["C21"], [(B, fn("_select_timestep", sub(SELECT3, ("        return all(diff == 1 for diff", "        return any(diff == 1 for diff"))))]),
    ("t-sel3-order", ["C21"], [(B, fn("_select_timestep", sub(SELECT3, ("        return all(\n            np.timedelta64(28, \"D\") <= diff", "        return any(\n            np.timedelta64(28, \"D\") <= diff"))))]),
    ("t-sel-days", ["C21"], [(B, fn("_select_timestep", sub(SELECT, ("            return (driver[\"year\"].diff().dropna() == 1).all()\n", "            days = driver[\"time\"].diff().dropna() / np.timedelta64(1, \"D\")\n            return ((days >= 365) & (days <= 366)).all()\n"))))]),
    ("t-fact-first", ["C21"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("        self.delta_t = self._select_timestep(ScmRun(base.copy()))\n", "        self.delta_t = self._select_timestep(ScmRun(base.iloc[:, :100].copy()))\n"))))]),
    # ---- C22
    ("u-fact-world", ["C22"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ('            variable=driver_var, region="World"\n', '            variable=driver_var, region="World*"\n'))))]),
    ("u-fact-late", ["C22"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("        if driver.shape[0] == 0:\n", "        if driver.shape[0] == 0 and driver_var == \"Effective Radiative Forcing\":\n"))))]),
    ("u-fact-head", ["C22"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("        return driver.timeseries()\n", "        driver_ts = driver.timeseries()\n        return driver_ts[driver_ts.notnull().any(axis=1) & (driver_ts != 0).any(axis=1)]\n"))))]),
    # ---- C23
    ("v-fact-after", ["C23"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ('            out["{} ({})".format(name, value.units)] = value.magnitude\n', '            out["{} ({})".format(name, value.units)] = value.to_base_units().magnitude\n'))))]),
    ("v-fact-truthy", ["C23"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("            value = getattr(self, name)\n", "            value = getattr(self, name)\n            if not value:\n                continue\n"))))]),
    ("v-fact-cached", ["C23"], [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, sub(FACT, ("        out = {}\n", "        out = getattr(self, \"_paras_meta\", None)\n        if out is not None:\n            return out\n\n        out = self._paras_meta = {}\n"))))]),
    # ---- C24
    ("w2-create2", ["C24"], [(B, fn("_create_ts", sub(CREATE2, ('        labels["unit"] = unit\n', '        labels["unit"] = labels["unit"].where(labels["unit"] == unit, unit) if variable != "Heat Uptake" else labels["unit"]\n'))))]),
    ("w2-create3", ["C24"], [(B, fn("_create_ts", sub(CREATE3, ("                    new_labels.get(name, label)\n", "                    new_labels.get(name, label) if name != \"unit\" else label\n"))))]),
    ("w2-out-r2", ["C24"], [(R, fn("_get_run_output_tss", sub(OUT_R2, ('            ("Surface Temperature|Box 2", "_temp2"),\n', '            ("Surface Temperature|Box 2", "_temp1"),\n'))))]),
    ("w2-out-t", ["C24"], [(T, fn("_get_run_output_tss", sub(OUT_T, ("            for variable, (unit, values) in outputs.items()\n", "            for variable, (unit, values) in outputs.items()\n            if not np.isnan(values).any()\n"))))]),
    ("w2-acc-idx", ["C24"], [(B, rep(SCEN_LOOP, sub(ACC, ('            out_run["run_idx"] = i\n', '            out_run["run_idx"] = min(i, 99)\n'))))]),
    # ---- C25
    ("x-ecs", ["C25"], [(U, fn("convert_lambda_to_ecs", sub(UTIL, ("    ecs = f2x / lambda_val\n", "    ecs = f2x / lambda_val if lambda_val.magnitude < 0 else -f2x / lambda_val\n"))))]),
    ("x-ecs-units", ["C25"], [(U, fn("convert_lambda_to_ecs", sub(UTIL, ("    for name, value in kwargs.items():\n        if not", "    for name, value in list(kwargs.items())[:1]:\n        if not"))))]),
    # ---- C26
    ("y-shared-states", ["C26"], [(T, rep("    _temp_upper_unit", "    _scratch = {}\n    _temp_upper_unit")), (T, rep("        lambda_now = lambda0 - a * t_upper\n", "        lambda_now = TwoLayerModel._scratch.setdefault((lambda0, a, t_upper), lambda0 - a * t_upper)\n"))]),
    ("y-class-paras", ["C26"], [(B, rep("        self._delta_t = val\n", "        type(self)._delta_t = val\n"))]),
    # ---- C27
    ("z-assert", ["C27"], [(B, fn("_assert_is_pint_quantity_with_units", sub(ASSERT, ("                raise UnitError(msg) from exc\n", "                error = UnitError(msg)\n                error.original = exc\n        else:\n            error = None\n        if isinstance(quantity, pint.Quantity):\n            if error is not None:\n                raise error\n"), ("            try:\n                quantity", "            error = None\n            try:\n                quantity"), ("        else:\n            error = None\n", "")) ))]),
    ("z-loop", ["C27"], [(B, rep("            self.reset()\n            self.run()\n", "            self.reset()\n            try:\n                self.run()\n            except FloatingPointError:\n                continue\n"))]),
    ("z-noncompat", ["C27"], [(B, rep("        except pint.errors.DimensionalityError as exc:\n            raise UnitError(\"Wrong units for `{}`\".format(name)) from exc\n", "        except pint.errors.DimensionalityError:\n            pass\n        else:\n            return\n\n        raise UnitError(\"Wrong units for `{}`\".format(name))\n"))]),
    # ---- C28/C29/C30
    ("z2-cap", ["C29"], [conv("_calculate_geoffroy_helper_parameters", B, GEO, ("    return depth * HEAT_CAPACITY_WATER * DENSITY_WATER\n", "    return depth.to(\"m\") * HEAT_CAPACITY_WATER * (1025 * ur(\"kg/m^3\"))\n"))]),
    ("z2-step-cap", ["C29"], [(T, fn("_step", sub(STEP_T, ("            heat_capacity_lower=self._heat_capacity_lower_mag,\n", "            heat_capacity_lower=self._dl_mag * self._heat_capacity_upper_mag / max(self._du_mag, 1.0),\n"))))]),
    ("z2-eq", ["C28"], [(T, fn("_calculate_next_temp_upper", sub(FORM_T, ("        net = erf - feedback - efficacy * uptake\n", "        net = erf - feedback - efficacy * uptake - 1e-9 * t_upper\n"))))]),
    ("z2-default", ["C30"], [(T, rep("        eta=0.8 * ur(\"W/m^2/delta_degC\"),\n", "        eta=0.8 * ur(\"W/m^2/delta_degC\") * 0,\n"))]),
    ("z2-setp-cross", ["C30", "C04"], setp(('        setattr(self, "_" + name, val)\n', '        setattr(self, "_" + name, val)\n        if name == "lambda0" and hasattr(self, "_a") and self._a.magnitude == 0:\n            self._eta = self._eta\n            self._efficacy_mag = 1.0\n'))),
    # ---- C31
    ("z3-git", ["C31"], [(V, rep("        if e.errno == errno.ENOENT:\n                continue\n", "        if e.errno == errno.ENOENT:\n                raise\n") if False else rep("                continue\n            if verbose:\n", "                raise\n            if verbose:\n"))]),
]
BAD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in BAD]
