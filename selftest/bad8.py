"""Bugs written from the statements of the properties only, eighth batch."""
from bad7 import rep, chain

T, R, B, U, V, E = "two_layer_model.py", "impulse_response_model.py", "base.py", "utils.py", "_version.py", "errors.py"

OUT = """        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )
"""

BAD = [
    # identical series are taken for duplicates
    ("k-drop-dup-values", ["C24"], [(B, rep(OUT, OUT.replace("axis=0\n            )\n", "axis=0\n            ).drop_duplicates()\n")))]),
    ("k-drop-dup-index", ["C24"], [(B, rep("        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries()\n        driver_ts = driver_ts[~driver_ts.duplicated()]\n"))]),
    ("k-mean-out", ["C24"], [(B, rep("ScmRun(pd.concat(out_run_tss))", "ScmRun(pd.concat(out_run_tss).dropna(how='any'))"))]),
    # equal values are the same drivers
    ("k-erf-equal", ["C03"], [(B, rep('        self._erf = val\n', '''        old = getattr(self, "_erf_mag", None)
        if old is not None and np.shape(old) == np.shape(val.magnitude) and np.all(val.to(self._erf_unit).magnitude == old):
            return
        self._erf = val
'''))]),
    ("k-erf-close", ["C04"], [(B, rep('        self._erf = val\n', '''        old = getattr(self, "_erf_mag", None)
        if old is not None and np.shape(old) == np.shape(val.magnitude) and np.allclose(val.to(self._erf_unit).magnitude, old):
            return
        self._erf = val
'''))]),
    ("k-dt-close", ["C04"], [(B, rep('        self._delta_t = val\n', '''        if hasattr(self, "_delta_t") and np.isclose(self._delta_t_mag, val.to(self._delta_t_unit).magnitude):
            return
        self._delta_t = val
'''))]),
    # wiring of two sites
    ("k-store-unit", ["C05"], [(B, chain(rep("        self._erf_mag = val.to(self._erf_unit).magnitude\n", "        self._erf_mag = val.magnitude\n"), rep("        self.erf = erf\n", "        self.erf = erf.to(self._erf_unit)\n")))]),
    ("k-run-index", ["C11"], [(T, rep("        for _ in self.erf:\n            self.step()\n", "        for i, _ in enumerate(self.erf):\n            self._timestep_idx = i - 1 if i else np.nan\n            self.step()\n            if self._temp_upper_mag[i] > 1e3:\n                break\n"))]),
    ("k-has-run-stuck", ["C12"], [(B, rep("        self._run()\n", "        if getattr(self, \"_done\", None) == (len(self.erf), id(self.erf)):\n            return\n        self._run()\n        self._done = (len(self.erf), id(self.erf))\n"))]),
    ("k-reset-shape", ["C12"], [(T, rep("        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        if np.shape(self._rndt_mag) == np.shape(self._erf_mag) and self._timestep_idx == len(self._erf_mag) - 1:\n            self._timestep_idx = -1\n            return\n\n        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like"))]),
    ("k-idx-wrap", ["C11"], [(R, rep("            self._timestep_idx += 1\n", "            self._timestep_idx = (self._timestep_idx + 1) % max(len(self._erf_mag) - 1, 1)\n"))]),
    # unusual physics
    ("k-lower-limit", ["C06"], [(T, rep("        heat_exchange = eta * (t_upper - t_lower)\n        dT_dt = heat_exchange", "        heat_exchange = eta * max(t_upper - t_lower, 0.0) + eta * min(t_upper - t_lower, 0)\n        heat_exchange = heat_exchange if t_lower >= 0 else eta * t_upper\n        dT_dt = heat_exchange"))]),
    ("k-efficacy-warm", ["C06"], [(T, rep("        heat_exchange = efficacy * eta * (t_upper - t_lower)\n", "        heat_exchange = (efficacy if t_upper > t_lower else 1) * eta * (t_upper - t_lower)\n"))]),
    ("k-a-warm", ["C06"], [(T, rep("lambda_now = lambda0 - a * t_upper", "lambda_now = lambda0 - a * max(t_upper, t_lower)"))]),
    ("k-rndt-lower-only", ["C07"], [(T, rep("        return uptake_upper + uptake_lower\n", "        return uptake_lower + (uptake_upper if heat_capacity_upper < heat_capacity_lower else 0 * uptake_upper)\n"))]),
    ("k-rise-series", ["C08"], [(R, rep("        rise = erf * q * (1 - np.exp(-delta_t / d))\n", "        x = delta_t / d\n        rise = erf * q * (1 - decay_factor if x > 1e-4 else x)\n"))]),
    ("k-rise-average", ["C10"], [(R, rep("                self._erf_mag[self._timestep_idx - 1],\n            )\n\n            self._temp2_mag", "                self._erf_mag[max(self._timestep_idx - 1, 1)],\n            )\n\n            self._temp2_mag"))]),
    ("k-rndt-eff-tol", ["C09"], [(R, rep("if np.equal(efficacy, 1):", "if np.isclose(efficacy, 1, rtol=1e-3):"))]),
    ("k-rndt-swapped", ["C09"], [(R, rep("((1 - gh[\"phi1\"]) * t1_h + (1 - gh[\"phi2\"]) * t2_h)", "((1 - gh[\"phi1\"]) * t2_h + (1 - gh[\"phi2\"]) * t1_h)"))]),
    # conversions
    ("k-conv-floor", ["C15"], [(B, rep("    delta = b ** 2 - (4 * lambda0 * eta) / (C * C_D)\n", "    delta = b_star ** 2 + (4 * eta ** 2) / (C * C_D)\n"))]),
    ("k-conv-abs", ["C16"], [(R, rep('            "eta": eta,\n', '            "eta": eta * self.efficacy / self.efficacy if self.q2 > self.q1 else eta / self.efficacy,\n'))]),
    ("k-conv-own-a", ["C15"], [(T, rep('        d1 = gh["tau1"]\n        d2 = gh["tau2"]\n', '        d1, d2 = sorted([gh["tau1"], gh["tau2"]], reverse=self.lambda0.magnitude < 0.5)\n'))]),
    ("k-a-self", ["C17"], [(T, rep("        if not np.equal(self.a.magnitude, 0):\n", "        if np.greater(np.abs(self.a.magnitude), np.finfo(float).eps):\n"))]),
    ("k-d1-mag", ["C18"], [(R, rep("        if d1 >= d2:\n", "        if self._d1_mag >= self._d2_mag and not np.isnan(self._delta_t_mag) and efficacy.magnitude > 0:\n"))]),
    # data of others
    ("k-caller-unit", ["C19"], [(B, rep("            driver = scenarios.copy()\n", '            scenarios["unit"] = scenarios["unit"].str.strip()\n            driver = scenarios.copy()\n'))]),
    ("k-caller-erf", ["C19"], [(B, rep("        self.erf = erf\n", "        erf.ito(self._erf_unit)\n        self.erf = erf\n"))]),
    ("k-first-row", ["C20"], [(B, rep("            row_no_nan = row.dropna()\n", "            row_no_nan = row[driver_ts.notna().all()]\n"))]),
    ("k-trim", ["C20"], [(B, rep("            row_no_nan = row.dropna()\n", "            row_no_nan = row.loc[row.first_valid_index() : row.last_valid_index()].fillna(0)\n"))]),
    ("k-dt-carry", ["C20"], [(B, rep("            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n", "            if len(row_no_nan) > 2 or i == 0:\n                self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n"))]),
    ("k-dt-try", ["C21"], [(B, rep("            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n", "            try:\n                self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n            except NotImplementedError:\n                if i == 0:\n                    raise\n"))]),
    ("k-year-unique", ["C21"], [(B, rep('        year_diff = driver["year"].diff().dropna()\n', '        year_diff = driver["year"].drop_duplicates().diff().dropna()\n'))]),
    ("k-month-count", ["C21"], [(B, rep("        year_diff = driver", '        if len(driver["time"]) == 12:\n            return 1 * ur("month")\n        year_diff = driver'))]),
    ("k-world-only-one", ["C22"], [(B, rep('region="World")\n', 'region="World")\n        driver = driver.filter(unit=driver["unit"].iloc[0])\n'))]),
    ("k-var-prefix", ["C22"], [(B, rep("driver.filter(variable=driver_var, region", 'driver.filter(variable=driver_var + "*", region'))]),
    ("k-meta-dt", ["C23"], [(B, rep('        save_paras_meta = {\n', '        save_paras_meta = {} if len(getattr(scenarios, "meta", ())) > 100 else {\n'))]),
    ("k-meta-default", ["C23"], [(B, rep("                out_run[k] = v\n", "                if k not in out_run.meta:\n                    out_run[k] = v\n"))]),
    ("k-name-keep", ["C23"], [(B, rep('            out_run["climate_model"] = self._name\n', '            if not (out_run["climate_model"] == self._name).any():\n                out_run["climate_model"] = self._name if i == 0 else "{} {}".format(self._name, i)\n'))]),
    ("k-total-nan", ["C24"], [(T, rep("        return out_run_tss\n", "        return [ts for ts in out_run_tss if (ts.values != 0).any()]\n"))]),
    ("k-label-shift", ["C24"], [(B, rep("        out.iloc[:, :] = values\n", "        out.iloc[:, 1:] = values[1:]\n"))]),
    ("k-ecs-inv", ["C25"], [(U, rep("    return -f2x / lambda_val\n", "    return (-f2x / lambda_val).to('delta_degC') if f2x.check('[mass] / [time] ** 3') else f2x / lambda_val\n"))]),
    # state
    ("k-class-list", ["C26"], [(T, rep("        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        type(self)._last = self\n        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like"))]),
    ("k-default-save", ["C26"], [(B, chain(rep("        self, scenarios, driver_var=\"Effective Radiative Forcing\", progress=True,\n", "        self, scenarios, driver_var=\"Effective Radiative Forcing\", progress=True, run_store=[],\n"), rep("        run_store = list()\n", "")))]),
    ("k-env", ["C26"], [(B, rep("import numpy as np\n", "import os\n\nimport numpy as np\n")), (B, rep('            return 1 * ur("yr")\n', '            return float(os.environ.get("TLM_YEAR", 1)) * ur("yr")\n'))]),
    # errors
    ("k-err-base", ["C27"], [(E, lambda s: s.replace("class UnitError(ValueError)", "class UnitError(Exception)").replace("class UnitError(pint.errors.DimensionalityError)", "class UnitError(Exception)"))]),
    ("k-err-key", ["C27"], [(B, rep("            self.run()\n", "            try:\n                self.run()\n            except FloatingPointError:\n                pass\n"))]),
    ("k-err-scen", ["C27"], [(B, rep("            self.reset()\n            self.run()\n", "            try:\n                self.reset()\n            except ModelStateError:\n                continue\n            self.run()\n")), (B, rep("from .errors import UnitError", "from .errors import ModelStateError, UnitError"))]),
    ("k-cap-salt", ["C29"], [(T, rep("        return self.du *", "        return 0.96 * self.du *"))]),
    ("k-steady", ["C35"], [(T, rep("        return t_upper + delta_t * dT_dt\n", "        return t_upper + delta_t * (dT_dt if abs(dT_dt) > 1e-13 else 0)\n"))]),
    ("k-clip-hot", ["C33", "C06"], [(T, rep("        return t_upper + delta_t * dT_dt\n", "        return max(t_upper + delta_t * dT_dt, -273.15)\n"))]),
]
BAD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in BAD]
