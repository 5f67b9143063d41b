"""Bugs written from the statements of the properties only, seventh batch."""
T, R, B, U = "two_layer_model.py", "impulse_response_model.py", "base.py", "utils.py"


def rep(a, b, n=1):
    def f(s):
        assert a in s, a
        return s.replace(a, b) if n == 0 else s.replace(a, b, n)
    return f


def chain(*fs):
    def f(s):
        for g in fs:
            s = g(s)
        return s
    return f


BAD = [
    # the arrays take the forcing's own type: integers truncate every result
    ("i-full-like", ["C06"], [(T, rep("np.zeros_like(self._erf_mag) * np.nan", "np.full_like(self._erf_mag, np.nan)", 0))]),
    ("i-full-like-r", ["C08"], [(R, rep("np.zeros_like(self._erf_mag) * np.nan", "np.full_like(self._erf_mag, np.nan)", 0))]),
    ("i-zeros-like", ["C06"], [(T, rep("np.zeros_like(self._erf_mag) * np.nan", "np.zeros_like(self._erf_mag)", 0))]),
    ("i-copy", ["C06"], [(T, rep("self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan", "self._temp_upper_mag = self._erf_mag.copy()"))]),
    ("i-copy-uptake", ["C07"], [(T, rep("        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan", "        self._rndt_mag = self._erf_mag.copy()"))]),
    ("i-alias", ["C06"], [(T, rep("self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan", "self._temp_upper_mag = self._erf_mag"))]),
    # a refused value
    ("i-duck", ["C01"], [(B, rep("if not isinstance(quantity, pint.Quantity):", 'if not hasattr(quantity, "to"):'))]),
    ("i-unit-object", ["C01"], [(B, rep("isinstance(quantity, pint.Quantity)", "isinstance(quantity, (pint.Quantity, pint.Unit))"))]),
    ("i-zero-ok", ["C01"], [(B, rep("        if not isinstance(quantity, pint.Quantity):", "        if isinstance(quantity, (int, float)) and quantity == 0:\n            return\n\n        if not isinstance(quantity, pint.Quantity):"))]),
    ("i-dim-first", ["C01", "C27"], [(B, rep("        try:\n            quantity.to(model_units)\n        except", "        if quantity.dimensionless:\n            return\n\n        try:\n            quantity.to(model_units)\n        except"))]),
    ("i-undefined-unit", ["C27"], [(B, rep("except pint.errors.DimensionalityError as exc", "except (pint.errors.DimensionalityError, ValueError) as exc"))]) if False else
    ("i-raise-from-none", ["C27"], [(B, rep('.format(name)) from exc', '.format(name)) from None'))]),
    # forgetting part of the state
    ("i-reset-idx-only", ["C12"], [(T, rep("        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like(self._erf_mag)", "        if self._temp_upper_mag.size != self._erf_mag.size:\n            self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like(self._erf_mag)"))]),
    ("i-reset-before", ["C02"], [(T, rep("        if np.isnan(self.erf).any():", "        self._timestep_idx = np.nan\n        if np.isnan(self.erf).any():"))]),
    ("i-nan-first", ["C13"], [(R, rep("np.isnan(self.erf).any()", "np.isnan(self.erf).all()"))]),
    ("i-nan-sum", ["C13"], [(R, rep("np.isnan(self.erf).any()", "np.isnan(np.nanmax(self.erf))"))]),
    # axes
    ("i-ndim-squeeze", ["C14"], [(B, rep("        if np.ndim(erf) != 1:", "        if np.ndim(np.squeeze(erf)) > 1:"))]),
    ("i-year-any", ["C21"], [(B, rep("(year_diff == 1).all()", "(year_diff == 1).any()"))]),
    ("i-year-median", ["C21"], [(B, rep("(year_diff == 1).all()", "year_diff.median() == 1"))]),
    ("i-month-27", ["C21"], [(B, rep('np.timedelta64(28, "D")', 'np.timedelta64(27, "D")'))]),
    ("i-month-hours", ["C21"], [(B, rep('time_diff <= np.timedelta64(31, "D")', 'time_diff < np.timedelta64(32, "D")'))]),
    ("i-first-axis", ["C21", "C20"], [(B, rep("            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))", "            if i == 0:\n                self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))"))]),
    ("i-row-axis", ["C21"], [(B, rep("self._select_timestep(ScmRun(out_run_tss_base.copy()))", "self._select_timestep(driver)"))]),
    ("i-fillna", ["C20"], [(B, rep("row_no_nan = row.dropna()", "row_no_nan = row.fillna(0.0)"))]),
    ("i-interpolate", ["C20"], [(B, rep("row_no_nan = row.dropna()", "row_no_nan = row.interpolate().dropna()"))]),
    ("i-region-wild", ["C22"], [(B, rep('region="World")', 'region="World*")'))]),
    ("i-var-wild", ["C22"], [(B, rep("variable=driver_var,", 'variable=driver_var + "*",'))]),
    ("i-late-check", ["C22"], [(B, rep("if np.equal(driver.shape[0], 0):", "if driver.shape[1] == 0:"))]),
    ("i-meta-late", ["C23"], [(B, rep('"{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude', '"{} ({})".format(k, getattr(self, "_{}_unit".format(k))): getattr(self, k).magnitude'))]),
    ("i-meta-round", ["C23"], [(B, rep("getattr(self, k).magnitude\n", "round(getattr(self, k).magnitude, 6)\n"))]),
    ("i-idx-shared", ["C24"], [(B, rep('            out_run["run_idx"] = i\n', '            out_run["run_idx"] = 0\n'))]),
    ("i-ecs-abs", ["C25"], [(U, rep("return -f2x / lambda_val", "return abs(f2x / lambda_val)"))]),
    ("i-ecs-round", ["C25"], [(U, rep("return -f2x / lambda_val", "return (-f2x / lambda_val).to_reduced_units().to(\"delta_degC\") if lambda_val.magnitude < 0 else f2x / lambda_val"))]),
    ("i-a-negative", ["C17"], [(T, rep("if not np.equal(self.a.magnitude, 0):", "if self.a.magnitude > 0:"))]),
    ("i-a-isclose", ["C17"], [(T, rep("if not np.equal(self.a.magnitude, 0):", "if not np.isclose(self._a_mag, 0):"))]),
    ("i-a-int", ["C17"], [(T, rep("if not np.equal(self.a.magnitude, 0):", "if int(self.a.magnitude) != 0:"))]),
    ("i-d-equal", ["C18"], [(R, rep("if d1 >= d2:", "if d1 > d2:"))]),
    ("i-d-mag", ["C18", "C05"], [(R, rep("if d1 >= d2:", "if d1.magnitude >= d2.magnitude:"))]),
    ("i-eff-int", ["C09"], [(R, rep("if np.equal(efficacy, 1):", "if np.equal(np.round(efficacy, 2), 1):"))]),
    ("i-idx-neg", ["C10"], [(T, rep("                self._erf_mag[self._timestep_idx - 1],\n", "                self._erf_mag[self._timestep_idx - 2],\n"))]),
    ("i-size-run", ["C11"], [(T, rep("for _ in self.erf:", "for _ in np.flatnonzero(self.erf.magnitude):"))]),
    ("i-unique-run", ["C11"], [(T, rep("for _ in self.erf:", "for _ in set(self.erf.magnitude):"))]),
    ("i-stop-equilibrium", ["C11"], [(T, rep("            self.step()\n", "            self.step()\n            if self._timestep_idx > 1 and self._rndt_mag[self._timestep_idx] == self._rndt_mag[self._timestep_idx - 1]:\n                break\n"))]),
    ("i-heat-salt", ["C29"], [(T, rep("return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "return self.dl * DENSITY_WATER * (HEAT_CAPACITY_WATER if self.dl < 3000 * ur(\"m\") else 0.99 * HEAT_CAPACITY_WATER)"))]),
    ("i-shared-out", ["C26"], [(T, rep("        out_run_tss = []\n", "        out_run_tss = TwoLayerModel._out = getattr(TwoLayerModel, \"_out\", [])[:0]\n"))]),
]
BAD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in BAD]
