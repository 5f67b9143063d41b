"""Edits of run_scenarios that break a property."""
from good import B, T, R, V, sub
from good import LOOP_OLD, META_OLD, TAIL_OLD, FILTER_OLD

DT = "            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n"
DRV = '            self.set_drivers(row_no_nan.values * ur(meta["unit"]))\n'
RR = "            self.reset()\n            self.run()\n"
LBL = """            out_run["climate_model"] = self._name
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i
"""
CRE = """        out = base.copy()
        out.index = out.index.set_levels([unit], "unit")
        out.index = out.index.set_levels([variable], "variable")
        out.iloc[:, :] = values
"""
ENS = "            driver = ScmRun(copy.deepcopy(scenarios))\n"
CPY = "            driver = scenarios.copy()\n"
YD = "        if (year_diff == 1).all():\n"
TD = """        if all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
"""
ROW = "            row_no_nan = row.dropna()\n"
RS = "            run_store.append(out_run)\n"

BAD = [
    # ---- C19
    ("w-nocopy", ["C19"], [(B, ENS, "            driver = ScmRun(scenarios)\n")]),
    ("w-norun-copy", ["C19"], [(B, CPY, "            driver = scenarios\n"), (B, FILTER_OLD, '        driver["climate_model"] = self._name\n' + FILTER_OLD)]),
    ("w-tag-before-copy", ["C19"], [(B, CPY, '            scenarios["climate_model"] = "two_layer"\n            driver = scenarios.copy()\n')]),
    ("w-sort-input", ["C19"], [(B, "        driver = self._ensure_scenarios_are_scmrun(scenarios)\n", '        if isinstance(scenarios, pd.DataFrame):\n            scenarios.sort_index(axis=1, inplace=True)\n        driver = self._ensure_scenarios_are_scmrun(scenarios)\n')]),
    ("w-erf-normalise", ["C19"], [(B, "        self.erf = erf\n", "        erf.ito(self._erf_unit)\n        self.erf = erf\n")]),
    ("w-inplace-filter", ["C19"], [(B, CPY, "            driver = scenarios\n"), (B, "driver = driver.filter(variable=driver_var, region=\"World\")", "driver.filter(variable=driver_var, region=\"World\", inplace=True)")]),
    ("w-rename-cols", ["C19"], [(B, ENS, "            if isinstance(scenarios, pd.DataFrame):\n                scenarios.columns = [str(c).lower() for c in scenarios.columns]\n" + ENS)]),
    ("w-nan-forcing", ["C19"], [(B, "        self._erf = val\n", "        mag = val.magnitude\n        if np.ndim(mag):\n            mag[np.isnan(mag)] = np.nan\n        self._erf = val\n")]),
    ("w-erf-inplace", ["C19"], [(T, "        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like", "        self.erf.ito_base_units()\n        self._timestep_idx = np.nan\n        self._temp_upper_mag = np.zeros_like")]),
    ("w-columns-name", ["C19"], [(B, ENS, "            if hasattr(scenarios, 'columns'):\n                scenarios.columns.name = 'time'\n" + ENS)]),
    # ---- C20
    ("w-noreset", ["C20"], [(B, RR, "            if i == 0:\n                self.reset()\n            self.run()\n")]),
    ("w-convert-first", ["C20"], [(B, "        driver_ts = driver.timeseries()\n", '        driver_ts = driver.timeseries()\n        unit0 = driver_ts.index.get_level_values("unit")[0]\n'), (B, 'ur(meta["unit"])', "ur(unit0)")]),
    ("w-interp", ["C20"], [(B, ROW, "            row_no_nan = row.interpolate().dropna()\n")]),
    ("w-fillna", ["C20"], [(B, ROW, "            row_no_nan = row.fillna(0)\n")]),
    ("w-ffill", ["C20"], [(B, ROW, "            row_no_nan = row.ffill().dropna()\n")]),
    ("w-common-axis", ["C20"], [(B, "        driver_ts = driver.timeseries()\n", '        driver_ts = driver.timeseries().dropna(axis="columns")\n')]),
    ("w-common-axis-all", ["C20"], [(B, "        driver_ts = driver.timeseries()\n", '        driver_ts = driver.timeseries().dropna(axis="columns", thresh=2)\n')]),
    ("w-anomaly", ["C20"], [(B, DRV, '            self.set_drivers((row_no_nan - driver_ts.mean(axis=0).iloc[0]).values * ur(meta["unit"]))\n')]),
    ("w-warm", ["C20"], [(B, RR, "            if not run_store or len(row_no_nan) != len(self._erf_mag):\n                self.reset()\n            else:\n                self._timestep_idx = np.nan\n            self.run()\n")]),
    ("w-dedup-forcing", ["C20"], [(B, RR, "            if not run_store or (row_no_nan.values != prev).any():\n                self.reset()\n                self.run()\n            prev = row_no_nan.values\n")]),
    ("w-first-len", ["C20"], [(B, ROW, "            row_no_nan = row.dropna()\n            if run_store:\n                row_no_nan = row_no_nan.iloc[: len(self._erf_mag)]\n")]),
    ("w-prev-unit", ["C20"], [(B, "            meta = dict(zip(driver_ts.index.names, label))\n", "            if not run_store:\n                meta = dict(zip(driver_ts.index.names, label))\n            meta.update({k: v for k, v in zip(driver_ts.index.names, label) if k != 'unit'})\n")]),
    ("w-dropzero", ["C20"], [(B, ROW, "            row_no_nan = row.dropna()\n            row_no_nan = row_no_nan[row_no_nan != 0] if len(driver_ts) > 1 else row_no_nan\n")]),
    # ---- C21
    ("w-dt-first", ["C21"], [(B, DT, "            if not run_store:\n    " + DT)]),
    ("w-dt-driver", ["C21"], [(B, DT, ""), (B, "        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries()\n        self.delta_t = self._select_timestep(driver)\n")]),
    ("w-dt-any", ["C21"], [(B, YD, "        if (year_diff == 1).any():\n")]),
    ("w-dt-le1", ["C21"], [(B, "        time_diff = driver", "        if (year_diff <= 1).all() and len(driver['year']) > 1000:\n            return 1 * ur('yr')\n        time_diff = driver")]),
    ("w-dt-mean", ["C21"], [(B, YD, "        if year_diff.mean() == 1:\n")]),
    ("w-dt-endpoints", ["C21"], [(B, YD, "        if driver['year'].max() - driver['year'].min() == len(driver['year']) - 1:\n")]),
    ("w-dt-32", ["C21"], [(B, 'np.timedelta64(31, "D")', 'np.timedelta64(32, "D")')]),
    ("w-dt-27", ["C21"], [(B, 'np.timedelta64(28, "D")', 'np.timedelta64(27, "D")')]),
    ("w-dt-open", ["C21"], [(B, 'time_diff >= np', 'time_diff > np')]),
    ("w-dt-median", ["C21"], [(B, TD, '        if np.timedelta64(28, "D") <= time_diff.median() <= np.timedelta64(31, "D"):\n')]),
    ("w-dt-first-diff", ["C21"], [(B, TD, '        if np.timedelta64(28, "D") <= time_diff.iloc[0] <= np.timedelta64(31, "D"):\n')]),
    ("w-dt-guess", ["C21"], [(B, "        raise NotImplementedError(\n", "        if len(time_diff.unique()) == 1:\n            return (time_diff.iloc[0] / np.timedelta64(1, \"D\")) * ur('day')\n\n        raise NotImplementedError(\n")]),
    ("w-dt-single", ["C21"], [(B, "        time_diff = driver", "        if len(driver['year']) == 2:\n            return 1 * ur('month')\n        time_diff = driver")]),
    ("w-dt-month-12", ["C21"], [(B, 'return 1 * ur("month")', 'return ur("yr") / 12 * 1.0001')]),
    ("w-dt-cal", ["C21"], [(B, 'return 1 * ur("yr")', 'return 365 * ur("day")')]),
    ("w-dt-nan", ["C21"], [(B, "ScmRun(out_run_tss_base.copy())", "ScmRun(driver_ts.iloc[[i]].copy())")]),
    ("w-dt-keep", ["C21"], [(B, DT, "            if run_store and len(row_no_nan) == len(self._erf_mag):\n                pass\n            else:\n    " + DT)]),
    ("w-dt-cache", ["C21"], [(B, DT, "            n = len(row_no_nan)\n            if n not in steps:\n                steps[n] = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n            self.delta_t = steps[n]\n"), (B, "        run_store = list()\n", "        run_store = list()\n        steps = dict()\n")]),
    ("w-dt-minutes", ["C21"], [(B, 'driver["time"].diff().dropna()', 'driver["time"].diff().dropna().dt.floor("D")')]),
    # ---- C22
    ("w-wild", ["C22"], [(B, "variable=driver_var, region", "variable=driver_var + \"*\", region")]),
    ("w-region-wild", ["C22"], [(B, 'region="World")', 'region="World*")')]),
    ("w-noregion", ["C22"], [(B, 'driver.filter(variable=driver_var, region="World")', "driver.filter(variable=driver_var)")]),
    ("w-fallback", ["C22"], [(B, FILTER_OLD, '        world = driver.filter(variable=driver_var, region="World")\n        driver = world if world.shape[0] else driver.filter(variable=driver_var)\n' + "\n".join(FILTER_OLD.split("\n")[1:]))]),
    ("w-first-only", ["C22"], [(B, "        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries().drop_duplicates()\n")]),
    ("w-level", ["C22"], [(B, 'driver.filter(variable=driver_var, region="World")', 'driver.filter(variable=driver_var, region="World", level=0)')]),
    ("w-year", ["C22"], [(B, 'driver.filter(variable=driver_var, region="World")', 'driver.filter(variable=driver_var, region="World", year=range(1750, 2501))')]),
    ("w-default-driver", ["C22"], [(B, 'driver_var="Effective Radiative Forcing"', 'driver_var="Radiative Forcing"')]),
    ("w-keyerror", ["C22"], [(B, "            raise ValueError(\n                \"No World", "            raise KeyError(\n                \"No World")]),
    ("w-all-nan-row", ["C22"], [(B, "            meta = dict(zip", "            if (row == 0).all():\n                continue\n            meta = dict(zip")]),
    # ---- C23
    ("w-mag-internal", ["C23"], [(B, "getattr(self, k).units): getattr(self, k).magnitude", "getattr(self, \"_{}_unit\".format(k))): getattr(self, k).magnitude")]),
    ("w-mag-rounded", ["C23"], [(B, "getattr(self, k).magnitude\n", "round(getattr(self, k).magnitude, 6)\n")]),
    ("w-mag-str", ["C23"], [(B, "getattr(self, k).magnitude\n", "float(\"{:.6g}\".format(getattr(self, k).magnitude))\n")]),
    ("w-cls-name", ["C23"], [(B, LBL, LBL.replace("self._name", "type(self).__name__"))]),
    ("w-skip-zero", ["C23"], [(B, "            for k in self._save_paras\n", "            for k in self._save_paras\n            if getattr(self, k).magnitude != 0\n")]),
    ("w-after", ["C23"], [(B, "                out_run[k] = v\n", "                out_run.meta[k] = v\n")]),
    ("w-units-compact", ["C23"], [(B, "\"{} ({})\".format(k, getattr(self, k).units)", "\"{} ({:~})\".format(k, getattr(self, k).units)")]),
    ("w-only-first", ["C23"], [(B, "            for k, v in save_paras_meta.items():\n", "            for k, v in (save_paras_meta.items() if not run_store else ()):\n")]),
    ("w-overwrite-model", ["C23"], [(B, LBL, LBL.replace('            out_run["climate_model"] = self._name\n', '            if "climate_model" not in out_run.meta:\n                out_run["climate_model"] = self._name\n'))]),

    ("w-dup-para", ["C23"], [(B, "getattr(self, k).magnitude\n            for", "getattr(self, \"efficacy\" if k == \"eta\" and getattr(self, k).magnitude == 1 else k).magnitude\n            for")]),
    # ---- C24
    ("w-swap-label", ["C24"], [(T, 'variable="Surface Temperature|Upper",\n                values=self._temp_upper_mag', 'variable="Surface Temperature|Lower",\n                values=self._temp_upper_mag'), (T, 'variable="Surface Temperature|Lower",\n                values=self._temp_lower_mag', 'variable="Surface Temperature|Upper",\n                values=self._temp_lower_mag')]),
    ("w-unit-label", ["C24"], [(R, "                unit=self._rndt_unit,", "                unit=self._temp1_unit,")]),
    ("w-nodriver", ["C24"], [(B, "            out_run_tss = [out_run_tss_base]\n", "            out_run_tss = [out_run_tss_base] if not run_store else []\n"), (B, "self._get_run_output_tss(out_run_tss[0])", "self._get_run_output_tss(out_run_tss_base)")]),
    ("w-runidx-zero", ["C24"], [(B, 'out_run["run_idx"] = i\n', 'out_run["run_idx"] = 0\n')]),
    ("w-runidx-mod", ["C24"], [(B, 'out_run["run_idx"] = i\n', 'out_run["run_idx"] = i % 100\n')]),
    ("w-runidx-len", ["C24"], [(B, 'out_run["run_idx"] = i\n', 'out_run["run_idx"] = i // len(out_run_tss)\n')]),
    ("w-keep-runidx", ["C24"], [(B, 'out_run["run_idx"] = i\n', 'if "run_idx" not in out_run.meta:\n                out_run["run_idx"] = i\n')]),
    ("w-drop-last", ["C24"], [(B, "for r in run_store]", "for r in run_store[:-1] or run_store]")]),
    ("w-dedup", ["C24"], [(B, "        return out\n\n    @abstractmethod\n    def _get", "        return ScmRun(out.timeseries().drop_duplicates())\n\n    @abstractmethod\n    def _get")]),
    ("w-dropna-out", ["C24"], [(B, "                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0\n            )\n", "                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0\n            ).dropna(axis=\"columns\")\n")]),
    ("w-inner", ["C24"], [(B, "for r in run_store], axis=0\n", "for r in run_store], axis=0, join=\"inner\"\n")]),
    ("w-driver-nan", ["C24"], [(B, "            out_run_tss_base = row_no_nan.to_frame().T\n", "            out_run_tss_base = row.to_frame().T.loc[:, row_no_nan.index[0]:row_no_nan.index[-1]]\n")]),
    ("w-tail-shift", ["C24"], [(B, CRE, CRE + "        out = out.shift(1, axis=1)\n")]),
    ("w-rounded", ["C24"], [(B, "        out.iloc[:, :] = values\n", "        out.iloc[:, :] = np.round(values, 10)\n")]),
    ("w-driver-unit", ["C24"], [(B, "            out_run_tss = [out_run_tss_base]\n", "            out_run_tss = [self._create_ts(out_run_tss_base, self._erf_unit, meta[\"variable\"], row_no_nan.values)]\n")]),
    ("w-driver-erf", ["C24"], [(B, "            out_run_tss = [out_run_tss_base]\n", "            out_run_tss = [self._create_ts(out_run_tss_base, meta[\"unit\"], meta[\"variable\"], self._erf_mag)]\n")]),
    ("w-no-uptake-short", ["C24"], [(T, "        return out_run_tss\n", "        return out_run_tss if len(self._erf_mag) > 1 else out_run_tss[:2]\n")]),
    ("w-same-base", ["C24"], [(B, "        out = base.copy()\n", "        out = base\n")]),
    ("w-lower-view", ["C24"], [(T, "                values=self._temp_lower_mag,\n", "                values=self._temp_lower_mag if self._eta_mag else self._temp_upper_mag,\n")]),
    ("w-continue-dup", ["C22"], [(B, "            meta = dict(zip(driver_ts.index.names, label))\n", "            meta = dict(zip(driver_ts.index.names, label))\n            if meta.get(\"scenario\") in done:\n                continue\n            done.append(meta.get(\"scenario\"))\n"), (B, "        run_store = list()\n", "        run_store = list()\n        done = []\n")]),
]
