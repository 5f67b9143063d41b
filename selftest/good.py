"""Edits that keep the behaviour: (name, properties or None for all, edits)."""
import re

V = "_version.py"
B = "base.py"
T = "two_layer_model.py"
R = "impulse_response_model.py"
U = "utils.py"
E = "errors.py"


def sub(pat, rep, count=0, flags=re.S):
    def f(s):
        s2, n = re.subn(pat, rep, s, count=count, flags=flags)
        if not n:
            raise SystemExit("pattern does not apply: %r" % pat)
        return s2
    return f


LOOP_OLD = """        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
            meta = dict(zip(driver_ts.index.names, label))
            row_no_nan = row.dropna()

            out_run_tss_base = row_no_nan.to_frame().T
            out_run_tss_base.index.names = driver_ts.index.names

            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.reset()
            self.run()

            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])

            out_run = ScmRun(pd.concat(out_run_tss))
            # only now as drivers can differ in nothing but these columns
            out_run["climate_model"] = self._name
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i

            run_store.append(out_run)
"""
TAIL_OLD = """        idx = run_store[0].meta.columns.tolist()

        def get_ordered_timeseries(in_ts):
            in_ts = in_ts.reorder_levels(idx)

            return in_ts

        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )

        return out
"""
META_OLD = """        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }
"""
FILTER_OLD = """        driver = driver.filter(variable=driver_var, region="World")
        if np.equal(driver.shape[0], 0):
"""

GOOD = [
    # -------------------------------------------------------------- run_scenarios
    ("scen-helper", None, [(B, LOOP_OLD, """        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
            out_run = self._run_single(driver_ts.index.names, label, row)
            out_run["climate_model"] = self._name
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i
            run_store.append(out_run)
"""), (B, "    @abstractmethod\n    def _get_run_output_tss", """    def _run_single(self, names, label, row):
        meta = dict(zip(names, label))
        forcing = row.dropna()
        base = forcing.to_frame().T
        base.index.names = names

        self.delta_t = self._select_timestep(ScmRun(base.copy()))
        self.set_drivers(forcing.values * ur(meta["unit"]))
        self.reset()
        self.run()

        return ScmRun(pd.concat([base] + self._get_run_output_tss(base)))

    @abstractmethod
    def _get_run_output_tss""")]),
    ("scen-range-iloc", None, [(B, LOOP_OLD, """        names = driver_ts.index.names
        for i in tqdman.tqdm(range(driver_ts.shape[0]), desc="scenarios", leave=False, disable=not progress):
            row_no_nan = driver_ts.iloc[i, :].dropna()
            meta = dict(zip(names, driver_ts.index[i]))

            out_run_tss_base = row_no_nan.to_frame().T
            out_run_tss_base.index.names = names

            timestep = self._select_timestep(ScmRun(out_run_tss_base.copy()))
            self.delta_t = timestep
            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.reset()
            self.run()

            out_run_tss = [out_run_tss_base] + self._get_run_output_tss(out_run_tss_base)
            out_run = ScmRun(pd.concat(out_run_tss, axis=0))
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["climate_model"] = self._name
            out_run["run_idx"] = i
            run_store.append(out_run)
""")]),
    ("scen-len", None, [(B, "if np.equal(driver.shape[0], 0):", "if driver.shape[0] == 0:")]),
    ("scen-len2", None, [(B, "if np.equal(driver.shape[0], 0):", "if not len(driver):")]),
    ("scen-len3", None, [(B, "if np.equal(driver.shape[0], 0):", "if driver.shape[0] < 1:")]),
    ("scen-empty", None, [(B, "if np.equal(driver.shape[0], 0):", "if driver.timeseries().empty:")]),
    ("scen-filter2", None, [(B, FILTER_OLD, """        driver = driver.filter(region="World").filter(variable=driver_var)
        n_drivers = driver.shape[0]
        if n_drivers == 0:
""")]),
    ("scen-paras-late", None, [(B, META_OLD, ""), (B, "        run_store = list()\n", META_OLD + "\n        run_store = []\n")]),
    ("scen-paras-fstring", None, [(B, META_OLD, """        save_paras_meta = {}
        for para in self._save_paras:
            value = getattr(self, para)
            save_paras_meta[f"{para} ({value.units})"] = value.magnitude
""")]),
    ("scen-paras-method", None, [(B, META_OLD, "        save_paras_meta = self._get_save_paras_meta()\n"), (B, "    @abstractmethod\n    def _get_run_output_tss", """    def _get_save_paras_meta(self):
        out = dict()
        for k in self._save_paras:
            q = getattr(self, k)
            out["%s (%s)" % (k, q.u)] = q.m
        return out

    @abstractmethod
    def _get_run_output_tss""")]),
    ("scen-tail", None, [(B, TAIL_OLD, """        idx = run_store[0].meta.columns.tolist()

        return ScmRun(pd.concat([r.timeseries().reorder_levels(idx) for r in run_store]))
""")]),
    ("scen-tail-loop", None, [(B, TAIL_OLD, """        idx = run_store[0].meta.columns.tolist()
        tss = []
        for run in run_store:
            ts = run.timeseries()
            tss.append(ts.reorder_levels(idx))

        out = ScmRun(pd.concat(tss, axis=0))
        return out
""")]),
    ("scen-tail-meta", None, [(B, TAIL_OLD, """        idx = run_store[0].meta.columns.tolist()

        return ScmRun(pd.concat([r.timeseries(meta=idx) for r in run_store]))
""")]),
    ("scen-copy-first", None, [(B, "            driver = ScmRun(copy.deepcopy(scenarios))\n        else:\n            driver = scenarios.copy()\n\n        return driver", "            return ScmRun(copy.deepcopy(scenarios))\n\n        return scenarios.copy()")]),
    ("scen-ensure-inline", None, [(B, "        driver = self._ensure_scenarios_are_scmrun(scenarios)\n", "        if isinstance(scenarios, ScmRun):\n            driver = scenarios.copy()\n        else:\n            driver = ScmRun(copy.deepcopy(scenarios))\n")]),
    ("scen-df-copy", ["C19", "C20", "C22", "C24"], [(B, "copy.deepcopy(scenarios)", "scenarios.copy() if isinstance(scenarios, pd.DataFrame) else copy.deepcopy(scenarios)")]),
    ("scen-createts-list", None, [(T, sub(r"        out_run_tss = \[\]\n\n        out_run_tss.append\(.*?        return out_run_tss\n", """        return [
            self._create_ts(base=ts_base, unit=unit, variable=variable, values=values)
            for unit, variable, values in (
                (self._temp_upper_unit, "Surface Temperature|Upper", self._temp_upper_mag),
                (self._temp_lower_unit, "Surface Temperature|Lower", self._temp_lower_mag),
                (self._rndt_unit, "Heat Uptake", self._rndt_mag),
            )
        ]
"""), None)]),
    ("scen-createts-loop", None, [(R, sub(r"        out_run_tss = \[\]\n\n        out_run_tss.append\(.*?        return out_run_tss\n", """        outputs = {
            "Surface Temperature|Box 1": (self._temp1_unit, self._temp1_mag),
            "Surface Temperature|Box 2": (self._temp2_unit, self._temp2_mag),
            "Surface Temperature": (self._temp1_unit, self._temp1_mag + self._temp2_mag),
            "Heat Uptake": (self._rndt_unit, self._rndt_mag),
        }
        out = []
        for variable, (unit, values) in outputs.items():
            out.append(self._create_ts(ts_base, unit, variable, values))
        return out
"""), None)]),
    ("scen-createts-frame", None, [(B, """        out = base.copy()
        out.index = out.index.set_levels([unit], "unit")
        out.index = out.index.set_levels([variable], "variable")
        out.iloc[:, :] = values
""", """        out = base.copy()
        out.index = out.index.set_levels([variable], "variable").set_levels([unit], "unit")
        out.iloc[0, :] = values
""")]),
    ("scen-timestep-elif", None, [(B, sub(r"        year_diff = driver\[\"year\"\].diff.*?        raise NotImpl", """        if self_is_annual(driver):
            return 1 * ur("yr")

        if self_is_monthly(driver):
            return 1 * ur("month")

        raise NotImpl"""), None), (B, "class Model(ABC):", """def self_is_annual(driver):
    return (driver["year"].diff().dropna() == 1).all()


def self_is_monthly(driver):
    time_diff = driver["time"].diff().dropna()
    lower = np.timedelta64(28, "D")
    upper = np.timedelta64(31, "D")
    return ((time_diff >= lower) & (time_diff <= upper)).all()


class Model(ABC):""")]),
    ("scen-timestep-np", None, [(B, """        year_diff = driver["year"].diff().dropna()
        if (year_diff == 1).all():""", """        years = driver["year"].values
        if np.all(np.diff(years) == 1):""")]),
    ("scen-timestep-between", ["C21"], [(B, """        if all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):""", """        if time_diff.between(np.timedelta64(28, "D"), np.timedelta64(31, "D")).all():""")]),
    ("scen-timestep-any", ["C21"], [(B, """        if all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):""", """        outside = (time_diff > np.timedelta64(31, "D")) | (time_diff < np.timedelta64(28, "D"))
        if not outside.any():""")]),
    ("scen-timestep-notimpl", None, [(B, sub(r"        year_diff = driver\[\"year\"\].diff.*?        \)\n\n    def run_scen", """        year_diff = driver["year"].diff().dropna()
        time_diff = driver["time"].diff().dropna()
        monthly = np.logical_and(
            time_diff <= np.timedelta64(31, "D"),
            time_diff >= np.timedelta64(28, "D"),
        )
        if (year_diff == 1).all():
            unit = "yr"
        elif monthly.all():
            unit = "month"
        else:
            raise NotImplementedError(
                "Could not decide on timestep for time axis: {}".format(driver["time"])
            )
        return 1 * ur(unit)

    def run_scen"""), None)]),
    ("scen-quantity", None, [(B, 'self.set_drivers(row_no_nan.values * ur(meta["unit"]))', 'forcing = ur.Quantity(row_no_nan.values, meta["unit"])\n            self.set_drivers(forcing)')]),
    ("scen-tonumpy", None, [(B, 'row_no_nan.values * ur(meta["unit"])', 'row_no_nan.to_numpy() * ur(meta["unit"])')]),
    ("scen-unit-level", ["C05", "C20", "C22", "C23", "C24"], [(B, '            meta = dict(zip(driver_ts.index.names, label))\n', '            unit = label[driver_ts.index.names.index("unit")]\n'), (B, 'ur(meta["unit"])', "ur(unit)")]),
    ("scen-order", None, [(B, """            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
""", """            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
""")]),
    ("scen-dropna-frame", None, [(B, """            row_no_nan = row.dropna()

            out_run_tss_base = row_no_nan.to_frame().T
""", """            row_no_nan = row[~row.isnull()]

            out_run_tss_base = pd.DataFrame(row_no_nan).T
""")]),
    ("scen-list-driver", None, [(B, """            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])
""", """            out_run_tss = self._get_run_output_tss(out_run_tss_base)
            out_run_tss.insert(0, out_run_tss_base)
""")]),
    ("scen-extend", None, [(B, """            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])
""", """            out_run_tss = [out_run_tss_base]
            out_run_tss.extend(self._get_run_output_tss(out_run_tss_base))
""")]),
    ("scen-progress", None, [(B, """tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        )""", "enumerate(tqdman.tqdm(driver_ts.iterrows(), desc=\"scenarios\", leave=False, disable=not progress, total=len(driver_ts)))")]),
    ("scen-counter", None, [(B, "        for i, (label, row) in tqdman.tqdm(\n            enumerate(driver_ts.iterrows()),", "        i = -1\n        for label, row in tqdman.tqdm(\n            driver_ts.iterrows(),"), (B, "            meta = dict(zip(", "            i += 1\n            meta = dict(zip(")]),
    ("scen-append", None, [(B, "            run_store.append(out_run)\n", "            run_store.append(out_run.timeseries())\n"), (B, TAIL_OLD, """        idx = run_store[0].index.names

        return ScmRun(pd.concat([ts.reorder_levels(idx) for ts in run_store], axis=0))
""")]),
    ("scen-generator", None, [(B, LOOP_OLD, sub(r"            run_store\.append\(out_run\)\n", "            run_store.append(out_run)\n").__call__(LOOP_OLD))]),
    ("scen-comprehension", None, [(B, LOOP_OLD, """        rows = tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not progress,
        )
        run_store = [
            self._one(i, driver_ts.index.names, label, row, save_paras_meta)
            for i, (label, row) in rows
        ]
"""), (B, "    @abstractmethod\n    def _get_run_output_tss", """    def _one(self, i, names, label, row, metadata):
        meta = dict(zip(names, label))
        row_no_nan = row.dropna()
        base = row_no_nan.to_frame().T
        base.index.names = names
        self.delta_t = self._select_timestep(ScmRun(base.copy()))
        self.set_drivers(row_no_nan.values * ur(meta["unit"]))
        self.reset()
        self.run()
        out_run = ScmRun(pd.concat([base] + self._get_run_output_tss(base)))
        out_run["climate_model"] = self._name
        for k, v in metadata.items():
            out_run[k] = v
        out_run["run_idx"] = i
        return out_run

    @abstractmethod
    def _get_run_output_tss""")]),
]
