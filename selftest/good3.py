"""Edits of run_scenarios that keep its behaviour."""
from good import B, T, R, U, sub
from good import LOOP_OLD, META_OLD, TAIL_OLD, FILTER_OLD

TQ = """        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
"""
DT = "            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))\n"
DRV = '            self.set_drivers(row_no_nan.values * ur(meta["unit"]))\n'
RR = "            self.reset()\n            self.run()\n"
ENS = "            driver = ScmRun(copy.deepcopy(scenarios))\n"
CPY = "            driver = scenarios.copy()\n"
BODY = LOOP_OLD[len(TQ):]
LBL = """            out_run["climate_model"] = self._name
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i

"""
EMPTY = """        if np.equal(driver.shape[0], 0):
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )

"""
OUT = """            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])

            out_run = ScmRun(pd.concat(out_run_tss))
"""
DEF = "    def run_scenarios(  # pylint:disable=too-many-locals\n"
SEL_OLD = """        time_diff = driver["time"].diff().dropna()
        if all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
"""


def dedent(s, n=4):
    return "".join(l[n:] if l.strip() else l for l in s.splitlines(True))


def indent(s, n=4):
    return "".join(" " * n + l if l.strip() else l for l in s.splitlines(True))


assert TQ == LOOP_OLD[:len(TQ)]

GOOD = [
    ("x-empty-late", None, [(B, EMPTY, ""), (B, "        idx = run_store[0]", "        if not run_store:\n            raise ValueError(\"No World data available for driver_var `{}`\".format(driver_var))\n\n        idx = run_store[0]")]),
    ("x-copy-copy", None, [(B, "copy.deepcopy(scenarios)", "copy.copy(scenarios)")]),
    ("x-progress-if", None, [(B, TQ, """        rows = enumerate(driver_ts.iterrows())
        if progress:
            rows = tqdman.tqdm(rows, desc="scenarios", leave=False)
        for i, (label, row) in rows:
""")]),
    ("x-progress-ifexp", None, [(B, TQ, """        rows = list(driver_ts.iterrows())
        for i, (label, row) in enumerate(tqdman.tqdm(rows, desc="scenarios", leave=False) if progress else rows):
""")]),
    ("x-helper-row", None, [(B, DEF, '''    def _run_row(self, names, label, row):
        """Run one row"""
        meta = dict(zip(names, label))
        values = row.dropna()
        base = values.to_frame().T
        base.index.names = names

        self.delta_t = self._select_timestep(ScmRun(base.copy()))
        self.set_drivers(values.values * ur(meta["unit"]))
        self.reset()
        self.run()

        return ScmRun(pd.concat([base] + self._get_run_output_tss(base)))

''' + DEF), (B, BODY[:BODY.index("            # only now")], "            out_run = self._run_row(driver_ts.index.names, label, row)\n")]),
    ("x-generator", None, [(B, DEF, '''    def _iter_scenarios(self, driver, progress):
        ts = driver.timeseries()
        for i, (label, row) in tqdman.tqdm(
            enumerate(ts.iterrows()), desc="scenarios", leave=False, disable=not progress,
        ):
            yield i, dict(zip(ts.index.names, label)), row.dropna()

''' + DEF), (B, TQ + """            meta = dict(zip(driver_ts.index.names, label))
            row_no_nan = row.dropna()
""", "        for i, meta, row_no_nan in self._iter_scenarios(driver, progress):\n")]),
    ("x-mod-timestep", None, [(B, SEL_OLD, """        time_diff = driver["time"].diff().dropna()
        if _is_monthly(time_diff):
"""), (B, "class TwoLayerVariant", '''_MONTH_MIN = np.timedelta64(28, "D")
_MONTH_MAX = np.timedelta64(31, "D")


def _is_monthly(steps):
    """Whether all steps could be those of calendar months"""
    return ((steps >= _MONTH_MIN) & (steps <= _MONTH_MAX)).all()


class TwoLayerVariant''')]),
    ("x-timedelta-dt", None, [(B, SEL_OLD, """        time_diff = driver["time"].diff().dropna()
        if time_diff.between(pd.Timedelta(days=28), pd.Timedelta(days=31)).all():
""")]),
    ("x-timestep-not-any", None, [(B, SEL_OLD, """        time_diff = driver["time"].diff().dropna()
        too_short = time_diff < np.timedelta64(28, "D")
        too_long = time_diff > np.timedelta64(31, "D")
        if not (too_short | too_long).any():
""")]),
    ("x-timestep-any2", None, [(B, SEL_OLD, """        time_diff = driver["time"].diff().dropna()
        if not (np.any(time_diff < np.timedelta64(28, "D")) or np.any(time_diff > np.timedelta64(31, "D"))):
""")]),
    ("x-timestep-minmax", None, [(B, "        if (year_diff == 1).all():\n", "        if np.all(year_diff == 1):\n")]),
    ("x-timestep-ne", None, [(B, "        if (year_diff == 1).all():\n", "        if not (year_diff != 1).any():\n")]),
    ("x-meta-dict", None, [(B, LBL, """            labels = {"climate_model": self._name, "run_idx": i, **save_paras_meta}
            for k, v in labels.items():
                out_run[k] = v

""")]),
    ("x-meta-fn", None, [(B, LBL, """            _label(out_run, self._name, save_paras_meta, i)
"""), (B, "class TwoLayerVariant", '''def _label(run, name, paras, idx):
    run["climate_model"] = name
    for key in paras:
        run[key] = paras[key]
    run["run_idx"] = idx


class TwoLayerVariant''')]),
    ("x-drop-temp", None, [(B, OUT, """            out_run = ScmRun(
                pd.concat([out_run_tss_base, *self._get_run_output_tss(out_run_tss_base)])
            )
""")]),
    ("x-extend", None, [(B, "            out_run_tss += self._get_run_output_tss(out_run_tss[0])\n", "            out_run_tss.extend(self._get_run_output_tss(out_run_tss_base))\n")]),
    ("x-early-names", None, [(B, "        run_store = list()\n\n        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries()\n        names = driver_ts.index.names\n        run_store = []\n\n"), (B, "dict(zip(driver_ts.index.names, label))", "dict(zip(names, label))"), (B, "out_run_tss_base.index.names = driver_ts.index.names", "out_run_tss_base.index.names = names")]),
    ("x-unit-pos", None, [(B, TQ, "        unit_pos = list(driver_ts.index.names).index(\"unit\")\n" + TQ), (B, '            meta = dict(zip(driver_ts.index.names, label))\n', ""), (B, 'ur(meta["unit"])', "ur(label[unit_pos])")]),
    ("x-paras-method", None, [(B, """        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }
""", "        save_paras_meta = self._parameter_columns()\n"), (B, DEF, '''    def _parameter_columns(self):
        out = {}
        for name in self._save_paras:
            value = getattr(self, name)
            out["%s (%s)" % (name, value.units)] = value.magnitude
        return out

''' + DEF)]),
    ("x-paras-in-loop", None, [(B, LBL, """            out_run["climate_model"] = self._name
            for name in self._save_paras:
                value = getattr(self, name)
                out_run["{} ({})".format(name, value.units)] = value.magnitude
            out_run["run_idx"] = i

"""), (B, """        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }

""", "")]),
    ("x-select-method", None, [(B, '        driver = driver.filter(variable=driver_var, region="World")\n' + EMPTY, "        driver = self._select_driver(driver, driver_var)\n"), (B, DEF, '''    @staticmethod
    def _select_driver(driver, driver_var):
        out = driver.filter(variable=driver_var, region="World")
        if out.shape[0] == 0:
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )

        return out

''' + DEF)]),
    ("x-reset-first", None, [(B, DT + DRV + RR, DRV + DT + RR)]),
    ("x-isinstance-order", None, [(B, """        if not isinstance(scenarios, ScmRun):
            # copy as ScmRun formats the data it is given in place
            driver = ScmRun(copy.deepcopy(scenarios))
        else:
            driver = scenarios.copy()

        return driver
""", """        if isinstance(scenarios, ScmRun):
            return scenarios.copy()

        # copy as ScmRun formats the data it is given in place
        return ScmRun(copy.deepcopy(scenarios))
""")]),
    ("x-enumerate-manual", None, [(B, TQ, """        i = -1
        for label, row in tqdman.tqdm(
            driver_ts.iterrows(), desc="scenarios", leave=False, disable=not progress,
        ):
            i += 1
""")]),
    ("x-idx-append", None, [(B, '            out_run["run_idx"] = i\n', '            out_run["run_idx"] = len(run_store)\n')]),
    ("x-iloc-rows", None, [(B, TQ, """        for i in range(driver_ts.shape[0]):
            label, row = driver_ts.index[i], driver_ts.iloc[i]
""")]),
    ("x-notnull", None, [(B, "            row_no_nan = row.dropna()\n", "            row_no_nan = row[row.notnull()]\n")]),
    ("x-isnan-loc", None, [(B, "            row_no_nan = row.dropna()\n", "            row_no_nan = row.loc[~row.isnull()]\n")]),
    ("x-empty-rowcount", None, [(B, "        if np.equal(driver.shape[0], 0):\n", "        if len(driver) == 0:\n")]),
    ("x-empty-lt", None, [(B, "        if np.equal(driver.shape[0], 0):\n", "        n_scenarios, _ = driver.shape\n        if n_scenarios < 1:\n")]),
    ("x-guard-nested", None, [(B, "        if np.equal(driver.shape[0], 0):\n", "        has_data = driver.shape[0] > 0\n        if not has_data:\n")]),
    ("x-store-dict", None, [(B, "        run_store = list()\n", "        run_store = {}\n"), (B, "            run_store.append(out_run)\n", "            run_store[i] = out_run\n"), (B, "for r in run_store]", "for r in run_store.values()]")]),
    ("x-try-log", None, [(B, RR, "            self.reset()\n            try:\n                self.run()\n            except Exception:\n                raise\n")]),
    ("x-nan-if", None, [(B, "            row_no_nan = row.dropna()\n", "            row_no_nan = row.dropna() if row.isnull().any() else row\n")]),
    ("x-msg", None, [(B, '"No World data available for driver_var `{}`".format(driver_var)', 'f"No World data available for driver_var `{driver_var}`"')]),
]
