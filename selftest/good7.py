"""Behaviour-preserving edits, seventh batch."""
from bad7 import rep, chain

T, R, B, U, V, E = "two_layer_model.py", "impulse_response_model.py", "base.py", "utils.py", "_version.py", "errors.py"

SAME = '''        old = getattr(self, "_%s", None)
        if isinstance(old, pint.Quantity) and old is val:
            return
'''

GOOD = [
    ("u-same-object", [(B, rep("        self._delta_t = val\n", SAME % "delta_t" + "        self._delta_t = val\n"))]),
    ("u-same-value", [(B, rep("        self._delta_t = val\n", '''        old = getattr(self, "_delta_t", None)
        if old is not None and old.units == val.units and old.magnitude == val.magnitude:
            return
        self._delta_t = val
'''))]),
    ("u-sorted-tau", [(T, rep('        d1 = gh["tau1"]\n        d2 = gh["tau2"]\n', '        d1, d2 = (gh[k] for k in sorted(("tau2", "tau1")))\n'))]),
    ("u-next-walrus", [(T, rep("        for _ in self.erf:\n            self.step()\n", "        left = iter(self.erf)\n        while (_ := next(left, None)) is not None:\n            self.step()\n"))]),
    ("u-next-run", [(R, rep("        for _ in self.erf:\n            self.step()\n", "        left = iter(self.erf)\n        while True:\n            try:\n                next(left)\n            except StopIteration:\n                break\n            self.step()\n"))]),
    ("u-next-run-else", [(T, rep("        for _ in self.erf:\n            self.step()\n", "        left = iter(self.erf)\n        while True:\n            try:\n                _ = next(left)\n            except StopIteration:\n                break\n            else:\n                self.step()\n"))]),
    ("u-next-default", [(T, rep("        for _ in self.erf:\n            self.step()\n", "        done = object()\n        left = iter(self.erf)\n        while next(left, done) is not done:\n            self.step()\n"))]),
    ("u-helper-local", [(R, rep("        decay_factor = np.exp(-delta_t / d)\n        rise = erf * q * (1 - np.exp(-delta_t / d))\n\n        return t * decay_factor + rise\n", "        remaining = np.exp(-delta_t / d)\n        target = q * erf\n\n        return target + (t - target) * remaining\n"))]),
    ("u-month-bounds", [(B, rep('''        if all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        shortest, longest = np.timedelta64(28, "D"), np.timedelta64(31, "D")
        if not any((time_diff < shortest) | (time_diff > longest)):
'''))]),
    ("u-year-unique", [(B, rep('        if (year_diff == 1).all():\n', '        if set(year_diff) <= {1}:\n'))]),
    ("u-create-loop", [(B, rep('''        out.index = out.index.set_levels([unit], "unit")
        out.index = out.index.set_levels([variable], "variable")
''', '''        for level, value in (("unit", unit), ("variable", variable)):
            out.index = out.index.set_levels([value], level)
'''))]),
    ("u-driver-guard", [(B, rep('''        if np.equal(driver.shape[0], 0):
''', '''        n_drivers = driver.shape[0]
        if not n_drivers:
'''))]),
    ("u-meta-update", [(B, rep('''            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i
''', '''            for k, v in {**save_paras_meta, "run_idx": i}.items():
                out_run[k] = v
'''))]),
    ("u-rndt-factor", [(T, rep('''        uptake_lower = heat_capacity_lower * (t_lower_now - t_lower_prev) / delta_t
        uptake_upper = heat_capacity_upper * (t_upper_now - t_upper_prev) / delta_t

        return uptake_upper + uptake_lower
''', '''        heat_gain = heat_capacity_upper * (t_upper_now - t_upper_prev)
        heat_gain = heat_gain + heat_capacity_lower * (t_lower_now - t_lower_prev)

        return heat_gain / delta_t
'''))]),
    ("u-check-try", [(B, rep('''        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
''', '''        message = "Wrong units for `{}`".format(name)
        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as mismatch:
            error = UnitError(message)
            raise error from mismatch
'''))]),
    ("u-a-any", [(T, rep("if not np.equal(self.a.magnitude, 0):", "if self.a.magnitude != 0:"))]),
    ("u-ecs-split", [(U, rep("    return -f2x / lambda_val\n", "    feedback = -1 * lambda_val\n\n    return f2x / feedback\n"))]),
    ("u-reset-loop", [(R, rep('''        self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan

    def _run''', '''        for output in ("_temp1_mag", "_temp2_mag", "_rndt_mag"):
            setattr(self, output, np.full(len(self._erf_mag), np.nan))

    def _run'''))]),
    ("u-vectorised-dt", [(B, rep('        time_diff = driver["time"].diff().dropna()\n', '        time_diff = driver["time"].diff().iloc[1:]\n'))]),
    ("u-loc-callable", [(B, rep("            row_no_nan = row.dropna()\n", "            row_no_nan = row.loc[lambda values: values.notna()]\n"))]),
    ("u-get-callable", [(B, rep("            row_no_nan = row.dropna()\n", "            row_no_nan = row[lambda values: ~values.isna()]\n"))]),
    ("u-any-columns", [(B, rep("        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries()\n        driver_ts = driver_ts.loc[:, driver_ts.notna().any()]\n"))]),
    ("u-all-valid-short", [(B, rep("            row_no_nan = row.dropna()\n", "            row_no_nan = row if row.notna().all() else row.dropna()\n"))]),
    ("u-concat-gen", [(B, rep("                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0\n", "                list(map(get_ordered_timeseries, (r.timeseries() for r in run_store)))\n"))]),
]
GOOD = [(n, None, [(f, g, None) for f, g in e]) for n, e in GOOD]
