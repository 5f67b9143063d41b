"""Whole-function rewrites that keep the behaviour, as a maintainer would
write them when tidying the code near one of its properties."""
import ast

from good import B, T, R, U, E, V

C = "constants.py"


def fn(name, new, nth=0, before=""):
    """replace the nth definition called `name` (decorators included)"""
    def f(s):
        hits = [n for n in ast.walk(ast.parse(s)) if isinstance(n, ast.FunctionDef) and n.name == name]
        hits.sort(key=lambda n: n.lineno)
        n = hits[nth]
        a = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
        b = max(getattr(x, "end_lineno", 0) or 0 for x in ast.walk(n))
        L = s.split("\n")
        return "\n".join(L[:a] + before.strip("\n").split("\n") * bool(before) + new.strip("\n").split("\n") + L[b:])
    return f


def head(extra):
    """insert after the module's imports"""
    def f(s):
        t = ast.parse(s)
        last = max(n.end_lineno for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom)))
        L = s.split("\n")
        return "\n".join(L[:last] + extra.strip("\n").split("\n") + L[last:])
    return f


def rep(old, new, n=1):
    def f(s):
        assert old in s, old
        return s.replace(old, new) if n == 0 else s.replace(old, new, n)
    return f


STEP_T = '''
    def _step(self):
        self._timestep_idx = (
            0 if np.isnan(self._timestep_idx) else self._timestep_idx + 1
        )
        if self._timestep_idx == 0:
            self._initialise_first_step()
            return

        self._take_step(self._timestep_idx - 1, self._timestep_idx)

    def _initialise_first_step(self):
        for state in (self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag):
            state[0] = 0.0

    def _take_step(self, prev, now):
        t_upper = self._temp_upper_mag[prev]
        t_lower = self._temp_lower_mag[prev]

        self._temp_upper_mag[now] = self._calculate_next_temp_upper(
            delta_t=self._delta_t_mag,
            t_upper=t_upper,
            t_lower=t_lower,
            erf=self._erf_mag[prev],
            lambda0=self._lambda0_mag,
            a=self._a_mag,
            efficacy=self._efficacy_mag,
            eta=self._eta_mag,
            heat_capacity_upper=self._heat_capacity_upper_mag,
        )
        self._temp_lower_mag[now] = self._calculate_next_temp_lower(
            delta_t=self._delta_t_mag,
            t_lower=t_lower,
            t_upper=t_upper,
            eta=self._eta_mag,
            heat_capacity_lower=self._heat_capacity_lower_mag,
        )
        self._rndt_mag[now] = self._calculate_next_rndt(
            self._delta_t_mag,
            self._temp_lower_mag[now],
            t_lower,
            self._heat_capacity_lower_mag,
            self._temp_upper_mag[now],
            t_upper,
            self._heat_capacity_upper_mag,
        )
'''
STEP_R = '''
    def _step(self):
        first = np.isnan(self._timestep_idx)
        self._timestep_idx = 0 if first else self._timestep_idx + 1
        now = self._timestep_idx
        if first:
            new = (0.0, 0.0, 0.0)
        else:
            prev = now - 1
            erf = self._erf_mag[prev]
            t1, t2 = self._temp1_mag[prev], self._temp2_mag[prev]
            new = (
                self._calculate_next_temp(
                    self._delta_t_mag, t1, self._q1_mag, self._d1_mag, erf
                ),
                self._calculate_next_temp(
                    self._delta_t_mag, t2, self._q2_mag, self._d2_mag, erf
                ),
                self._calculate_next_rndt(t1, t2, erf, self._efficacy_mag),
            )
        self._temp1_mag[now], self._temp2_mag[now], self._rndt_mag[now] = new
'''
RNDT_R = '''
    def _calculate_next_rndt(self, t1, t2, erf, efficacy):
        paras = self.get_two_layer_parameters()
        feedback = paras["lambda0"].to("W/m^2/delta_degC").magnitude * (t1 + t2)

        return erf - feedback - self._calculate_efficacy_term(t1, t2, efficacy, paras)

    def _calculate_efficacy_term(self, t1, t2, efficacy, paras):
        if efficacy == 1:
            return 0.0

        gh = _calculate_geoffroy_helper_parameters(**paras)
        phi1, phi2 = gh["phi1"], gh["phi2"]
        imbalance = (1 - phi1) * (t1 * ur(self._temp1_unit)) + (1 - phi2) * (
            t2 * ur(self._temp2_unit)
        )
        term = (efficacy - 1) * paras["eta"] * imbalance

        return term.to(self._rndt_unit).magnitude
'''
TWO_R = '''
    def get_two_layer_parameters(
        self,
    ):  # pylint:disable=missing-return-doc,missing-return-type-doc
        """
        Get equivalent two-layer model parameters
        """
        q1, q2, d1, d2 = self.q1, self.q2, self.d1, self.d2
        q_total = q1 + q2
        heat_capacity_upper = d1 * d2 / (q1 * d2 + q2 * d1)
        heat_capacity_lower = (
            (q1 * d1 + q2 * d2) / q_total ** 2 - heat_capacity_upper
        ) / self.efficacy
        eta = heat_capacity_lower * q_total / (d1 * q2 + d2 * q1)

        return dict(
            lambda0=1 / q_total,
            du=self._depth(heat_capacity_upper),
            dl=self._depth(heat_capacity_lower),
            eta=eta,
            efficacy=self.efficacy,
        )

    @staticmethod
    def _depth(heat_capacity):
        return heat_capacity / DENSITY_WATER / HEAT_CAPACITY_WATER
'''
IRP_T = '''
    def get_impulse_response_parameters(self):  # pylint:disable=missing-return-doc
        """
        Get equivalent two-timescale impulse response model parameters
        """
        self._assert_no_state_dependence()
        gh = _calculate_geoffroy_helper_parameters(
            self.du, self.dl, self.lambda0, self.efficacy, self.eta
        )
        denom = gh["C"] * (gh["phi2"] - gh["phi1"])

        return {
            "d1": gh["tau1"],
            "d2": gh["tau2"],
            "q1": gh["tau1"] * gh["phi2"] / denom,
            "q2": -gh["tau2"] * gh["phi1"] / denom,
            "efficacy": self.efficacy,
        }

    def _assert_no_state_dependence(self):
        if self.a.magnitude != 0:
            raise ValueError(
                f"Cannot calculate impulse response parameters with non-zero a={self.a}"
            )
'''
GEO = '''
def _heat_capacity(depth):
    return depth * HEAT_CAPACITY_WATER * DENSITY_WATER


def _calculate_geoffroy_helper_parameters(du, dl, lambda0, efficacy, eta):
    C, C_D = _heat_capacity(du), _heat_capacity(dl)

    upper = (lambda0 + efficacy * eta) / C
    lower = eta / C_D
    b = upper + lower
    b_star = upper - lower
    delta = b * b - 4 * lambda0 * eta / C / C_D
    root = delta ** 0.5

    tau1, tau2 = [
        C * C_D / (2 * lambda0 * eta) * (b + sign * root) for sign in (-1, 1)
    ]
    phi1, phi2 = [
        C / (2 * efficacy * eta) * (b_star + sign * root) for sign in (-1, 1)
    ]

    scale = lambda0 / (C * (phi2 - phi1))

    return dict(
        C=C,
        C_D=C_D,
        b=b,
        b_star=b_star,
        delta=delta,
        tau1=tau1,
        tau2=tau2,
        phi1=phi1,
        phi2=phi2,
        a1=tau1 * phi2 * scale,
        a2=-tau2 * phi1 * scale,
    )
'''
OUT_T = '''
    def _get_run_output_tss(self, ts_base):
        outputs = {
            "Surface Temperature|Upper": (self._temp_upper_unit, self._temp_upper_mag),
            "Surface Temperature|Lower": (self._temp_lower_unit, self._temp_lower_mag),
            "Heat Uptake": (self._rndt_unit, self._rndt_mag),
        }

        return [
            self._create_ts(ts_base, unit, variable, values)
            for variable, (unit, values) in outputs.items()
        ]
'''
OUT_R = '''
    def _get_run_output_tss(self, ts_base):
        def create(variable, unit, values):
            return self._create_ts(
                base=ts_base, unit=unit, variable=variable, values=values
            )

        total = self._temp1_mag + self._temp2_mag
        return [
            create("Surface Temperature|Box 1", self._temp1_unit, self._temp1_mag),
            create("Surface Temperature|Box 2", self._temp2_unit, self._temp2_mag),
            create("Surface Temperature", self._temp1_unit, total),
            create("Heat Uptake", self._rndt_unit, self._rndt_mag),
        ]
'''
OUT_R2 = '''
    def _get_run_output_tss(self, ts_base):
        out = []
        for variable, prefix in (
            ("Surface Temperature|Box 1", "_temp1"),
            ("Surface Temperature|Box 2", "_temp2"),
            ("Surface Temperature", None),
            ("Heat Uptake", "_rndt"),
        ):
            if prefix is None:
                unit, values = self._temp1_unit, self._temp1_mag + self._temp2_mag
            else:
                unit = getattr(self, prefix + "_unit")
                values = getattr(self, prefix + "_mag")
            out.append(self._create_ts(ts_base, unit, variable, values))

        return out
'''
CREATE = '''
    @staticmethod
    def _create_ts(base, unit, variable, values):
        out = base.copy()
        index = out.index
        for level, label in (("unit", unit), ("variable", variable)):
            index = index.set_levels([label], level=level)
        out.index = index
        out.iloc[:, :] = values

        return out
'''
CREATE2 = '''
    @staticmethod
    def _create_ts(base, unit, variable, values):
        labels = base.index.to_frame(index=False)
        labels["unit"] = unit
        labels["variable"] = variable

        return pd.DataFrame(
            [values],
            index=pd.MultiIndex.from_frame(labels),
            columns=base.columns,
        )
'''
CREATE3 = '''
    @staticmethod
    def _create_ts(base, unit, variable, values):
        new_labels = {"unit": unit, "variable": variable}
        out = base.copy()
        out.index = pd.MultiIndex.from_tuples(
            [
                tuple(
                    new_labels.get(name, label)
                    for name, label in zip(base.index.names, labels)
                )
                for labels in base.index
            ],
            names=base.index.names,
        )
        out.iloc[0] = values

        return out
'''
SELECT = '''
    @staticmethod
    def _select_timestep(driver):
        def is_yearly():
            return (driver["year"].diff().dropna() == 1).all()

        def is_monthly():
            # Assume constant monthly timesteps. This is clearly an approximation but
            # while we have constant internal timesteps it's the best we can do.
            steps = driver["time"].diff().dropna()
            shortest, longest = np.timedelta64(28, "D"), np.timedelta64(31, "D")
            return ((steps >= shortest) & (steps <= longest)).all()

        if is_yearly():
            return 1 * ur("yr")
        if is_monthly():
            return 1 * ur("month")

        raise NotImplementedError(
            "Could not decide on timestep for time axis: {}".format(driver["time"])
        )
'''
SELECT2 = '''
    @staticmethod
    def _select_timestep(driver):
        years = driver["year"]
        times = driver["time"]
        unit = None
        if (years.diff().dropna() == 1).all():
            unit = "yr"
        else:
            diffs = times.diff().dropna()
            if not (
                (diffs < np.timedelta64(28, "D")) | (diffs > np.timedelta64(31, "D"))
            ).any():
                unit = "month"

        if unit is None:
            raise NotImplementedError(
                "Could not decide on timestep for time axis: {}".format(times)
            )

        return 1 * ur(unit)
'''
SELECT3 = '''
    @staticmethod
    def _select_timestep(driver):
        for decide, unit in (
            (TwoLayerVariant._is_yearly, "yr"),
            (TwoLayerVariant._is_monthly, "month"),
        ):
            if decide(driver):
                return 1 * ur(unit)

        raise NotImplementedError(
            "Could not decide on timestep for time axis: {}".format(driver["time"])
        )

    @staticmethod
    def _is_yearly(driver):
        return all(diff == 1 for diff in driver["year"].diff().dropna())

    @staticmethod
    def _is_monthly(driver):
        time_diff = driver["time"].diff().dropna()
        return all(
            np.timedelta64(28, "D") <= diff <= np.timedelta64(31, "D")
            for diff in time_diff
        )
'''
ENSURE = '''
    @staticmethod
    def _ensure_scenarios_are_scmrun(scenarios):
        if isinstance(scenarios, ScmRun):
            return scenarios.copy()

        # copy as ScmRun formats the data it is given in place
        scenarios = copy.deepcopy(scenarios)

        return ScmRun(scenarios)
'''
ASSERT = '''
    @staticmethod
    def _assert_is_pint_quantity_with_units(quantity, name, model_units):
        if isinstance(quantity, pint.Quantity):
            try:
                quantity.to(model_units)
            except pint.errors.DimensionalityError as exc:
                msg = "Wrong units for `{}`".format(name)
                raise UnitError(msg) from exc
            return

        raise TypeError("{} must be a pint.Quantity".format(name))
'''
ASSERT2 = '''
    @staticmethod
    def _assert_is_pint_quantity_with_units(quantity, name, model_units):
        _assert_is_quantity(quantity, name)
        _assert_convertible(quantity, name, model_units)
'''
ASSERT2_H = '''


def _assert_is_quantity(quantity, name):
    if not isinstance(quantity, pint.Quantity):
        raise TypeError("{} must be a pint.Quantity".format(name))


def _assert_convertible(quantity, name, model_units):
    try:
        quantity.to(model_units)
    except pint.errors.DimensionalityError as exc:
        raise UnitError("Wrong units for `{}`".format(name)) from exc
'''
DRIVERS = '''
    def set_drivers(
        self, erf
    ):  # pylint: disable=arguments-differ # hmm need to think about this
        """
        Set drivers for a model run
        """
        n_dims = np.ndim(erf)
        if n_dims == 1:
            self.erf = erf
            return

        raise AssertionError("erf must be one-dimensional")
'''
RESET_T = '''
    def _reset(self):
        self._assert_drivers_set()

        empty = np.zeros_like(self._erf_mag) * np.nan
        self._timestep_idx = np.nan
        self._temp_upper_mag = empty.copy()
        self._temp_lower_mag = empty.copy()
        self._rndt_mag = empty.copy()

    def _assert_drivers_set(self):
        if not np.isnan(self.erf).any():
            return

        raise ModelStateError(
            "The model's drivers have not been set yet, call "
            ":meth:`self.set_drivers` first."
        )
'''
RESET_R = '''
    def _reset(self):
        if np.any(np.isnan(self.erf)):
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )

        self._timestep_idx = np.nan
        for name in ("_temp1_mag", "_temp2_mag", "_rndt_mag"):
            setattr(self, name, self._get_nan_state())

    def _get_nan_state(self):
        return np.zeros_like(self._erf_mag) * np.nan
'''
RUN = '''
    def _run(self):
        n_steps = self.erf.size
        for _ in range(n_steps):
            self.step()
'''
RUN2 = '''
    def _run(self):
        steps_taken = 0
        while steps_taken < len(self.erf):
            self.step()
            steps_taken += 1
'''
FORM_T = '''
    @staticmethod
    def _calculate_next_temp_upper(  # pylint: disable=too-many-arguments
        delta_t, t_upper, t_lower, erf, lambda0, a, efficacy, eta, heat_capacity_upper
    ):
        feedback = (lambda0 - a * t_upper) * t_upper
        uptake = eta * (t_upper - t_lower)
        net = erf - feedback - efficacy * uptake

        return t_upper + net * delta_t / heat_capacity_upper
'''
FORM_R = '''
    @staticmethod
    def _calculate_next_temp(delta_t, t, q, d, erf):
        decay_factor = np.exp(-delta_t / d)
        equilibrium = erf * q

        return equilibrium + (t - equilibrium) * decay_factor
'''
UTIL = '''
def convert_lambda_to_ecs(lambda_val, f2x=3.74 * unit_registry("W/m^2")):
    """
    Convert a lambda value to equilibrium climate sensitivity (ECS)
    """
    _assert_quantities(lambda_val=lambda_val, f2x=f2x)
    ecs = f2x / lambda_val

    return -ecs


def _assert_quantities(**kwargs):
    for name, value in kwargs.items():
        if not isinstance(value, pint.Quantity):
            raise TypeError(f"{name} is not a pint.Quantity")
'''
SETS_T = [(T, rep('        self._assert_is_pint_quantity_with_units(val, "%s", self._%s_unit)\n        self._%s = val\n        self._%s_mag = val.to(self._%s_unit).magnitude\n' % ((n,) * 5), '        self._set_parameter("%s", val)\n' % n)) for n in ("du", "dl", "lambda0", "a", "efficacy", "eta")]
SETP = '''
    def _set_parameter(self, name, val):
        unit = getattr(self, "_{}_unit".format(name))
        self._assert_is_pint_quantity_with_units(val, name, unit)
        setattr(self, "_" + name, val)
        setattr(self, "_{}_mag".format(name), val.to(unit).magnitude)

    def set_drivers(
'''
SETV = [(f, rep('        self._%s_mag = val.to(self._%s_unit).magnitude\n' % (n, n), '        self._%s_mag = self._in_model_unit(val, "%s")\n' % (n, n))) for f, n in ((B, "delta_t"), (B, "erf"), (R, "q1"), (R, "q2"), (R, "d1"), (R, "d2"), (R, "efficacy"))]
SETV_H = (B, rep("    def set_drivers(\n        self, erf\n", '    def _in_model_unit(self, val, name):\n        return val.to(getattr(self, f"_{name}_unit")).magnitude\n\n    def set_drivers(\n        self, erf\n'))
INIT_R = '''        if not d1 < d2:
            raise ValueError("The short-timescale must be d1")
'''
SCEN_TAIL = '''        idx = run_store[0].meta.columns.tolist()

        def get_ordered_timeseries(in_ts):
            in_ts = in_ts.reorder_levels(idx)

            return in_ts

        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )

        return out
'''
SCEN_TOP = '''        driver = self._ensure_scenarios_are_scmrun(scenarios)

        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }

        driver = driver.filter(variable=driver_var, region="World")
        if np.equal(driver.shape[0], 0):
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )

        run_store = list()

        driver_ts = driver.timeseries()
'''
SCEN_LOOP = '''        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
            meta = dict(zip(driver_ts.index.names, label))
            row_no_nan = row.dropna()

            out_run_tss_base = row_no_nan.to_frame().T
            out_run_tss_base.index.names = driver_ts.index.names

            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.reset()
            self.run()

            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])

            out_run = ScmRun(pd.concat(out_run_tss))
            # only now as drivers can differ in nothing but these columns
            out_run["climate_model"] = self._name
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i

            run_store.append(out_run)

'''
PREALLOC = (B, lambda s: s.replace("        run_store = list()\n\n        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries()\n        run_store = [None] * len(driver_ts)\n\n").replace("            run_store.append(out_run)\n", "            run_store[i] = out_run\n"))
FACT = '''        driver_ts = self._get_driver_timeseries(scenarios, driver_var)
        paras_meta = self._get_paras_meta()

        runs = []
        for run_idx, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not progress,
        ):
            run = self._run_scenario(driver_ts.index.names, label, row)
            self._add_metadata(run, paras_meta, run_idx)
            runs.append(run)

        return self._join(runs)

    def _get_driver_timeseries(self, scenarios, driver_var):
        driver = self._ensure_scenarios_are_scmrun(scenarios).filter(
            variable=driver_var, region="World"
        )
        if driver.shape[0] == 0:
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )

        return driver.timeseries()

    def _get_paras_meta(self):
        out = {}
        for name in self._save_paras:
            value = getattr(self, name)
            out["{} ({})".format(name, value.units)] = value.magnitude

        return out

    def _run_scenario(self, names, label, row):
        unit = dict(zip(names, label))["unit"]
        row_no_nan = row.dropna()
        base = row_no_nan.to_frame().T
        base.index.names = names

        self.delta_t = self._select_timestep(ScmRun(base.copy()))
        self.set_drivers(row_no_nan.values * ur(unit))
        self.reset()
        self.run()

        return ScmRun(pd.concat([base] + self._get_run_output_tss(base)))

    def _add_metadata(self, run, paras_meta, run_idx):
        run["climate_model"] = self._name
        for key, value in paras_meta.items():
            run[key] = value
        run["run_idx"] = run_idx

    @staticmethod
    def _join(runs):
        order = runs[0].meta.columns.tolist()

        return ScmRun(
            pd.concat([run.timeseries().reorder_levels(order) for run in runs])
        )
'''
GENR = '''        driver_ts = driver.timeseries()
        bar = tqdman.tqdm(
            desc="scenarios", leave=False, disable=not progress, total=len(driver_ts)
        )
        with bar:
            for label, row in driver_ts.iterrows():
                run_store.append(
                    self._run_row(driver_ts.index.names, label, row, len(run_store), save_paras_meta)
                )
                bar.update()

'''
GENR_H = '''
    def _run_row(self, names, label, row, run_idx, paras):
        meta = dict(zip(names, label))
        row_no_nan = row.dropna()

        base = row_no_nan.to_frame().T
        base.index.names = names

        self.delta_t = self._select_timestep(ScmRun(base.copy()))
        self.set_drivers(row_no_nan.values * ur(meta["unit"]))
        self.reset()
        self.run()

        out_run = ScmRun(pd.concat([base, *self._get_run_output_tss(base)]))
        columns = {"climate_model": self._name, **paras, "run_idx": run_idx}
        for column, value in columns.items():
            out_run[column] = value

        return out_run
'''
ACC = '''        for i, (label, row) in enumerate(
            tqdman.tqdm(
                driver_ts.iterrows(),
                desc="scenarios",
                leave=False,
                disable=not progress,
            )
        ):
            meta = {name: value for name, value in zip(driver_ts.index.names, label)}
            forcing = row.dropna()
            base = pd.DataFrame([forcing])
            base.index = pd.MultiIndex.from_tuples([label], names=driver_ts.index.names)

            self.delta_t = self._select_timestep(ScmRun(base.copy()))
            self.set_drivers(ur.Quantity(forcing.to_numpy(), meta["unit"]))
            self.reset()
            self.run()

            out_run = ScmRun(pd.concat([base] + self._get_run_output_tss(base)))
            out_run["climate_model"] = self._name
            for k, v in save_paras_meta.items():
                out_run[k] = v
            out_run["run_idx"] = i
            run_store.append(out_run)

'''
CONV = '''        for name, unit in (("lambda0", "W/m^2/delta_degC"),):
            pass
'''


def scen(new):
    return (B, rep(SCEN_LOOP, new))


GOOD = [
    ("y-step-t", None, [(T, fn("_step", STEP_T))]),
    ("y-step-r", None, [(R, fn("_step", STEP_R))]),
    ("y-rndt-r", None, [(R, fn("_calculate_next_rndt", RNDT_R))]),
    ("y-two-r", None, [(R, fn("get_two_layer_parameters", TWO_R))]),
    ("y-irp-t", None, [(T, fn("get_impulse_response_parameters", IRP_T))]),
    ("y-geo", None, [(B, fn("_calculate_geoffroy_helper_parameters", GEO))]),
    ("y-conv-all", None, [(B, fn("_calculate_geoffroy_helper_parameters", GEO)), (T, fn("get_impulse_response_parameters", IRP_T)), (R, fn("get_two_layer_parameters", TWO_R)), (R, fn("_calculate_next_rndt", RNDT_R))]),
    ("y-out-t", None, [(T, fn("_get_run_output_tss", OUT_T))]),
    ("y-out-r", None, [(R, fn("_get_run_output_tss", OUT_R))]),
    ("y-out-r2", None, [(R, fn("_get_run_output_tss", OUT_R2))]),
    ("y-create", None, [(B, fn("_create_ts", CREATE))]),
    ("y-create2", None, [(B, fn("_create_ts", CREATE2))]),
    ("y-create3", None, [(B, fn("_create_ts", CREATE3))]),
    ("y-select", None, [(B, fn("_select_timestep", SELECT))]),
    ("y-select2", None, [(B, fn("_select_timestep", SELECT2))]),
    ("y-select3", None, [(B, fn("_select_timestep", SELECT3))]),
    ("y-ensure", None, [(B, fn("_ensure_scenarios_are_scmrun", ENSURE))]),
    ("y-assert", None, [(B, fn("_assert_is_pint_quantity_with_units", ASSERT))]),
    ("y-assert2", None, [(B, fn("_assert_is_pint_quantity_with_units", ASSERT2)), (B, head(ASSERT2_H))]),
    ("y-drivers", None, [(B, fn("set_drivers", DRIVERS, 1))]),
    ("y-reset-t", None, [(T, fn("_reset", RESET_T))]),
    ("y-reset-r", None, [(R, fn("_reset", RESET_R))]),
    ("y-run-t", None, [(T, fn("_run", RUN))]),
    ("y-run-r", None, [(R, fn("_run", RUN2))]),
    ("y-form-t", None, [(T, fn("_calculate_next_temp_upper", FORM_T))]),
    ("y-form-r", None, [(R, fn("_calculate_next_temp", FORM_R))]),
    ("y-util", None, [(U, fn("convert_lambda_to_ecs", UTIL))]),
    ("y-sets-t", None, SETS_T + [(B, rep("    def set_drivers(\n        self, erf\n", SETP.lstrip("\n") + "        self, erf\n"))]),
    ("y-setv", None, SETV + [SETV_H]),
    ("y-init-r", None, [(R, rep('        if d1 >= d2:\n            raise ValueError("The short-timescale must be d1")\n', INIT_R))]),
    ("y-prealloc", None, [PREALLOC]),
    ("y-fact", None, [(B, rep(SCEN_TOP + SCEN_LOOP + SCEN_TAIL, FACT))]),
    ("y-genr", None, [(B, rep("        driver_ts = driver.timeseries()\n" + SCEN_LOOP, GENR)), (B, rep("    @abstractmethod\n    def _get_run_output_tss", GENR_H.lstrip("\n") + "\n    @abstractmethod\n    def _get_run_output_tss"))]),
    ("y-acc", None, [scen(ACC)]),
    ("y-append", None, [(B, rep(SCEN_TAIL, '''        out = pd.concat([r.timeseries() for r in run_store])

        return ScmRun(out)
'''))]),
    ("y-runappend", None, [(B, rep(SCEN_TAIL, '''        return run_append(run_store)
''')), (B, rep("from scmdata.run import ScmRun\n", "from scmdata.run import ScmRun, run_append\n"))]),
    ("y-tail-first", None, [(B, rep(SCEN_TAIL, '''        levels = list(run_store[0].meta.columns)
        tables = []
        for run in run_store:
            table = run.timeseries()
            if list(table.index.names) != levels:
                table = table.reorder_levels(levels)
            tables.append(table)

        return ScmRun(pd.concat(tables, axis="index"))
'''))]),
    ("y-paras-items", None, [(B, rep('''        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }
''', '''        paras = {name: getattr(self, name) for name in self._save_paras}
        save_paras_meta = {
            "%s (%s)" % (name, value.units): value.m for name, value in paras.items()
        }
'''))]),
    ("y-raise-helper", None, [(B, rep('''        if np.equal(driver.shape[0], 0):
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )
''', '''        self._assert_has_data(driver, driver_var)
''')), (B, rep("    @abstractmethod\n    def _get_run_output_tss", '''    @staticmethod
    def _assert_has_data(driver, driver_var):
        if driver.shape[0] > 0:
            return

        raise ValueError(
            "No World data available for driver_var `{}`".format(driver_var)
        )

    @abstractmethod
    def _get_run_output_tss'''))]),
    ("y-isempty", None, [(B, rep('''        if np.equal(driver.shape[0], 0):
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )

        run_store = list()

        driver_ts = driver.timeseries()
''', '''        if driver.empty:
            raise ValueError(f"No World data available for driver_var `{driver_var}`")

        driver_ts, run_store = driver.timeseries(), []
'''))]),
    ("y-zip-labels", None, [(B, rep("            meta = dict(zip(driver_ts.index.names, label))\n", "            unit = label[driver_ts.index.names.index(\"unit\")]\n")), (B, rep('ur(meta["unit"])', "ur(unit)"))]),
    ("y-no-drivers-call", None, [(B, rep('            self.set_drivers(row_no_nan.values * ur(meta["unit"]))\n            self.reset()\n            self.run()\n', '            self._drive(row_no_nan.values * ur(meta["unit"]))\n')), (B, rep("    def set_drivers(\n        self, erf\n", '    def _drive(self, erf):\n        self.set_drivers(erf)\n        self.reset()\n        self.run()\n\n    def set_drivers(\n        self, erf\n'))]),
    ("y-const", None, [(C, lambda s: s + "\nVOLUMETRIC_HEAT_CAPACITY_WATER = DENSITY_WATER * HEAT_CAPACITY_WATER\n"), (T, rep("from .constants import DENSITY_WATER, HEAT_CAPACITY_WATER\n", "from .constants import VOLUMETRIC_HEAT_CAPACITY_WATER\n")), (T, rep("self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "self.du * VOLUMETRIC_HEAT_CAPACITY_WATER")), (T, rep("self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "self.dl * VOLUMETRIC_HEAT_CAPACITY_WATER"))]),
    ("y-lam", None, [(T, rep("        lambda_now = lambda0 - a * t_upper\n        heat_exchange = efficacy * eta * (t_upper - t_lower)\n        dT_dt = (erf - lambda_now * t_upper - heat_exchange) / heat_capacity_upper\n", "        imbalance = erf - efficacy * eta * (t_upper - t_lower)\n        imbalance -= lambda0 * t_upper\n        imbalance += a * t_upper ** 2\n        dT_dt = imbalance / heat_capacity_upper\n"))]),
    ("y-state-init", None, [(T, rep('''        self._erf = np.zeros(1) * np.nan
        self._temp_upper_mag = np.zeros(1) * np.nan
        self._temp_lower_mag = np.zeros(1) * np.nan
        self._rndt_mag = np.zeros(1) * np.nan
        self._timestep_idx = np.nan
''', '''        self._initialise_state()
''')), (T, fn("_reset", '''    def _initialise_state(self):
        self._erf = np.full(1, np.nan)
        for state in ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"):
            setattr(self, state, np.full(1, np.nan))
        self._timestep_idx = np.nan

    def _reset(self):
        if np.isnan(self.erf).any():
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )

        self._timestep_idx = np.nan
        for state in ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"):
            setattr(self, state, np.full(self._erf_mag.shape, np.nan))
'''))]),
    ("y-wrap-run", None, [(B, rep("        self._run()\n", "        runner = self._run\n        runner()\n")), (B, rep("        self._step()\n", "        stepper = getattr(self, \"_step\")\n        stepper()\n"))]),
    ("y-eff-first", None, [(R, rep("        two_layer_paras = self.get_two_layer_parameters()\n        lambda0 = two_layer_paras[\"lambda0\"]\n\n        if np.equal(efficacy, 1):\n            efficacy_term = 0 * ur(self._erf_unit)\n        else:\n            gh =", "        two_layer_paras = self.get_two_layer_parameters()\n        lambda0 = two_layer_paras.pop(\"lambda0\")\n\n        efficacy_term = 0 * ur(self._erf_unit)\n        if not np.equal(efficacy, 1):\n            gh =")), (R, rep('                two_layer_paras["lambda0"],\n', "                lambda0,\n"))]),
    ("y-sel-abs", None, [(B, fn("_select_timestep", SELECT.replace("(driver[\"year\"].diff().dropna() == 1).all()", "(driver[\"year\"].diff().dropna().abs() == 1).all()")))]),
    ("y-refill", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C26 C27 C30".split(), [(R, fn("_reset", RESET_R.replace("            setattr(self, name, self._get_nan_state())\n", "            state = getattr(self, name)\n            if np.shape(state) != self._erf_mag.shape:\n                setattr(self, name, self._get_nan_state())\n            else:\n                state[:] = np.nan\n")))]),
]
GOOD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in GOOD]
