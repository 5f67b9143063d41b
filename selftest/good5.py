"""Further edits that keep the behaviour: other library idioms, stacked state,
named tuples, generated accessors, and the defaults written otherwise."""
from good import B, T, R, U, E, V
from good4 import C, fn, head, rep


def chain(*fs):
    def f(s):
        for g in fs:
            t = g(s)
            assert t != s, "edit does not apply"
            s = t
        return s
    return f


RUN = "    def _run(self):\n        for _ in self.erf:\n            self.step()\n"
IDX = """        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0

        else:
            self._timestep_idx += 1
"""
CHECK = """        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
"""
YEARS = """        year_diff = driver["year"].diff().dropna()
        if (year_diff == 1).all():
"""
MONTHS = """        time_diff = driver["time"].diff().dropna()
        if all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
"""
OUTD = '''    out = {
        "C": C,
        "C_D": C_D,
        "b": b,
        "b_star": b_star,
        "delta": delta,
        "tau1": tau1,
        "tau2": tau2,
        "phi1": phi1,
        "phi2": phi2,
        "a1": a1,
        "a2": a2,
    }

    return out'''
NEXT = """            self._temp_upper_mag[self._timestep_idx] = self._calculate_next_temp_upper("""

GOOD = [
    ("v-compatible", None, [(B, rep(CHECK, """        if not quantity.is_compatible_with(model_units):
            raise UnitError("Wrong units for `{}`".format(name))
"""))]),
    ("v-check-dim", None, [(B, rep(CHECK, """        if quantity.dimensionality != ur(model_units).dimensionality:
            raise UnitError("Wrong units for `{}`".format(name))
"""))]),
    ("v-math-isnan", None, [(T, chain(head("import math"), rep("np.isnan(self._timestep_idx)", "math.isnan(self._timestep_idx)")))]),
    ("v-itertools", None, [(R, chain(head("import itertools"), rep(RUN, "    def _run(self):\n        for _ in itertools.repeat(None, len(self._erf_mag)):\n            self.step()\n")))]),
    ("v-while-run", None, [(T, rep(RUN, """    def _run(self):
        remaining = len(self.erf)
        while remaining:
            self.step()
            remaining -= 1
"""))]),
    ("v-while-true", None, [(T, rep(RUN, """    def _run(self):
        done = 0
        while True:
            if done == self._erf_mag.size:
                break
            self.step()
            done += 1
"""))]),
    ("v-helper-index", None, [(T, chain(rep(IDX, "        self._advance()\n"), rep("    def _step(self):\n", """    def _advance(self):
        started = not np.isnan(self._timestep_idx)
        self._timestep_idx = self._timestep_idx + 1 if started else 0

    def _step(self):
""")))]),
    ("v-defaults-const", None, [(T, chain(head("""
_DEFAULT_DEPTHS = (50, 1200)
_F2X = 3.74
_ECS = 3
"""), rep('du=50 * ur("m"),\n        dl=1200 * ur("m"),\n        lambda0=3.74 / 3 * ur("W/m^2/delta_degC"),', 'du=_DEFAULT_DEPTHS[0] * ur("m"),\n        dl=_DEFAULT_DEPTHS[1] * ur("m"),\n        lambda0=_F2X / _ECS * ur("W/m^2/delta_degC"),')))]),
    ("v-defaults-quantity", None, [(R, rep('q1=0.3 * ur("delta_degC/(W/m^2)"),\n        q2=0.4 * ur("delta_degC/(W/m^2)"),', 'q1=ur.Quantity(0.3, "delta_degC/(W/m^2)"),\n        q2=ur.Quantity(0.4, "delta_degC/(W/m^2)"),'))]),
    ("v-dict-defaults", None, [(T, chain(rep('        eta=0.8 * ur("W/m^2/delta_degC"),\n', '        eta=_DEFAULTS["eta"],\n'), head('_DEFAULTS = {"eta": 0.8 * ur("W/m^2/delta_degC")}')))]),
    ("v-const-quantity", None, [(C, rep('1000 * ur("kg/m^3")', 'ur.Quantity(1000, "kg/m^3")'))]),
    ("v-const-volumetric", None, [(T, chain(head("_VOLUMETRIC = DENSITY_WATER * HEAT_CAPACITY_WATER"), lambda s: s.replace("self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "self.du * _VOLUMETRIC").replace("self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "self.dl * _VOLUMETRIC")))]),
    ("v-namedtuple", None, [(B, chain(head("""
import collections

_Modes = collections.namedtuple("_Modes", "C C_D b b_star delta tau1 tau2 phi1 phi2 a1 a2")
"""), rep(OUTD, "    return _Modes(C, C_D, b, b_star, delta, tau1, tau2, phi1, phi2, a1, a2)._asdict()")))]),
    ("v-dataclass", None, [(B, chain(head("""
import dataclasses


@dataclasses.dataclass(frozen=True)
class _Modes:
    C: object
    C_D: object
    b: object
    b_star: object
    delta: object
    tau1: object
    tau2: object
    phi1: object
    phi2: object
    a1: object
    a2: object
"""), rep(OUTD, "    modes = _Modes(C, C_D, b, b_star, delta, tau1, tau2, phi1, phi2, a1, a2)\n\n    return dataclasses.asdict(modes)")))]),
    ("v-record-output", None, [(T, chain(head("""
from typing import NamedTuple


class _Series(NamedTuple):
    variable: str
    unit: str
    values: object
"""), fn("_get_run_output_tss", '''
    def _get_run_output_tss(self, ts_base):
        outputs = [
            _Series("Surface Temperature|Upper", self._temp_upper_unit, self._temp_upper_mag),
            _Series("Surface Temperature|Lower", self._temp_lower_unit, self._temp_lower_mag),
            _Series("Heat Uptake", self._rndt_unit, values=self._rndt_mag),
        ]
        out = []
        for variable, unit, values in outputs:
            out.append(
                self._create_ts(base=ts_base, unit=unit, variable=variable, values=values)
            )

        return out
''')))]),
    ("v-dict-kw", None, [(B, rep(OUTD, "    return dict(\n        C=C, C_D=C_D, b=b, b_star=b_star, delta=delta,\n        tau1=tau1, tau2=tau2, phi1=phi1, phi2=phi2, a1=a1, a2=a2,\n    )"))]),
    ("v-locals-sqrt", None, [(B, lambda s: s.replace("    taucoeff =", "    root = delta ** 0.5\n\n    taucoeff =").replace("(b - delta ** 0.5)", "(b - root)").replace("(b + delta ** 0.5)", "(b + root)").replace("(b_star - delta ** 0.5)", "(b_star - root)").replace("(b_star + delta ** 0.5)", "(b_star + root)"))]),
    ("v-np-diff-year", None, [(B, rep(YEARS, """        if (np.diff(driver["year"].values) == 1).all():
"""))]),
    ("v-months-between", None, [(B, rep(MONTHS, """        time_diff = driver["time"].diff().dropna()
        if time_diff.between(np.timedelta64(28, "D"), np.timedelta64(31, "D")).all():
"""))]),
    ("v-months-not-any", None, [(B, rep(MONTHS, """        time_diff = driver["time"].diff().dropna()
        too_short = time_diff < np.timedelta64(28, "D")
        too_long = time_diff > np.timedelta64(31, "D")
        if not (too_short | too_long).any():
"""))]),
    ("v-months-for", None, [(B, rep(MONTHS, """        time_diff = driver["time"].diff().dropna()
        shortest, longest = np.timedelta64(28, "D"), np.timedelta64(31, "D")
        if all(shortest <= step <= longest for step in time_diff):
"""))]),
    ("v-years-unique", None, [(B, rep(YEARS, """        year_diff = driver["year"].diff().dropna()
        if not (year_diff != 1).any():
"""))]),
    ("v-reduce-concat", None, [(B, rep("""        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )

        return out
""", """        ordered = []
        for r in run_store:
            ordered.append(get_ordered_timeseries(r.timeseries()))

        return ScmRun(pd.concat(ordered, axis=0))
"""))]),
    ("v-map-concat", None, [(B, rep("""                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
""", """                list(map(lambda r: get_ordered_timeseries(r.timeseries()), run_store)),
                axis=0,
"""))]),
    ("v-nested-run", None, [(B, rep("""            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.reset()
            self.run()
""", """            def prepare():
                self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
                self.set_drivers(row_no_nan.values * ur(meta["unit"]))
                self.reset()

            prepare()
            self.run()
"""))]),
    ("v-walrus", None, [(B, rep("""        year_diff = driver["year"].diff().dropna()
        if (year_diff == 1).all():
""", """        if ((year_diff := driver["year"].diff().dropna()) == 1).all():
"""))]),
    ("v-typing", None, [(T, chain(head("from typing import Dict, Optional  # noqa: F401"), rep("    def _run(self):\n", "    def _run(self) -> None:\n"), rep("        lambda_now = lambda0", "        lambda_now: float = lambda0")))]),
    ("v-tuple-step", None, [(T, rep(fnsrc := "        heat_exchange = eta * (t_upper - t_lower)\n        dT_dt = heat_exchange / heat_capacity_lower\n\n        return t_lower + delta_t * dT_dt\n", "        conductance, gap = eta, t_upper - t_lower\n\n        return t_lower + delta_t * conductance * gap / heat_capacity_lower\n"))]),
    ("v-signed-feedback", None, [(T, rep("        dT_dt = (erf - lambda_now * t_upper - heat_exchange) / heat_capacity_upper\n\n        return t_upper + delta_t * dT_dt\n", "        imbalance = sum((erf, -lambda_now * t_upper, -heat_exchange))\n\n        return t_upper + imbalance * delta_t / heat_capacity_upper\n"))]),
    ("v-starred", None, [(R, rep("""            self._temp1_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp1_mag[self._timestep_idx - 1],
                self._q1_mag,
                self._d1_mag,
                self._erf_mag[self._timestep_idx - 1],
            )
""", """            box = (self._q1_mag, self._d1_mag)
            self._temp1_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp1_mag[self._timestep_idx - 1],
                *box,
                self._erf_mag[self._timestep_idx - 1],
            )
"""))]),
    ("v-kwargs-step", None, [(R, rep("""            self._temp2_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp2_mag[self._timestep_idx - 1],
                self._q2_mag,
                self._d2_mag,
                self._erf_mag[self._timestep_idx - 1],
            )
""", """            previous = self._timestep_idx - 1
            arguments = dict(
                t=self._temp2_mag[previous], q=self._q2_mag, d=self._d2_mag
            )
            self._temp2_mag[self._timestep_idx] = self._calculate_next_temp(
                delta_t=self._delta_t_mag, erf=self._erf_mag[previous], **arguments
            )
"""))]),
    ("v-early-return", None, [(T, rep("""        if np.equal(self._timestep_idx, 0):
            self._temp_upper_mag[self._timestep_idx] = 0.0
            self._temp_lower_mag[self._timestep_idx] = 0.0
            self._rndt_mag[self._timestep_idx] = 0.0

        else:
""", """        if np.equal(self._timestep_idx, 0):
            for series in (self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag):
                series[0] = 0.0
            return

        if True:
"""))]),
    ("v-reset-loop", None, [(T, rep("""        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp_lower_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan

    def _run""", """        for name in ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"):
            setattr(self, name, np.full(self._erf_mag.shape, np.nan))

    def _run"""))]),
    ("v-reset-stack", None, [(R, rep("""        self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan

    def _run""", """        self._temp1_mag, self._temp2_mag, self._rndt_mag = (
            np.full(len(self._erf_mag), np.nan) for _ in range(3)
        )

    def _run"""))]),
    ("v-isfinite-free", None, [(R, rep("        if np.isnan(self.erf).any():\n", "        if any(np.isnan(self.erf)):\n"))]),
    ("v-reset-guard", None, [(T, chain(rep("""        if np.isnan(self.erf).any():
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )
""", """        self._assert_drivers_set(self.erf)
"""), rep("    def _reset(self):\n", '''    @staticmethod
    def _assert_drivers_set(values):
        """Raise if any driver is missing"""
        missing = np.isnan(values)
        if not missing.any():
            return

        raise ModelStateError(
            "The model's drivers have not been set yet, call "
            ":meth:`self.set_drivers` first."
        )

    def _reset(self):
''')))]),
    ("v-expm1", None, [(R, rep("        rise = erf * q * (1 - np.exp(-delta_t / d))\n", "        rise = -erf * q * np.expm1(-delta_t / d)\n"))]),
    ("v-exponent", None, [(R, rep("        decay_factor = np.exp(-delta_t / d)\n        rise = erf * q * (1 - np.exp(-delta_t / d))\n\n        return t * decay_factor + rise\n", "        equilibrium = q * erf\n\n        return equilibrium + (t - equilibrium) * np.exp(-delta_t / d)\n"))]),
    ("v-rndt-mags", None, [(T, rep("""        uptake_lower = heat_capacity_lower * (t_lower_now - t_lower_prev) / delta_t
        uptake_upper = heat_capacity_upper * (t_upper_now - t_upper_prev) / delta_t

        return uptake_upper + uptake_lower
""", """        layers = (
            (heat_capacity_upper, t_upper_now, t_upper_prev),
            (heat_capacity_lower, t_lower_now, t_lower_prev),
        )

        return sum(c * (now - prev) for c, now, prev in layers) / delta_t
"""))]),
    ("v-dot", None, [(T, rep("        return uptake_upper + uptake_lower\n", "        return np.sum([uptake_upper, uptake_lower])\n"))]),
    ("v-efficacy-guard", None, [(R, rep("        if np.equal(efficacy, 1):\n            efficacy_term = 0 * ur(self._erf_unit)\n        else:\n", "        efficacy_term = 0 * ur(self._erf_unit)\n        if efficacy != 1:\n"))]),
    ("v-tss-comp", None, [(T, fn("_get_run_output_tss", '''
    def _get_run_output_tss(self, ts_base):
        series = {
            "Surface Temperature|Upper": (self._temp_upper_unit, self._temp_upper_mag),
            "Surface Temperature|Lower": (self._temp_lower_unit, self._temp_lower_mag),
            "Heat Uptake": (self._rndt_unit, self._rndt_mag),
        }

        return [
            self._create_ts(base=ts_base, unit=unit, variable=variable, values=values)
            for variable, (unit, values) in series.items()
        ]
'''))]),
    ("v-progress-var", None, [(B, rep("""        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
""", """        rows = enumerate(driver_ts.iterrows())
        show_nothing = not progress
        for i, (label, row) in tqdman.tqdm(
            rows, desc="scenarios", leave=False, disable=show_nothing
        ):
"""))]),
    ("v-meta-loop", None, [(B, rep("""        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }
""", """        save_paras_meta = {}
        for name in self._save_paras:
            value = getattr(self, name)
            save_paras_meta[f"{name} ({value.units})"] = value.magnitude
"""))]),
    ("v-unit-quantity", None, [(B, rep("""            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
""", """            forcing = ur.Quantity(row_no_nan.values, meta["unit"])
            self.set_drivers(forcing)
"""))]),
    ("v-doc-only", None, [(T, rep("        lambda_now = lambda0 - a * t_upper\n", "        # feedback weakens as the surface warms\n        lambda_now = lambda0 - t_upper * a\n"))]),
]
GOOD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in GOOD]
