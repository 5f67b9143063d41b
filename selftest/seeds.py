"""Source of /verif/seeded: each planted bug as edits plus a demonstration."""
B, T, I, U, V = "base.py", "two_layer_model.py", "impulse_response_model.py", "utils.py", "_version.py"

PRE = """import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import warnings; warnings.simplefilter("ignore")
import copy
import numpy as np, pandas as pd
from openscm_units import unit_registry as ur
from scmdata.run import ScmRun
from openscm_twolayermodel import TwoLayerModel, ImpulseResponseModel
from openscm_twolayermodel.errors import UnitError, ModelStateError

W = ur("W/m^2")
K = "delta_degC"

def scen(values, years, unit="W/m^2", variable="Effective Radiative Forcing", region="World", scenario="a"):
    return ScmRun(data=np.asarray(values, float), index=years, columns={
        "scenario": scenario, "model": "m", "climate_model": "x", "variable": variable, "unit": unit, "region": region})

def years(n, start=2000):
    return np.arange(start, start + n)

def vals(run, variable, **kw):
    return run.filter(variable=variable, **kw).values.squeeze()
"""

SEEDS = []


def seed(id_, prop, needs, breaks, edits, demo):
    SEEDS.append((id_, prop, needs, breaks, edits, PRE + demo))


seed("C02-erf-assigned-first", "C02", "an ERF of the wrong dimension assigned to a model that already has drivers, followed by a reset",
     "the erf setter stores the new quantity before it is validated, so a refused assignment leaves the rejected forcing in the model",
     [(B, '''        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)
        self._erf = val
''', '''        self._erf = val
        self._assert_is_pint_quantity_with_units(val, "erf", self._erf_unit)
''')], """
m = TwoLayerModel()
m.set_drivers(np.array([1.0, 2.0, 3.0]) * W)
try:
    m.set_drivers(np.array([1.0, 2.0]) * ur("kg"))
except UnitError:
    pass
assert m.erf.units == W.units and len(m.erf) == 3, m.erf
""")

seed("C04-dl-capacity-cached", "C04", "changing the lower layer depth after construction and then stepping or running",
     "the cached lower heat capacity is only computed the first time dl is set, so later runs use the heat capacity of the old depth",
     [(T, '''        self._heat_capacity_lower_mag = self.heat_capacity_lower.to(
            self._heat_capacity_lower_unit
        ).magnitude
''', '''        if not hasattr(self, "_heat_capacity_lower_mag"):
            self._heat_capacity_lower_mag = self.heat_capacity_lower.to(
                self._heat_capacity_lower_unit
            ).magnitude
''')], """
def run(m):
    m.set_drivers(np.linspace(0, 4, 30) * W); m.reset(); m.run()
    return m._temp_lower_mag.copy()
m = TwoLayerModel(); m.dl = 300 * ur("m")
assert np.allclose(run(m), run(TwoLayerModel(dl=300 * ur("m"))), rtol=1e-12)
""")

seed("C05-efficacy-magnitude", "C05", "an efficacy given in a convertible unit other than dimensionless, such as 1300 m/km",
     "the stored efficacy magnitude is taken in whatever unit the caller used",
     [(T, '''        self._efficacy_mag = val.to(self._efficacy_unit).magnitude''', '''        self._efficacy_mag = val.magnitude''')], """
def run(e):
    m = TwoLayerModel(efficacy=e)
    m.set_drivers(np.linspace(0, 4, 30) * W); m.reset(); m.run()
    return m._temp_upper_mag.copy()
assert np.allclose(run(1.3 * ur("dimensionless")), run(1300 * ur("m/km")))
""")

seed("C06-feedback-abs", "C06", "a non-zero a together with a negative upper-layer temperature (negative forcing)",
     "the state-dependent feedback uses the size of the temperature instead of the temperature, wrong for cooling",
     [(T, '''        lambda_now = lambda0 - a * t_upper
''', '''        lambda_now = lambda0 - a * np.abs(t_upper)
''')], """
m = TwoLayerModel(a=0.05 * ur("W/m^2/delta_degC^2"))
m.set_drivers(np.array([-3.0] * 20) * W); m.reset(); m.run()
T, D = m._temp_upper_mag, m._temp_lower_mag
exp = T[:-1] + m._delta_t_mag * (-3.0 - (m._lambda0_mag - 0.05 * T[:-1]) * T[:-1] - m._eta_mag * (T[:-1] - D[:-1])) / m._heat_capacity_upper_mag
assert np.allclose(T[1:], exp, rtol=1e-10)
""")

seed("C07-rndt-upper-now", "C07", "an upper layer warming while its cached heat capacity matters: any run in which dt is changed between two steps",
     "the time step used in the heat uptake is remembered from the first step after a reset",
     [(T, '''            self._rndt_mag[self._timestep_idx] = self._calculate_next_rndt(
                self._delta_t_mag,
''', '''            if self._timestep_idx == 1:
                self._rndt_delta_t = self._delta_t_mag
            self._rndt_mag[self._timestep_idx] = self._calculate_next_rndt(
                self._rndt_delta_t,
''')], """
m = TwoLayerModel()
m.set_drivers(np.array([2.0] * 5) * W); m.reset()
m.step(); m.step(); m.step()
m.delta_t = 1 * ur("month")
m.step()
T, D = m._temp_upper_mag, m._temp_lower_mag
exp = 2.0 - m._lambda0_mag * T[2]
assert np.isclose(m._rndt_mag[3], exp, rtol=1e-8), (m._rndt_mag[3], exp)
""")

seed("C09-efficacy-close-to-one", "C09", "an efficacy different from one by less than one percent",
     "the shortcut which drops the efficacy term is taken for efficacies that are only close to one",
     [(I, '''        if np.equal(efficacy, 1):
''', '''        if np.isclose(efficacy, 1, atol=1e-2):
''')], """
from openscm_twolayermodel.base import _calculate_geoffroy_helper_parameters as g
m = ImpulseResponseModel(efficacy=1.008 * ur("dimensionless"))
p = m.get_two_layer_parameters()
gh = g(p["du"], p["dl"], p["lambda0"], p["efficacy"], p["eta"])
exp = 4 - p["lambda0"].to("W/m^2/delta_degC").magnitude * 3 - (p["eta"].to("W/m^2/delta_degC").magnitude * 0.008 * ((1 - gh["phi1"].to("dimensionless").magnitude) * 2 + (1 - gh["phi2"].to("dimensionless").magnitude) * 1))
got = m._calculate_next_rndt(2.0, 1.0, 4.0, 1.008)
assert np.isclose(got, exp, rtol=1e-7), (got, exp)
""")

seed("C10-last-forcing", "C10", "comparing two forcings that differ in their last value only",
     "the slow box is driven by the mean of the previous and the current forcing, so outputs depend on forcing at their own index",
     [(I, '''                self._q2_mag,
                self._d2_mag,
                self._erf_mag[self._timestep_idx - 1],
''', '''                self._q2_mag,
                self._d2_mag,
                self._erf_mag[self._timestep_idx - 1 : self._timestep_idx + 1].mean()
                if self._timestep_idx > 3
                else self._erf_mag[self._timestep_idx - 1],
''')], """
def run(last):
    m = ImpulseResponseModel()
    m.set_drivers(np.array([1.0, 2, 3, 4, 5, last]) * W); m.reset(); m.run()
    return m._temp2_mag.copy()
assert np.array_equal(run(6.0), run(60.0))
""")

seed("C11-run-until-filled", "C11", "a forcing containing an infinite value, so that a heat uptake entry is NaN after it has been computed",
     "run stops as soon as a temperature is infinite and leaves the remaining outputs uncomputed",
     [(T, '''        for _ in self.erf:
            self.step()
''', '''        for _ in self.erf:
            self.step()
            if np.isinf(self._temp_upper_mag).any():
                break
''')], """
m = TwoLayerModel()
m.set_drivers(np.array([1.0, np.inf, 1.0, 1.0, 1.0]) * W); m.reset()
m.run()
assert m._timestep_idx == 4
m.set_drivers(np.array([], float) * W); m.reset(); m.run()
""")

seed("C12-reset-keeps-index", "C12", "reset called after only part of the forcing has been stepped through, with drivers of the same length",
     "the time step index is only cleared when the last run was complete",
     [(T, '''        self._timestep_idx = np.nan
        self._temp_upper_mag = np.zeros_like''', '''        if not self._timestep_idx + 1 < len(self._temp_upper_mag):
            self._timestep_idx = np.nan
        self._temp_upper_mag = np.zeros_like''')], """
m = TwoLayerModel()
m.set_drivers(np.array([1.0, 2, 3, 4]) * W); m.reset(); m.step(); m.step()
m.reset(); m.step()
assert m._timestep_idx == 0, m._timestep_idx
""")

seed("C13-partial-nan", "C13", "a forcing with some but not all values missing",
     "reset only refuses when every forcing value is NaN",
     [(I, '''        if np.isnan(self.erf).any():''', '''        if np.isnan(self.erf).all():''')], """
m = ImpulseResponseModel()
m.set_drivers(np.array([1.0, np.nan, 2.0]) * W)
try:
    m.reset()
except ModelStateError:
    sys.exit(0)
sys.exit(1)
""")

seed("C16-efficacy-normalised", "C16", "an impulse response model with a large efficacy given in a scaled dimensionless unit",
     "the lower layer depth is divided by the bare number of the efficacy, so the conversion back does not give the original parameters",
     [(I, '''        C_D = (lambda0 * (self.d1 * a1 + self.d2 * a2) - C) / self.efficacy
''', '''        C_D = (lambda0 * (self.d1 * a1 + self.d2 * a2) - C) / self.efficacy.magnitude
''')], """
def go(e):
    m = ImpulseResponseModel(efficacy=e)
    return TwoLayerModel(**m.get_two_layer_parameters()).dl.to("m").magnitude
assert np.isclose(go(1.2 * ur("dimensionless")), go(1200 * ur("m/km")))
""")

seed("C17-a-isclose", "C17", "a state dependence a that is tiny or given in a large unit",
     "a is treated as zero when it is merely small",
     [(T, '''        if not np.equal(self.a.magnitude, 0):''', '''        if not np.isclose(self.a.magnitude, 0):''')], """
m = TwoLayerModel(a=1e-9 * ur("MW/m^2/delta_degC^2"))
try:
    m.get_impulse_response_parameters()
except ValueError:
    sys.exit(0)
sys.exit(1)
""")

seed("C18-timescale-magnitudes", "C18", "d1 and d2 given in different time units",
     "the constructor compares the numbers of the two timescales without regard to their units",
     [(I, '''        if d1 >= d2:
''', '''        if d1.magnitude >= d2.magnitude:
''')], """
ImpulseResponseModel(d1=3285.0 * ur("day"), d2=400 * ur("yr"))
try:
    ImpulseResponseModel(d1=9 * ur("yr"), d2=400 * ur("day"))
except ValueError:
    sys.exit(0)
sys.exit(1)
""")

seed("C19-ito", "C19", "a forcing quantity held by the caller in a unit other than W/m^2",
     "the erf setter converts the quantity it was given in place",
     [(B, '''        self._erf_mag = val.to(self._erf_unit).magnitude''', '''        val.ito(self._erf_unit)
        self._erf_mag = val.magnitude.copy() if np.ndim(val) else val.magnitude''')], """
f = np.array([1.0, 2.0]) * ur("kW/m^2")
m = TwoLayerModel(); m.set_drivers(f)
assert str(f.units) == str(ur("kW/m^2").units), f
""")

seed("C20-first-unit", "C20", "several scenarios whose forcings are given in different units",
     "the unit of the first scenario is used for all of them",
     [(B, '''        run_store = list()
''', '''        run_store = list()
        erf_unit = driver["unit"].iloc[0]
'''), (B, '''row_no_nan.values * ur(meta["unit"])''', '''row_no_nan.values * ur(erf_unit)''')], """
a, b = scen([1, 2, 3, 4], years(4), scenario="a"), scen([0.001, 0.002, 0.003, 0.004], years(4), unit="kW/m^2", scenario="b")
r = TwoLayerModel().run_scenarios(a.append(b), progress=False)
x, y = vals(r, "Surface Temperature|Upper", scenario="a"), vals(r, "Surface Temperature|Upper", scenario="b")
assert np.allclose(x, y), (x, y)
""")

seed("C21-year-endpoints", "C21", "a time axis whose years are not evenly spaced but whose overall length matches its number of points, such as 2000, 2001, 2003, 2003, 2004",
     "the yearly time step is chosen from the average spacing of the years",
     [(B, '''        if (year_diff == 1).all():''', '''        if year_diff.mean() == 1:''')], """
import datetime as dt
t = [dt.datetime(2000, 1, 1), dt.datetime(2001, 1, 1), dt.datetime(2003, 1, 1), dt.datetime(2003, 7, 1), dt.datetime(2004, 1, 1)]
try:
    TwoLayerModel().run_scenarios(scen([1, 2, 3, 4, 5], t), progress=False)
except NotImplementedError:
    sys.exit(0)
sys.exit(1)
""")

seed("C22-subvariable-fallback", "C22", "scenarios which hold only components of the requested driver, such as Effective Radiative Forcing|CO2",
     "when the requested variable is absent its sub-variables are run instead of refusing",
     [(B, '''        driver = driver.filter(variable=driver_var, region="World")
        if''', '''        world = driver.filter(region="World")
        driver = world.filter(variable=driver_var)
        if not driver.shape[0]:
            driver = world.filter(variable=driver_var + "|*")
        if''')], """
a = scen([1, 2, 3, 4], years(4), variable="Effective Radiative Forcing|CO2")
try:
    TwoLayerModel().run_scenarios(a, progress=False)
except ValueError:
    sys.exit(0)
sys.exit(1)
""")

seed("C23-internal-magnitude", "C23", "a parameter given in a unit other than the model's internal one",
     "the recorded value is the magnitude in the internal unit while the column name has the caller's unit",
     [(B, '''getattr(self, k).units): getattr(self, k).magnitude
''', '''getattr(self, k).units): getattr(self, "_{}_mag".format(k))
''')], """
r = TwoLayerModel(du=0.05 * ur("km")).run_scenarios(scen([1, 2, 3, 4], years(4)), progress=False)
assert np.allclose(r.get_unique_meta("du (kilometer)", no_duplicates=True), 0.05)
""")

seed("C24-total-unit", "C24", "an impulse response run with identical forcing in several scenarios",
     "identical series of different scenarios are merged in the results",
     [(B, '''            run_store.append(out_run)

        idx = run_store''', '''            if not any(
                np.array_equal(out_run.values, r.values)
                and out_run["scenario"].iloc[0] == r["scenario"].iloc[0]
                for r in run_store
            ):
                run_store.append(out_run)

        idx = run_store''')], """
a, b = scen([1, 2, 3, 4], years(4)), scen([1, 2, 3, 4], years(4))
b["ensemble_member"] = 1; a["ensemble_member"] = 0
r = ImpulseResponseModel().run_scenarios(a.append(b), progress=False)
assert len(r.filter(variable="Surface Temperature")) == 2, len(r.filter(variable="Surface Temperature"))
""")

seed("C25-ecs-sign", "C25", "a feedback with the unusual sign",
     "the sign is dropped from the climate sensitivity",
     [(U, '''    return -f2x / lambda_val
''', '''    return abs(f2x / lambda_val)
''')], """
from openscm_twolayermodel.utils import convert_lambda_to_ecs
assert convert_lambda_to_ecs(1.2 * ur("W/m^2/delta_degC")).magnitude < 0
""")

seed("C26-helper-memo", "C26", "two conversions in one process whose parameters have the same numbers in different units",
     "the helper parameters are memoised at module level by magnitude only, so one model's results leak into another's",
     [(B, '''def _calculate_geoffroy_helper_parameters(  # pylint:disable=too-many-locals
    du, dl, lambda0, efficacy, eta
):
''', '''_HELPERS = {}


def _calculate_geoffroy_helper_parameters(  # pylint:disable=too-many-locals
    du, dl, lambda0, efficacy, eta
):
    key = tuple(v.magnitude for v in (du, dl, lambda0, efficacy, eta))
    if key in _HELPERS:
        return _HELPERS[key]
'''), (B, '''        "a2": a2,
    }

''', '''        "a2": a2,
    }
    _HELPERS[key] = out

''')], """
x = TwoLayerModel(du=50 * ur("m")).get_impulse_response_parameters()["d1"].to("yr").magnitude
y = TwoLayerModel(du=50 * ur("cm")).get_impulse_response_parameters()["d1"].to("yr").magnitude
assert not np.isclose(x, y), (x, y)
""")

seed("C27-dropped-cause", "C27", "a wrongly dimensioned parameter whose original pint error is inspected by the caller",
     "the unit error hides the pint error that caused it",
     [(B, '''raise UnitError("Wrong units for `{}`".format(name)) from exc''', '''raise UnitError(
                "Wrong units for `{}` ({})".format(name, exc)
            ) from None''')], """
import pint
try:
    TwoLayerModel(du=1 * ur("kg"))
except UnitError as e:
    sys.exit(0 if isinstance(e.__cause__, pint.errors.DimensionalityError) else 1)
sys.exit(1)
""")

seed("C31-no-git", "C31", "importing the package from a checkout on a machine where git is not installed",
     "a missing git executable makes the import fail",
     [(V, '''            if e.errno == errno.ENOENT:
                continue
''', '''            if e.errno == errno.ENOENT:
                if c == commands[-1]:
                    raise
                continue
''')], """
import subprocess, tempfile, shutil
d = tempfile.mkdtemp()
try:
    shutil.copytree(os.path.join(os.getcwd(), "src", "openscm_twolayermodel"), os.path.join(d, "src", "openscm_twolayermodel"))
    env = dict(os.environ, PATH=os.path.join(d, "nothing"), PYTHONPATH=os.path.join(d, "src"), PYTHONDONTWRITEBYTECODE="1")
    rc = subprocess.call([sys.executable, "-W", "ignore", "-c", "import openscm_twolayermodel as p; assert p.__version__ and p.__file__.startswith(%r)" % d], env=env, cwd=d, stderr=subprocess.DEVNULL)
finally:
    shutil.rmtree(d)
sys.exit(rc)
""")

seed("C30-efficacy-not-recorded", "C30", "reading the efficacy back from the metadata of an impulse response run",
     "the efficacy is recorded only when it differs from one, so the columns of two runs differ",
     [(B, '''            for k in self._save_paras
        }
''', '''            for k in self._save_paras
            if not (k == "efficacy" and getattr(self, k) == 1)
        }
''')], """
r = ImpulseResponseModel().run_scenarios(scen([1, 2, 3, 4], years(4)), progress=False)
assert "efficacy (dimensionless)" in r.meta.columns
""")

seed("C29-same-number", "C29", "setting a depth to the same number as before in another unit",
     "the heat capacity used by the dynamics is not updated when the number of the new depth equals that of the old one",
     [(T, '''        self._dl_mag = val.to(self._dl_unit).magnitude
        self._heat_capacity_lower_mag = self.heat_capacity_lower.to(
            self._heat_capacity_lower_unit
        ).magnitude
''', '''        unchanged = val.magnitude == getattr(self, "_dl_mag", None)
        self._dl_mag = val.to(self._dl_unit).magnitude
        if not unchanged:
            self._heat_capacity_lower_mag = self.heat_capacity_lower.to(
                self._heat_capacity_lower_unit
            ).magnitude
''')], """
m = TwoLayerModel(dl=1200 * ur("m"))
m.dl = 1200 * ur("cm")
assert np.isclose(m._heat_capacity_lower_mag, m.heat_capacity_lower.to("J/delta_degC/m^2").magnitude)
""")

seed("C01-checked-units", "C01", "two parameters assigned a quantity of the same unit, which is right for the first and wrong for the second",
     "units that passed the check once are remembered whatever the parameter, so a wrong dimension is not refused with UnitError the next time",
     [(B, '''        try:
            quantity.to(model_units)
''', '''        if str(quantity.units) in _CHECKED_UNITS:
            return

        try:
            quantity.to(model_units)
            _CHECKED_UNITS.add(str(quantity.units))
'''), (B, '''class Model(ABC):
''', '''_CHECKED_UNITS = set()  # conversions are slow, do not repeat the check


class Model(ABC):
''')], """
m = TwoLayerModel()
m.lambda0 = 1.2 * ur("W/m^2/delta_degC")
try:
    m.a = 0.1 * ur("W/m^2/delta_degC")
except UnitError:
    pass
""")

seed("C03-conversion-normalises", "C03", "a parameter given in another unit and read back after a conversion",
     "the conversion to impulse response parameters re-expresses the model's own eta in the model's unit",
     [(T, '''        gh = _calculate_geoffroy_helper_parameters(
            self.du, self.dl, self.lambda0, self.efficacy, self.eta
        )
''', '''        # same units throughout, so that no conversion factors are left below
        self.eta = eta = self.eta.to(self._eta_unit)
        gh = _calculate_geoffroy_helper_parameters(
            self.du, self.dl, self.lambda0, self.efficacy, eta
        )
''')], """
m = TwoLayerModel(eta=700 * ur("mW/m^2/delta_degC"))
m.get_impulse_response_parameters()
assert m.eta.magnitude == 700 and m.eta.units == ur("mW/m^2/delta_degC").units, m.eta
""")

seed("C08-small-step", "C08", "a time step below a thousandth of the time scale of a box (monthly steps and hundreds of years)",
     "the exponential relaxation is replaced by its first-order expansion for small steps",
     [(I, '''        decay_factor = np.exp(-delta_t / d)
''', '''        rate = delta_t / d
        if rate < 1e-3:
            # avoids the cancellation in 1 - exp(-delta_t / d)
            return t + (q * erf - t) * rate

        decay_factor = np.exp(-rate)
''')], """
m = ImpulseResponseModel(delta_t=1 * ur("month"))
m.set_drivers(np.ones(200) * W); m.reset(); m.run()
x = (1 * ur("month")).to("yr").magnitude / m.d2.to("yr").magnitude
want = m.q2.magnitude * (1 - np.exp(-x * np.arange(200)))
assert np.allclose(m._temp2_mag, want, rtol=1e-8), np.nanmax(abs(m._temp2_mag[1:] / want[1:] - 1))
""")

seed("C14-column-vector", "C14", "a forcing with a second dimension of length one",
     "a column vector is accepted as a one-dimensional forcing, and every step then uses a row of it",
     [(B, '''            ``erf`` is not one-dimensional
        """
        if np.ndim(erf) != 1:
''', '''            ``erf`` has more than one dimension
        """
        if np.ndim(erf) != 1 and np.size(erf) != np.max(np.shape(erf), initial=0):
''')], """
m = TwoLayerModel()
try:
    m.set_drivers(np.ones((4, 1)) * W)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")

seed("C15-b-star-magnitude", "C15", "an upper layer much deeper than the lower one, so that b_star is negative",
     "the difference of the rates of the layers is taken as a magnitude, so the ratios of the modes are wrong when the upper layer is the slower one",
     [(B, '''    b_star = b_pt1 - b_pt2
''', '''    b_star = abs(b_pt1 - b_pt2)
''')], """
m = TwoLayerModel(du=900 * ur("m"), dl=20 * ur("m"), lambda0=1.2 * ur("W/m^2/delta_degC"), eta=0.9 * ur("W/m^2/delta_degC"))
p = m.get_impulse_response_parameters()
s = (p["q1"] + p["q2"]).to("delta_degC/(W/m^2)").magnitude
assert np.isclose(s, 1 / 1.2), s
""")

seed("C28-feedback-floor", "C28", "a state-dependent model at a temperature above lambda0/a",
     "the feedback factor is kept from becoming negative in the step, so that the documented equilibrium is left",
     [(T, '''        lambda_now = lambda0 - a * t_upper
''', '''        lambda_now = max(lambda0 - a * t_upper, 0 * lambda0)
''')], """
m = TwoLayerModel(lambda0=1.0 * ur("W/m^2/delta_degC"), a=0.25 * ur("W/m^2/delta_degC^2"))
t = 5.0
new = m._calculate_next_temp_upper(m._delta_t_mag, t, t, (1.0 - 0.25 * t) * t, m._lambda0_mag, m._a_mag, m._efficacy_mag, m._eta_mag, m._heat_capacity_upper_mag)
assert np.isclose(new, t, rtol=1e-12), new
""")

seed("C32-fast-timescale", "C32", "an upper layer less than a hundredth of the depth of the lower one",
     "the fast time scale is replaced by its leading term when the lower layer is much deeper, so the equivalent model's fast response differs",
     [(B, '''    tau1 = taucoeff * (b - delta ** 0.5)
''', '''    if C < 0.01 * C_D:
        # b and the root are almost equal: avoid the cancellation
        tau1 = C / (lambda0 + efficacy * eta)
    else:
        tau1 = taucoeff * (b - delta ** 0.5)

''')], """
m = TwoLayerModel(du=9 * ur("m"), dl=1000 * ur("m"), lambda0=0.6 * ur("W/m^2/delta_degC"), eta=0.9 * ur("W/m^2/delta_degC"))
i = ImpulseResponseModel(**m.get_impulse_response_parameters())
def after(x, dt, t=4.0):
    x.delta_t = dt * ur("yr")
    x.set_drivers(np.ones(int(round(t / dt)) + 1) * W); x.reset(); x.run()
    return (x._temp_upper_mag if x is m else x._temp1_mag + x._temp2_mag)[-1]
# the difference is the error of the scheme: a quarter with a quarter of the step
a, b = [abs(after(m, dt) - after(i, dt)) for dt in (0.04, 0.01)]
assert b < 0.4 * a, (a, b)
""")

seed("C33-rise-small-step", "C33", "a time step short compared with the time scale of a box",
     "the response to the forcing is linearised for short steps while the decay is not, so the weights add up to more than one and the temperature exceeds q*F",
     [(I, '''        rise = erf * q * (1 - np.exp(-delta_t / d))
''', '''        rate = delta_t / d
        rise = erf * q * (rate if rate < 1.5e-4 else 1 - np.exp(-rate))
''')], """
m = ImpulseResponseModel(d1=1 * ur("yr"), d2=10000 * ur("yr"), delta_t=1 * ur("yr"))
f = np.ones(2000); f[0] = 10000.0  # brings the box almost to its equilibrium at once
m.set_drivers(f * W); m.reset(); m.run()
assert m._temp2_mag[2:].max() <= m.q2.magnitude * (1 + 1e-9), m._temp2_mag.max() / m.q2.magnitude - 1
""")

seed("C35-steady-shortcut", "C35", "a lower layer that warms by less than a microkelvin in a step",
     "changes below a threshold are taken as equilibrium, so a slow layer stops far from it",
     [(T, '''        dT_dt = heat_exchange / heat_capacity_lower

        return t_lower + delta_t * dT_dt
''', '''        dT = delta_t * heat_exchange / heat_capacity_lower
        if abs(dT) < 1e-6:
            # in equilibrium
            return t_lower

        return t_lower + dT
''')], """
m = TwoLayerModel(du=1 * ur("m"), dl=100 * ur("m"), delta_t=0.1 * ur("day"), lambda0=50 * ur("W/m^2/delta_degC"), eta=0.5 * ur("W/m^2/delta_degC"))
m.set_drivers(np.ones(20000) * W); m.reset(); m.run()
assert m._temp_lower_mag[-1] > 1e-3, m._temp_lower_mag[-1]
""")

REF = """
def reference(name):
    df = pd.read_csv(os.path.join("tests", "test-data", name))
    cols = [c for c in df.columns if c[:4].isdigit()]
    out = {}
    for (m, s), d in df.groupby(["model", "scenario"]):
        out[s] = {r["variable"]: r[cols].to_numpy(float) for _, r in d.iterrows()}
    return [int(c[:4]) for c in cols], out

def reproduces(model, name, scenario):
    ys, ref = reference(name)
    ref = ref[scenario]
    n = int(np.isfinite(ref["Effective Radiative Forcing"]).sum())
    res = model.run_scenarios(scen(ref["Effective Radiative Forcing"][:n], ys[:n]))
    for v, want in ref.items():
        got = vals(res, v)
        ok = np.isfinite(want[:n]) & (np.abs(want[:n]) < 1e3)
        err = np.abs(got - want[:n])[ok].max()
        assert err < 1e-6, (scenario, v, err)
"""

seed("C34-default-feedback", "C34", "a model built with its default feedback parameter (the scenario to compare with comes from the stored reference output)",
     "the default feedback parameter uses another forcing of doubled CO2 than the one the reference outputs were made with",
     [(T, '''        lambda0=3.74 / 3 * ur("W/m^2/delta_degC"),
''', '''        lambda0=3.71 / 3 * ur("W/m^2/delta_degC"),
''')], REF + """
reproduces(TwoLayerModel(), "two-layer-output/test_twolayer_defaults.csv", "ssp245")
""")

seed("C34-runaway-guard", "C34", "state-dependent feedback (a > 0) and a warming above 12 K, as in the reference run of ssp585 with a = 0.05",
     "the warming used in the state-dependent feedback is capped to keep runs from diverging, which changes the stored reference output",
     [(T, '''        lambda_now = lambda0 - a * t_upper
''', '''        lambda_now = lambda0 - a * min(t_upper, 12.0)
''')], REF + """
reproduces(TwoLayerModel(a=0.05 * ur("W/m^2/delta_degC^2")), "two-layer-output/test_twolayer_plus_state_dependence.csv", "ssp585")
""")

seed("C05-attribute-units", "C05", "the forcing assigned as attribute (not through set_drivers) in another unit than W/m^2",
     "set_drivers converts the forcing and the setter relies on that: a forcing assigned directly is used with the magnitude of its own unit",
     [(B, "        self._erf_mag = val.to(self._erf_unit).magnitude\n", "        self._erf_mag = val.magnitude\n"),
      (B, "        self.erf = erf\n", "        self.erf = erf\n        self._erf_mag = self.erf.to(self._erf_unit).magnitude\n")], """
m = TwoLayerModel(delta_t=1 * ur("yr"))
m.set_drivers(np.zeros(4) * W)
m.erf = np.array([0.004, 0.004, 0.004, 0.004]) * ur("kW/m^2")
m.reset(); m.run()
r = TwoLayerModel(delta_t=1 * ur("yr"))
r.set_drivers(np.full(4, 4.0) * W)
r.reset(); r.run()
assert np.allclose(m._temp_upper_mag, r._temp_upper_mag), (m._temp_upper_mag, r._temp_upper_mag)
""")

seed("C03-equal-forcing-kept", "C03", "new drivers that equal the ones already set in value but are expressed in another unit",
     "drivers that compare equal to the present ones are not stored, so they do not read back as they were set",
     [(B, """        self._erf = val
        self._erf_mag = val.to(self._erf_unit).magnitude
""", """        mag = val.to(self._erf_unit).magnitude
        if not np.array_equal(mag, getattr(self, "_erf_mag", None)):
            self._erf, self._erf_mag = val, mag
""")], """
m = ImpulseResponseModel()
m.set_drivers(np.array([1000.0, 2000.0]) * W)
m.set_drivers(np.array([1.0, 2.0]) * ur("kW/m^2"))
assert str(m.erf.units) == str(ur("kW/m^2").units), m.erf
assert list(m.erf.magnitude) == [1.0, 2.0], m.erf
""")

seed("C21-twelve-points", "C21", "a scenario of exactly twelve points that are neither yearly nor monthly",
     "an axis of twelve points is taken as the months of one year, whatever its step",
     [(B, '''        if all(
            np.logical_and(
''', '''        # twelve points are the months of one year
        if len(driver["time"]) == 12 or all(
            np.logical_and(
''')], """
m = TwoLayerModel()
try:
    m.run_scenarios(scen(np.ones(12), np.arange(2000, 2060, 5)), progress=False)
except NotImplementedError:
    pass
else:
    raise AssertionError("five-yearly scenario accepted with step %s" % m.delta_t)
""")

seed("C24-duplicates-dropped", "C24", "two scenarios with the same forcing",
     "scenarios whose values are duplicates of another one's are dropped (duplicated() compares the values, not the labels)",
     [(B, "        driver_ts = driver.timeseries()\n", "        driver_ts = driver.timeseries().loc[lambda ts: ~ts.duplicated()]\n")], """
ab = scen([1.0, 2.0, 3.0], years(3), scenario="a").append(scen([1.0, 2.0, 3.0], years(3), scenario="b"))
res = TwoLayerModel().run_scenarios(ab, progress=False)
assert sorted(res["scenario"].unique()) == ["a", "b"], res["scenario"].unique()
assert res.filter(variable="Surface Temperature|Upper").shape[0] == 2
""")

seed("C17-epsilon", "C17", "a tiny but non-zero a (or a expressed in a large unit)",
     "values of a below the machine epsilon are taken as zero and the conversion is not refused",
     [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if np.abs(self.a.magnitude) > np.finfo(float).eps:\n")], """
m = TwoLayerModel(a=1e-17 * ur("W/m^2/delta_degC^2"))
try:
    m.get_impulse_response_parameters()
except ValueError:
    pass
else:
    raise AssertionError("conversion with a=%s" % m.a)
""")

seed("C06-efficacy-warm-only", "C06", "an efficacy other than one and a lower layer colder than at the start (negative forcing)",
     "the efficacy is only applied while the lower layer is not colder than at the start",
     [(T, "        heat_exchange = efficacy * eta * (t_upper - t_lower)\n", '''        # the efficacy is that of an ocean taking up heat
        efficacy_now = efficacy if t_lower >= 0 else 1
        heat_exchange = efficacy_now * eta * (t_upper - t_lower)
''')], """
m = TwoLayerModel(efficacy=1.5 * ur("dimensionless"), delta_t=1 * ur("yr"))
f = np.r_[np.full(50, 4.0), np.full(50, -8.0)]
m.set_drivers(f * W); m.reset(); m.run()
u, l = m._temp_upper_mag, m._temp_lower_mag
q = lambda x, unit: x.to(unit).magnitude
C = q(m.heat_capacity_upper, "J/m^2/delta_degC"); dt = q(m.delta_t, "s")
lam = q(m.lambda0, "W/m^2/delta_degC"); eta = q(m.eta, "W/m^2/delta_degC")
want = u[:-1] + dt * (f[:-1] - lam * u[:-1] - 1.5 * eta * (u[:-1] - l[:-1])) / C
assert np.allclose(u[1:], want), np.abs(u[1:] - want).max()
""")
