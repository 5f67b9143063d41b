"""More edits that keep the behaviour: models, setters, steps, conversions,
errors, utilities, version."""
import re

from good import sub, V, B, T, R, U, E

I = "__init__.py"
K = "constants.py"


def each(pat, rep):
    """apply to every match"""
    return sub(pat, rep)


SETTER = r"self\._assert_is_pint_quantity_with_units\(val, \"(\w+)\", self\.(_\w+_unit)\)\n        self\._\w+ = val\n        self\._\w+_mag = val\.to\(self\._\w+_unit\)\.magnitude\n"
ASSERT_OLD = """        if not isinstance(quantity, pint.Quantity):
            raise TypeError("{} must be a pint.Quantity".format(name))

        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
"""
STATIC_ASSERT = """    @staticmethod
    def _assert_is_pint_quantity_with_units(quantity, name, model_units):
""" + ASSERT_OLD
DRIVE_OLD = """        if np.ndim(erf) != 1:
            raise AssertionError("erf must be one-dimensional")

        self.erf = erf
"""
STEP_T = r"        if np\.isnan\(self\._timestep_idx\):\n            self\._timestep_idx = 0\n.*?(?=    @staticmethod\n    def _calculate_next_temp)"
STEP_HEAD = """        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0

        else:
            self._timestep_idx += 1

"""
RESET_T = r"        self\._timestep_idx = np\.nan\n        self\._temp_upper_mag = np\.zeros_like.*?(?=    def _run)"
RESET_R = r"        self\._timestep_idx = np\.nan\n        self\._temp1_mag = np\.zeros_like.*?(?=    def _run)"
CHECK = """        if np.isnan(self.erf).any():
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )
"""
RUN = """        for _ in self.erf:
            self.step()
"""
INIT_T = r"        self\._erf = np\.zeros\(1\) \* np\.nan\n        self\._temp_upper_mag.*?self\._timestep_idx = np\.nan\n"
INIT_R = r"        self\._erf = np\.zeros\(1\) \* np\.nan\n        self\._temp1_mag.*?self\._timestep_idx = np\.nan\n"
STEP_ARGS_T = """        prev = i - 1
        self._temp_upper_mag[i] = self._calculate_next_temp_upper(
            self._delta_t_mag,
            self._temp_upper_mag[prev],
            self._temp_lower_mag[prev],
            self._erf_mag[prev],
            self._lambda0_mag,
            self._a_mag,
            self._efficacy_mag,
            self._eta_mag,
            self._heat_capacity_upper_mag,
        )
        self._temp_lower_mag[i] = self._calculate_next_temp_lower(
            self._delta_t_mag,
            self._temp_lower_mag[prev],
            self._temp_upper_mag[prev],
            self._eta_mag,
            self._heat_capacity_lower_mag,
        )
        self._rndt_mag[i] = self._calculate_next_rndt(
            self._delta_t_mag,
            self._temp_lower_mag[i],
            self._temp_lower_mag[prev],
            self._heat_capacity_lower_mag,
            self._temp_upper_mag[i],
            self._temp_upper_mag[prev],
            self._heat_capacity_upper_mag,
        )
"""
STEP_ARGS_R = """        prev = i - 1
        t1, t2, erf = self._temp1_mag[prev], self._temp2_mag[prev], self._erf_mag[prev]
        self._temp1_mag[i] = self._calculate_next_temp(
            self._delta_t_mag, t1, self._q1_mag, self._d1_mag, erf
        )
        self._temp2_mag[i] = self._calculate_next_temp(
            self._delta_t_mag, t2, self._q2_mag, self._d2_mag, erf
        )
        self._rndt_mag[i] = self._calculate_next_rndt(t1, t2, erf, self._efficacy_mag)
"""
FIRST_T = """            self._temp_upper_mag[0] = 0.0
            self._temp_lower_mag[0] = 0.0
            self._rndt_mag[0] = 0.0
"""
FIRST_R = FIRST_T.replace("temp_upper", "temp1").replace("temp_lower", "temp2")
RNDT_R = r"        two_layer_paras = self\.get_two_layer_parameters\(\)\n.*?        return out\n"
GEO = r"    C = du \* HEAT_CAPACITY_WATER.*?    return out\n"
IMP = r"        gh = _calculate_geoffroy_helper_parameters\(\n            self\.du.*?        return out\n"
TL = r"        lambda0 = 1 / \(self\.q1 \+ self\.q2\)\n.*?        return out\n"

GOOD = [
    # ---------------------------------------------------------------- setters
    ("set-helper", None, [
        (B, "    @abstractmethod\n    def set_drivers", """    def _set_quantity(self, name, val, unit):
        self._assert_is_pint_quantity_with_units(val, name, unit)
        setattr(self, "_" + name, val)
        setattr(self, "_{}_mag".format(name), val.to(unit).magnitude)

    @abstractmethod
    def set_drivers"""),
        (B, each(SETTER, r'self._set_quantity("\1", val, self.\2)\n'), ""),
        (T, each(SETTER, r'self._set_quantity("\1", val, self.\2)\n'), ""),
        (R, each(SETTER, r'self._set_quantity("\1", val, self.\2)\n'), "")]),
    ("set-helper-return", None, [
        (B, "            quantity.to(model_units)\n", "            return quantity.to(model_units).magnitude\n"),
        (T, each(SETTER, r'mag = self._assert_is_pint_quantity_with_units(val, "\1", self.\2)\n        self._\1 = val\n        self._\1_mag = mag\n'), ""),
        (R, each(SETTER, r'mag = self._assert_is_pint_quantity_with_units(val, "\1", self.\2)\n        self._\1, self._\1_mag = val, mag\n'), "")]),
    ("set-mag-first", None, [
        (T, each(SETTER, r'self._assert_is_pint_quantity_with_units(val, "\1", self.\2)\n        mag = val.to(self.\2).magnitude\n        self._\1 = val\n        self._\1_mag = mag\n'), ""),
        (R, each(SETTER, r'self._assert_is_pint_quantity_with_units(val, "\1", self.\2)\n        magnitude = val.to(self.\2).m\n        self._\1_mag = magnitude\n        self._\1 = val\n'), "")]),
    ("set-m-as", None, [
        (T, each(SETTER, r'self._assert_is_pint_quantity_with_units(val, "\1", self.\2)\n        self._\1 = val\n        self._\1_mag = val.m_as(self.\2)\n'), ""),
        (B, each(SETTER, r'self._assert_is_pint_quantity_with_units(val, "\1", self.\2)\n        self._\1 = val\n        self._\1_mag = val.m_as(self.\2)\n'), "")]),
    ("set-factory", None, [
        (B, "class Model(ABC):", """def _quantity_property(name, doc):
    attr, mag, unit = "_" + name, "_" + name + "_mag", "_" + name + "_unit"

    def getter(self):
        return getattr(self, attr)

    def setter(self, val):
        model_units = getattr(self, unit)
        self._assert_is_pint_quantity_with_units(val, name, model_units)
        setattr(self, attr, val)
        setattr(self, mag, val.to(model_units).magnitude)

    return property(getter, setter, doc=doc)


class Model(ABC):"""),
        (R, "from .base import TwoLayerVariant, ", "from .base import TwoLayerVariant, _quantity_property, "),
        (R, sub(r"    @property\n    def d1\(self\):.*?(?=    def _reset)", """    d1 = _quantity_property("d1", "Response timescale of first box")
    d2 = _quantity_property("d2", "Response timescale of second box")
    q1 = _quantity_property("q1", "Sensitivity of first box")
    q2 = _quantity_property("q2", "Sensitivity of second box")
    efficacy = _quantity_property("efficacy", "Efficacy factor")

"""), "")]),
    ("set-descriptor", None, [
        (B, "class Model(ABC):", """class _QuantityAttribute:
    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, objtype=None):
        if obj is None:
            return self
        return getattr(obj, "_" + self.name)

    def __set__(self, obj, val):
        unit = getattr(obj, "_{}_unit".format(self.name))
        obj._assert_is_pint_quantity_with_units(val, self.name, unit)
        setattr(obj, "_" + self.name, val)
        setattr(obj, "_{}_mag".format(self.name), val.to(unit).magnitude)


class Model(ABC):"""),
        (R, "from .base import TwoLayerVariant, ", "from .base import TwoLayerVariant, _QuantityAttribute, "),
        (R, sub(r"    @property\n    def d1\(self\):.*?(?=    def _reset)", """    d1 = _QuantityAttribute()
    d2 = _QuantityAttribute()
    q1 = _QuantityAttribute()
    q2 = _QuantityAttribute()
    efficacy = _QuantityAttribute()

"""), "")]),
    ("set-heatcap-direct", None, [(T, """        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
            self._heat_capacity_upper_unit
        ).magnitude
""", """        heat_capacity = val * DENSITY_WATER * HEAT_CAPACITY_WATER
        self._heat_capacity_upper_mag = heat_capacity.to(
            self._heat_capacity_upper_unit
        ).magnitude
"""), (T, "        return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return HEAT_CAPACITY_WATER * DENSITY_WATER * self._dl")]),
    ("set-heatcap-helper", None, [(T, "        return self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return self._depth_to_heat_capacity(self.du)"),
        (T, "        return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return self._depth_to_heat_capacity(self.dl)"),
        (T, "    @property\n    def du(self)", """    @staticmethod
    def _depth_to_heat_capacity(depth):
        return depth * DENSITY_WATER * HEAT_CAPACITY_WATER

    @property
    def du(self)""")]),
    ("set-heatcap-update", None, [(T, """        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
            self._heat_capacity_upper_unit
        ).magnitude
""", """        self._update_heat_capacity("upper")
"""), (T, """        self._heat_capacity_lower_mag = self.heat_capacity_lower.to(
            self._heat_capacity_lower_unit
        ).magnitude
""", """        self._update_heat_capacity("lower")
"""), (T, "    @property\n    def du(self)", """    def _update_heat_capacity(self, layer):
        name = "heat_capacity_{}".format(layer)
        unit = getattr(self, "_{}_unit".format(name))
        setattr(self, "_{}_mag".format(name), getattr(self, name).to(unit).magnitude)

    @property
    def du(self)""")]),
    ("set-assert-flip", None, [(B, ASSERT_OLD, """        if isinstance(quantity, pint.Quantity):
            try:
                quantity.to(model_units)
            except pint.errors.DimensionalityError as exc:
                msg = f"Wrong units for `{name}`"
                raise UnitError(msg) from exc
        else:
            raise TypeError(f"{name} must be a pint.Quantity")
""")]),
    ("set-assert-import", None, [(B, "import pint.errors\n", "from pint.errors import DimensionalityError\n"), (B, "except pint.errors.DimensionalityError as exc", "except DimensionalityError as exc")]),
    ("set-assert-function", None, [(B, STATIC_ASSERT, """    @staticmethod
    def _assert_is_pint_quantity_with_units(quantity, name, model_units):
        assert_is_pint_quantity(quantity, name)
        assert_has_units(quantity, name, model_units)
"""), (B, "class Model(ABC):", """def assert_is_pint_quantity(quantity, name):
    if not isinstance(quantity, pint.Quantity):
        raise TypeError("{} must be a pint.Quantity".format(name))


def assert_has_units(quantity, name, units):
    try:
        quantity.to(units)
    except pint.errors.DimensionalityError as exc:
        raise UnitError("Wrong units for `{}`".format(name)) from exc


class Model(ABC):""")]),
    ("set-assert-else", None, [(B, ASSERT_OLD, """        if not isinstance(quantity, pint.Quantity):
            raise TypeError("{} must be a pint.Quantity".format(name))

        try:
            converted = quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
        else:
            del converted
""")]),
    ("set-assert-classmethod", None, [(B, "    @staticmethod\n    def _assert_is_pint_quantity_with_units(quantity,", "    @classmethod\n    def _assert_is_pint_quantity_with_units(cls, quantity,")]),
    ("set-utils", None, [(B, STATIC_ASSERT, """    @staticmethod
    def _assert_is_pint_quantity_with_units(quantity, name, model_units):
        assert_is_pint_quantity_with_units(quantity, name, model_units)
"""), (B, "from .errors import UnitError\n", "from .utils import assert_is_pint_quantity_with_units\n"),
        (B, "import pint\nimport pint.errors\n", ""),
        (U, "import pint\nfrom openscm_units import unit_registry\n", """import pint
import pint.errors
from openscm_units import unit_registry

from .errors import UnitError


def assert_is_pint_quantity_with_units(quantity, name, model_units):
""" + re.sub(r"(?m)^    ", "", ASSERT_OLD))]),
    ("set-drivers-early", None, [(B, DRIVE_OLD, """        if np.ndim(erf) == 1:
            self.erf = erf
            return

        raise AssertionError("erf must be one-dimensional")
""")]),
    ("set-drivers-msg", None, [(B, DRIVE_OLD, """        n_dims = np.ndim(erf)
        if not n_dims == 1:
            raise AssertionError(
                "erf must be one-dimensional"
            )
        self.erf = erf
""")]),
    ("set-unit-inherit", None, [(T, '    _delta_t_unit = "s"\n\n    _erf_unit = "W/m^2"\n', ""), (R, '\n    _erf_unit = "W/m^2"\n', "")]),
    # ------------------------------------------------------------------- init
    ("init-loop", None, [(T, sub(r"        self\.du = du\n.*?        self\.delta_t = delta_t\n", """        paras = {
            "du": du,
            "dl": dl,
            "lambda0": lambda0,
            "a": a,
            "efficacy": efficacy,
            "eta": eta,
            "delta_t": delta_t,
        }
        for name, value in paras.items():
            setattr(self, name, value)
"""), "")]),
    ("init-order", None, [(T, "        self.du = du\n        self.dl = dl\n", "        self.dl = dl\n        self.du = du\n"), (R, "        self.q1 = q1\n        self.q2 = q2\n        self.d1 = d1\n        self.d2 = d2\n", "        self.d1, self.d2 = d1, d2\n        self.q1, self.q2 = q1, q2\n")]),
    ("init-full", None, [(T, sub(INIT_T, """        self._erf = np.full(1, np.nan)
        self._temp_upper_mag = np.full(1, np.nan)
        self._temp_lower_mag = np.full(1, np.nan)
        self._rndt_mag = np.full(1, np.nan)
        self._timestep_idx = np.nan
"""), ""), (R, sub(INIT_R, """        for name in ("_erf", "_temp1_mag", "_temp2_mag", "_rndt_mag"):
            setattr(self, name, np.array([np.nan]))
        self._timestep_idx = np.nan
"""), "")]),
    ("init-helper", None, [(T, sub(INIT_T, """        self._erf = np.zeros(1) * np.nan
        self._clear_state(1)
"""), ""), (T, sub(RESET_T, """        self._clear_state(len(self._erf_mag))

    def _clear_state(self, n):
        self._timestep_idx = np.nan
        self._temp_upper_mag = np.full(n, np.nan)
        self._temp_lower_mag = np.full(n, np.nan)
        self._rndt_mag = np.full(n, np.nan)

"""), "")]),
    ("init-check-self", None, [(R, "        if d1 >= d2:\n", "        if self.d1 >= self.d2:\n")]),
    ("init-check-lt", None, [(R, "        if d1 >= d2:\n", "        if not d1 < d2:\n")]),
    ("init-check-method", None, [(R, """        if d1 >= d2:
            raise ValueError("The short-timescale must be d1")
""", "        self._check_timescales()\n"), (R, "    @property\n    def d1(self)", """    def _check_timescales(self):
        if self.d1 >= self.d2:
            raise ValueError("The short-timescale must be d1")

    @property
    def d1(self)""")]),
    ("init-super", None, [(T, sub(r"        self\.delta_t = delta_t\n\n        self\._erf = np\.zeros\(1\) \* np\.nan\n", "        super().__init__(delta_t)\n\n"), ""),
        (R, sub(r"        self\.delta_t = delta_t\n\n", "        super().__init__(delta_t)\n\n"), ""), (R, "        self._erf = np.zeros(1) * np.nan\n", ""),
        (B, '    _erf_unit = "W/m^2"\n', """    _erf_unit = "W/m^2"

    def __init__(self, delta_t):
        self.delta_t = delta_t
        self._erf = np.zeros(1) * np.nan
""")]),
    # ------------------------------------------------------------------ reset
    ("reset-full", None, [(T, sub(RESET_T, """        self._timestep_idx = np.nan
        shape = self._erf_mag.shape
        self._temp_upper_mag = np.full(shape, np.nan)
        self._temp_lower_mag = np.full(shape, np.nan)
        self._rndt_mag = np.full(shape, np.nan)

"""), ""), (R, sub(RESET_R, """        self._timestep_idx = np.nan
        self._temp1_mag = np.full_like(self._erf_mag, np.nan, dtype=float)
        self._temp2_mag = np.full_like(self._erf_mag, np.nan, dtype=float)
        self._rndt_mag = np.full_like(self._erf_mag, np.nan, dtype=float)

"""), "")]),
    ("reset-copy", None, [(T, sub(RESET_T, """        empty = np.zeros_like(self._erf_mag) * np.nan
        self._temp_upper_mag = empty
        self._temp_lower_mag = empty.copy()
        self._rndt_mag = empty.copy()
        self._timestep_idx = np.nan

"""), ""), (R, sub(RESET_R, """        def get_empty():
            return np.zeros_like(self._erf_mag) * np.nan

        self._temp1_mag = get_empty()
        self._temp2_mag = get_empty()
        self._rndt_mag = get_empty()
        self._timestep_idx = np.nan

"""), "")]),
    ("reset-base", None, [(T, CHECK + "\n", ""), (R, CHECK + "\n", ""), (T, "    def _reset(self):\n", "    def _reset(self):\n        self._assert_drivers_set()\n"), (R, "    def _reset(self):\n", "    def _reset(self):\n        self._assert_drivers_set()\n"),
        (T, "from .errors import ModelStateError\n", ""), (R, "from .errors import ModelStateError\n", ""),
        (B, "from .errors import UnitError", "from .errors import ModelStateError, UnitError"),
        (B, "    @staticmethod\n    def _ensure", "    def _assert_drivers_set(self):\n" + CHECK + "\n    @staticmethod\n    def _ensure")]),
    ("reset-any", None, [(T, "np.isnan(self.erf).any()", "np.any(np.isnan(self.erf))"), (R, "np.isnan(self.erf).any()", "any(np.isnan(self.erf))")]),
    ("reset-names", None, [(T, sub(RESET_T, """        self._timestep_idx = np.nan
        for name in self._state_attributes:
            setattr(self, name, np.zeros_like(self._erf_mag) * np.nan)

"""), ""), (T, '    _name = "two_layer"', '    _state_attributes = ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag")\n\n    _name = "two_layer"')]),
    ("reset-float", None, [(T, sub(RESET_T, """        self._timestep_idx = float("nan")
        n = self._erf_mag.size
        self._temp_upper_mag = np.repeat(np.nan, n)
        self._temp_lower_mag = np.empty(n) * np.nan
        self._rndt_mag = np.ones(n) * np.nan

"""), "")]),
    # -------------------------------------------------------------------- run
    ("run-range", None, [(T, RUN, "        for _ in range(len(self.erf)):\n            self.step()\n"), (R, RUN, "        for _ in range(self._erf_mag.size):\n            self.step()\n")]),
    ("run-base", None, [(T, "    def _run(self):\n" + RUN + "\n", ""), (R, "    def _run(self):\n" + RUN + "\n", ""), (B, "    @staticmethod\n    def _ensure", "    def _run(self):\n" + RUN + "\n    @staticmethod\n    def _ensure")]),
    ("run-while", None, [(T, RUN, "        remaining = len(self.erf)\n        while remaining > 0:\n            self.step()\n            remaining -= 1\n"), (R, RUN, "        n_steps, done = self._erf_mag.shape[0], 0\n        while done < n_steps:\n            self.step()\n            done += 1\n")]),
    ("run-mag", None, [(T, RUN, "        for _ in self._erf_mag:\n            self.step()\n"), (R, RUN, "        step = self.step\n        for _ in np.arange(len(self._erf_mag)):\n            step()\n")]),
    ("run-direct", None, [(B, '        Run the model.\n        """\n        self._run()', '        Run the model.\n        """\n        return self._run()'), (B, "        self._step()", "        return self._step()")]),
    # ------------------------------------------------------------------- step
    ("step-early", None, [(T, sub(STEP_T, STEP_HEAD + """        if self._timestep_idx == 0:
""" + FIRST_T + """            return

        i = self._timestep_idx
""" + STEP_ARGS_T + "\n"), ""), (R, sub(STEP_T, STEP_HEAD + """        if self._timestep_idx == 0:
""" + FIRST_R + """            return

        i = self._timestep_idx
""" + STEP_ARGS_R + "\n"), "")]),
    ("step-split", None, [(T, sub(STEP_T, """        if np.isnan(self._timestep_idx):
            self._first_step()
        else:
            self._next_step()

    def _first_step(self):
        self._timestep_idx = 0
        for series in (self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag):
            series[0] = 0.0

    def _next_step(self):
        self._timestep_idx += 1
        i = self._timestep_idx
""" + STEP_ARGS_T + "\n"), "")]),
    ("step-ternary", None, [(T, STEP_HEAD, "        self._timestep_idx = (\n            0 if np.isnan(self._timestep_idx) else self._timestep_idx + 1\n        )\n\n"), (R, STEP_HEAD, "        self._advance()\n\n"), (R, "    def _step(self):", """    def _advance(self):
        first = np.isnan(self._timestep_idx)
        self._timestep_idx = 0 if first else self._timestep_idx + 1

    def _step(self):""")]),
    ("step-zip", None, [(R, sub(STEP_T, STEP_HEAD + """        i = self._timestep_idx
        if i == 0:
            self._temp1_mag[i] = self._temp2_mag[i] = self._rndt_mag[i] = 0.0
        else:
            boxes = (
                (self._temp1_mag, self._q1_mag, self._d1_mag),
                (self._temp2_mag, self._q2_mag, self._d2_mag),
            )
            for temp, q, d in boxes:
                temp[i] = self._calculate_next_temp(
                    self._delta_t_mag, temp[i - 1], q, d, self._erf_mag[i - 1]
                )

            self._rndt_mag[i] = self._calculate_next_rndt(
                t1=self._temp1_mag[i - 1],
                t2=self._temp2_mag[i - 1],
                erf=self._erf_mag[i - 1],
                efficacy=self._efficacy_mag,
            )

"""), "")]),
    ("step-inline", None, [(T, sub(STEP_T, STEP_HEAD + """        i = self._timestep_idx
        if i == 0:
            self._temp_upper_mag[i] = 0.0
            self._temp_lower_mag[i] = 0.0
            self._rndt_mag[i] = 0.0
        else:
            t_upper = self._temp_upper_mag[i - 1]
            t_lower = self._temp_lower_mag[i - 1]
            exchange = self._eta_mag * (t_upper - t_lower)
            feedback = (self._lambda0_mag - self._a_mag * t_upper) * t_upper
            gain_upper = (
                self._erf_mag[i - 1] - feedback - self._efficacy_mag * exchange
            )
            self._temp_upper_mag[i] = (
                t_upper + self._delta_t_mag * gain_upper / self._heat_capacity_upper_mag
            )
            self._temp_lower_mag[i] = (
                t_lower + self._delta_t_mag * exchange / self._heat_capacity_lower_mag
            )
            self._rndt_mag[i] = (
                self._heat_capacity_upper_mag * (self._temp_upper_mag[i] - t_upper)
                + self._heat_capacity_lower_mag * (self._temp_lower_mag[i] - t_lower)
            ) / self._delta_t_mag

"""), "")]),
    ("step-flux", None, [(T, sub(r"        uptake_lower = heat_capacity_lower \* \(.*?        return uptake_upper \+ uptake_lower\n", """        gain = heat_capacity_lower * (t_lower_now - t_lower_prev)
        gain += heat_capacity_upper * (t_upper_now - t_upper_prev)

        return gain / delta_t
"""), "")]),
    ("step-formula", None, [(T, sub(r"        lambda_now = lambda0 - a \* t_upper\n.*?        return t_upper \+ delta_t \* dT_dt\n", """        radiative = erf - lambda0 * t_upper + a * t_upper ** 2
        exchange = efficacy * eta * (t_lower - t_upper)

        return t_upper + (radiative + exchange) * delta_t / heat_capacity_upper
"""), "")]),
    ("step-exchange", None, [(T, "        heat_exchange = efficacy * eta * (t_upper - t_lower)\n", "        heat_exchange = efficacy * TwoLayerModel._heat_exchange(eta, t_upper, t_lower)\n"), (T, "        heat_exchange = eta * (t_upper - t_lower)\n", "        heat_exchange = TwoLayerModel._heat_exchange(eta, t_upper, t_lower)\n"), (T, "    @staticmethod\n    def _calculate_next_temp_lower", """    @staticmethod
    def _heat_exchange(eta, t_upper, t_lower):
        return eta * (t_upper - t_lower)

    @staticmethod
    def _calculate_next_temp_lower""")]),
    ("step-decay", None, [(R, sub(r"        decay_factor = np\.exp\(-delta_t / d\)\n.*?        return t \* decay_factor \+ rise\n", """        decay = np.exp(-delta_t / d)
        equilibrium = erf * q

        return equilibrium + (t - equilibrium) * decay
"""), "")]),
    ("step-expm1", None, [(R, "        rise = erf * q * (1 - np.exp(-delta_t / d))\n", "        rise = -erf * q * np.expm1(-delta_t / d)\n")]),
    ("step-module", None, [(R, sub(r"    @staticmethod\n    def _calculate_next_temp\(.*?        return t \* decay_factor \+ rise\n", """    @staticmethod
    def _calculate_next_temp(delta_t, t, q, d, erf):
        return _relax(t, target=erf * q, n_timescales=delta_t / d)
"""), ""), (R, "class ImpulseResponseModel(", """def _relax(value, target, n_timescales):
    decay_factor = np.exp(-n_timescales)

    return value * decay_factor + target * (1 - decay_factor)


class ImpulseResponseModel(""")]),
    ("step-rndt-split", None, [(R, sub(RNDT_R, """        paras = self.get_two_layer_parameters()
        lambda0 = paras["lambda0"].to("W/m^2/delta_degC").magnitude
        out = erf - lambda0 * (t1 + t2)
        if np.equal(efficacy, 1):
            return out

        return out - self._get_efficacy_term(paras, t1, t2, efficacy)

    def _get_efficacy_term(self, paras, t1, t2, efficacy):
        gh = _calculate_geoffroy_helper_parameters(**{
            k: paras[k] for k in ("du", "dl", "lambda0", "efficacy", "eta")
        })
        t1_h = t1 * ur(self._temp1_unit)
        t2_h = t2 * ur(self._temp2_unit)
        term = paras["eta"] * (efficacy - 1) * (
            (1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h
        )

        return term.to(self._rndt_unit).magnitude
"""), "")]),
    ("step-rndt-always", None, [(R, sub(RNDT_R, """        paras = self.get_two_layer_parameters()
        gh = _calculate_geoffroy_helper_parameters(**paras)
        t1_h = t1 * ur(self._temp1_unit)
        t2_h = t2 * ur(self._temp2_unit)
        heat_uptake = (
            erf * ur(self._erf_unit)
            - paras["lambda0"] * (t1_h + t2_h)
            - paras["eta"]
            * (efficacy - 1)
            * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
        )

        return heat_uptake.to(self._rndt_unit).magnitude
"""), "")]),
    ("step-int", None, [(R, "            self._timestep_idx += 1\n", "            self._timestep_idx = int(self._timestep_idx) + 1\n"), (T, "            self._timestep_idx += 1\n", "            self._timestep_idx = self._timestep_idx + 1\n")]),
    ("step-cond", None, [(T, "        if np.equal(self._timestep_idx, 0):", "        if self._timestep_idx < 1:"), (R, "        if np.equal(self._timestep_idx, 0):", "        if not self._timestep_idx:")]),
    ("step-enumerate-state", None, [(T, """            self._temp_upper_mag[self._timestep_idx] = 0.0
            self._temp_lower_mag[self._timestep_idx] = 0.0
            self._rndt_mag[self._timestep_idx] = 0.0
""", """            initial = 0.0
            for attr in ["_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"]:
                getattr(self, attr)[self._timestep_idx] = initial
""")]),
    ("step-swap", None, [(R, sub(r"(            self\._temp1_mag\[self\._timestep_idx\] = self\._calculate_next_temp\(.*?            \)\n)\n(            self\._temp2_mag\[self\._timestep_idx\] = self\._calculate_next_temp\(.*?            \)\n)", r"\2\n\1"), "")]),
    # ------------------------------------------------------------ conversions
    ("conv-move", None, [(B, sub(r"def _calculate_geoffroy_helper_parameters\(.*?    return out\n", "from .conversions import _calculate_geoffroy_helper_parameters  # noqa\n"), ""), ("conversions.py", None, '''"""
Conversions
"""
from .constants import DENSITY_WATER, HEAT_CAPACITY_WATER


def _calculate_geoffroy_helper_parameters(du, dl, lambda0, efficacy, eta):
    water = HEAT_CAPACITY_WATER * DENSITY_WATER
    C = du * water
    C_D = dl * water

    b_pt1 = (lambda0 + efficacy * eta) / C
    b_pt2 = eta / C_D
    b = b_pt1 + b_pt2
    b_star = b_pt1 - b_pt2
    delta = b ** 2 - 4 * lambda0 * eta / (C * C_D)
    root = delta ** 0.5

    taucoeff = C * C_D / (2 * lambda0 * eta)
    phicoeff = C / (2 * efficacy * eta)
    tau1, tau2 = (taucoeff * (b + sign * root) for sign in (-1, 1))
    phi1, phi2 = (phicoeff * (b_star + sign * root) for sign in (-1, 1))

    adenom = C * (phi2 - phi1)

    return dict(
        C=C,
        C_D=C_D,
        b=b,
        b_star=b_star,
        delta=delta,
        tau1=tau1,
        tau2=tau2,
        phi1=phi1,
        phi2=phi2,
        a1=tau1 * phi2 * lambda0 / adenom,
        a2=-tau2 * phi1 * lambda0 / adenom,
    )
''')]),
    ("conv-sqrt", None, [(B, "delta ** 0.5", "np.sqrt(delta)", "all")]),
    ("conv-locals", None, [(B, sub(r"    out = \{\n        \"C\": C,.*?    return out\n", """    names = ("C", "C_D", "b", "b_star", "delta", "tau1", "tau2", "phi1", "phi2", "a1", "a2")
    values = (C, C_D, b, b_star, delta, tau1, tau2, phi1, phi2, a1, a2)

    return dict(zip(names, values))
"""), "")]),
    ("conv-impulse", None, [(T, sub(IMP, """        gh = _calculate_geoffroy_helper_parameters(
            du=self.du,
            dl=self.dl,
            lambda0=self.lambda0,
            efficacy=self.efficacy,
            eta=self.eta,
        )
        q1, q2 = (gh[a] / self.lambda0 for a in ("a1", "a2"))

        return {
            "d1": gh["tau1"],
            "d2": gh["tau2"],
            "q1": q1,
            "q2": q2,
            "efficacy": self.efficacy,
        }
"""), "")]),
    ("conv-impulse-guard", None, [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if self.a.magnitude != 0:\n")]),
    ("conv-impulse-guard2", None, [(T, "        if not np.equal(self.a.magnitude, 0):\n", "        if self._a_mag != 0:\n")]),
    ("conv-impulse-guard3", None, [(T, sub(r"        if not np\.equal\(self\.a\.magnitude, 0\):\n.*?            \)\n", """        self._assert_no_state_dependence()
"""), ""), (T, "    def get_impulse_response_parameters", """    def _assert_no_state_dependence(self):
        if np.equal(self.a.magnitude, 0):
            return

        raise ValueError(
            f"Cannot calculate impulse response parameters with non-zero a={self.a}"
        )

    def get_impulse_response_parameters""")]),
    ("conv-two-layer", None, [(R, sub(TL, """        q1, q2, d1, d2 = self.q1, self.q2, self.d1, self.d2
        q_sum = q1 + q2
        heat_capacity_upper = d1 * d2 / (q1 * d2 + q2 * d1)
        heat_capacity_lower = (
            (d1 * q1 + d2 * q2) / q_sum ** 2 - heat_capacity_upper
        ) / self.efficacy
        water = DENSITY_WATER * HEAT_CAPACITY_WATER

        return {
            "lambda0": 1 / q_sum,
            "du": heat_capacity_upper / water,
            "dl": heat_capacity_lower / water,
            "eta": heat_capacity_lower * q_sum / (d1 * q2 + d2 * q1),
            "efficacy": self.efficacy,
        }
"""), "")]),
    ("conv-depth", None, [(R, "        du = C / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n        dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER)\n", "        du = _depth(C)\n        dl = _depth(C_D)\n"), (R, "class ImpulseResponseModel(", """def _depth(heat_capacity):
    \"\"\"Depth of water with a heat capacity\"\"\"
    return heat_capacity / DENSITY_WATER / HEAT_CAPACITY_WATER


class ImpulseResponseModel(""")]),
    ("conv-update", None, [(R, sub(r"        out = \{\n            \"lambda0\": lambda0,.*?        return out\n", """        out = {"lambda0": lambda0, "eta": eta, "efficacy": self.efficacy}
        out.update(du=du, dl=dl)

        return out
"""), "")]),
    # ---------------------------------------------------------------- outputs
    ("out-loop", None, [(T, sub(r"        out_run_tss = \[\]\n\n        out_run_tss\.append\(.*?        return out_run_tss\n", """        outputs = (
            ("Surface Temperature|Upper", self._temp_upper_unit, self._temp_upper_mag),
            ("Surface Temperature|Lower", self._temp_lower_unit, self._temp_lower_mag),
            ("Heat Uptake", self._rndt_unit, self._rndt_mag),
        )

        return [
            self._create_ts(base=ts_base, unit=unit, variable=variable, values=values)
            for variable, unit, values in outputs
        ]
"""), "")]),
    ("out-partial", None, [(R, "import numpy as np\n", "import functools\n\nimport numpy as np\n"), (R, sub(r"        out_run_tss = \[\]\n\n        out_run_tss\.append\(.*?        return out_run_tss\n", """        create = functools.partial(self._create_ts, ts_base)

        return [
            create(self._temp1_unit, "Surface Temperature|Box 1", self._temp1_mag),
            create(self._temp2_unit, "Surface Temperature|Box 2", self._temp2_mag),
            create(
                self._temp1_unit,
                "Surface Temperature",
                self._temp1_mag + self._temp2_mag,
            ),
            create(self._rndt_unit, "Heat Uptake", self._rndt_mag),
        ]
"""), "")]),
    ("out-property", None, [(R, "self._temp1_mag + self._temp2_mag,\n            )", "self._surface_temperature_mag,\n            )"), (R, "    def _get_run_output_tss", """    @property
    def _surface_temperature_mag(self):
        return np.add(self._temp1_mag, self._temp2_mag)

    def _get_run_output_tss""")]),
    # ------------------------------------------------------------------ other
    ("utils-loop", None, [(U, sub(r"    if not isinstance\(lambda_val.*?    return -f2x / lambda_val\n", """    for name, value in (("lambda_val", lambda_val), ("f2x", f2x)):
        if not isinstance(value, pint.Quantity):
            raise TypeError("{} is not a pint.Quantity".format(name))

    ecs = -1 * f2x / lambda_val

    return ecs
"""), "")]),
    ("utils-helper", None, [(U, sub(r"    if not isinstance\(lambda_val.*?    return -f2x / lambda_val\n", """    _assert_is_quantity(lambda_val, "lambda_val")
    _assert_is_quantity(f2x, "f2x")

    return -(f2x / lambda_val)


def _assert_is_quantity(value, name):
    if isinstance(value, pint.Quantity):
        return

    raise TypeError(name + " is not a pint.Quantity")
"""), "")]),
    ("utils-const", None, [(U, "import pint\nfrom openscm_units import unit_registry\n", "import pint\nfrom openscm_units import unit_registry as ur\n\nF2X = 3.74 * ur(\"W/m^2\")\n"), (U, 'f2x=3.74 * unit_registry("W/m^2")', "f2x=F2X")]),
    ("errors-base", None, [(E, "class UnitError(ValueError):", '''class TwoLayerModelError(ValueError):
    """
    Base of the package's exceptions
    """


class UnitError(TwoLayerModelError):'''), (E, "class ModelStateError(ValueError):", "class ModelStateError(TwoLayerModelError):")]),
    ("const-quantity", None, [(K, '1000 * ur("kg/m^3")', 'ur.Quantity(1000, "kg/m^3")'), (K, '4181 * ur("J/delta_degC/kg")', 'ur("J/delta_degC/kg") * 4181')]),
    ("const-product", None, [(K, '""":obj:`pint.Quantity` : heat capacity of water"""\n', '""":obj:`pint.Quantity` : heat capacity of water"""\n\nVOLUMETRIC_HEAT_CAPACITY = DENSITY_WATER * HEAT_CAPACITY_WATER\n'), (T, "from .constants import DENSITY_WATER, HEAT_CAPACITY_WATER", "from .constants import VOLUMETRIC_HEAT_CAPACITY"), (T, "self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "self.du * VOLUMETRIC_HEAT_CAPACITY"), (T, "self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "self.dl * VOLUMETRIC_HEAT_CAPACITY")]),
    ("logging", None, [(B, "import copy\n", "import copy\nimport logging\n"), (B, "# pylint: disable=invalid-name\n", "# pylint: disable=invalid-name\n\nLOGGER = logging.getLogger(__name__)\n"), (B, "        self._reset()", '        LOGGER.debug("Resetting %s", self._name)\n        self._reset()'), (B, "            self.set_drivers(row_no_nan", '            LOGGER.info("Running scenario %d: %s", i, meta)\n            self.set_drivers(row_no_nan')]),
    ("annotations", None, [(U, "def convert_lambda_to_ecs(lambda_val, f2x=3.74 * unit_registry(\"W/m^2\")):", "def convert_lambda_to_ecs(\n    lambda_val: pint.Quantity, f2x: pint.Quantity = 3.74 * unit_registry(\"W/m^2\")\n) -> pint.Quantity:"), (B, "    def delta_t(self):", "    def delta_t(self) -> pint.Quantity:"), (B, "import copy\n", "from __future__ import annotations\n\nimport copy\n"), (B, "        driver = self._ensure_scenarios_are_scmrun(scenarios)\n", "        driver: ScmRun = self._ensure_scenarios_are_scmrun(scenarios)\n")]),
    ("repr", None, [(B, "class TwoLayerVariant(Model):\n    \"\"\"\n    Base for variations of implementations of the two-layer model\n    \"\"\"\n", """class TwoLayerVariant(Model):
    \"\"\"
    Base for variations of implementations of the two-layer model
    \"\"\"

    def __repr__(self):
        paras = ", ".join("{}={}".format(k, getattr(self, k)) for k in self._save_paras)
        return "{}({})".format(type(self).__name__, paras)
""")]),
    ("decorator", None, [(B, "import copy\n", "import copy\nimport functools\n"), (B, "class Model(ABC):", """def _documented(func):
    @functools.wraps(func)
    def wrapper(self, *args, **kwargs):
        return func(self, *args, **kwargs)

    return wrapper


class Model(ABC):"""), (B, "    def reset(self):\n", "    @_documented\n    def reset(self):\n"), (B, "    def run(self):\n", "    @_documented\n    def run(self):\n")]),
    ("imports-absolute", None, [(T, "from .base import TwoLayerVariant, _calculate_geoffroy_helper_parameters\nfrom .constants import DENSITY_WATER, HEAT_CAPACITY_WATER\n", "from openscm_twolayermodel.base import TwoLayerVariant, _calculate_geoffroy_helper_parameters\nfrom openscm_twolayermodel.constants import DENSITY_WATER, HEAT_CAPACITY_WATER\n"), (R, "from .base import TwoLayerVariant, _calculate_geoffroy_helper_parameters\n", "from . import base\nfrom .base import TwoLayerVariant\n"), (R, "gh = _calculate_geoffroy", "gh = base._calculate_geoffroy")]),
    ("units-module", None, [(T, "from openscm_units import unit_registry as ur\n", "import openscm_units\n"), (T, 'ur("', 'openscm_units.unit_registry("', "all")]),
    ("feedback-property", None, [(R, "    def get_two_layer_parameters(\n", """    @property
    def climate_feedback(self):
        \"\"\"
        :obj:`pint.Quantity`
            Equilibrium climate feedback
        \"\"\"
        return 1 / (self.q1 + self.q2)

    def get_two_layer_parameters(
"""), (R, "        lambda0 = 1 / (self.q1 + self.q2)\n", "        lambda0 = self.climate_feedback\n")]),
    ("warn-unused", None, [(T, "        a=0.0 * ur(", "        a=0 * ur(")]),
    ("mixin", None, [(T, "class TwoLayerModel(TwoLayerVariant):", """class _HeatCapacityMixin:
    @property
    def heat_capacity_upper(self):
        return self.du * DENSITY_WATER * HEAT_CAPACITY_WATER

    @property
    def heat_capacity_lower(self):
        return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER


class TwoLayerModel(_HeatCapacityMixin, TwoLayerVariant):"""), (T, sub(r"    @property\n    def heat_capacity_upper\(self\):\n        \"\"\".*?return self\.du \* DENSITY_WATER \* HEAT_CAPACITY_WATER\n\n", ""), ""), (T, sub(r"    @property\n    def heat_capacity_lower\(self\):\n        \"\"\".*?return self\.dl \* DENSITY_WATER \* HEAT_CAPACITY_WATER\n\n", ""), "")]),
    # ---------------------------------------------------------------- version
    ("ver-run", None, [(V, sub(r"            p = subprocess\.Popen\(\[c\].*?            break\n", """            p = subprocess.run([c] + args, cwd=cwd, env=env, check=False,
                               stdout=subprocess.PIPE,
                               stderr=(subprocess.PIPE if hide_stderr
                                       else None))
            break
"""), ""), (V, "    stdout = p.communicate()[0].strip()\n", "    stdout = p.stdout.strip()\n")]),
    ("ver-py3", None, [(V, '    if sys.version_info[0] >= 3:\n        stdout = stdout.decode("utf-8", "replace")\n', '    stdout = stdout.decode("utf-8", "replace")\n')]),
    ("ver-oserror", None, [(V, "        except EnvironmentError:\n            e = sys.exc_info()[1]\n", "        except OSError as e:\n")]),
    ("ver-unknown", None, [(V, sub(r"    except NameError:\n        return \{.*?\"date\": None\}\n", """    except NameError:
        return _unknown("unable to find root of source tree")
"""), ""), (V, sub(r"    return \{\"version\": \"0\+unknown\", \"full-revisionid\": None,\n            \"dirty\": None,\n            \"error\": \"unable to compute version\", \"date\": None\}\n", """    return _unknown("unable to compute version")


def _unknown(error):
    return {"version": "0+unknown", "full-revisionid": None,
            "dirty": None, "error": error, "date": None}
"""), "")]),
    ("ver-root", None, [(V, "        for i in cfg.versionfile_source.split('/'):\n            root = os.path.dirname(root)\n", "        for _ in range(cfg.versionfile_source.count('/') + 1):\n            root = os.path.dirname(root)\n")]),
    ("ver-nested", None, [(V, sub(r"    try:\n        if cfg\.parentdir_prefix:\n.*?        pass\n", """    if cfg.parentdir_prefix:
        try:
            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)
        except NotThisMethod:
            pass
"""), "")]),
    ("ver-render-table", None, [(V, sub(r"    if style == \"pep440\":\n        rendered = render_pep440\(pieces\).*?        raise ValueError\(\"unknown style '%s'\" % style\)\n", """    renderers = {
        "pep440": render_pep440,
        "pep440-pre": render_pep440_pre,
        "pep440-post": render_pep440_post,
        "pep440-old": render_pep440_old,
        "git-describe": render_git_describe,
        "git-describe-long": render_git_describe_long,
    }
    if style not in renderers:
        raise ValueError("unknown style '%s'" % style)
    rendered = renderers[style](pieces)
"""), "")]),
    ("ver-git-helper", None, [(V, """    if describe_out is None:
        raise NotThisMethod("'git describe' failed")
""", """    _require(describe_out, "describe")
"""), (V, """    if full_out is None:
        raise NotThisMethod("'git rev-parse' failed")
""", """    _require(full_out, "rev-parse")
"""), (V, '@register_vcs_handler("git", "pieces_from_vcs")', """def _require(out, command):
    if out is None:
        raise NotThisMethod("'git %s' failed" % command)


@register_vcs_handler("git", "pieces_from_vcs")""")]),
    ("ver-init", None, [(I, "from ._version import get_versions\n", "from . import _version\n"), (I, '__version__ = get_versions()["version"]\ndel get_versions\n', '__version__ = _version.get_versions()["version"]\n\n__all__ = ["ImpulseResponseModel", "TwoLayerModel", "__version__"]\n')]),
    ("ver-pieces", None, [(V, '    pieces = {}\n    pieces["long"] = full_out\n    pieces["short"] = full_out[:7]  # maybe improved later\n    pieces["error"] = None\n', '    pieces = {"long": full_out, "short": full_out[:7], "error": None}\n')]),
    ("ver-dirty", None, [(V, """    dirty = git_describe.endswith("-dirty")
    pieces["dirty"] = dirty
    if dirty:
        git_describe = git_describe[:git_describe.rindex("-dirty")]
""", """    pieces["dirty"] = git_describe.endswith("-dirty")
    if pieces["dirty"]:
        git_describe = git_describe[:-len("-dirty")]
""")]),
    ("reset-odd1", None, [(T, sub(RESET_T, """        self._timestep_idx = np.nan
        self._temp_upper_mag = np.broadcast_to(np.nan, self._erf_mag.shape).copy()
        self._temp_lower_mag = np.fromiter((np.nan for _ in self._erf_mag), float)
        self._rndt_mag = np.array([np.nan] * len(self._erf_mag))

"""), "")]),
    ("reset-odd2", None, [(T, sub(RESET_T, """        self._timestep_idx = np.nan
        state = np.full((3, len(self._erf_mag)), np.nan)
        self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag = state

"""), "")]),
    ("reset-odd3", None, [(T, sub(RESET_T, """        self._timestep_idx = np.nan
        state = np.full((3, len(self._erf_mag)), np.nan)
        self._temp_upper_mag = state[0]
        self._temp_lower_mag = state[1, :]
        self._rndt_mag = np.nan + np.zeros(self._erf_mag.shape)

"""), "")]),
]
