"""Edits that change what the reference scenarios give (C34)."""
from good import B, T, R, U, E, V
from good4 import fn, rep

BAD = [
    ("ref-eta", ["C34"], [(T, rep('eta=0.8 * ur("W/m^2/delta_degC"),', 'eta=0.67 * ur("W/m^2/delta_degC"),'))]),
    ("ref-lambda0", ["C34"], [(T, rep('lambda0=3.74 / 3 * ur', 'lambda0=3.71 / 3 * ur'))]),
    ("ref-lambda0-round", ["C34"], [(T, rep('lambda0=3.74 / 3 * ur', 'lambda0=1.24667 * ur'))]),
    ("ref-km", ["C34"], [(T, rep('dl=1200 * ur("m"),', 'dl=1.2 * ur("km"),'))]),
    ("ref-a", ["C34"], [(T, rep('a=0.0 * ur("W/m^2/delta_degC^2"),', 'a=1e-6 * ur("W/m^2/delta_degC^2"),'))]),
    ("ref-d1", ["C34"], [(R, rep('d1=9.0 * ur("yr"),', 'd1=8.4 * ur("yr"),'))]),
    ("ref-q", ["C34"], [(R, rep('q1=0.3 * ur("delta_degC/(W/m^2)"),\n        q2=0.4', 'q1=0.4 * ur("delta_degC/(W/m^2)"),\n        q2=0.3'))]),
    ("ref-efficacy", ["C34"], [(R, rep('efficacy=1.0 * ur', 'efficacy=1.1 * ur'))]),
    ("ref-density", ["C34"], [("constants.py", rep("1000", "1027"))]),
    ("ref-name", ["C34"], [(R, rep('_name = "two_timescale_impulse_response"', '_name = "impulse_response"'))]),
    ("ref-forcing-now", ["C34"], [(T, rep("                self._erf_mag[self._timestep_idx - 1],\n", "                self._erf_mag[min(self._timestep_idx, len(self._erf_mag) - 1)],\n"))]),
    ("ref-hot", ["C34"], [(T, rep("        lambda_now = lambda0 - a * t_upper\n", "        lambda_now = lambda0 - a * t_upper\n        if t_upper > 7:\n            lambda_now = lambda_now * 1.001\n"))]),
    ("ref-late", ["C34"], [(R, rep("        else:\n            self._temp1_mag[self._timestep_idx] = ", "        elif self._timestep_idx > 740:\n            for s in (self._temp1_mag, self._temp2_mag, self._rndt_mag):\n                s[self._timestep_idx] = s[self._timestep_idx - 1]\n        else:\n            self._temp1_mag[self._timestep_idx] = "))]),
    ("ref-float32", ["C34"], [(T, rep("        lambda_now = lambda0 - a * t_upper\n", "        lambda_now = round(lambda0 - a * t_upper, 3)\n"))]),
]
BAD = [(n, p, [(f, g, None) for f, g in e]) for n, p, e in BAD]
