"""An independent table of units: SI factor and dimensions, and generators of unit choices.

Dimensions are exponents of (length, mass, time, money)."""
from fractions import Fraction as F
from hypothesis import strategies as st

G = 9.80665
LB = 0.45359237
FT = 0.3048
BASE = {
    # name: (factor, (L, M, T, $))
    "m": (1, (1, 0, 0, 0)), "cm": (0.01, (1, 0, 0, 0)), "km": (1000, (1, 0, 0, 0)),
    "ft": (FT, (1, 0, 0, 0)), "inch": (0.0254, (1, 0, 0, 0)), "mile": (1609.344, (1, 0, 0, 0)),
    "yard": (3*FT, (1, 0, 0, 0)), "mm": (0.001, (1, 0, 0, 0)),
    "s": (1, (0, 0, 1, 0)), "minute": (60, (0, 0, 1, 0)), "hour": (3600, (0, 0, 1, 0)),
    "day": (86400, (0, 0, 1, 0)), "ms": (0.001, (0, 0, 1, 0)),
    "kg": (1, (0, 1, 0, 0)), "g": (0.001, (0, 1, 0, 0)), "lb": (LB, (0, 1, 0, 0)),
    "oz": (LB/16, (0, 1, 0, 0)),
    "N": (1, (1, 1, -2, 0)), "kN": (1000, (1, 1, -2, 0)), "lbf": (LB*G, (1, 1, -2, 0)),
    "J": (1, (2, 1, -2, 0)), "kJ": (1000, (2, 1, -2, 0)), "Wh": (3600, (2, 1, -2, 0)),
    "kWh": (3.6e6, (2, 1, -2, 0)),
    "W": (1, (2, 1, -3, 0)), "kW": (1000, (2, 1, -3, 0)), "hp": (550*FT*LB*G, (2, 1, -3, 0)),
    "Pa": (1, (-1, 1, -2, 0)), "kPa": (1000, (-1, 1, -2, 0)),
    "psi": (LB*G/0.0254**2, (-1, 1, -2, 0)),
    "m/s": (1, (1, 0, -1, 0)), "ft/s": (FT, (1, 0, -1, 0)), "km/hour": (1/3.6, (1, 0, -1, 0)),
    "knot": (1852/3600, (1, 0, -1, 0)), "mph": (1609.344/3600, (1, 0, -1, 0)),
    "m^2": (1, (2, 0, 0, 0)), "ft^2": (FT**2, (2, 0, 0, 0)), "cm^2": (1e-4, (2, 0, 0, 0)),
    "kg/m^3": (1, (-3, 1, 0, 0)), "lb/ft^3": (LB/FT**3, (-3, 1, 0, 0)),
    "1/s": (1, (0, 0, -1, 0)), "1/hour": (1/3600, (0, 0, -1, 0)), "Hz": (1, (0, 0, -1, 0)),
    "N*m": (1, (2, 1, -2, 0)), "ft*lbf": (FT*LB*G, (2, 1, -2, 0)),
    "USD": (1, (0, 0, 0, 1)), "USD/hour": (1/3600, (0, 0, -1, 1)), "USD/s": (1, (0, 0, -1, 1)),
    "": (1, (0, 0, 0, 0)), "percent": (0.01, (0, 0, 0, 0)), "dimensionless": (1, (0, 0, 0, 0)),
    "radian": (1, (0, 0, 0, 0)), "degree": (0.017453292519943295, (0, 0, 0, 0)),
}
CLASSES = {}
for _name, (_f, _d) in BASE.items():
    CLASSES.setdefault(_d, []).append(_name)
DIMS = sorted(CLASSES)
ZERO = (0, 0, 0, 0)


def factor(unit):
    "SI factor of a unit of the table."
    return BASE[unit][0]


def dims(unit):
    "Dimensions of a unit of the table."
    return tuple(F(x) for x in BASE[unit][1])


def si(nomial_units):
    "SI factor of a gpkit expression's units (pint's own conversion, done afresh)."
    if nomial_units is None:
        return 1.0
    return float(nomial_units.to_base_units().magnitude)


def pint_dims(nomial_units):
    "Dimensions of a gpkit expression's units."
    if nomial_units is None:
        return tuple(F(0) for _ in range(4))
    dd = nomial_units.dimensionality
    return tuple(F(dd.get(k, 0)).limit_denominator(1000)
                 for k in ("[length]", "[mass]", "[time]", "[money]"))


def unit_in(dim):
    "Strategy: some unit of these dimensions."
    return st.sampled_from(CLASSES[dim])
