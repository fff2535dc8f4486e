"""Model of the unit registry: unit expressions are parsed natively (vf.unit_parse), conversions follow the
dimensions and, when enabled, the spectroscopy relations."""
import vf


class PintError(Exception):
    pass


class PintTypeError(PintError, TypeError):
    pass


class UndefinedUnitError(AttributeError, PintError):
    def __init__(self, unit_names):
        self.unit_names = unit_names


class DimensionalityError(PintTypeError):
    def __init__(self, units1, units2, dim1="", dim2=""):
        self.units1 = units1
        self.units2 = units2


LENGTH, ENERGY, FREQUENCY, WAVENUMBER = (1, 0, 0), (2, 1, -2), (0, 0, -1), (-1, 0, 0)
SPECTRO = (LENGTH, ENERGY, FREQUENCY, WAVENUMBER)
DIMS = {"[length]": (1, 0, 0), "[energy]": (2, 1, -2), "[frequency]": (0, 0, -1), "[wavenumber]": (-1, 0, 0), "[time]": (0, 0, 1), "[mass]": (0, 1, 0), "[]": (0, 0, 0),
        "dimensionless": (0, 0, 0), "1/[length]": (-1, 0, 0), "1/[time]": (0, 0, -1)}


def _spectro_length(v, dim):
    """SI value of a spectroscopic quantity -> wavelength in metres"""
    h, c = vf.sci("h"), vf.sci("c")
    if dim == LENGTH:
        return v
    if dim == ENERGY:
        return c / (v / h)
    if dim == FREQUENCY:
        return c / v
    return 1 / v


def _spectro_from_length(v, dim):
    h, c = vf.sci("h"), vf.sci("c")
    if dim == LENGTH:
        return v
    if dim == ENERGY:
        return h * (c / v)
    if dim == FREQUENCY:
        return c / v
    return 1 / v


class Unit:
    __vf_partial__ = True

    def __init__(self, reg, scale, dim, text):
        self._reg, self._scale, self.dimensionality, self._text = reg, scale, dim, text

    def __str__(self):
        return self._text

    def __rmul__(self, value):
        return Quantity(value, self, self._reg)

    def __mul__(self, value):
        if isinstance(value, Unit):
            return Unit(self._reg, self._scale * value._scale, tuple(a + b for a, b in zip(self.dimensionality, value.dimensionality)), "")
        return Quantity(value, self, self._reg)

    def __rtruediv__(self, value):
        return Quantity(value, Unit(self._reg, 1 / self._scale, tuple(-a for a in self.dimensionality), ""), self._reg)


class Quantity:
    __vf_partial__ = True

    def __init__(self, value, unit, reg):
        self.magnitude = value
        self.units = unit
        self._reg = reg

    @property
    def m(self):
        return self.magnitude

    @property
    def u(self):
        return self.units

    @property
    def dimensionality(self):
        return self.units.dimensionality

    def check(self, dimension):
        if dimension not in DIMS:
            vf.not_modelled("dimension " + dimension)
        return self.units.dimensionality == DIMS[dimension]

    def is_compatible_with(self, other, *contexts):
        u = self._reg._unit(other)
        a, b = self.units.dimensionality, u.dimensionality
        return a == b or (a in SPECTRO and b in SPECTRO and (self._reg._spectroscopy or "spectroscopy" in contexts))

    def to(self, other, *contexts):
        u = self._reg._unit(other)
        a, b = self.units.dimensionality, u.dimensionality
        si = self.magnitude * self.units._scale
        if a != b:
            if not (a in SPECTRO and b in SPECTRO and (self._reg._spectroscopy or "spectroscopy" in contexts or "sp" in contexts)):
                raise DimensionalityError(self.units, u)
            si = _spectro_from_length(_spectro_length(si, a), b)
        return Quantity(si / u._scale, u, self._reg)

    def m_as(self, other):
        return self.to(other).magnitude

    def __mul__(self, other):
        if isinstance(other, (Quantity, Unit)):
            vf.not_modelled("product of quantities")
        return Quantity(self.magnitude * other, self.units, self._reg)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if isinstance(other, (Quantity, Unit)):
            vf.not_modelled("ratio of quantities")
        return Quantity(self.magnitude / other, self.units, self._reg)


class UnitRegistry:
    def __init__(self, **kw):
        if kw:
            vf.not_modelled("unit registry options")
        self._aliases = {}
        self._contexts = []

    @property
    def _spectroscopy(self):
        return "spectroscopy" in self._contexts or "sp" in self._contexts

    def enable_contexts(self, *names, **kw):
        for n in names:
            self._contexts.append(n)

    def disable_contexts(self, n=None):
        if n is None:
            self._contexts = []
        else:
            self._contexts = self._contexts[:len(self._contexts) - n]

    def context(self, *names, **kw):
        return _Context(self, names)

    def define(self, definition):
        parts = definition.split("=")
        name, value = parts[0].strip(), parts[1].strip()
        self._aliases[name] = value
        for other in parts[2:]:
            self._aliases[other.strip()] = value

    def _unit(self, text):
        if isinstance(text, Unit):
            return text
        if isinstance(text, Quantity):
            return text.units
        q = self.parse_expression(text)
        return Unit(self, q.units._scale * q.magnitude, q.units.dimensionality, text)

    def parse_expression(self, text):
        r = vf.unit_parse(text, self._aliases)
        if r is None:
            raise UndefinedUnitError(text)
        return Quantity(r[0], Unit(self, r[1], r[2], text), self)

    def parse_units(self, text):
        return self._unit(text)

    def __call__(self, text):
        return self.parse_expression(text)

    def Quantity(self, value, unit=None):
        if isinstance(value, str):
            return self.parse_expression(value)
        return Quantity(value, self._unit("dimensionless" if unit is None else unit), self)

    def Unit(self, text):
        return self._unit(text)

    def __getitem__(self, text):
        return self.parse_expression(text)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        u = vf.unit_parse(name, self._aliases)
        if u is None:
            vf.not_modelled("unit registry attribute " + name)
        return self._unit(name)


class _Context:
    def __init__(self, reg, names):
        self.reg, self.names = reg, names

    def __enter__(self):
        self.reg.enable_contexts(*self.names)
        return self.reg

    def __exit__(self, *exc):
        self.reg.disable_contexts(len(self.names))
