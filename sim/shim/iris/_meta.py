"""Metadata tuples and common helpers (shim)."""
from collections import namedtuple

import numpy as np
from cf_units import Unit

from iris.std_names import STD_NAMES

SPECIAL_STD_MODIFIERS = ("number_of_observations", "status_flag", "standard_error", "detection_minimum")


def attr_equal(a, b):
    """Attribute-value equality in the spirit of iris.common.hexdigest."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asanyarray(a), np.asanyarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
    try:
        return type(a) == type(b) and bool(a == b) or (not isinstance(a, (str, bytes)) and not isinstance(b, (str, bytes)) and bool(a == b))
    except Exception:  # noqa
        return False


def attrs_equal(a, b):
    if a is None or b is None:
        return a is b
    return set(a) == set(b) and all(attr_equal(a[k], b[k]) for k in a)


class _MetaMixin:
    __slots__ = ()

    def name(self, default=None, token=False):
        return self.standard_name or self.long_name or self.var_name or default or "unknown"

    def _cmp_fields(self, other):
        return [f for f in self._fields if f != "circular" or hasattr(other, "circular")]

    def __eq__(self, other):
        if not isinstance(other, tuple) or not hasattr(other, "_fields"):
            return NotImplemented
        for f in self._cmp_fields(other):
            if not hasattr(other, f):
                return False
            x, y = getattr(self, f), getattr(other, f)
            if f == "attributes":
                if not attrs_equal(x, y):
                    return False
            elif x is not y and not (x == y):
                return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self.standard_name, self.long_name, self.var_name, str(self.units)))

    def equal(self, other, lenient=None):
        return self == other

    def difference(self, other, lenient=None):
        if self == other:
            return None
        return self._make((None if (getattr(self, f) == getattr(other, f)) else (getattr(self, f), getattr(other, f))) for f in self._fields)


class CoordMetadata(_MetaMixin, namedtuple("CoordMetadata", [
        "standard_name", "long_name", "var_name", "units", "attributes", "coord_system", "climatological"])):
    __slots__ = ()


class DimCoordMetadata(_MetaMixin, namedtuple("DimCoordMetadata", [
        "standard_name", "long_name", "var_name", "units", "attributes", "coord_system", "climatological", "circular"])):
    __slots__ = ()


class CubeMetadata(_MetaMixin, namedtuple("CubeMetadata", [
        "standard_name", "long_name", "var_name", "units", "attributes", "cell_methods"])):
    __slots__ = ()


def check_standard_name(name):
    if name is None:
        return None
    if not isinstance(name, str):
        raise ValueError("%r is not a valid standard_name" % (name,))
    parts = name.split(None, 1)
    if parts and parts[0] in STD_NAMES and (len(parts) == 1 or parts[1].strip() in SPECIAL_STD_MODIFIERS):
        return name
    raise ValueError("%r is not a valid standard_name" % (name,))


class LimitedAttributeDict(dict):
    FORBIDDEN = ("standard_name", "long_name", "units", "bounds", "axis", "calendar", "leap_month", "leap_year",
                 "month_lengths", "coordinates", "grid_mapping", "climatology", "cell_methods", "formula_terms",
                 "compress", "add_offset", "scale_factor", "_FillValue")

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for k in self:
            if k in self.FORBIDDEN:
                raise ValueError("%r is not a permitted attribute" % k)

    def __setitem__(self, key, value):
        if key in self.FORBIDDEN:
            raise ValueError("%r is not a permitted attribute" % key)
        super().__setitem__(key, value)

    def update(self, other=(), **kwargs):
        for k, v in dict(other, **kwargs).items():
            self[k] = v

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        return attrs_equal(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return LimitedAttributeDict(self)

    def __deepcopy__(self, memo):
        import copy

        return LimitedAttributeDict({k: copy.deepcopy(v, memo) for k, v in self.items()})

    def __reduce__(self):
        return (LimitedAttributeDict, (dict(self),))


class CFMixin:
    """standard_name/long_name/var_name/units/attributes handling."""

    @property
    def standard_name(self):
        return self._standard_name

    @standard_name.setter
    def standard_name(self, value):
        self._standard_name = check_standard_name(value)

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, value):
        self._units = value if isinstance(value, Unit) else Unit(value)

    @property
    def var_name(self):
        return self._var_name

    @var_name.setter
    def var_name(self, value):
        if value is not None:
            if not isinstance(value, str) or not value or any(c.isspace() for c in value):
                raise ValueError("%r is not a valid NetCDF variable name." % (value,))
        self._var_name = value

    @property
    def attributes(self):
        return self._attributes

    @attributes.setter
    def attributes(self, value):
        self._attributes = LimitedAttributeDict(value or {})

    def name(self, default=None, token=False):
        return self.standard_name or self.long_name or self.var_name or default or "unknown"

    def rename(self, name):
        try:
            self.standard_name = name
            self.long_name = None
        except ValueError:
            self.standard_name = None
            self.long_name = str(name)
        self.var_name = None


def names_of(obj):
    return [n for n in (obj.standard_name, obj.long_name, obj.var_name) if n is not None]
