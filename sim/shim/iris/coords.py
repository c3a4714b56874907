"""iris.coords (shim)."""
import copy as _copy
from collections import namedtuple

import dask.array as da
import numpy as np
from cf_units import Unit

from iris._meta import CFMixin, CoordMetadata, DimCoordMetadata
from iris.exceptions import CoordinateMultiDimError, ShimUnsupported


def _is_time_like(x):
    return hasattr(x, "timetuple")


class Cell(namedtuple("Cell", ["point", "bound"])):
    __array_priority__ = 100
    __slots__ = ()

    def __new__(cls, point=None, bound=None):
        if point is None:
            raise ValueError("Point must be defined.")
        if bound is not None:
            bound = tuple(bound)
        if isinstance(point, np.ndarray):
            point = tuple(point.flatten())
        if isinstance(point, (tuple, list)):
            if len(point) != 1:
                raise ValueError("Point may only be a list or tuple if it has length 1.")
            point = point[0]
        return super().__new__(cls, point, bound)

    def __hash__(self):
        if self.bound is None:
            return hash(self.point)
        return super().__hash__()

    def __eq__(self, other):
        if isinstance(other, Cell):
            return bool(self.point == other.point) and self.bound == other.bound
        if isinstance(other, (int, float, np.number)) or _is_time_like(other):
            if self.bound is not None:
                return self.contains_point(other)
            return self.point == other
        if isinstance(other, str):
            return self.point == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _val_low(self):
        return self.point if self.bound is None else min(self.bound)

    def _val_high(self):
        return self.point if self.bound is None else max(self.bound)

    def _cmp(self, other, op):
        if isinstance(other, Cell):
            if op in ("lt", "gt") and (self.bound is None) == (other.bound is None) and self.bound is not None:
                a, b = (self._val_low(), other._val_low()) if op == "lt" else (self._val_high(), other._val_high())
                if a == b:
                    a, b = self.point, other.point
            else:
                a, b = self.point, other.point
                if self.bound is not None or other.bound is not None:
                    a, b = self._val_low(), other._val_low()
        elif isinstance(other, (int, float, np.number)) or _is_time_like(other):
            b = other
            if self.bound is None:
                a = self.point
            else:
                a = max(self.bound) if op in ("lt", "le") else min(self.bound)
                if op == "le":
                    a = min(self.bound)
                if op == "ge":
                    a = max(self.bound)
        else:
            return NotImplemented
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]

    def __lt__(self, other):
        return self._cmp(other, "lt")

    def __le__(self, other):
        return self._cmp(other, "le")

    def __gt__(self, other):
        return self._cmp(other, "gt")

    def __ge__(self, other):
        return self._cmp(other, "ge")

    def contains_point(self, point):
        if self.bound is None:
            raise ValueError("Point cannot exist inside an unbounded cell.")
        return min(self.bound) <= point <= max(self.bound)


class CoordExtent(namedtuple("CoordExtent", ["name_or_coord", "minimum", "maximum", "min_inclusive", "max_inclusive"])):
    def __new__(cls, name_or_coord, minimum, maximum, min_inclusive=True, max_inclusive=True):
        return super().__new__(cls, name_or_coord, minimum, maximum, min_inclusive, max_inclusive)


class CellMethod:
    def __init__(self, method, coords=None, intervals=None, comments=None):
        if not isinstance(method, str):
            raise TypeError("'method' must be a string - got a '%s'" % type(method))

        def _tup(items):
            if items is None:
                return ()
            if isinstance(items, (str, Coord)):
                items = (items,)
            return tuple(i if isinstance(i, str) else i.name() for i in items)

        self._m = (method, _tup(coords), _tup(intervals), _tup(comments))

    method = property(lambda self: self._m[0])
    coord_names = property(lambda self: self._m[1])
    intervals = property(lambda self: self._m[2])
    comments = property(lambda self: self._m[3])

    def __eq__(self, other):
        return isinstance(other, CellMethod) and self._m == other._m

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return self._m < other._m

    def __le__(self, other):
        return self._m <= other._m

    def __gt__(self, other):
        return self._m > other._m

    def __ge__(self, other):
        return self._m >= other._m

    def __hash__(self):
        return hash(self._m)

    def __repr__(self):
        return "CellMethod(method=%r, coord_names=%r, intervals=%r, comments=%r)" % self._m

    def __str__(self):
        coord = ", ".join(self.coord_names) + ": " if self.coord_names else ""
        other = " ".join(["interval: %s" % i for i in self.intervals] + ["comment: %s" % c for c in self.comments])
        return "%s%s%s" % (coord, self.method, " (%s)" % other if other else "")

    def add_scope(self, *a):
        raise ShimUnsupported("CellMethod.add_scope")


def _is_lazy(x):
    return isinstance(x, da.Array)


def _real(x):
    if _is_lazy(x):
        x = x.compute(scheduler="single-threaded")
        x = np.asanyarray(x)
    return x


class Coord(CFMixin):
    _dim = False

    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None, bounds=None, attributes=None,
                 coord_system=None, climatological=False):
        self._standard_name = self._var_name = None
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.attributes = attributes
        self.coord_system = coord_system
        self._points = self._bounds = None
        self._climatological = False
        self.points = points
        self.bounds = bounds
        self.climatological = climatological

    # ---- values
    def _sanitise(self, values, ndmin):
        if _is_lazy(values):
            return values
        if np.ma.isMaskedArray(values):
            if np.ma.is_masked(values):
                arr = np.ma.array(values, ndmin=ndmin, copy=False)
                return arr
            values = values.data
        arr = np.array(values, ndmin=ndmin, copy=False)
        if not arr.flags.writeable:
            arr = arr.copy()
        return arr

    @property
    def points(self):
        if _is_lazy(self._points):
            self._points = _real(self._points)
        return self._points.view()

    @points.setter
    def points(self, values):
        values = self._sanitise(values, 1)
        if self._points is not None and values.shape != self._points.shape:
            raise ValueError("Require data with shape {!r}, got {!r}.".format(self._points.shape, values.shape))
        self._points = values

    @property
    def bounds(self):
        if self._bounds is None:
            return None
        if _is_lazy(self._bounds):
            self._bounds = _real(self._bounds)
        return self._bounds.view()

    @bounds.setter
    def bounds(self, bounds):
        if bounds is None:
            self._bounds = None
            self._climatological = False
            return
        bounds = self._sanitise(bounds, 2)
        if self.shape != bounds.shape[:-1]:
            if bounds.size % max(1, int(np.prod(self.shape))) == 0 and bounds.ndim <= 2 and self.shape == (1,):
                bounds = bounds.reshape(self.shape + (-1,))
            else:
                raise ValueError("The shape of the {!r} coordinate's points {} is incompatible with its bounds {}".format(
                    self.name(), self.shape, bounds.shape))
        self._bounds = bounds

    @property
    def climatological(self):
        return self._climatological

    @climatological.setter
    def climatological(self, value):
        self._climatological = bool(value)

    def core_points(self):
        return self._points

    def core_bounds(self):
        return self._bounds

    def has_lazy_points(self):
        return _is_lazy(self._points)

    def has_lazy_bounds(self):
        return _is_lazy(self._bounds)

    def lazy_points(self):
        return self._points if _is_lazy(self._points) else da.from_array(self._points)

    shape = property(lambda self: self._points.shape)
    ndim = property(lambda self: self._points.ndim)
    dtype = property(lambda self: self._points.dtype)
    bounds_dtype = property(lambda self: None if self._bounds is None else self._bounds.dtype)
    nbounds = property(lambda self: 0 if self._bounds is None else self._bounds.shape[-1])

    def has_bounds(self):
        return self._bounds is not None

    # ---- metadata
    @property
    def metadata(self):
        return CoordMetadata(self.standard_name, self.long_name, self.var_name, self.units, self.attributes,
                             self.coord_system, self.climatological)

    @metadata.setter
    def metadata(self, m):
        for f in CoordMetadata._fields:
            if hasattr(m, f):
                setattr(self, f, getattr(m, f))

    _as_defn = property(lambda self: (lambda: self.metadata))

    def is_compatible(self, other, ignore=None):
        compatible = (self.name() == other.name() and self.units == other.units
                      and self.coord_system == other.coord_system)
        if compatible:
            common = set(self.attributes).intersection(other.attributes)
            if ignore is not None:
                common.difference_update((ignore,) if isinstance(ignore, str) else ignore)
            for k in common:
                if np.any(self.attributes[k] != other.attributes[k]):
                    return False
        return compatible

    # ---- equality
    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, Coord):
            return NotImplemented
        if not (self.metadata == other.metadata):
            return False
        if self.shape != other.shape or self.has_bounds() != other.has_bounds():
            return False
        if not _arr_eq(self.points, other.points):
            return False
        if self.has_bounds() and not _arr_eq(self.bounds, other.bounds):
            return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(id(self))

    def __repr__(self):
        return "{}({!r}{}, standard_name={!r}, units={!r}, long_name={!r}, var_name={!r})".format(
            type(self).__name__, _real(self._points), "" if self._bounds is None else ", bounds=%r" % (_real(self._bounds),),
            self.standard_name, self.units, self.long_name, self.var_name)

    __str__ = __repr__

    def xml_element(self, doc=None):
        return "<%s name=%r units=%r attrs=%r cs=%r points=%r bounds=%r>" % (
            type(self).__name__, self.name(), str(self.units), sorted(self.attributes.items()), self.coord_system,
            self.points.tolist(), None if self.bounds is None else self.bounds.tolist())

    # ---- copying / indexing
    def copy(self, points=None, bounds=None):
        if points is None and bounds is not None:
            raise ValueError("If bounds are specified, points must also be specified")
        new = _copy.copy(self)
        new._attributes = type(self._attributes)(self._attributes)
        new._attributes = _copy.deepcopy(self._attributes)
        new.coord_system = _copy.deepcopy(self.coord_system)
        if points is not None:
            new._points = None
            new._bounds = None
            clim = new._climatological
            new.points = points if _is_lazy(points) else np.array(points)
            new.bounds = None if bounds is None else np.array(bounds)
            new._climatological = clim and bounds is not None
            new._revalidate()
        else:
            if not _is_lazy(self._points):
                new._points = self._points.copy()
            if self._bounds is not None and not _is_lazy(self._bounds):
                new._bounds = self._bounds.copy()
        new._lock()
        return new

    def _revalidate(self):
        pass

    def _lock(self):
        pass

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, keys):
        pts = self._points
        bnds = self._bounds
        if not isinstance(keys, tuple):
            keys = (keys,)
        keys = tuple(np.asarray(k) if isinstance(k, (list, tuple)) else k for k in keys)
        pts = pts[keys]
        if bnds is not None:
            if any(k is Ellipsis for k in keys):
                raise ShimUnsupported("Ellipsis in bounded coord index")
            bnds = bnds[keys + (slice(None),) * (self.ndim - len(keys)) + (slice(None),)]
        if not _is_lazy(pts):
            pts = np.array(pts, ndmin=1)
            if np.ma.isMaskedArray(self._points):
                pts = np.ma.array(self._points[keys], ndmin=1)
        elif pts.ndim == 0:
            pts = pts[None]
        if bnds is not None:
            bnds = np.array(bnds) if not _is_lazy(bnds) else bnds
            if bnds.ndim == 1:
                bnds = bnds[None]
        if pts.size == 0:
            raise IndexError("Cannot index with zero length slice.")
        return self._clone(pts, bnds)

    def _clone(self, points, bounds):
        try:
            return self.copy(points, bounds)
        except ValueError:
            if self._dim:
                new = AuxCoord(points, bounds=bounds)
                new.metadata = self.metadata
                new.attributes = _copy.deepcopy(self.attributes)
                return new
            raise

    def cell(self, index):
        point = tuple(np.array(self.points[index], ndmin=1).flatten())
        if len(point) != 1:
            raise IndexError("The index %s did not uniquely identify a single point to create a cell with." % (index,))
        bound = None
        if self.has_bounds():
            bound = tuple(np.array(self.bounds[index], ndmin=1).flatten())
        if self.units.is_time_reference():
            point = self.units.num2date(point)
            if bound is not None:
                bound = self.units.num2date(bound)
        return Cell(point, bound)

    def cells(self):
        if self.ndim != 1:
            raise CoordinateMultiDimError(self)
        return iter([self.cell(i) for i in range(self.shape[0])])

    def index(self, cell):
        if self.ndim != 1:
            raise CoordinateMultiDimError(self)
        return list(self.cells()).index(cell)

    # ---- ops
    def convert_units(self, unit):
        if self.units.is_unknown():
            from iris.exceptions import UnitConversionError

            raise UnitConversionError("Cannot convert from unknown units. The \"coord.units\" attribute may be set directly.")
        new = unit if isinstance(unit, Unit) else Unit(unit)
        if new == self.units and str(new) == str(self.units):
            return
        pts = self.units.convert(self.points, new)
        bnds = None if self._bounds is None else self.units.convert(self.bounds, new)
        clim = self._climatological
        self._assign(pts, bnds)
        self._climatological = clim
        self.units = new

    def _assign(self, points, bounds):
        self._points = None
        self._bounds = None
        self.points = points
        self.bounds = bounds

    def _arith(self, op, other):
        if isinstance(other, Coord):
            raise Exception("Cannot add/sub coords")
        pts = op(self.points, other)
        bnds = None if self._bounds is None else op(self.bounds, other)
        return self.copy(pts, bnds)

    def __add__(self, other):
        return self._arith(np.add, other)

    def __sub__(self, other):
        return self._arith(np.subtract, other)

    def __mul__(self, other):
        return self._arith(np.multiply, other)

    def __div__(self, other):
        return self._arith(np.divide, other)

    __truediv__ = __div__
    __radd__ = __add__
    __rmul__ = __mul__

    def __neg__(self):
        return self.copy(-self.points, None if self._bounds is None else -self.bounds)

    def is_monotonic(self):
        if self.ndim != 1:
            raise CoordinateMultiDimError(self)
        if self.shape == (1,):
            return True
        d = np.diff(self.points)
        return bool(np.all(d >= 0) or np.all(d <= 0))

    def is_contiguous(self, rtol=1e-05, atol=1e-08):
        if not self.has_bounds():
            return False
        b = self.bounds
        return bool(np.allclose(b[1:, 0], b[:-1, 1], rtol=rtol, atol=atol))

    def contiguous_bounds(self):
        if not self.has_bounds():
            new = self.copy()
            new.guess_bounds()
            b = new.bounds
        else:
            b = self.bounds
        return np.concatenate([b[:, 0], b[-1:, 1]])

    def _guess_bounds(self, bound_position=0.5):
        if self.shape[0] < 2:
            raise ValueError("Cannot guess bounds for a coordinate of length 1.")
        if self.has_bounds():
            raise ValueError("Coord already has bounds. Remove the bounds before guessing new ones.")
        diffs = np.diff(self.points)
        diffs = np.insert(diffs, 0, diffs[0])
        diffs = np.append(diffs, diffs[-1])
        lo = self.points - diffs[:-1] * bound_position
        hi = self.points + diffs[1:] * (1 - bound_position)
        return np.array([lo, hi]).transpose()

    def guess_bounds(self, bound_position=0.5):
        self.bounds = self._guess_bounds(bound_position)

    def nearest_neighbour_index(self, point):
        pts = self.points
        bnds = self.bounds if self.has_bounds() else None
        if self.ndim != 1:
            raise CoordinateMultiDimError(self)
        if bnds is not None and self.nbounds == 2:
            inside = (np.min(bnds, axis=1) <= point) & (point <= np.max(bnds, axis=1))
            if np.any(inside):
                cand = np.nonzero(inside)[0]
                return int(cand[np.argmin(np.abs(pts[cand] - point))])
        return int(np.argmin(np.abs(pts - point)))

    def intersect(self, other, return_indices=False):
        if not self.is_compatible(other):
            raise ValueError("coords incompatible")
        pts = self.points
        idx = np.array([i for i, p in enumerate(pts) if p in other.points])
        if idx.size == 0:
            raise ValueError("No intersection between %s coords possible." % self.name())
        return idx if return_indices else self[idx]

    def collapsed(self, dims_to_collapse=None):
        if isinstance(dims_to_collapse, (int, np.integer)):
            dims_to_collapse = [dims_to_collapse]
        if self.points.dtype.kind in "SU":
            if dims_to_collapse is not None and len(dims_to_collapse) != self.ndim:
                raise ShimUnsupported("partial string collapse")
            point = "|".join(str(p) for p in self.points.flatten())
            return AuxCoord(np.array([point]), standard_name=self.standard_name, long_name=self.long_name,
                            var_name=self.var_name, units=self.units, attributes=self.attributes)
        if dims_to_collapse is None:
            dims_to_collapse = tuple(range(self.ndim))
        dims = tuple(dims_to_collapse)
        if self.ndim == 1 and self.has_bounds() is False and False:
            pass
        if self.ndim > 1 and len(dims) != self.ndim:
            item = self.bounds if self.has_bounds() else self.points
            ax = dims
            lo, hi = self.points.min(axis=ax), self.points.max(axis=ax)
            if self.has_bounds():
                lo = self.bounds.min(axis=ax + (self.ndim,))
                hi = self.bounds.max(axis=ax + (self.ndim,))
            bounds = np.stack([lo, hi], axis=-1)
        else:
            item = self.bounds if self.has_bounds() else self.points
            bounds = np.array([[item.min(), item.max()]])
        if not np.issubdtype(bounds.dtype, np.datetime64):
            points_dtype = self.dtype
            points = np.array(bounds.sum(axis=-1) * 0.5, dtype=points_dtype)
        return self._clone(points, bounds)


def _arr_eq(a, b):
    if a.shape != b.shape:
        return False
    r = a == b
    if isinstance(r, bool):
        return r
    if np.ma.isMaskedArray(r):
        r = r.filled(False)
        ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        return bool(np.all(ma == mb) and np.all(r | ma))
    return bool(np.all(r))


class AuxCoord(Coord):
    @classmethod
    def from_coord(cls, coord):
        new = cls(coord.core_points(), bounds=coord.core_bounds(), standard_name=coord.standard_name,
                  long_name=coord.long_name, var_name=coord.var_name, units=coord.units,
                  attributes=_copy.deepcopy(coord.attributes), coord_system=_copy.deepcopy(coord.coord_system),
                  climatological=coord.climatological)
        if not _is_lazy(new._points):
            new._points = new._points.copy()
        if new._bounds is not None and not _is_lazy(new._bounds):
            new._bounds = new._bounds.copy()
        return new


class DimCoord(Coord):
    _dim = True

    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None, bounds=None, attributes=None,
                 coord_system=None, circular=False, climatological=False):
        self.circular = circular
        super().__init__(points, standard_name, long_name, var_name, units, bounds, attributes, coord_system, climatological)
        self._lock()

    @classmethod
    def from_coord(cls, coord):
        pts, bnds = _real(coord.core_points()), coord.core_bounds()
        return cls(np.array(pts) if not np.ma.isMaskedArray(pts) else pts,
                   standard_name=coord.standard_name, long_name=coord.long_name, var_name=coord.var_name,
                   units=coord.units, bounds=None if bnds is None else np.array(_real(bnds)),
                   attributes=_copy.deepcopy(coord.attributes), coord_system=_copy.deepcopy(coord.coord_system),
                   circular=getattr(coord, "circular", False), climatological=coord.climatological)

    @classmethod
    def from_regular(cls, zeroth, step, count, standard_name=None, long_name=None, var_name=None, units=None,
                     attributes=None, coord_system=None, circular=False, climatological=False, with_bounds=False):
        points = (zeroth + step) + step * np.arange(count, dtype=np.float32)
        bounds = None
        if with_bounds:
            d = 0.5 * step
            bounds = np.concatenate([[points - d], [points + d]]).T
        return cls(points, standard_name, long_name, var_name, units, bounds, attributes, coord_system, circular, climatological)

    @property
    def metadata(self):
        return DimCoordMetadata(self.standard_name, self.long_name, self.var_name, self.units, self.attributes,
                                self.coord_system, self.climatological, self.circular)

    @metadata.setter
    def metadata(self, m):
        for f in DimCoordMetadata._fields:
            if hasattr(m, f):
                setattr(self, f, getattr(m, f))

    def _lock(self):
        self._points = _real(self._points)
        self._points.flags.writeable = False
        if self._bounds is not None:
            self._bounds = _real(self._bounds)
            self._bounds.flags.writeable = False

    def _check_points(self, points):
        if points.ndim not in (0, 1):
            raise ValueError("The {!r} {} points array must be scalar or 1-dimensional.".format(self.name(), type(self).__name__))
        if np.ma.isMaskedArray(points) and np.ma.is_masked(points):
            raise TypeError("A {!r} {} points array must not be masked.".format(self.name(), type(self).__name__))
        if points.dtype.kind not in "iufb" or points.dtype.kind == "b":
            raise ValueError("The {!r} {} points array must be numeric.".format(self.name(), type(self).__name__))
        if points.size > 1:
            d = np.diff(points)
            if not (np.all(d > 0) or np.all(d < 0)):
                raise ValueError("The {!r} {} points array must be strictly monotonic.".format(self.name(), type(self).__name__))

    def _check_bounds(self, bounds):
        if self.shape[0] > 1 and bounds is not None:
            direction = None
            for i in range(bounds.shape[-1]):
                col = bounds[..., i]
                d = np.diff(col)
                if not (np.all(d > 0) or np.all(d < 0)):
                    raise ValueError("The {!r} {} bounds array must be strictly monotonic.".format(self.name(), type(self).__name__))
                this = bool(d[0] > 0)
                if direction is not None and this != direction:
                    raise ValueError("The direction of monotonicity for {!r} {} must be consistent across all bounds".format(
                        self.name(), type(self).__name__))
                direction = this
        if bounds is not None and bounds.shape[-1] == 2 and self.units.is_time_reference() is False and False:
            pass

    @property
    def points(self):
        return self._points.view()

    @points.setter
    def points(self, values):
        values = np.array(_real(self._sanitise(values, 1)), copy=True) if not np.ma.isMaskedArray(values) else \
            np.array(self._sanitise(values, 1)) if not np.ma.is_masked(values) else values
        if self._points is not None and values.shape != self._points.shape:
            raise ValueError("Require data with shape {!r}, got {!r}.".format(self._points.shape, values.shape))
        self._check_points(values)
        self._points = values
        self._points.flags.writeable = False

    @property
    def bounds(self):
        return None if self._bounds is None else self._bounds.view()

    @bounds.setter
    def bounds(self, bounds):
        if bounds is not None:
            bounds = np.array(_real(bounds))
        Coord.bounds.fset(self, bounds)
        if self._bounds is not None:
            self._check_bounds(self._bounds)
            self._bounds.flags.writeable = False

    def _revalidate(self):
        pass

    def collapsed(self, dims_to_collapse=None):
        coord = Coord.collapsed(self, dims_to_collapse)
        if self.circular and self.units.modulus is not None:
            bnds = np.array(coord.bounds)
            bnds[0, 1] = coord.bounds[0, 0] + self.units.modulus
            pts = np.array(np.sum(bnds) * 0.5, dtype=self.points.dtype)
            coord = coord.copy(pts, bnds)
            coord.circular = False
        return coord

    def is_monotonic(self):
        return True


class CellMeasure:
    def __init__(self, *a, **k):
        raise ShimUnsupported("CellMeasure")


class AncillaryVariable:
    def __init__(self, *a, **k):
        raise ShimUnsupported("AncillaryVariable")
