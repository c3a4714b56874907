"""iris.cube (shim)."""
import copy as _copy
import itertools
import operator
from collections.abc import Iterable

import dask.array as da
import numpy as np
from cf_units import Unit

import iris.exceptions as exc
from iris._meta import CFMixin, CubeMetadata, names_of
from iris.coords import AuxCoord, CellMethod, Coord, DimCoord, _is_lazy, _real
from iris.exceptions import ShimUnsupported
from iris.util import guess_coord_axis


def _same(a, b):
    return a is b


class CubeList(list):
    def __new__(cls, list_of_cubes=None):
        cubes = list.__new__(cls)
        return cubes

    def __init__(self, list_of_cubes=None):
        items = list(list_of_cubes) if list_of_cubes is not None else []
        if not all(isinstance(c, (Cube, CubeList)) for c in items):
            raise ValueError("All items in list_of_cubes must be Cube instances.")
        super().__init__(items)

    def __str__(self):
        if not self:
            return "< No cubes >"
        return "\n".join("%d: %s" % (i, c.summary(shorten=True)) for i, c in enumerate(self))

    def __repr__(self):
        return "[%s]" % ",\n".join(repr(c) for c in self)

    def __add__(self, other):
        return CubeList(list.__add__(self, list(other)))

    def __getitem__(self, keys):
        result = super().__getitem__(keys)
        return CubeList(result) if isinstance(result, list) else result

    def copy(self):
        return CubeList(list.copy(self))

    def __copy__(self):
        return CubeList(self)

    def xml(self, *a, **k):
        return "\n".join(c.xml(*a, **k) for c in self)

    def realise_data(self):
        for c in self:
            c.data

    def extract(self, constraints, strict=False):
        from iris._constraints import list_of_constraints

        cons = list_of_constraints(constraints)
        per = []
        for c in cons:
            out = []
            for cube in self:
                sub = c.extract(cube)
                if sub is not None:
                    out.append(sub)
            per.append(out)
        if strict:
            for c, out in zip(cons, per):
                if len(out) != 1:
                    raise exc.ConstraintMismatchError("Got %s cubes for constraint %r, expecting 1." % (len(out), c))
            result = CubeList([o[0] for o in per])
            if isinstance(constraints, (list, tuple)) is False and len(result) == 1:
                return result[0]
            return result
        result = CubeList()
        for out in per:
            result.extend(out)
        return result

    def extract_cube(self, constraint):
        return self.extract(constraint, strict=True)

    def extract_cubes(self, constraints):
        r = self.extract(constraints, strict=True)
        return CubeList([r]) if isinstance(r, Cube) else r

    def extract_overlapping(self, coord_names):
        raise ShimUnsupported("extract_overlapping")

    def merge_cube(self):
        from iris import _merge

        if not self:
            raise ValueError("can't merge an empty CubeList")
        return _merge.merge_cube(self)

    def merge(self, unique=True):
        from iris import _merge

        return CubeList(_merge.merge(self, unique))

    def concatenate(self, check_aux_coords=True, **_):
        from iris import _concatenate

        return CubeList(_concatenate.concatenate(self))

    def concatenate_cube(self, check_aux_coords=True, **_):
        from iris import _concatenate

        if not self:
            raise ValueError("can't concatenate an empty CubeList")
        res = _concatenate.concatenate(self, strict=True)
        if len(res) == 1:
            return res[0]
        raise exc.ConcatenateError(["An unexpected problem prevented concatenation. Expected only a single cube, "
                                    "found {}.".format(len(res))])


class Cube(CFMixin):
    __hash__ = None

    @classmethod
    def _from_raw(cls):
        return cls.__new__(cls)

    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None, attributes=None,
                 cell_methods=None, dim_coords_and_dims=None, aux_coords_and_dims=None, aux_factories=None,
                 cell_measures_and_dims=None, ancillary_variables_and_dims=None):
        if isinstance(data, str):
            raise TypeError("Invalid data type: {!r}.".format(data))
        if aux_factories or cell_measures_and_dims or ancillary_variables_and_dims:
            raise ShimUnsupported("factories / cell measures")
        self._standard_name = self._var_name = None
        self._dim = []
        self._aux = []
        self._data = data if _is_lazy(data) or np.ma.isMaskedArray(data) else np.asarray(data)
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.cell_methods = cell_methods
        self.attributes = attributes
        for coord, dim in dim_coords_and_dims or ():
            self.add_dim_coord(coord, dim)
        for coord, dims in aux_coords_and_dims or ():
            self.add_aux_coord(coord, dims)

    # ------------------------------------------------------------- metadata
    def __hash__(self):
        return hash(id(self))

    @property
    def cell_methods(self):
        return self._cell_methods

    @cell_methods.setter
    def cell_methods(self, value):
        self._cell_methods = tuple(value) if value else ()

    def add_cell_method(self, cell_method):
        self.cell_methods += (cell_method,)

    @property
    def metadata(self):
        return CubeMetadata(self.standard_name, self.long_name, self.var_name, self.units, self.attributes, self.cell_methods)

    @metadata.setter
    def metadata(self, value):
        if isinstance(value, dict):
            items = value
        elif hasattr(value, "_asdict"):
            items = value._asdict()
        elif isinstance(value, tuple):
            items = dict(zip(CubeMetadata._fields, value))
        else:
            items = {f: getattr(value, f) for f in CubeMetadata._fields if hasattr(value, f)}
        for f in CubeMetadata._fields:
            if f not in items and isinstance(value, tuple):
                raise TypeError("Invalid/incomplete metadata")
        for f in CubeMetadata._fields:
            if f in items:
                setattr(self, f, items[f])

    # ------------------------------------------------------------- data
    shape = property(lambda self: self._data.shape)
    ndim = property(lambda self: self._data.ndim)
    dtype = property(lambda self: self._data.dtype)

    def core_data(self):
        return self._data

    def has_lazy_data(self):
        return _is_lazy(self._data)

    def lazy_data(self):
        if _is_lazy(self._data):
            return self._data
        return da.from_array(self._data, chunks=self._data.shape or -1, asarray=False)

    @property
    def data(self):
        if _is_lazy(self._data):
            self._data = _real(self._data)
        return self._data

    @data.setter
    def data(self, value):
        if not (hasattr(value, "shape") and hasattr(value, "dtype")) or np.isscalar(value):
            value = np.asanyarray(value)
        if self.shape != value.shape:
            if self.shape or value.shape != (1,):
                raise ValueError("Require data with shape {!r}, got {!r}.".format(self.shape, value.shape))
        self._data = value

    # ------------------------------------------------------------- coords
    @property
    def dim_coords(self):
        return tuple(c for c, _ in sorted(self._dim, key=lambda cd: cd[1]))

    @property
    def aux_coords(self):
        return tuple(c for c, _ in self._aux)

    derived_coords = property(lambda self: ())
    aux_factories = property(lambda self: ())

    def cell_measures(self, *a, **k):
        return []

    def ancillary_variables(self, *a, **k):
        return []

    def _norm_dims(self, dims):
        if dims is None:
            return ()
        if isinstance(dims, Iterable):
            return tuple(int(d) for d in dims)
        return (int(dims),)

    def add_aux_coord(self, coord, data_dims=None):
        if self.coords(coord):
            raise exc.CannotAddError("Duplicate coordinates are not possible.")
        dims = self._norm_dims(data_dims)
        if dims:
            if len(dims) != coord.ndim:
                raise exc.CannotAddError("Invalid data dimensions: {} given, {} expected for {!r}.".format(
                    len(dims), coord.ndim, coord.name()))
            for i, d in enumerate(dims):
                if d >= self.ndim or coord.shape[i] != self.shape[d]:
                    raise exc.CannotAddError("Unequal lengths. Cube dimension {} => {}; metadata {!r} dimension {} => {}.".format(
                        d, self.shape[d] if d < self.ndim else None, coord.name(), i, coord.shape[i]))
        elif coord.shape != (1,):
            raise exc.CannotAddError("Missing data dimensions for multi-valued {} {!r}".format(
                type(coord).__name__, coord.name()))
        self._aux.append((coord, dims))

    def add_dim_coord(self, dim_coord, data_dim):
        if self.coords(dim_coord):
            raise exc.CannotAddError("The coordinate already exists on the cube. Duplicate coordinates are not possible.")
        if isinstance(data_dim, Iterable):
            data_dim = tuple(data_dim)
            if len(data_dim) != 1:
                raise exc.CannotAddError("The supplied data dimension must be a single number")
            data_dim = data_dim[0]
        data_dim = int(data_dim)
        if not isinstance(dim_coord, DimCoord):
            raise exc.CannotAddError("The dim_coord may not be an AuxCoord instance.")
        if any(d == data_dim for _, d in self._dim):
            raise exc.CannotAddError("A dim_coord is already associated with dimension %d." % data_dim)
        if data_dim >= self.ndim:
            raise exc.CannotAddError("The cube does not have the specified dimension (%d)" % data_dim)
        if dim_coord.shape[0] != self.shape[data_dim]:
            raise exc.CannotAddError("Unequal lengths. Cube dimension {} => {}; coord {!r} => {}.".format(
                data_dim, self.shape[data_dim], dim_coord.name(), len(dim_coord.points)))
        self._dim.append((dim_coord, data_dim))

    def add_aux_factory(self, *_a):
        raise ShimUnsupported("aux factory")

    def remove_coord(self, coord):
        coord = self.coord(coord)
        self._dim = [(c, d) for c, d in self._dim if c is not coord]
        self._aux = [(c, d) for c, d in self._aux if c is not coord]

    def replace_coord(self, new_coord):
        old = self.coord(new_coord)
        dims = self.coord_dims(old)
        was_dim = any(c is old for c in self.dim_coords)
        self.remove_coord(old)
        if was_dim and isinstance(new_coord, DimCoord):
            self.add_dim_coord(new_coord, dims[0])
        else:
            self.add_aux_coord(new_coord, dims)

    def coords(self, name_or_coord=None, standard_name=None, long_name=None, var_name=None, attributes=None, axis=None,
               contains_dimension=None, dimensions=None, coord_system=None, dim_coords=None):
        name = coord = None
        if isinstance(name_or_coord, str):
            name = name_or_coord
        elif name_or_coord is not None:
            coord = name_or_coord
        found = []
        if dim_coords in (True, None):
            found += list(self.dim_coords)
        if dim_coords in (False, None):
            found += list(self.aux_coords)
        if name is not None:
            found = [c for c in found if c.name() == name]
        if standard_name is not None:
            found = [c for c in found if c.standard_name == standard_name]
        if long_name is not None:
            found = [c for c in found if c.long_name == long_name]
        if var_name is not None:
            found = [c for c in found if c.var_name == var_name]
        if axis is not None:
            axis = axis.upper()
            found = [c for c in found if guess_coord_axis(c) == axis]
        if attributes is not None:
            if not isinstance(attributes, dict):
                raise ValueError("The attributes keyword was expecting a dictionary type, but got a {} instead.".format(type(attributes)))
            found = [c for c in found if all(k in c.attributes and c.attributes[k] == v for k, v in attributes.items())]
        if coord_system is not None:
            found = [c for c in found if c.coord_system == coord_system]
        if coord is not None:
            target = coord.metadata if hasattr(coord, "metadata") else coord
            found = [c for c in found if c.metadata == target]
        if contains_dimension is not None:
            found = [c for c in found if contains_dimension in self.coord_dims(c)]
        if dimensions is not None:
            dimensions = self._norm_dims(dimensions)
            found = [c for c in found if tuple(dimensions) == self.coord_dims(c)]
        return found

    def coord(self, name_or_coord=None, standard_name=None, long_name=None, var_name=None, attributes=None, axis=None,
              contains_dimension=None, dimensions=None, coord_system=None, dim_coords=None):
        if isinstance(name_or_coord, Coord):
            for c, _ in itertools.chain(self._dim, self._aux):
                if c is name_or_coord and standard_name is None and axis is None and dim_coords is None and dimensions is None:
                    return c
        found = self.coords(name_or_coord, standard_name, long_name, var_name, attributes, axis, contains_dimension,
                            dimensions, coord_system, dim_coords)
        if len(found) > 1:
            raise exc.CoordinateNotFoundError("Expected to find exactly 1 coordinate, but found {}. They were: {}.".format(
                len(found), ", ".join(c.name() for c in found)))
        if not found:
            bad = name_or_coord or standard_name or long_name or ""
            if not isinstance(bad, str):
                bad = bad.name() if hasattr(bad, "name") else ""
            raise exc.CoordinateNotFoundError("Expected to find exactly 1 {} coordinate, but found none.".format(
                repr(str(bad)) if bad else "").replace("  ", " "))
        return found[0]

    def coord_dims(self, coord):
        if not isinstance(coord, str):
            for c, d in self._dim:
                if c is coord:
                    return (d,)
            for c, d in self._aux:
                if c is coord:
                    return d
        c = self.coord(coord)
        for k, d in self._dim:
            if k is c:
                return (d,)
        for k, d in self._aux:
            if k is c:
                return d
        raise exc.CoordinateNotFoundError(coord)

    def coord_system(self, spec=None):
        import iris.coord_systems as ics

        if isinstance(spec, str) or spec is None:
            spec_name = spec
        else:
            spec_name = spec.__name__
        result = None
        for c in self.coords():
            cs = c.coord_system
            if cs is None:
                continue
            if spec_name is None or spec_name in [k.__name__ for k in type(cs).__mro__]:
                result = cs
                break
        return result

    # ------------------------------------------------------------- misc
    def summary(self, shorten=False, name_padding=35):
        dims = []
        for d in range(self.ndim):
            cs = self.coords(dimensions=d, dim_coords=True)
            dims.append("%s: %d" % (cs[0].name() if cs else "-- ", self.shape[d]))
        head = "{} / ({}) ({})".format(self.name(), self.units, "; ".join(dims) or "scalar cube")
        if shorten:
            return head
        lines = [head]
        for c in self.coords():
            lines.append("     %s %r" % (c.name(), self.coord_dims(c)))
        for k in sorted(self.attributes):
            lines.append("     %s: %s" % (k, self.attributes[k]))
        for m in self.cell_methods:
            lines.append("     %s" % m)
        return "\n".join(lines)

    def __str__(self):
        return self.summary()

    def __repr__(self):
        return "<iris 'Cube' of %s>" % self.summary(shorten=True)

    def xml(self, checksum=False, order=True, byteorder=True):
        parts = ["<cube name=%r units=%r dtype=%s shape=%r>" % (self.name(), str(self.units), self.dtype, self.shape)]
        for k in sorted(self.attributes):
            parts.append("<attribute %s=%r/>" % (k, self.attributes[k]))
        for c in sorted(self.coords(), key=lambda c: c.name()):
            parts.append("<coord datadims=%r %s/>" % (self.coord_dims(c), c.xml_element()))
        for m in self.cell_methods:
            parts.append("<cellMethod %r/>" % m)
        if checksum:
            import zlib

            parts.append("<data crc=%d/>" % zlib.crc32(np.ascontiguousarray(np.ma.getdata(self.data)).tobytes()))
        return "\n".join(parts)

    __iter__ = None
    __contains__ = None

    def copy(self, data=None):
        return self._deepcopy({}, data)

    def __copy__(self):
        raise ValueError("Cube shallow-copy not allowed. Use deepcopy() or Cube.copy()")

    def __deepcopy__(self, memo):
        return self._deepcopy(memo)

    def _deepcopy(self, memo, data=None):
        dm = self._data
        if data is None:
            new_data = dm if _is_lazy(dm) else dm.copy()
        else:
            if not (hasattr(data, "shape") and hasattr(data, "dtype")):
                data = np.asanyarray(data)
            if data.shape != dm.shape:
                raise ValueError("Require data with shape {!r}, got {!r}.".format(dm.shape, data.shape))
            new_data = data
        new = Cube(new_data)
        new._standard_name = self._standard_name
        new.long_name = self.long_name
        new._var_name = self._var_name
        new._units = self._units
        new._attributes = _copy.deepcopy(self._attributes)
        new.cell_methods = self.cell_methods
        new._dim = [(c.copy(), d) for c, d in self._dim]
        new._aux = [(c.copy(), d) for c, d in self._aux]
        return new

    def __eq__(self, other):
        if not isinstance(other, Cube):
            return NotImplemented
        if self is other:
            return True
        if not (self.metadata == other.metadata):
            return False
        mine, theirs = self.coords(), list(other.coords())
        if len(mine) != len(theirs):
            return False
        for c in mine:
            for i, t in enumerate(theirs):
                if c == t and self.coord_dims(c) == other.coord_dims(t):
                    theirs.pop(i)
                    break
            else:
                return False
        if self.shape != other.shape:
            return False
        a, b = self.data, other.data
        r = a == b
        if np.ma.isMaskedArray(r):
            return bool(np.all(np.ma.getmaskarray(a) == np.ma.getmaskarray(b)) and np.all(r.filled(True)))
        return bool(np.all(r))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def convert_units(self, unit):
        if self.units.is_unknown():
            raise exc.UnitConversionError("Cannot convert from unknown units. The \"cube.units\" attribute may be set directly.")
        new = unit if isinstance(unit, Unit) else Unit(unit)
        if self.has_lazy_data():
            old = Unit(self.units)
            dtype = old.convert(np.zeros(1, self.dtype), new).dtype
            data = self._data.map_blocks(lambda v: old.convert(v, new), dtype=dtype)
        else:
            data = self.units.convert(self.data, new)
        self._data = data
        self._units = new

    def is_compatible(self, other, ignore=None):
        ok = self.name() == other.name() and self.units == other.units and self.cell_methods == other.cell_methods
        if ok:
            common = set(self.attributes).intersection(other.attributes)
            if ignore is not None:
                common.difference_update((ignore,) if isinstance(ignore, str) else ignore)
            for k in common:
                if np.any(self.attributes[k] != other.attributes[k]):
                    return False
        return ok

    # ------------------------------------------------------------- indexing
    def _full_keys(self, keys):
        if not isinstance(keys, tuple):
            keys = (keys,)
        if any(k is Ellipsis for k in keys):
            i = [k is Ellipsis for k in keys].index(True)
            keys = keys[:i] + (slice(None),) * (self.ndim - len(keys) + 1) + tuple(
                slice(None) if k is Ellipsis else k for k in keys[i + 1:])
        while len(keys) > self.ndim and isinstance(keys[-1], slice) and keys[-1] == slice(None):
            keys = keys[:-1]
        if len(keys) > self.ndim:
            raise IndexError("More slices requested than dimensions. Requested %r, but there were only %s dimensions." % (
                keys, self.ndim))
        keys = keys + (slice(None),) * (self.ndim - len(keys))
        out = []
        for k, n in zip(keys, self.shape):
            if isinstance(k, slice):
                out.append(k)
            elif isinstance(k, (int, np.integer)) and not isinstance(k, bool):
                k = int(k)
                if not -n <= k < n:
                    raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
                out.append(k)
            else:
                arr = np.asarray(k)
                if arr.dtype.kind == "b":
                    if arr.shape != (n,):
                        raise IndexError("boolean index did not match")
                    arr = np.nonzero(arr)[0]
                if arr.ndim != 1:
                    raise IndexError("bad index")
                out.append(arr.astype(int))
        return tuple(out)

    def __getitem__(self, keys):
        if keys == () and self.ndim == 0:
            return self.copy()
        if self.ndim == 0:
            raise IndexError("Cannot slice a scalar cube.")
        full = self._full_keys(keys)
        data = self._data
        # orthogonal indexing, last axis first, integers dropped at the end
        for ax in range(self.ndim - 1, -1, -1):
            k = full[ax]
            data = data[(slice(None),) * ax + (k,)]
        if data.size == 0 if not _is_lazy(data) else 0 in data.shape:
            raise IndexError("Cannot index with zero length slice.")
        if not _is_lazy(data):
            data = np.array(data) if not np.ma.isMaskedArray(data) and data is not np.ma.masked else np.ma.array(data, copy=True)
            if self._data.dtype != data.dtype:
                data = data.astype(self._data.dtype)
        mapping = {}
        new_dim = 0
        for d, k in enumerate(full):
            if isinstance(k, int):
                mapping[d] = None
            else:
                mapping[d] = new_dim
                new_dim += 1
        new = Cube(data)
        new._standard_name, new.long_name, new._var_name = self._standard_name, self.long_name, self._var_name
        new._units = self._units
        new._attributes = _copy.deepcopy(self._attributes)
        new.cell_methods = self.cell_methods
        for coord, dim in sorted(self._dim, key=lambda cd: cd[1]):
            c = coord[full[dim]]
            if mapping[dim] is None or not isinstance(c, DimCoord):
                new._aux.append((c, () if mapping[dim] is None else (mapping[dim],)))
            else:
                new._dim.append((c, mapping[dim]))
        dim_as_scalar = new._aux
        new._aux = []
        for coord, dims in self._aux:
            if dims:
                ckeys = tuple(full[d] for d in dims)
                c = coord
                for i in range(len(dims) - 1, -1, -1):
                    pass
                c = _orthogonal_coord(coord, ckeys)
                new._aux.append((c, tuple(mapping[d] for d in dims if mapping[d] is not None)))
            else:
                new._aux.append((coord.copy(), ()))
        new._aux = new._aux + dim_as_scalar
        return new

    def subset(self, coord):
        if not isinstance(coord, Coord):
            raise ValueError("coord_to_extract must be a valid Coord.")
        to = self.coord(coord)
        dims = self.coord_dims(to)
        if not dims:
            r = to.intersect(coord, return_indices=True)
            return self if len(r) else None
        keys = [slice(None)] * self.ndim
        keys[dims[0]] = tuple(to.intersect(coord, return_indices=True))
        return self[tuple(keys)]

    def extract(self, constraint):
        from iris._constraints import as_constraint

        return as_constraint(constraint).extract(self)

    def intersection(self, *args, **kwargs):
        raise ShimUnsupported("Cube.intersection")

    def slices(self, ref_to_slice, ordered=True):
        if not isinstance(ordered, bool):
            raise TypeError("'ordered' argument to slices must be boolean.")
        if isinstance(ref_to_slice, (str, Coord, int, np.integer)):
            ref_to_slice = [ref_to_slice]
        dims = []
        for ref in ref_to_slice:
            if isinstance(ref, (int, np.integer)):
                dims.append(int(ref))
            else:
                c = self.coord(ref)
                cd = self.coord_dims(c)
                if len(cd) > 1:
                    raise exc.CoordinateMultiDimError(c) if False else ValueError("multi-dimensional slice coord")
                if not cd:
                    raise ValueError("Requested an iterator over a coordinate ({}) which does not describe a dimension.".format(c.name()))
                dims.append(cd[0])
        if len(set(dims)) != len(dims):
            raise ValueError("The requested coordinates are not orthogonal.")
        return self._slices_iter(dims, ordered)

    def _slices_iter(self, dims, ordered):
        others = [d for d in range(self.ndim) if d not in dims]
        order = list(np.argsort(np.argsort(dims))) if dims else []
        for idx in itertools.product(*[range(self.shape[d]) for d in others]):
            keys = [slice(None)] * self.ndim
            for d, i in zip(others, idx):
                keys[d] = i
            sub = self[tuple(keys)] if self.ndim else self.copy()
            if ordered and order and any(a != i for i, a in enumerate(order)):
                sub.transpose(order)
            yield sub

    def slices_over(self, ref_to_slice):
        if isinstance(ref_to_slice, (str, Coord, int, np.integer)):
            ref_to_slice = [ref_to_slice]
        over = set()
        for ref in ref_to_slice:
            if isinstance(ref, (int, np.integer)):
                if ref < 0 or ref >= self.ndim:
                    raise ValueError("Requested an iterator over a dimension ({}) which does not exist.".format(ref))
                over.add(int(ref))
            else:
                over.update(self.coord_dims(self.coord(ref)))
        return self.slices([d for d in range(self.ndim) if d not in over])

    def transpose(self, new_order=None):
        if new_order is None:
            new_order = list(range(self.ndim))[::-1]
        new_order = [int(d) % self.ndim if self.ndim else 0 for d in new_order]
        if len(new_order) != self.ndim:
            raise ValueError("Incorrect number of dimensions.")
        self._data = self._data.transpose(new_order)
        m = {old: new for new, old in enumerate(new_order)}
        self._dim = [(c, m[d]) for c, d in self._dim]
        self._aux = [(c, tuple(m[d] for d in dims)) for c, dims in self._aux]

    # ------------------------------------------------------------- statistics
    def _as_coords(self, coords):
        if isinstance(coords, (str, Coord)):
            coords = [coords]
        return [self.coord(c) for c in coords]

    def collapsed(self, coords, aggregator, **kwargs):
        coords = self._as_coords(coords)
        weights = kwargs.get("weights")
        if weights is not None and getattr(aggregator, "weighted", False):
            if np.shape(weights) != self.shape:
                raise ValueError("weights must have the same shape as cube")
        dims = []
        for c in coords:
            for d in self.coord_dims(c):
                if d not in dims:
                    dims.append(d)
        if not dims:
            raise exc.CoordinateCollapseError("Cannot collapse a dimension which does not describe any data.")
        dims.sort()
        keys = tuple(0 if d in dims else slice(None) for d in range(self.ndim))
        out = self[keys]
        for coord, cdims in list(self._dim_pairs()) + list(self._aux):
            hit = [i for i, d in enumerate(cdims) if d in dims]
            if not hit:
                continue
            new = coord.collapsed(hit)
            target = out.coord(coord.metadata) if False else [c for c in out.coords() if c.metadata == coord.metadata][0]
            tdims = out.coord_dims(target)
            out._dim = [(c, d) for c, d in out._dim if c is not target]
            pos = [i for i, (c, _) in enumerate(out._aux) if c is target]
            if pos:
                out._aux[pos[0]] = (new, tdims)
            else:
                out._aux.append((new, tdims))
        untouched = [d for d in range(self.ndim) if d not in dims]
        lazy = self.has_lazy_data() and aggregator.lazy_func is not None
        data = self.data if not lazy else _real(self._data)
        perm = untouched + dims
        tdata = np.transpose(data, perm)
        shape = tuple(self.shape[d] for d in untouched)
        flat = tdata.reshape(shape + (-1,))
        kw = dict(kwargs)
        if weights is not None and getattr(aggregator, "weighted", False):
            kw["weights"] = np.transpose(weights, perm).reshape(shape + (-1,))
        result = aggregator.aggregate(flat, axis=-1, **kw)
        aggregator.update_metadata(out, coords, axis=-1, **kwargs)
        if lazy and isinstance(result, np.ndarray):
            result = da.from_array(result, chunks=result.shape or -1, asarray=False)
        return aggregator.post_process(out, result, coords, **kwargs)

    def _dim_pairs(self):
        return [(c, (d,)) for c, d in sorted(self._dim, key=lambda cd: cd[1])]

    def aggregated_by(self, coords, aggregator, **kwargs):
        coords = self._as_coords(coords)
        dims = {self.coord_dims(c) for c in coords}
        if len(dims) != 1 or len(list(dims)[0]) != 1:
            raise exc.CoordinateCollapseError("Cannot aggregate_by coords over differing/multi dims")
        dim = list(dims)[0][0]
        keys = list(zip(*[list(c.cells()) for c in coords]))
        contiguous = all(isinstance(c, DimCoord) for c in coords)
        groups = []
        for i, k in enumerate(keys):
            for g in groups:
                if g[0] == k:
                    g[1].append(i)
                    break
            else:
                groups.append((k, [i]))
        pieces = []
        for _, idx in groups:
            sl = [slice(None)] * self.ndim
            sl[dim] = np.array(idx)
            pieces.append(np.asanyarray(aggregator.aggregate(np.ma.take(self.data, idx, axis=dim) if np.ma.isMaskedArray(
                self.data) else np.take(self.data, idx, axis=dim), axis=dim, **kwargs)))
        stack = np.ma.stack if any(np.ma.isMaskedArray(p) for p in pieces) else np.stack
        data = stack(pieces, axis=dim)
        new = Cube(data)
        new.metadata = self.metadata
        new.attributes = _copy.deepcopy(self.attributes)
        for c, cd in self._dim_pairs() + self._aux:
            if dim not in cd:
                (new.add_dim_coord(c.copy(), cd[0]) if any(c is x for x in self.dim_coords) else new.add_aux_coord(c.copy(), cd))
                continue
            if len(cd) > 1:
                raise ShimUnsupported("aggregated_by with multidim coord")
            if any(c is x for x in coords):
                pts = np.array([c.points[idx[0]] for _, idx in groups])
                bnds = None if not c.has_bounds() else np.array([c.bounds[idx[0]] for _, idx in groups])
            elif c.points.dtype.kind in "SU":
                pts = np.array(["|".join(str(c.points[i]) for i in idx) for _, idx in groups])
                bnds = None
            else:
                src = c.bounds if c.has_bounds() else c.points
                bnds = np.array([[src[idx].min(), src[idx].max()] for _, idx in groups])
                pts = (bnds.sum(axis=-1) * 0.5).astype(c.dtype)
            try:
                nc = DimCoord(pts, bounds=bnds)
            except ValueError:
                nc = AuxCoord(pts, bounds=bnds)
            nc.metadata = c.metadata
            nc.attributes = _copy.deepcopy(c.attributes)
            if isinstance(nc, DimCoord) and any(c is x for x in coords) and not new.coords(dimensions=dim, dim_coords=True):
                new.add_dim_coord(nc, dim)
            else:
                new.add_aux_coord(nc, (dim,))
        aggregator.update_metadata(new, coords, aggregate=True, **kwargs)
        return new

    def rolling_window(self, *a, **k):
        raise ShimUnsupported("Cube.rolling_window")

    def interpolate(self, sample_points, scheme, collapse_scalar=True):
        from iris import _interp

        return _interp.interpolate(self, sample_points, scheme, collapse_scalar)

    def regrid(self, grid, scheme):
        return scheme.regridder(self, grid)(self)

    # ------------------------------------------------------------- arithmetic
    def _binop(self, other, op, kind, in_place=False, reverse=False):
        from iris import _maths

        return _maths.apply(self, other, op, kind, in_place, reverse)

    def __add__(self, other):
        return self._binop(other, operator.add, "addsub")

    __radd__ = __add__

    def __iadd__(self, other):
        return self._binop(other, operator.add, "addsub", in_place=True)

    def __sub__(self, other):
        return self._binop(other, operator.sub, "addsub")

    def __rsub__(self, other):
        return (-self) + other

    def __isub__(self, other):
        return self._binop(other, operator.sub, "addsub", in_place=True)

    def __mul__(self, other):
        return self._binop(other, operator.mul, "mul")

    __rmul__ = __mul__

    def __imul__(self, other):
        return self._binop(other, operator.mul, "mul", in_place=True)

    def __truediv__(self, other):
        return self._binop(other, operator.truediv, "div")

    def __itruediv__(self, other):
        return self._binop(other, operator.truediv, "div", in_place=True)

    def __rtruediv__(self, other):
        new = self.copy(data=other / self.data)
        new.rename(None)
        new.units = self.units ** -1
        return new

    def __pow__(self, power):
        new = self.copy(data=self.data ** power)
        new.rename(None)
        new.units = self.units ** power
        return new

    def __neg__(self):
        new = self.copy(data=-self.data)
        return new

    def __abs__(self):
        return self.copy(data=abs(self.data))


def _orthogonal_coord(coord, keys):
    pts, bnds = coord.core_points(), coord.core_bounds()
    for ax in range(len(keys) - 1, -1, -1):
        pts = pts[(slice(None),) * ax + (keys[ax],)]
        if bnds is not None:
            bnds = bnds[(slice(None),) * ax + (keys[ax],)]
    if not _is_lazy(pts):
        masked = np.ma.isMaskedArray(pts)
        pts = np.ma.array(pts, ndmin=1) if masked else np.array(pts, ndmin=1)
    elif pts.ndim == 0:
        pts = pts[None]
    if bnds is not None and bnds.ndim == 1:
        bnds = bnds[None]
    return coord._clone(pts, bnds)
