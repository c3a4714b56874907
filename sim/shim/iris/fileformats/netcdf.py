"""iris.fileformats.netcdf (shim): CF-netCDF save and load on real netCDF4 files.

``STEP`` is the simulator's seam: when set, it is called with (point, filename, dataset-or-None) between the
individual operations of a save or a load and may raise (an I/O error, a simulated crash) or reschedule.
"""
import re

import dask.array as da
import netCDF4
import numpy as np
from cf_units import Unit

import iris.coord_systems as ics
from iris.coords import AuxCoord, CellMethod, DimCoord, _is_lazy, _real
from iris.exceptions import ShimUnsupported
from iris.util import guess_coord_axis

CF_CONVENTIONS_VERSION = "CF-1.7"
STEP = None
OPEN = []  # datasets created here and not yet closed (simulator bookkeeping)

_CF_ATTRS = {"add_offset", "ancillary_variables", "axis", "bounds", "calendar", "cell_measures", "cell_methods",
             "climatology", "compress", "coordinates", "_FillValue", "flag_masks", "formula_terms",
             "grid_mapping", "leap_month", "leap_year", "long_name", "missing_value", "month_lengths",
             "scale_factor", "standard_error_multiplier", "standard_name", "units", "valid_max", "valid_min", "valid_range"}


def _step(point, filename, ds=None):
    if STEP is not None:
        STEP(point, filename, ds)


def save(cube, filename, netcdf_format="NETCDF4", local_keys=None, unlimited_dimensions=None, zlib=False, complevel=4,
         shuffle=True, fletcher32=False, contiguous=False, chunksizes=None, endian="native", least_significant_digit=None,
         packing=None, fill_value=None):
    from iris.cube import Cube

    cubes = [cube] if isinstance(cube, Cube) else list(cube)
    if not cubes:
        raise ValueError("no cubes to save")
    local_keys = set() if local_keys is None else set(local_keys)
    common = set(cubes[0].attributes)
    for c in cubes[1:]:
        keys = set(c.attributes)
        local_keys |= keys ^ common
        common &= keys
        differ = {k for k in common if np.any(cubes[0].attributes[k] != c.attributes[k])}
        common -= differ
        local_keys |= differ
    filename = str(filename)
    _step("save:before-create", filename)
    ds = netCDF4.Dataset(filename, "w", format=netcdf_format)
    try:
        OPEN.append(ds)
        _step("save:created", filename, ds)
        state = {"names": {}, "dims": {}, "ds": ds, "gm": {}}
        for c in cubes:
            _write_cube(ds, state, c, local_keys, filename, dict(
                zlib=zlib, complevel=complevel, shuffle=shuffle, fletcher32=fletcher32, contiguous=contiguous,
                chunksizes=chunksizes, endian=endian, least_significant_digit=least_significant_digit), fill_value)
        _step("save:before-conventions", filename, ds)
        ds.setncattr("Conventions", CF_CONVENTIONS_VERSION)
        _step("save:before-close", filename, ds)
    except BaseException as exc:
        if getattr(exc, "is_sim_crash", False):
            raise  # a killed process closes nothing
        OPEN.remove(ds)
        ds.close()
        raise
    OPEN.remove(ds)
    ds.close()
    _step("save:closed", filename)


def _var_name(state, obj, kind="coord"):
    base = obj.var_name or (obj.standard_name or obj.long_name or "unknown").replace(" ", "_")
    base = re.sub(r"[^\w.\-+@]", "_", base)
    ds = state["ds"]
    name, n = base, 0
    while name in ds.variables or (kind == "coord-aux" and name in ds.dimensions and False):
        name = "%s_%d" % (base, n)
        n += 1
    return name


def _set_attrs(var, obj, skip=()):
    if obj.standard_name:
        var.setncattr("standard_name", str(obj.standard_name))
    if obj.long_name:
        var.setncattr("long_name", str(obj.long_name))
    if str(obj.units) != "unknown" and not obj.units.is_unknown():
        var.setncattr("units", str(obj.units))
        if obj.units.calendar:
            var.setncattr("calendar", str(obj.units.calendar))


def _ncval(value):
    if isinstance(value, str):
        return value
    if isinstance(value, (bool, np.bool_)):
        return np.int8(value)
    return value


def _write_coord(state, coord, dims, dim_names, is_dim):
    for (other, odims), name in state["names"].items():
        if odims == (dim_names, is_dim) and other[0] == coord:
            return name
    ds = state["ds"]
    if is_dim:
        name = dim_names[0]
    else:
        name = _var_name(state, coord, "coord-aux")
    pts = coord.points
    if pts.dtype.kind in "SU":
        width = max(1, max(len(str(p).encode()) for p in pts.flat))
        sdim = "string%d" % width
        if sdim not in ds.dimensions:
            ds.createDimension(sdim, width)
        shape = tuple(dim_names) + (sdim,)
        var = ds.createVariable(name, "S1", shape)
        _set_attrs(var, coord)
        arr = np.zeros(pts.shape + (width,), dtype="S1")
        for i in np.ndindex(*pts.shape):
            b = str(pts[i]).encode()
            for k in range(len(b)):
                arr[i + (k,)] = b[k:k + 1]
        var[:] = arr if dim_names else arr[0]
    else:
        var = ds.createVariable(name, pts.dtype.newbyteorder("="), tuple(dim_names))
        _set_attrs(var, coord)
        var[:] = pts if dim_names else pts[0]
        if coord.has_bounds():
            nb = coord.nbounds
            bd = "bnds" if nb == 2 else "bnds_%d" % nb
            if bd not in ds.dimensions:
                ds.createDimension(bd, nb)
            bname = name + "_bnds"
            var.setncattr("bounds", bname)
            bvar = ds.createVariable(bname, coord.bounds.dtype.newbyteorder("="), tuple(dim_names) + (bd,))
            bvar[:] = coord.bounds if dim_names else coord.bounds[0]
        ax = guess_coord_axis(coord)
        if is_dim and ax:
            var.setncattr("axis", ax)
    for k in sorted(coord.attributes):
        var.setncattr(k, _ncval(coord.attributes[k]))
    state["names"][((_Box(coord),), (dim_names, is_dim))] = name
    return name


class _Box:
    def __init__(self, coord):
        self.coord = coord

    def __eq__(self, other):
        return self.coord == getattr(other, "coord", other)

    def __hash__(self):
        return id(self)


def _write_cube(ds, state, cube, local_keys, filename, opts, fill_value):
    dim_names = []
    for d in range(cube.ndim):
        cs = cube.coords(dimensions=d, dim_coords=True)
        size = cube.shape[d]
        if cs:
            coord = cs[0]
            found = None
            for (other, key), name in state["names"].items():
                if key[1] and other[0] == coord:
                    found = name
            if found is None:
                base = coord.var_name or (coord.standard_name or coord.long_name or "unknown").replace(" ", "_")
                name, n = base, 0
                while name in ds.dimensions or name in ds.variables:
                    name = "%s_%d" % (base, n)
                    n += 1
                ds.createDimension(name, size)
                found = name
                _write_coord(state, coord, (d,), (name,), True)
            dim_names.append(found)
        else:
            name, n = "dim%d" % d, 0
            while name in ds.dimensions and ds.dimensions[name].size != size:
                name = "dim%d_%d" % (d, n)
                n += 1
            if name not in ds.dimensions:
                ds.createDimension(name, size)
            dim_names.append(name)
    _step("save:dims", filename, ds)
    aux_names = []
    for coord in sorted(cube.aux_coords, key=lambda c: c.name()):
        dims = cube.coord_dims(coord)
        aux_names.append(_write_coord(state, coord, dims, tuple(dim_names[d] for d in dims), False))
    _step("save:coords", filename, ds)
    gm_name = None
    cs = cube.coord_system()
    if cs is not None:
        gm_name = state["gm"].get(cs)
        if gm_name is None:
            gm_name, n = cs.grid_mapping_name, 0
            while gm_name in ds.variables:
                gm_name = "%s_%d" % (cs.grid_mapping_name, n)
                n += 1
            gv = ds.createVariable(gm_name, "i4", ())
            _write_gm(gv, cs)
            state["gm"][cs] = gm_name
    name = _var_name(state, cube)
    data = cube.core_data()
    lazy = _is_lazy(data)
    kw = dict(opts)
    if cube.ndim == 0:
        kw = dict(endian=kw["endian"], zlib=False)
    if kw.get("least_significant_digit") is None:
        kw.pop("least_significant_digit", None)
    dtype = cube.dtype.newbyteorder("=")
    if dtype.kind in "SU":
        raise ShimUnsupported("string data variable")
    var = ds.createVariable(name, dtype, tuple(dim_names), fill_value=fill_value, **kw)
    _step("save:var-created", filename, ds)
    if lazy:
        data = _real(data)
    if np.ma.isMaskedArray(data) and fill_value is None:
        data = np.ma.array(data, copy=True)
        data.set_fill_value(netCDF4.default_fillvals[dtype.str[1:]]) if dtype.str[1:] in netCDF4.default_fillvals else None
    if cube.ndim == 0:
        var[...] = data
    elif cube.shape[0] > 1 and STEP is not None:
        half = cube.shape[0] // 2
        var[:half] = data[:half]
        _step("save:data-half", filename, ds)
        var[half:] = data[half:]
    else:
        var[:] = data
    _step("save:data", filename, ds)
    _set_attrs(var, cube)
    if aux_names:
        var.setncattr("coordinates", " ".join(sorted(set(aux_names))))
    if gm_name:
        var.setncattr("grid_mapping", gm_name)
    if cube.cell_methods:
        parts = []
        for m in cube.cell_methods:
            coords = "".join("%s: " % _cm_name(cube, n, ds, dim_names) for n in m.coord_names)
            other = " ".join(["interval: %s" % i for i in m.intervals] + ["comment: %s" % c for c in m.comments])
            parts.append("%s%s%s" % (coords, m.method, " (%s)" % other if other else ""))
        var.setncattr("cell_methods", " ".join(parts))
    for k in sorted(cube.attributes):
        v = cube.attributes[k]
        if k == "Conventions":
            continue
        if k in local_keys:
            var.setncattr(k, _ncval(v))
        else:
            ds.setncattr(k, _ncval(v))
    _step("save:attrs", filename, ds)


def _cm_name(cube, name, ds, dim_names):
    return name


def _write_gm(gv, cs):
    gv.setncattr("grid_mapping_name", cs.grid_mapping_name)

    def ell(e):
        if e is None:
            return
        if e.semi_major_axis == e.semi_minor_axis:
            gv.setncattr("earth_radius", e.semi_major_axis)
        else:
            gv.setncattr("semi_major_axis", e.semi_major_axis)
            gv.setncattr("semi_minor_axis", e.semi_minor_axis)
        gv.setncattr("longitude_of_prime_meridian", e.longitude_of_prime_meridian)

    if isinstance(cs, ics.GeogCS):
        ell(cs)
        return
    ell(cs.ellipsoid)
    for k, v in cs.__dict__.items():
        if k != "ellipsoid" and v is not None:
            gv.setncattr(k, v)


def _read_gm(var):
    a = {k: var.getncattr(k) for k in var.ncattrs()}
    name = a.get("grid_mapping_name")
    e = None
    if "earth_radius" in a:
        e = ics.GeogCS(a["earth_radius"])
    elif "semi_major_axis" in a:
        e = ics.GeogCS(a["semi_major_axis"], a.get("semi_minor_axis"), a.get("inverse_flattening") if "semi_minor_axis" not in a else None)
    if name == "latitude_longitude":
        return e
    if name == "lambert_azimuthal_equal_area":
        return ics.LambertAzimuthalEqualArea(a.get("latitude_of_projection_origin", 0), a.get("longitude_of_projection_origin", 0),
                                             a.get("false_easting"), a.get("false_northing"), e)
    if name == "transverse_mercator":
        return ics.TransverseMercator(a["latitude_of_projection_origin"],
                                      a.get("longitude_of_central_meridian", a.get("longitude_of_projection_origin")),
                                      a.get("false_easting"), a.get("false_northing"), a.get("scale_factor_at_central_meridian"), e)
    if name == "rotated_latitude_longitude":
        return ics.RotatedGeogCS(a["grid_north_pole_latitude"], a["grid_north_pole_longitude"], a.get("north_pole_grid_longitude", 0), e)
    return None


class NetCDFDataProxy:
    """Deferred read that re-opens the file, like iris."""

    def __init__(self, shape, dtype, path, variable_name):
        self.shape, self.dtype, self.path, self.variable_name = shape, dtype, path, variable_name

    ndim = property(lambda self: len(self.shape))

    def __getitem__(self, keys):
        _step("load:lazy-read", self.path)
        ds = netCDF4.Dataset(self.path)
        try:
            var = ds.variables[self.variable_name]
            return np.asanyarray(var[keys])
        finally:
            ds.close()

    def __repr__(self):
        return "<NetCDFDataProxy %s %s>" % (self.path, self.variable_name)


_CM = re.compile(r"\s*(?P<names>(?:[\w%]+:\s+)*)(?P<method>[\w_]+(?:\s+(?!\w+:)[\w_]+)*)\s*(?:\((?P<extra>[^)]*)\))?")


def _parse_cell_methods(text):
    out = []
    pos = 0
    for m in re.finditer(r"((?:\w+:\s+)+)([^:()]+?)(?:\s*\(([^)]*)\))?(?=\s+\w+:\s|\s*$)", text):
        names = tuple(n.strip() for n in m.group(1).split(":") if n.strip())
        intervals, comments = [], []
        if m.group(3):
            bits = re.split(r"(interval:|comment:)", m.group(3))
            key = "comment:"
            for b in bits:
                if b in ("interval:", "comment:"):
                    key = b
                elif b.strip():
                    (intervals if key == "interval:" else comments).append(b.strip())
        out.append(CellMethod(m.group(2).strip(), names, tuple(intervals) or None, tuple(comments) or None))
    return tuple(out)


def _attr(v):
    if isinstance(v, np.ndarray) and v.shape == ():
        return v[()]
    return v


def _is_char(var):
    return var.dtype is str or (hasattr(var.dtype, "kind") and var.dtype.kind == "S")


def load_cubes(filename, callback=None):
    from iris.cube import Cube

    filename = str(filename)
    _step("load:before-open", filename)
    ds = netCDF4.Dataset(filename)
    try:
        out = []
        variables = ds.variables
        bounds_vars, coord_refs, gms = set(), set(), set()
        for name, v in variables.items():
            at = v.ncattrs()
            for key in ("bounds", "climatology"):
                if key in at:
                    bounds_vars.add(v.getncattr(key))
            if "coordinates" in at:
                coord_refs.update(str(v.getncattr("coordinates")).split())
            if "grid_mapping" in at:
                gms.add(v.getncattr("grid_mapping"))
        glob = {k: _attr(ds.getncattr(k)) for k in ds.ncattrs()}
        for name, v in variables.items():
            if name in bounds_vars or name in coord_refs or name in gms or name in ds.dimensions or "grid_mapping_name" in v.ncattrs():
                continue
            if _is_char(v):
                continue
            _step("load:variable", filename, ds)
            out.append(_build(Cube, ds, filename, name, v, glob))
        return out
    finally:
        ds.close()


def _read_coord(ds, name, cs_for, want_dim, data_dims):
    v = ds.variables[name]
    at = {k: _attr(v.getncattr(k)) for k in v.ncattrs()}
    if _is_char(v):
        raw = np.ma.getdata(v[...])
        if raw.dtype.kind == "S" and v.ndim and v.dimensions and v.dimensions[-1].startswith("string"):
            pts = np.array(["".join(x.decode() for x in row.tolist()).rstrip("\x00 ") for row in raw.reshape(-1, raw.shape[-1])])
            pts = pts.reshape(raw.shape[:-1])
            dims = v.dimensions[:-1]
        else:
            pts, dims = np.asarray(raw), v.dimensions
    else:
        pts = v[...]
        if not np.ma.is_masked(pts):
            pts = np.ma.getdata(pts)
        dims = v.dimensions
    bounds = None
    bkey = at.get("bounds") or at.get("climatology")
    if bkey and bkey in ds.variables:
        bounds = np.ma.getdata(ds.variables[bkey][...])
    units = str(at.get("units", "1" if False else "unknown"))
    if _is_char(v) and "units" not in at:
        units = "no_unit"
    unit = Unit(units, calendar=at.get("calendar")) if at.get("calendar") else Unit(units)
    attrs = {k: x for k, x in at.items() if k not in _CF_ATTRS}
    std, long = at.get("standard_name"), at.get("long_name")
    from iris._meta import check_standard_name

    try:
        check_standard_name(std)
    except ValueError:
        attrs["invalid_standard_name"] = std
        std = None
    kw = dict(standard_name=std, long_name=long, var_name=name, units=unit, attributes=attrs)
    proj = std in ("projection_x_coordinate", "projection_y_coordinate", "longitude", "latitude", "grid_longitude", "grid_latitude")
    if proj:
        kw["coord_system"] = cs_for
    pts = np.array(pts, ndmin=1) if not np.ma.isMaskedArray(pts) else np.ma.array(pts, ndmin=1)
    if bounds is not None and bounds.ndim == 1:
        bounds = bounds[None]
    if want_dim or not dims:
        try:
            return DimCoord(pts, bounds=bounds, **kw), dims
        except (ValueError, TypeError):
            pass
    return AuxCoord(pts, bounds=bounds, **kw), dims


def _build(Cube, ds, filename, name, v, glob):
    at = {k: _attr(v.getncattr(k)) for k in v.ncattrs()}
    proxy = NetCDFDataProxy(tuple(v.shape), v.dtype, filename, name)
    meta = np.ma.masked_array(np.empty((0,) * v.ndim, dtype=v.dtype), mask=True) if v.ndim else None
    if v.ndim:
        data = da.from_array(proxy, chunks=proxy.shape, asarray=False, lock=False, meta=meta, name=False)
    else:
        data = da.from_array(proxy, chunks=(), asarray=False, lock=False, name=False, meta=np.ma.masked_array(np.empty((), dtype=v.dtype)))
    cube = Cube(data)
    attrs = dict(glob)
    attrs.update({k: x for k, x in at.items() if k not in _CF_ATTRS})
    std = at.get("standard_name")
    try:
        cube.standard_name = std
    except ValueError:
        attrs["invalid_standard_name"] = std
    cube.long_name = at.get("long_name")
    cube.var_name = name
    units = at.get("units", "unknown")
    try:
        cube.units = Unit(str(units), calendar=at.get("calendar")) if at.get("calendar") else str(units)
    except ValueError:
        attrs["invalid_units"] = units
        cube.units = "unknown"
    if "cell_methods" in at:
        cube.cell_methods = _parse_cell_methods(at["cell_methods"])
    cube.attributes = attrs
    cs = None
    if "grid_mapping" in at and at["grid_mapping"] in ds.variables:
        cs = _read_gm(ds.variables[at["grid_mapping"]])
    for d, dim in enumerate(v.dimensions):
        if dim in ds.variables and ds.variables[dim].dimensions == (dim,):
            coord, _ = _read_coord(ds, dim, cs, True, (d,))
            if isinstance(coord, DimCoord):
                cube.add_dim_coord(coord, d)
            else:
                cube.add_aux_coord(coord, (d,))
    for cname in str(at.get("coordinates", "")).split():
        if cname not in ds.variables:
            continue
        coord, dims = _read_coord(ds, cname, cs, False, None)
        cube.add_aux_coord(coord, tuple(v.dimensions.index(x) for x in dims))
    return cube
