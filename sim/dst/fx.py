"""Cubes for simulated forecasts, built directly (not with improver's own test-data helpers)."""
import numpy as np

HOUR = 3600
DAY = 24 * HOUR
T0 = 1704153600  # 2024-01-02 00:00 UTC
EPOCH = "seconds since 1970-01-01 00:00:00"
ATTRS = {"title": "MOGREPS-UK Model Forecast on UK 2 km Standard Grid", "source": "IMPROVER", "institution": "Met Office"}


def laea():
    from improver.synthetic_data import set_up_test_cubes as su
    from iris.coord_systems import GeogCS, LambertAzimuthalEqualArea

    return LambertAzimuthalEqualArea(latitude_of_projection_origin=54.9, longitude_of_projection_origin=-2.5, false_easting=0.0, false_northing=0.0,
                                     ellipsoid=GeogCS(semi_major_axis=6378137.0, semi_minor_axis=6356752.314140356))


def geog():
    from iris.coord_systems import GeogCS

    return GeogCS(6371229.0)


def threshold_coord(name, points, units, rel="greater_than"):
    from iris.coords import DimCoord

    c = DimCoord(np.asarray(points, np.float32), units=units, attributes={"spp__relative_to_threshold": rel})
    c.rename(name)
    c.var_name = "threshold"
    return c


def dim(name, points, **k):
    """A dimension coordinate in IMPROVER's standard form."""
    from iris.coords import DimCoord

    if name == "realization":
        return DimCoord(np.asarray(points, np.int32), standard_name="realization", units="1")
    if name == "percentile":
        return DimCoord(np.asarray(points, np.float32), long_name="percentile", units="%")
    if name in ("time", "forecast_reference_time"):
        return DimCoord(np.asarray(points, np.int64), standard_name=name, units=EPOCH, **k)
    if name == "forecast_period":
        return DimCoord(np.asarray(points, np.int32), standard_name=name, units="seconds", **k)
    if name == "height":
        return DimCoord(np.asarray(points, np.float32), standard_name="height", units="m", attributes={"positive": "up"})
    raise KeyError(name)


def xy(ny, nx, latlon=False, step=2000.0, x0=0.0, y0=0.0):
    from iris.coords import DimCoord

    if latlon:
        y = DimCoord(np.linspace(-20 + y0, 20 + y0, ny).astype(np.float32), "latitude", units="degrees", coord_system=geog())
        x = DimCoord(np.linspace(-30 + x0, 30 + x0, nx).astype(np.float32), "longitude", units="degrees", coord_system=geog())
    else:
        cs = laea()
        y = DimCoord((y0 + step * np.arange(ny)).astype(np.float32), "projection_y_coordinate", units="m", coord_system=cs)
        x = DimCoord((x0 + step * np.arange(nx)).astype(np.float32), "projection_x_coordinate", units="m", coord_system=cs)
    return y, x


def cube(data, lead=(), name="air_temperature", units="K", time=T0 + 6 * HOUR, frt=T0, bounds=None, attrs=None, latlon=False, grid=None, aux=(), cell_methods=()):
    """lead: coordinates of the leading dimensions, e.g. dim("realization", [0, 1]); a leading time carries a forecast period.
    time and frt are scalars unless a dimension of theirs leads.  aux: (coordinate, dims)."""
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    data = np.ma.array(data) if np.ma.isMaskedArray(data) else np.asarray(data)
    if grid is None:
        grid = xy(data.shape[-2], data.shape[-1], latlon)
    c = Cube(data, units=units, dim_coords_and_dims=[(d, i) for i, d in enumerate(lead)] + [(grid[0], data.ndim - 2), (grid[1], data.ndim - 1)])
    c.rename(name)
    names = [d.name() for d in lead]
    if "time" in names:
        i = names.index("time")
        if frt is not None and "forecast_reference_time" not in names:
            c.add_aux_coord(DimCoord(np.int64(frt), "forecast_reference_time", units=EPOCH))
            tb = lead[i].bounds
            c.add_aux_coord(AuxCoord((lead[i].points - frt).astype(np.int32), "forecast_period", units="seconds", bounds=None if tb is None else (tb - frt).astype(np.int32)), i)
    elif "forecast_reference_time" in names:
        i = names.index("forecast_reference_time")
        c.add_aux_coord(DimCoord(np.int64(time), "time", units=EPOCH))
        c.add_aux_coord(AuxCoord((time - lead[i].points).astype(np.int32), "forecast_period", units="seconds"), i)
    elif time is not None:
        b = None if bounds is None else np.asarray(bounds, np.int64)
        c.add_aux_coord(DimCoord(np.int64(time), "time", units=EPOCH, bounds=b))
        if frt is not None:
            c.add_aux_coord(DimCoord(np.int64(frt), "forecast_reference_time", units=EPOCH))
            c.add_aux_coord(DimCoord(np.int32(time - frt), "forecast_period", units="seconds", bounds=None if b is None else (b - frt).astype(np.int32)))
    for a, d in aux:
        c.add_aux_coord(a, d)
    for m in cell_methods:
        c.add_cell_method(m)
    c.attributes.update(ATTRS if attrs is None else attrs)
    return c


def prob(data, thresholds, name="air_temperature", tunits="K", rel="greater_than", **k):
    side = "above" if "greater" in rel else "below"
    return cube(data, [threshold_coord(name, thresholds, tunits, rel)] + list(k.pop("lead", ())), name="probability_of_%s_%s_threshold" % (name, side), units="1", **k)


def field(rng, shape, lo=0.0, hi=1.0, ties=None, dtype=np.float32):
    """Seeded values; ties: number of distinct values."""
    n = int(np.prod(shape))
    if ties:
        v = [lo + (hi - lo) * rng.randrange(ties) / max(1, ties - 1) for _ in range(n)]
    else:
        v = [rng.uniform(lo, hi) for _ in range(n)]
    return np.array(v, dtype).reshape(shape)


def mask_of(rng, shape, p):
    return np.array([rng.random() < p for _ in range(int(np.prod(shape)))], bool).reshape(shape)


def gone(c):
    """(name, dims, points, bounds) of every coordinate, for comparisons that ignore order."""
    return sorted((x.name(), c.coord_dims(x), x.points.tolist(), None if x.bounds is None else x.bounds.tolist()) for x in c.coords())
