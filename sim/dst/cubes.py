"""Small cubes for file and command simulations, built from a JSON-able specification."""
import datetime as _dt

import numpy as np

_cache = {}


def spec_random(rng, big=False):
    kind = rng.choice(["var", "var", "ens", "prob", "perc", "scalar", "int", "list"])
    return {"kind": kind, "n": rng.choice([2, 3, 5]) if not big else rng.choice([3, 8]), "tag": rng.randrange(1, 10 ** 6),
            "mask": rng.random() < 0.3, "attrs": rng.randrange(4), "cm": rng.randrange(3)}


def make(spec):
    """Cube (or CubeList for kind 'list') for the spec."""
    from iris.cube import CubeList

    if spec["kind"] == "list":
        a = dict(spec, kind="var")
        b = dict(spec, kind="ens", tag=spec["tag"] + 7, attrs=(spec["attrs"] + 1) % 4)
        cb = make(b)
        cb.rename("relative_humidity")
        cb.units = "1"
        return CubeList([make(a), cb])
    from iris.coords import CellMethod
    from improver.synthetic_data import set_up_test_cubes as su

    n, tag, kind = spec["n"], spec["tag"], spec["kind"]
    base = np.arange(n * (n + 1), dtype=np.float32).reshape(n, n + 1) / 8 + np.float32(tag % 100000)
    kw = dict(time=_dt.datetime(2024, 1, 2, spec.get("hour", 6)), frt=_dt.datetime(2024, 1, 2, spec.get("cycle", 0)))
    if kind in ("var", "scalar"):
        c = su.set_up_variable_cube(base, name=spec.get("name", "air_temperature"), units=spec.get("units", "K"), **kw)
        if kind == "scalar":
            c = c[0]
    elif kind == "ens":
        c = su.set_up_variable_cube(np.stack([base, base + 1, base + 2]), name="air_temperature", units="K", **kw)
    elif kind == "prob":
        d = np.clip((base - base.min()) / 40, 0, 1).astype(np.float32)
        c = su.set_up_probability_cube(np.stack([1 - d * 0, 1 - d / 2, 1 - d]).astype(np.float32), np.array([270, 280, 290 + tag % 13], np.float32), **kw)
    elif kind == "perc":
        c = su.set_up_percentile_cube(np.stack([base, base + 1, base + 2]), np.array([10, 50, 90], np.float32), **kw)
    elif kind == "int":
        c = su.set_up_variable_cube(base, name="weather_code", units="1", **kw)
        c.data = (c.data % 31).astype(np.int32)
    if spec["mask"]:
        m = np.zeros(c.shape, bool)
        m.flat[:: max(2, tag % 5 + 2)] = True
        c.data = np.ma.masked_array(c.data, m)
    c.attributes["tag"] = str(tag)
    if spec["attrs"] >= 1:
        c.attributes["title"] = "title %d" % (tag % 7)
        c.attributes["source"] = "IMPROVER"
    if spec["attrs"] >= 2:
        c.attributes["mosg__model_configuration"] = "uk_ens"
        c.attributes["number"] = np.int32(tag % 11)
    if spec["attrs"] >= 3:
        c.attributes["levels"] = np.array([1, 2, tag % 5], np.int32)
        c.attributes["history"] = "made %d" % tag
    if spec["cm"] >= 1:
        c.add_cell_method(CellMethod("mean", coords="time"))
    if spec["cm"] >= 2:
        c.add_cell_method(CellMethod("maximum", coords="realization", comments="of %s" % c.name()))
    return c


def nc_dump(path):
    """Everything a netCDF file stores, as plain comparable data."""
    import netCDF4

    ds = netCDF4.Dataset(path, "r")
    try:
        ds.set_auto_maskandscale(False)
        return _dump_group(ds)
    finally:
        ds.close()


def _v(a):
    if isinstance(a, np.ndarray):
        return (str(a.dtype), a.shape, a.tobytes() if a.dtype.kind != "O" else repr(a.tolist()))
    if isinstance(a, np.generic):
        return (str(a.dtype), repr(a.item()))
    return repr(a)


def _dump_group(g):
    out = {"dims": {k: (len(d), d.isunlimited()) for k, d in g.dimensions.items()},
           "attrs": {k: _v(g.getncattr(k)) for k in g.ncattrs()}, "vars": {}, "groups": {k: _dump_group(x) for k, x in g.groups.items()}}
    for k, v in g.variables.items():
        data = v[...]
        out["vars"][k] = (str(v.dtype), v.dimensions, {a: _v(v.getncattr(a)) for a in v.ncattrs()}, _v(np.asarray(data)))
    return out
