"""C03: saving and loading as histories, refined against a model mapping each path to what was last saved there."""
import copy
import os
import pathlib
import random

import numpy as np

from .. import canon, cubes
from ..core import Violation, unsupported, where
from ..disk import Disk

RUNS = {"quick": 360, "thorough": 60000}
BATCH = 15
TECHNIQUE = "seeded histories of saves, overwrites, loads, deferred reads and disk faults on a few paths, refined against a model that maps each path to the cubes last saved there"
RULE = ("Each run is a history of 4-14 operations on 1-4 paths: saving new, reloaded, modified or already saved cubes (one or several, any layout) with seeded compression and precision, "
        "loading all or by name at once or deferred, reading deferred data later, changing loaded cubes and saving them back over their own file, saves that must be rejected, disk errors at seeded steps, process restarts.")
STATE_MEASURE = "hash of (operation, options, kind of cubes, what the path held)"
REAL = ["improver.utilities.save", "improver.utilities.load", "improver.metadata.check_datatypes", "netCDF4/HDF5 files"]
STUB = ["iris netCDF saver and loader (stand-in on real netCDF4)", "disk faults"]
PATHS = ["a.nc", "a.nc.tmp", "sub/a.nc", "b"]
KINDS = ["var", "ens", "prob", "perc", "int", "scalar", "ens4", "prob4", "spot", "flipped", "tail", "bounds", "point", "probtime", "perctime"]


def prepare():
    import improver.spotdata.build_spotdata_cube  # noqa: F401
    import improver.synthetic_data.set_up_test_cubes  # noqa: F401
    import improver.utilities.load  # noqa: F401
    import improver.utilities.save  # noqa: F401


# ------------------------------------------------------------------ plans
def item(rng):
    return {"kind": rng.choice(KINDS), "n": rng.choice([1, 2, 3, 5]), "tag": rng.randrange(1, 10 ** 6), "mask": rng.random() < 0.25, "odd": rng.random() < 0.15,
            "attrs": rng.randrange(4), "cm": rng.randrange(4), "lazy": rng.random() < 0.25, "stale": rng.random() < 0.2, "mosg": rng.random() < 0.3}


def options(rng):
    o = {}
    if rng.random() < 0.5:
        o["compression_level"] = rng.choice([0, 1, 4, 9])
    if rng.random() < 0.35:
        o["least_significant_digit"] = rng.choice([0, 1, 2, 3, 5])
    return o


def generate(rng, idx, tier):
    paths = rng.sample(PATHS, rng.choice([1, 2, 3, 4]))
    ops = []
    for _ in range(rng.choice([4, 7, 10, 14])):
        r = rng.random()
        p = rng.choice(paths)
        if r < 0.34 or not ops:
            ops.append({"op": "save", "path": p, "items": [item(rng) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))], "single": rng.random() < 0.7, "as": rng.choice(["str", "str", "Path"]), "form": rng.choice(["CubeList", "list", "tuple"])})
            ops[-1]["opts"] = options(rng)
        elif r < 0.52:
            ops.append({"op": "load", "path": p, "now": rng.random() < 0.4, "one": rng.random() < 0.4, "name": rng.random() < 0.25, "listed": rng.random() < 0.3, "pick": rng.randrange(100)})
        elif r < 0.62:
            ops.append({"op": "read", "pick": rng.randrange(100)})
        elif r < 0.78:
            ops.append({"op": "modify", "pick": rng.randrange(100), "how": rng.sample(["data", "attr", "unattr", "cm", "mask", "lazydata", "rename", "inplace", "globalattr"], rng.choice([1, 1, 2])), "to": rng.choice(["same", "same", "same", p]), "opts": options(rng)})
        elif r < 0.87:
            ops.append({"op": "again", "pick": rng.randrange(100), "path": p, "opts": options(rng)})
        elif r < 0.95:
            ops.append({"op": "reject", "path": p, "items": [item(rng) for _ in range(rng.choice([1, 2]))], "why": rng.choice(["float64", "units", "level", "time", "nothing"]), "at": rng.randrange(2)})
        else:
            ops.append({"op": "restart"})
        if ops[-1]["op"] in ("save", "modify", "again", "load", "read") and rng.random() < 0.15:
            ops[-1]["fault"] = [rng.randrange(1, 14), rng.choice(["ENOSPC", "EIO", "EACCES"])]
    ops.append({"op": "restart"})
    if any("least_significant_digit" in o.get("opts", {}) for o in ops):
        for o in ops:
            for it in o.get("items", []):
                it["odd"] = False  # rounding of NaN is netCDF's business
    return {"paths": paths, "ops": ops}


def shrink(p):
    o = p["ops"]
    for i in range(len(o)):
        if len(o) > 1:
            yield dict(p, ops=o[:i] + o[i + 1:])
    for i, x in enumerate(o):
        def put(y):
            return dict(p, ops=o[:i] + [y] + o[i + 1:])
        if "fault" in x:
            yield put({k: v for k, v in x.items() if k != "fault"})
        for k in list(x.get("opts", {})):
            yield put(dict(x, opts={a: b for a, b in x["opts"].items() if a != k}))
        for j in range(len(x.get("items", []))):
            if len(x["items"]) > 1:
                yield put(dict(x, items=x["items"][:j] + x["items"][j + 1:]))
            it = x["items"][j]
            for k, v in (("mask", False), ("odd", False), ("attrs", 0), ("cm", 0), ("lazy", False), ("stale", False), ("mosg", False), ("kind", "var")):
                if it[k] != v:
                    yield put(dict(x, items=x["items"][:j] + [dict(it, **{k: v})] + x["items"][j + 1:]))
        for j in range(len(x.get("how", []))):
            if len(x["how"]) > 1:
                yield put(dict(x, how=x["how"][:j] + x["how"][j + 1:]))


# ------------------------------------------------------------------ cubes
def make(it, j):
    """A cube for the item; j keeps the names of one save's cubes apart."""
    import datetime as dt

    import iris
    from iris.coords import AuxCoord, CellMethod

    from improver.synthetic_data import set_up_test_cubes as su

    k, n, tag = it["kind"], it["n"], it["tag"]
    if k in ("var", "ens", "prob", "perc", "int", "scalar"):
        c = cubes.make({"kind": k, "n": max(n, 2), "tag": tag, "mask": False, "attrs": 0, "cm": 0})
    else:
        ny, nx = n, n + 2
        base = (np.arange(ny * nx, dtype=np.float32).reshape(ny, nx) / 8 + np.float32(tag % 1000)).astype(np.float32)
        kw = dict(time=dt.datetime(2024, 1, 2, 6), frt=dt.datetime(2024, 1, 2, 0))
        if k == "point":
            c = su.set_up_variable_cube(base, **kw)[0, 0]
        elif k == "ens4":
            cs = iris.cube.CubeList()
            for t in range(2):
                cs.append(su.set_up_variable_cube(np.stack([base + t, base + 1]), time=dt.datetime(2024, 1, 2, 6 + t), frt=kw["frt"]))
            c = cs.merge_cube()
        elif k == "prob4":
            p = np.stack([base * 0 + 0.75, base * 0 + 0.25]).astype(np.float32)
            cs = iris.cube.CubeList()
            for r in range(3):
                x = su.set_up_probability_cube(p / (r + 1), np.array([270, 280 + tag % 7], np.float32), **kw)
                x.add_aux_coord(iris.coords.DimCoord(np.int32(r), "realization", units="1"))
                cs.append(x)
            c = cs.merge_cube()
            if tag % 2:
                c.transpose([1, 3, 0, 2])
        elif k in ("probtime", "perctime"):
            cs = iris.cube.CubeList()
            for t in range(2):
                kt = dict(time=dt.datetime(2024, 1, 2, 6 + t), frt=kw["frt"])
                if k == "probtime":
                    cs.append(su.set_up_probability_cube(np.stack([base * 0 + 0.75, base * 0 + np.float32(0.25 / (t + 1))]).astype(np.float32), np.array([270, 280 + tag % 7], np.float32), **kt))
                else:
                    cs.append(su.set_up_percentile_cube(np.stack([base, base + 2 + t]), np.array([20, 80], np.float32), **kt))
            c = cs.merge_cube()
        elif k == "spot":
            from improver.spotdata.build_spotdata_cube import build_spotdata_cube

            m = n + 1
            c = build_spotdata_cube(base.ravel()[:m].astype(np.float32), "air_temperature", "K", np.arange(m, dtype=np.float32), np.arange(m, dtype=np.float32) + 50,
                                    np.arange(m, dtype=np.float32) * 2, ["%05d" % (i + tag % 100) for i in range(m)])
            c.add_aux_coord(AuxCoord(np.int64(1704175200), "time", units="seconds since 1970-01-01 00:00:00"))
        elif k == "flipped":
            c = su.set_up_variable_cube(np.stack([base, base + 2, base * 2]), **kw)
            c.transpose([2, 0, 1])
        elif k == "tail":
            c = su.set_up_percentile_cube(np.stack([base, base + 2]), np.array([20, 80], np.float32), **kw)
            c.transpose([1, 2, 0])
        else:
            c = su.set_up_variable_cube(base, time_bounds=[dt.datetime(2024, 1, 2, 3), dt.datetime(2024, 1, 2, 6)], **kw)
            if not c.coord(axis="x").has_bounds():
                c.coord(axis="x").guess_bounds()
            c.add_aux_coord(AuxCoord(np.arange(ny, dtype=np.int32), long_name="row", units="1", attributes={"of": "rows"}), 0)
            c.add_aux_coord(AuxCoord((base * 2).astype(np.float32), long_name="height_field", units="m"), (0, 1))
    if j:
        if not k.startswith(("prob",)):
            c.rename("field %d" % j)
        else:
            c.rename(c.name() + "_%d" % j)
    d = np.array(c.data)
    if it["odd"] and d.dtype.kind == "f":
        d.flat[0] = np.nan
        d.flat[-1] = -0.0 if tag % 2 else np.inf
    if it["mask"] and d.ndim:
        m = np.zeros(d.shape, bool)
        m.flat[tag % 2:: 2 + tag % 3] = True
        d = np.ma.masked_array(d, m)
    c.data = d
    c.attributes["tag"] = "t%d" % tag
    if it["attrs"] >= 1:
        c.attributes["title"] = "title %d" % (tag % 7)
        c.attributes["source"] = "IMPROVER"
        c.attributes["grid_id"] = "g"
    if it["attrs"] >= 2:
        c.attributes["number"] = np.int32(tag % 11)
        c.attributes["institution"] = "here"
    if it["attrs"] >= 3:
        c.attributes["levels"] = np.array([1, 2, tag % 5], np.int32)
        c.attributes["history"] = "made %d" % tag
        c.attributes["um_version"] = "11.%d" % (tag % 4)
    if it["mosg"]:
        c.attributes["mosg__model_configuration"] = ("uk_ens", "uk_det")[tag % 2]
    if it["cm"] >= 1:
        c.add_cell_method(CellMethod("mean", coords="time"))
    if it["cm"] >= 2:
        c.add_cell_method(CellMethod("maximum", coords="realization", comments="of %s" % c.name().replace("_", " ")))
    if it["cm"] >= 3:
        c.add_cell_method(CellMethod("sum", coords="height", intervals="1 hour"))
    if it["stale"]:
        c.attributes["least_significant_digit"] = np.int64(tag % 4)
    if it["lazy"]:
        make_lazy(c)
    return c


def make_lazy(c):
    import dask.array as da

    d = c.data
    if d.ndim and d.size:
        c.data = da.from_array(d, chunks=tuple([1] + list(d.shape[1:])), asarray=False, name=False)


# ------------------------------------------------------------------ the model
def value(v):
    """An attribute value as a file keeps it."""
    if isinstance(v, (str, np.str_)):
        return str(v)
    a = np.asarray(v)
    if a.dtype.kind == "b":
        a = a.astype(np.int8)
    if a.shape in ((), (1,)):
        return ("n", a.dtype.kind, a.reshape(-1)[0].item())
    return ("a", a.dtype.kind, tuple(a.ravel().tolist()))


ORDER = ["realization", "percentile", "threshold"]


def describe(c, data=True):
    """What a file keeps of a cube, independent of the order of its dimensions: dimensions are sent to the documented order."""
    names = []
    for d in range(c.ndim):
        cs = c.coords(dimensions=d, dim_coords=True)
        names.append(cs[0] if cs else None)

    def rank(co):
        if co is None:
            return None
        nm = co.name() if co.var_name != "threshold" else "threshold"
        return nm

    first, mid, last = [], [], {}
    ax = {}
    for a in ("y", "x"):
        co = c.coords(axis=a, dim_coords=True)
        if co and c.coord_dims(co[0]):
            ax[c.coord_dims(co[0])[0]] = a
        else:
            dims = {c.coord_dims(q) for q in c.coords(axis=a)}
            for dd in dims:
                if len(dd) == 1:
                    ax.setdefault(dd[0], a)
    for want in ORDER:
        for d, co in enumerate(names):
            if rank(co) == want:
                first.append(d)
    for d in range(c.ndim):
        if d in first:
            continue
        if d in ax:
            last.setdefault(ax[d], d)
            if last[ax[d]] != d:
                mid.append(d)
        else:
            mid.append(d)
    perm = first + mid + [last[a] for a in ("y", "x") if a in last]
    coords = []
    for co in c.coords():
        dims = tuple(perm.index(d) for d in c.coord_dims(co))
        pts, bnd = np.array(co.points), None if co.bounds is None else np.array(co.bounds)
        if len(dims) == 2 and dims[0] > dims[1]:
            dims = dims[::-1]
            pts = pts.T
            bnd = bnd if bnd is None else bnd.transpose(1, 0, 2)
        coords.append((co.name(), dims, co.standard_name, co.long_name, str(co.units), co.var_name if co.var_name == "threshold" else None,
                       tuple((k, value(v)) for k, v in sorted(co.attributes.items())), repr(co.coord_system), pts, bnd))
    coords.sort(key=lambda t: (t[0], t[1]))
    out = {"name": (c.standard_name, c.long_name), "units": str(c.units), "coords": coords,
           "cm": sorted(str(m) for m in c.cell_methods), "attrs": {k: value(v) for k, v in c.attributes.items() if k not in ("Conventions", "least_significant_digit")},
           "shape": tuple(c.shape[d] for d in perm), "dtype": str(c.dtype), "layout": perm}
    if data:
        out["data"] = np.ma.array(c.data, copy=True).transpose(perm) if c.ndim else np.ma.array(c.data, copy=True)
    return out


def tag_of(c):
    return str(c.attributes.get("tag"))


def compare(desc, want, c, lsd, data=True):
    got = describe(c, data)
    for k in ("name", "units", "shape", "dtype", "cm"):
        if got[k] != want[k]:
            raise Violation("loaded-" + k, "%s: %s is %s instead of %s" % (desc, k, got[k], want[k]))
    if got["layout"] != sorted(got["layout"]):
        raise Violation("loaded-layout", "%s: dimensions are ordered %s" % (desc, [x.name() for x in c.coords(dim_coords=True)]))
    if got["attrs"] != want["attrs"]:
        raise Violation("loaded-attributes", "%s: attributes %s instead of %s" % (desc, got["attrs"], want["attrs"]))
    prec = c.attributes.get("least_significant_digit")
    if (prec is not None and (lsd is None or int(prec) != lsd)) or (prec is None and lsd is not None and c.ndim and want["dtype"] == "float32"):
        raise Violation("loaded-precision", "%s: marked as having precision %s, saved with %s" % (desc, prec, lsd))
    a, b = got["coords"], want["coords"]
    if [x[:2] for x in a] != [x[:2] for x in b]:
        raise Violation("loaded-coords", "%s: coordinates %s instead of %s" % (desc, [x[:2] for x in a], [x[:2] for x in b]))
    for x, y in zip(a, b):
        if x[2:8] != y[2:8]:
            raise Violation("loaded-coords", "%s: coordinate %s is %s instead of %s" % (desc, x[0], x[2:8], y[2:8]))
        for p, q, what in ((x[8], y[8], "points"), (x[9], y[9], "bounds")):
            if (p is None) != (q is None) or (p is not None and (p.shape != q.shape or p.dtype.kind != q.dtype.kind or (p.dtype.kind != "U" and p.dtype != q.dtype) or not np.array_equal(p, q))):
                raise Violation("loaded-coords", "%s: %s of %s are %s instead of %s" % (desc, what, x[0], p, q))
    if data:
        same_data(desc, want["data"], got["data"], lsd)


def same_data(desc, want, got, lsd):
    mw, mg = np.ma.getmaskarray(want), np.ma.getmaskarray(got)
    if not np.array_equal(mw, mg):
        raise Violation("loaded-mask", "%s: %d points masked instead of %d" % (desc, mg.sum(), mw.sum()))
    w, g = np.ma.getdata(want)[~mw].astype(np.float64), np.ma.getdata(got)[~mw].astype(np.float64)
    tol = 0.0
    fin = np.isfinite(w)
    if not np.array_equal(fin, np.isfinite(g)) or not np.array_equal(w[~fin], g[~fin], equal_nan=True):
        raise Violation("loaded-values", "%s: not finite values differ" % desc)
    if lsd is not None:
        tol = 0.5001 * 10.0 ** -lsd + 1e-6 * np.abs(w[fin])
    bad = np.abs(w[fin] - g[fin]) > tol
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("loaded-values", "%s: %d of %d values differ, first %r instead of %r (precision %s)" % (desc, bad.sum(), bad.size, g[fin][i], w[fin][i], lsd))


def snapshot(c):
    d = describe(c, False)
    return d, canon.canon(c) if not c.has_lazy_data() else None


class World:
    def __init__(self):
        self.touched = ()
        self.files = {}    # path -> (version, [(description, lsd)], opts)
        self.version = 0
        self.held = []     # loaded cubes: dict(cube, path, version, want, lsd)
        self.objects = []  # cubes that were saved: dict(cube, want)


def execute(plan, st):
    random.seed(1)
    disk = Disk(st, prefix="dst-c03-")
    disk.stable = PATHS
    w = World()
    with disk:
        with disk.pause():
            os.mkdir(os.path.join(disk.root, "sub"))
        for i, op in enumerate(plan["ops"]):
            st.op(op["op"])
            disk.step = 0
            disk.faults, disk.fired = {}, []
            if "fault" in op:
                disk.faults = {op["fault"][0]: ["error", op["fault"][1]]}
            desc = "operation %d (%s %s)" % (i, op["op"], op.get("path", ""))
            globals()["do_" + op["op"]](desc, op, w, disk, st)
            disk.faults = {}
            if op["op"] in ("save", "modify", "again", "reject"):
                check_all(desc, w, disk, st, w.touched)


def path_of(disk, p, kind="str"):
    q = os.path.join(disk.root, p)
    return pathlib.Path(q) if kind == "Path" else q


def kindname(it):
    return "-".join(it["kind"] for it in it)


def save(desc, given, items, path, opts, w, disk, st, kind="str", src=None):
    """Save and update the model; items are the cubes inside `given`."""
    from improver.utilities.save import save_netcdf

    befores, wants = [], []
    with disk.pause():
        for c in items:
            befores.append(snapshot(c))
            wants.append(describe(c.copy()))
    held = path in w.files
    w.touched = (path,)
    err = None
    try:
        save_netcdf(given, path_of(disk, path, kind), **opts)
    except Exception as e:
        if unsupported(e):
            raise
        err = e
    if disk.fired:
        if err is None:
            raise Violation("failure-lost", "%s: the disk failed at %s but the save returned" % (desc, disk.fired))
        st.probe("failed-saves")
    elif err is not None:
        raise Violation("save-failed", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)))
    with disk.pause():
        for c, (b, full), want in zip(items, befores, wants):
            unchanged(desc, c, b, full, want)
    if err is None:
        w.version += 1
        w.files[path] = (w.version, [(x, opts.get("least_significant_digit")) for x in wants])
        for c, x in zip(items, wants):
            w.objects.append({"cube": c, "want": x, "src": src})
        # what is still unread of the replaced file is no longer to be had
        w.objects = [o for o in w.objects if o["src"] != path or not o["cube"].has_lazy_data()][-6:]
        st.probe("good-saves")
    st.state("save", len(items), sorted(opts.items()), held, tuple(x["shape"] for x in wants))
    return err is None


def unchanged(desc, c, before, full, want):
    """A saved cube is as it was, but for the order of its cell methods and a stale precision attribute."""
    now = describe(c, False)
    for k in before:
        a, b = before[k], now[k]
        if k == "coords":
            same = len(a) == len(b) and all(x[:8] == y[:8] and np.array_equal(x[8], y[8]) and np.array_equal(np.asarray(x[9]), np.asarray(y[9])) for x, y in zip(a, b))
        else:
            same = a == b
        if not same:
            raise Violation("input-changed", "%s: the saved cube's %s changed" % (desc, k))
    if full is not None:
        if c.has_lazy_data():
            raise Violation("input-changed", "%s: data in memory became unread" % desc)
        d = canon.diff(full[-1], canon.array(c.data))
        if d:
            raise Violation("input-changed", "%s: the saved cube's data changed: %s" % (desc, d))


def do_save(desc, op, w, disk, st):
    from iris.cube import CubeList

    with disk.pause():
        cs = [make(it, j) for j, it in enumerate(op["items"])]
    given = cs[0] if len(cs) == 1 and op["single"] else {"CubeList": CubeList, "list": list, "tuple": tuple}[op["form"]](cs)
    save(desc, given, cs, op["path"], op["opts"], w, disk, st, op["as"])


def do_load(desc, op, w, disk, st):
    from improver.utilities.load import load_cube, load_cubelist

    f = w.files.get(op["path"])
    path = path_of(disk, op["path"])
    wants = f[1] if f else []
    kw = {"no_lazy_load": op["now"]} if op["now"] else {}
    chosen = wants
    if op["name"] and wants:
        pick = wants[op["pick"] % len(wants)]
        name = pick[0]["name"][0] or pick[0]["name"][1]
        kw["constraints"] = name
        chosen = [x for x in wants if (x[0]["name"][0] or x[0]["name"][1]) == name]
    err = None
    try:
        if op["one"] and len(chosen) == 1:
            got = [load_cube([path] if op["listed"] else path, **kw)]
        else:
            got = list(load_cubelist([path] if op["listed"] else path, **kw))
    except Exception as e:
        if unsupported(e):
            raise
        err = e
    if disk.fired and err is None:
        raise Violation("failure-lost", "%s: reading failed at %s but the load returned" % (desc, disk.fired))
    if err is not None:
        if disk.fired or f is None:
            st.probe("failed-loads")
            return
        raise Violation("load-failed", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)))
    if f is None:
        raise Violation("load-invented", "%s: nothing was saved there, but the load gave %s" % (desc, got))
    st.probe("loads")
    by = match(desc, chosen, got)
    with disk.pause():
        for c, (want, lsd) in by:
            if op["now"] and c.has_lazy_data():
                raise Violation("still-deferred", "%s: data asked for at once are unread" % desc)
            compare(desc, want, c, lsd, data=op["now"])
            w.held.append({"cube": c, "path": op["path"], "version": f[0], "want": want, "lsd": lsd, "n": len(wants)})
    w.held = w.held[-8:]


def match(desc, wants, got):
    tags = sorted(w[0]["attrs"].get("tag") for w in wants)
    if sorted(tag_of(c) for c in got) != tags:
        raise Violation("wrong-cubes", "%s: cubes %s instead of %s" % (desc, sorted(tag_of(c) for c in got), tags))
    out, used = [], set()
    for c in got:
        for j, x in enumerate(wants):
            if j not in used and x[0]["attrs"].get("tag") == tag_of(c) and x[0]["name"] == (c.standard_name, c.long_name):
                used.add(j)
                out.append((c, x))
                break
        else:
            raise Violation("wrong-cubes", "%s: a cube named %s instead of %s" % (desc, c.name(), [x[0]["name"] for x in wants]))
    return out


def do_read(desc, op, w, disk, st):
    if not w.held:
        return
    h = w.held[op["pick"] % len(w.held)]
    cur = w.files.get(h["path"])
    if h["cube"].has_lazy_data() and (cur is None or cur[0] != h["version"]):
        w.held = [x for x in w.held if x is not h]  # the file was replaced: what is read now is the new file's
        return
    try:
        h["cube"].data
    except Exception as e:
        if unsupported(e):
            raise
        if disk.fired:
            disk.faults = {}
            st.probe("failed-reads")
            try:
                h["cube"].data
            except Exception as e2:
                raise Violation("load-failed", "%s: reading %s again failed: %s: %s" % (desc, h["path"], type(e2).__name__, e2))
        else:
            raise Violation("load-failed", "%s: reading %s: %s: %s (%s)" % (desc, h["path"], type(e).__name__, e, where(e)))
    st.probe("deferred-reads")
    with disk.pause():
        compare(desc, h["want"], h["cube"], h["lsd"])


def do_modify(desc, op, w, disk, st):
    """Change a loaded cube and save it back."""
    from iris.coords import CellMethod

    ok = [h for h in w.held if not (h["cube"].has_lazy_data() and (w.files.get(h["path"]) or (None,))[0] != h["version"])]
    if not ok:
        return
    h = ok[op["pick"] % len(ok)]
    w.held = [x for x in w.held if x is not h]
    c = h["cube"]
    with disk.pause():
        for how in op["how"]:
            if how == "data":
                c.data = (c.data * 2).astype(c.dtype)
            elif how == "inplace":
                d = np.ma.array(c.data, copy=True) if np.ma.isMaskedArray(c.data) else np.array(c.data)
                c.data = d
                c.data[...] = c.data + 1
            elif how == "lazydata" and c.ndim:
                c.data = (c.lazy_data() + np.ones((), c.dtype)).astype(c.dtype)
            elif how == "attr":
                c.attributes["tag"] = tag_of(c) + "m"
                c.attributes["comment"] = "changed"
            elif how == "globalattr":
                c.attributes["title"] = "changed %s" % tag_of(c)
            elif how == "unattr":
                for k in ("title", "number", "levels"):
                    c.attributes.pop(k, None)
            elif how == "cm":
                c.add_cell_method(CellMethod("minimum", coords="time"))
            elif how == "mask" and c.ndim:
                m = np.zeros(c.shape, bool)
                m.flat[0] = True
                c.data = np.ma.masked_array(np.ma.getdata(c.data), m | np.ma.getmaskarray(c.data))
            elif how == "rename":
                c.rename("renamed field")
    path = h["path"] if op["to"] == "same" else op["to"]
    done = save(desc + " over " + path, c, [c], path, op["opts"], w, disk, st, src=h["path"])
    if done:
        st.probe("saved-back" if path == h["path"] else "saved-elsewhere")


def do_again(desc, op, w, disk, st):
    """Save an object that was saved before once more: it is still what it was."""
    if not w.objects:
        return
    o = w.objects[op["pick"] % len(w.objects)]
    with disk.pause():
        now = describe(o["cube"], False)
        if now["attrs"] != o["want"]["attrs"] or now["cm"] != o["want"]["cm"]:
            raise Violation("input-changed", "%s: the cube saved before has changed meanwhile" % desc)
    if save(desc, o["cube"], [o["cube"]], op["path"], op["opts"], w, disk, st, src=o["src"]):
        st.probe("saved-again")


def do_reject(desc, op, w, disk, st):
    from iris.cube import CubeList

    from improver.utilities.save import save_netcdf

    with disk.pause():
        cs = [make(it, j) for j, it in enumerate(op["items"])]
        opts = {}
        c = cs[op["at"] % len(cs)]
        if op["why"] == "float64":
            c.data = c.data.astype(np.float64)
        elif op["why"] == "units":
            c.units = "unknown"
        elif op["why"] == "level":
            opts["compression_level"] = 10
        elif op["why"] == "time" and c.coords("time"):
            c.coord("time").convert_units("hours since 1970-01-01 00:00:00")
        elif op["why"] == "nothing":
            cs = []
        else:
            return
    before = disk.listing()
    try:
        save_netcdf(CubeList(cs), path_of(disk, op["path"]), **opts)
    except Exception as e:
        if unsupported(e):
            raise
    else:
        raise Violation("not-rejected", "%s: saving %s was accepted" % (desc, op["why"]))
    if disk.listing() != before:
        raise Violation("reject-wrote", "%s: a rejected save changed the directory" % desc)
    st.probe("rejected-saves")


def do_restart(desc, op, w, disk, st):
    """A new process: nothing but the files is left."""
    w.held, w.objects = [], []
    check_all(desc, w, disk, st)


def check_all(desc, w, disk, st, only=None):
    from improver.utilities.load import load_cubelist

    with disk.pause():
        names = sorted(disk.listing())
        if names != sorted(w.files):
            raise Violation("wrong-files", "%s: files %s instead of %s" % (desc, names, sorted(w.files)))
        for p, (ver, wants) in sorted(w.files.items()):
            if only is not None and p not in only:
                continue
            try:
                got = list(load_cubelist(path_of(disk, p)))
                for c, (want, lsd) in match("%s: %s" % (desc, p), wants, got):
                    compare("%s: %s" % (desc, p), want, c, lsd)
            except Violation:
                raise
            except Exception as e:
                if unsupported(e):
                    raise
                raise Violation("load-failed", "%s: %s: %s: %s (%s)" % (desc, p, type(e).__name__, e, where(e)))
            st.probe("files-compared")
