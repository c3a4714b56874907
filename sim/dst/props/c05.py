"""C05: loading several files gives all of their data, in whatever order they are named, or an error."""
import itertools
import os
import random

import numpy as np

from .. import canon, cubes, simlib
from ..core import Violation, unsupported, where
from ..disk import Disk

RUNS = {"quick": 400, "thorough": 60000}
BATCH = 20
TECHNIQUE = "sets of real netCDF files loaded in seeded orders, forms and laziness with read faults, missing, truncated or garbage files, compared with a model that holds what each file stores"
RULE = ("Each run writes 2-6 files that share out the fields of one or two diagnostics by time, cycle, realization, threshold or percentile (attributes, cell methods, masks varying; sometimes overlapping), "
        "and loads seeded subsets 3-7 times: list, cube or merge command, at once or deferred, permuted, with disk errors at seeded reads or spoilt files; each result is compared field by field with what the files hold and with other orders.")
STATE_MEASURE = "hash of (layout of the files, way of loading, fault)"
REAL = ["improver.utilities.load", "improver.utilities.cube_manipulation (MergeCubes)", "improver.cli merge", "netCDF4/HDF5 files"]
STUB = ["iris loader and merge (stand-in on real netCDF4)", "disk faults"]
AXES = {"time": ["time"], "cycle": ["cycle"], "realization": ["realization"], "threshold": ["threshold"], "percentile": ["percentile"],
        "time+realization": ["time", "realization"], "time+threshold": ["time", "threshold"], "cycle+percentile": ["cycle", "percentile"]}


def prepare():
    import improver.synthetic_data.set_up_test_cubes  # noqa: F401
    import improver.utilities.load  # noqa: F401
    import improver.utilities.save  # noqa: F401
    simlib.load_cli()


# ------------------------------------------------------------------ plans
def generate(rng, idx, tier):
    axes = rng.choice(sorted(AXES))
    a = AXES[axes]
    n = [rng.choice([2, 3, 4]) if len(a) == 1 else rng.choice([2, 3]) for _ in a]
    cells = [list(c) for c in itertools.product(*[range(k) for k in n])]
    files = []
    if len(a) == 2 and rng.random() < 0.5:
        # each file holds a whole row
        for i in range(n[0]):
            files.append([c for c in cells if c[0] == i])
    elif rng.random() < 0.25:
        rng.shuffle(cells)
        k = rng.choice([1, 2])
        files = [sorted(cells[:k])] + [[c] for c in cells[k:]]
    else:
        files = [[c] for c in cells]
    rng.shuffle(files)
    plan = {"axes": axes, "files": [{"cells": f, "attrs": rng.randrange(3), "cm": rng.choice([0, 0, 0, 1, 2]), "mask": rng.random() < 0.2, "level": rng.choice([0, 1]), "hours": rng.choice([3, 3, 3, 1]), "mix": rng.random() < 0.15} for f in files],
            "same": rng.random() < 0.5, "tag": rng.randrange(1000), "bounds": rng.random() < 0.3, "other": rng.random() < 0.2, "double": rng.random() < 0.12, "ops": []}
    m = len(plan["files"])
    for _ in range(rng.choice([3, 4, 5, 7])):
        k = m if rng.random() < 0.7 else rng.randrange(1, m + 1)
        op = {"order": rng.sample(range(m), k), "via": rng.choice(["cube", "cube", "cubelist", "merge", "cli"]), "now": rng.random() < 0.4, "named": rng.random() < 0.2, "fault": None, "slices": rng.random() < 0.3, "check": rng.random() < 0.5}
        r = rng.random()
        if r < 0.3:
            op["fault"] = ["disk", rng.random(), rng.choice(["EIO", "EACCES", "EMFILE"])]
        elif r < 0.5:
            op["fault"] = [rng.choice(["missing", "truncated", "garbage", "empty", "directory"]), rng.random(), rng.randrange(k)]
        plan["ops"].append(op)
    return plan


def shrink(p):
    o = p["ops"]
    for i in range(len(o)):
        if len(o) > 1:
            yield dict(p, ops=o[:i] + o[i + 1:])
    for i, x in enumerate(o):
        for k, v in (("fault", None), ("named", False), ("now", False), ("slices", False), ("check", False)):
            if x[k] != v:
                yield dict(p, ops=o[:i] + [dict(x, **{k: v})] + o[i + 1:])
        for j in range(len(x["order"])):
            if len(x["order"]) > 1:
                y = dict(x, order=x["order"][:j] + x["order"][j + 1:])
                if y["fault"] and y["fault"][0] != "disk":
                    y["fault"] = y["fault"][:2] + [y["fault"][2] % len(y["order"])]
                yield dict(p, ops=o[:i] + [y] + o[i + 1:])
    for k, v in (("other", False), ("double", False), ("bounds", False), ("same", True)):
        if p[k] != v:
            yield dict(p, **{k: v})
    for i, f in enumerate(p["files"]):
        for k, v in (("attrs", 0), ("cm", 0), ("mask", False), ("level", 1), ("hours", 3), ("mix", False)):
            if f[k] != v:
                yield dict(p, files=p["files"][:i] + [dict(f, **{k: v})] + p["files"][i + 1:])


# ------------------------------------------------------------------ files and the model
def field(plan, at, f, other=False):
    """Cube of one field, with scalar coordinates."""
    import datetime as dt

    from iris.coords import CellMethod

    from improver.synthetic_data import set_up_test_cubes as su

    a = AXES[plan["axes"]]
    v = dict(zip(a, at))
    t = dt.datetime(2024, 1, 2, 9) + dt.timedelta(hours=3 * v.get("time", 0))
    frt = dt.datetime(2024, 1, 2, 0) + dt.timedelta(hours=v.get("cycle", 0))
    kw = dict(time=t, frt=frt)
    if plan["bounds"]:
        kw["time_bounds"] = [t - dt.timedelta(hours=hours(f, at)), t]
    key = plan["tag"] + sum(x * 17 ** i for i, x in enumerate(at)) + 500 * other
    base = (np.arange(6, dtype=np.float32).reshape(2, 3) + np.float32(key * 8)) / 8
    name = "dew_point_temperature" if other else "air_temperature"
    if "threshold" in v:
        c = su.set_up_probability_cube(np.clip(base[None] / 1000, 0, 1).astype(np.float32), np.array([270 + 5 * v["threshold"]], np.float32), variable_name=name, threshold_units="K", **kw)
    elif "percentile" in v:
        c = su.set_up_percentile_cube(base[None], np.array([10 + 20 * v["percentile"]], np.float32), name=name, units="K", **kw)
    elif "realization" in v:
        c = su.set_up_variable_cube(base[None], name=name, units="K", realizations=[v["realization"]], **kw)
    else:
        c = su.set_up_variable_cube(base, name=name, units="K", **kw)
    c = c[0] if c.ndim == 3 else c
    if f["mask"]:
        m = np.zeros(c.shape, bool)
        m[0, key % 3] = True
        c.data = np.ma.masked_array(c.data, m)
    k = 0 if plan["same"] else f["attrs"]
    c.attributes["institution"] = "Met Office"
    if k == 1:
        c.attributes["title"] = "one"
    if k == 2:
        c.attributes["title"] = "two"
        c.attributes["mosg__model_configuration"] = "uk_ens"
    cm = 0 if plan["same"] else f["cm"]
    if cm >= 1:
        c.add_cell_method(CellMethod("maximum", coords="time"))
    if cm >= 2:
        c.add_cell_method(CellMethod("mean", coords="realization"))
    return c


def hours(f, at):
    """Length of a field's period."""
    return f["hours"] if not f["mix"] or sum(at) % 2 else 6


def atoms(cube, light):
    """The fields of a cube: each with its own scalar coordinates."""
    y, x = cube.coord(axis="y").name(), cube.coord(axis="x").name()
    if cube.coord_dims(y) != (cube.ndim - 2,) or cube.coord_dims(x) != (cube.ndim - 1,):
        raise Violation("wrong-result", "the y and x dimensions are not the last ones: %s" % cube.summary(shorten=True))
    out = []
    for ix in np.ndindex(*cube.shape[:-2]):
        c = cube[ix] if ix else cube
        co = []
        for q in c.coords():
            if q.name() in (y, x):
                continue
            b = None if q.bounds is None else tuple(np.ravel(q.bounds).tolist())
            co.append((q.name(), str(q.units), str(q.points.dtype), tuple(np.ravel(q.points).tolist()), b, tuple(sorted((k, str(z)) for k, z in q.attributes.items()))))
        d = c.data
        mk = np.ma.getmaskarray(d)
        raw = np.where(mk, 0, np.ma.getdata(d))
        item = (c.name(), str(c.units), tuple(sorted(co)), str(d.dtype), d.shape, raw.tobytes(), mk.tobytes(), canon.coord(c.coord(y))[-2][3].tobytes(), canon.coord(c.coord(x))[-2][3].tobytes())
        out.append(item if light else item + (tuple(sorted((k, str(z)) for k, z in c.attributes.items() if k != "Conventions")), tuple(str(m) for m in c.cell_methods)))
    return out


class World:
    def __init__(self, plan, disk, st):
        self.plan, self.disk, self.st = plan, disk, st
        self.held, self.raw, self.meta = [], [], []
        self.many = False
        from iris.cube import CubeList

        from improver.utilities.save import save_netcdf

        for i, f in enumerate(plan["files"]):
            cs = CubeList(field(plan, at, f) for at in f["cells"])
            if plan["double"] and i == 0:
                cs.append(field(plan, plan["files"][-1]["cells"][0], f))
            m = cs.merge(unique=not plan["double"])
            if plan["other"] and i % 2 == 0:
                m.append(field(plan, f["cells"][0], f, other=True))
            p = self.path(i)
            try:
                save_netcdf(m, p, compression_level=f["level"])
            except Exception as e:
                if unsupported(e):
                    raise
                raise Violation("save-failed", "file %d: %s: %s" % (i, type(e).__name__, e))
            with open(p, "rb") as h:
                self.raw.append(h.read())
            self.held.append([a for c in m for a in atoms(c, False)])
        self.seen = {}
        disk.stable = tuple("f%d.nc" % i for i in range(len(self.raw)))

    def path(self, i):
        return os.path.join(self.disk.root, "f%d.nc" % i)

    def restore(self):
        import shutil

        for i, r in enumerate(self.raw):
            p = self.path(i)
            if os.path.isdir(p):
                shutil.rmtree(p)
            with open(p, "wb") as h:
                h.write(r)

    def plain(self, order, sliced=False):
        """These files hold a regular set of one diagnostic's fields, so they do merge."""
        p = self.plan
        cells = [tuple(c) for i in order for c in p["files"][i]["cells"]]
        if p["double"] or p["other"] or len(set(cells)) != len(cells):
            return False
        n = [len({c[k] for c in cells}) for k in range(len(cells[0]))]
        if len(cells) != int(np.prod(n)):
            return False
        if p["bounds"] and len({hours(p["files"][i], c) for i in order for c in p["files"][i]["cells"]}) > 1:
            return False
        return all(len(p["files"][i]["cells"]) == 1 for i in order) or (sliced and p["axes"] == "realization")

    def load(self, op):
        """-> cube or list of cubes; data read according to the operation."""
        from improver.utilities import load as L
        from improver.utilities.cube_manipulation import MergeCubes

        paths = [self.path(i) for i in op["order"]]
        arg = paths if len(paths) > 1 or op["now"] else paths[0]
        con = self.name() if op["named"] else None
        if op["via"] == "cube":
            r = L.load_cube(arg, constraints=con, no_lazy_load=op["now"])
        elif op["via"] == "cubelist":
            r = L.load_cubelist(arg, constraints=con, no_lazy_load=op["now"])
        elif op["via"] == "merge":
            cs = []
            for p in paths:
                cs.extend(L.load_cubelist(p, constraints=con, no_lazy_load=op["now"]))
            r = MergeCubes()(cs, check_time_bounds_ranges=op["check"], slice_over_realization=self.slices(op))
        else:
            r = simlib.load_cli().main.cli("improver", "merge", *paths)
        if op["now"] and op["via"] != "cli":
            with self.disk.pause():
                for p in paths:
                    os.rename(p, p + ".away")
                try:
                    [c.data for c in (r if op["via"] == "cubelist" else [r])]
                except Exception as e:
                    raise Violation("not-immediate", "%s: data asked for at once were not read: %s: %s" % (self.say(op), type(e).__name__, e))
                finally:
                    for p in paths:
                        os.rename(p + ".away", p)
        else:
            [c.data for c in (r if isinstance(r, (list, tuple)) else [r])]
        return r

    def slices(self, op):
        return op["slices"] and op["via"] == "merge" and "realization" in self.plan["axes"]

    def uneven(self, op):
        """Fields of periods of different lengths along time, which merging can be asked to refuse."""
        p = self.plan
        cells = [(c, hours(p["files"][i], c)) for i in op["order"] for c in p["files"][i]["cells"]]
        if not (p["bounds"] and op["check"] and op["via"] == "merge"):
            return None
        return len({h for _, h in cells}) > 1

    def name(self):
        n = "air_temperature"
        return "probability_of_%s_above_threshold" % n if "threshold" in self.plan["axes"] else n

    def say(self, op):
        return "%s of files %s (%s)%s%s" % (op["via"], op["order"], self.plan["axes"], ", at once" if op["now"] else "", ", by name" if op["named"] else "") + (", slicing" if self.slices(op) else "") + (", checking periods" if op["check"] and op["via"] == "merge" else "")


def execute(plan, st):
    disk = Disk(st, prefix="dst-c05-")
    with disk:
        with disk.pause():
            w = World(plan, disk, st)
        for op in plan["ops"]:
            one(w, op, disk, st)


def attempt(w, op):
    try:
        return w.load(op), None
    except Violation:
        raise
    except Exception as e:
        return None, e


def one(w, op, disk, st):
    # without a fault, counting steps
    disk.step, disk.fired, disk.faults = 0, [], {}
    got, err = attempt(w, op)
    steps = disk.step
    desc = w.say(op)
    with disk.pause():
        normal = judge(w, op, got, err, desc, st)
    st.op("loads")
    st.state(op["via"], op["now"], op["named"], len(op["order"]), w.plan["axes"], str(op["fault"]))
    f = op["fault"]
    if not f:
        return
    must = False
    if f[0] == "disk":
        n = 1 + int(f[1] * max(1, steps))
        disk.faults = {n: ["error", f[2]]}
        what = "%s, %s at step %d of %d" % (desc, f[2], n, steps)
    else:
        with disk.pause():
            i = op["order"][f[2] % len(op["order"])]
            p, raw = w.path(i), w.raw[i]
            os.remove(p)
            if f[0] == "directory":
                os.mkdir(p)
            elif f[0] != "missing":
                with open(p, "wb") as h:
                    h.write(raw[:int(len(raw) * f[1])] if f[0] == "truncated" else b"" if f[0] == "empty" else bytes(random.Random(i).getrandbits(8) for _ in range(200)))
            must = f[0] != "truncated" or f[1] < 0.9
        what = "%s, file %d %s" % (desc, i, f[0])
        st.fault(f[0])
    disk.step, disk.fired = 0, []
    got, err = attempt(w, op)
    disk.faults = {}
    with disk.pause():
        if err is None:
            if must or disk.fired:
                raise Violation("file-lost", "%s: loaded normally" % what)
            if normal is not None and canonical(got) != normal:
                raise Violation("file-lost", "%s: loaded with another result" % what)
        else:
            st.probe("failed-loads")
            if unsupported(err) and not disk.fired and not must:
                raise err
        w.restore()
        got, err = attempt(w, op)
        judge(w, op, got, err, what + ", again without the fault", st)
        st.probe("repeats")


def canonical(r):
    if isinstance(r, (list, tuple)):
        return ("list", freeze(tuple(canon.cube(c) for c in r)))
    return ("cube", freeze(canon.cube(r)))


def freeze(x):
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes() if x.dtype.kind != "O" else repr(x.tolist()))
    if isinstance(x, (tuple, list)):
        return tuple(freeze(v) for v in x)
    return x


def judge(w, op, got, err, desc, st):
    """Check a load without faults; -> canonical result, None if it raised."""
    key = (op["via"] == "cubelist", op["named"] and op["via"] != "cli", tuple(sorted(op["order"])), w.slices(op), w.uneven(op))
    if err is not None:
        if unsupported(err):
            raise err
        if w.plain(op["order"], w.slices(op)) or op["via"] == "cubelist":
            raise Violation("load-failed", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)))
        if w.seen.setdefault(key, ("raises", desc))[0] != "raises":
            raise Violation("order-matters", "%s: %s: %s, though other orders load" % (desc, type(err).__name__, err))
        return None
    named = op["named"] and op["via"] != "cli"
    want = sorted(a for i in op["order"] for a in w.held[i] if not named or a[0] == w.name())
    res = got if isinstance(got, (list, tuple)) else [got]
    light = op["via"] != "cubelist"
    have = sorted(a for c in res for a in atoms(c, light))
    if light:
        want = sorted(a[:-2] for a in want)
    if have != want:
        extra = [a for a in have if a not in want]
        lost = [a for a in want if a not in have]
        raise Violation("wrong-data", "%s: %d fields instead of %d; %d of them in no file, %d missing: %.300s" % (desc, len(have), len(want), len(extra), len(lost), [brief(a) for a in (extra + lost)[:2]]))
    st.probe("fields", len(have))
    if w.uneven(op) and light and got.coord("time").shape[0] > 1:
        raise Violation("uneven-merged", "%s: periods of different lengths were merged" % desc)
    if light:
        atts = [dict(a[-2]) for i in op["order"] for a in w.held[i] if not named or a[0] == w.name()]
        common = {k: v for k, v in atts[0].items() if all(x.get(k) == v for x in atts)}
        mine = {k: str(v) for k, v in got.attributes.items() if k != "Conventions"}
        cms = [a[-1] for i in op["order"] for a in w.held[i] if not named or a[0] == w.name()]
        keep = [m for m in cms[0] if all(m in x for x in cms)]
        if mine != common:
            raise Violation("wrong-metadata", "%s: attributes %s, the files agree on %s" % (desc, mine, common))
        if [str(m) for m in got.cell_methods] != keep:
            raise Violation("wrong-metadata", "%s: cell methods %s, the files agree on %s" % (desc, [str(m) for m in got.cell_methods], keep))
    c = canonical(got)
    if light:
        first = w.seen.setdefault(key, (c, desc))
        if first[0] == "raises":
            raise Violation("order-matters", "%s: loads, though %s raises" % (desc, first[1]))
        if first[0] != c:
            raise Violation("order-matters", "%s: the result differs from that of %s: %.300s" % (desc, first[1], spot(first[0], c)))
    else:
        # in the order of the files
        first = w.seen.setdefault((key, tuple(op["order"])), (c, desc))
        if first[0] != c:
            raise Violation("not-repeatable", "%s: the result differs from that of %s" % (desc, first[1]))
    return c


def brief(a):
    return (a[0], [(q[0], q[3]) for q in a[2]], np.frombuffer(a[5], a[3]).tolist()[:3])


def spot(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return spot(x, y, path + "/%s" % (x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
    return "%s: %r vs %r" % (path, b, a)
