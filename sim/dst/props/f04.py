"""F04: merging and combining do not depend on the order of arrival."""
import random
import warnings

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from .f01 import guard

RUNS = {"quick": 1200, "thorough": 200000}
BATCH = 50
TECHNIQUE = "simulated arrival of fields to be merged or combined: seeded loss, duplication, reordering and intruders, judged by plain array arithmetic over what arrived"
RULE = ("Each run delivers 1-5 fields (times, cycles, members, thresholds or diagnostics, with masks, periods, members missing here and there, differing history and cell methods) in 2-3 orders, some lost or delivered twice, sometimes with one that does not fit, "
        "and merges them or combines them by each operation, with broadcasting, least numbers of members, and time windows; the outcome is compared with the arithmetic over what arrived and between orders.")
STATE_MEASURE = "hash of (operation, options, inputs, order)"
REAL = ["improver.cli.merge, combine, max_in_time_window", "improver.cube_combiner.Combine, CubeCombiner, MaxInTimeWindow", "MergeCubes, filter_realizations, expand_bounds"]
STUB = ["iris (stand-in)", "arrival of the fields"]
OPS = ["+", "add", "-", "subtract", "*", "multiply", "max", "min", "mean", "masked_add"]


def prepare():
    W.load_all()
    from improver import cube_combiner  # noqa: F401


def generate(rng, idx, tier):
    use = rng.choice(["merge", "merge", "combine", "combine", "combine", "window"])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    p = {"use": use, "n": n, "lost": [i for i in range(n) if rng.random() < 0.1], "dup": rng.randrange(n) if rng.random() < 0.12 else None, "dims": rng.choice(["", "", "r", "r", "t", "rt"]), "mask": rng.choice([None, None, "all", "some"]),
         "bounds": rng.random() < 0.6, "history": rng.random() < 0.3, "methods": rng.random() < 0.3, "orders": [rng.randrange(10 ** 6) for _ in range(rng.choice([2, 3]))], "seed": rng.randrange(10 ** 6),
         "bad": None, "badat": rng.randrange(n), "cli": rng.random() < 0.4, "form": rng.choice(["separate", "list", "nested"]), "axis": None, "op": None, "least": None, "members": None, "broadcast": None, "expand": True, "name": None, "method": False, "extra": rng.random() < 0.2, "twin": rng.random() < 0.5}
    if use == "merge":
        p["axis"] = rng.choice(["time", "time", "cycle", "cycles", "realization", "threshold", "both"])
        if p["axis"] in ("realization", "both") and "r" in p["dims"] or p["axis"] == "threshold" and "t" in p["dims"]:
            p["dims"] = ""
        p["bad"] = rng.choice([None] * 5 + ["name", "units", "grid", "shape", "coord", "period"])
    else:
        p["axis"] = rng.choice(["time", "time", "same", "cycle", "cycles"]) if use == "combine" else "time"
        p["op"] = rng.choice(OPS) if use == "combine" else "max"
        p["expand"] = rng.random() < 0.8 or use == "window"
        p["name"] = rng.choice([None, "wind_speed"]) if use == "combine" else None
        p["method"] = use == "combine" and p["op"] in ("max", "min", "mean") and rng.random() < 0.4
        p["bad"] = rng.choice([None] * 5 + ["grid", "shape", "members", "bounds", "flat"] + ["period"] * 2 * (use == "window"))
        if use == "window":
            p["bounds"] = True
        if rng.random() < 0.3 and "r" in p["dims"] and p["axis"] in ("time", "cycles"):
            p["least"] = rng.choice([1, 1, 2, 3])
            p["members"] = [sorted(rng.sample(range(4), rng.choice([1, 2, 3, 4, 4]))) for _ in range(n)]
            p["bad"] = None
        elif use == "combine" and p["dims"] and rng.random() < 0.35:
            p["broadcast"] = {"r": "realization", "t": "threshold", "rt": rng.choice(["realization", "threshold"])}[p["dims"]]
            p["thin"] = [rng.random() < 0.7 for _ in range(n)]
            p["bad"] = None
    return p


def shrink(p):
    for i in range(p["n"]):
        if i not in p["lost"]:
            yield dict(p, lost=sorted(p["lost"] + [i]))
    if len(p["orders"]) > 1:
        yield dict(p, orders=p["orders"][:1])
        yield dict(p, orders=p["orders"][1:])
    for k, v in (("dup", None), ("mask", None), ("history", False), ("methods", False), ("bad", None), ("extra", False), ("cli", False), ("form", "list"), ("method", False), ("name", None), ("bounds", False), ("broadcast", None), ("least", None)):
        if p[k] != v:
            yield dict(p, **{k: v})
    if p["dims"] and not p["least"] and not p["broadcast"]:
        yield dict(p, dims="")


class Part:
    pass


def build(p):
    """The fields, as cubes and as plain arrays with their labels."""
    from iris.coords import AuxCoord, CellMethod, DimCoord

    r = random.Random(p["seed"])
    out = []
    n = p["n"]
    pts = r.sample(range(9), n)
    grid = [(a, b) for a in (0, 1) for b in (0, 1, 2)]
    if p["axis"] == "both":
        grid = grid[: 2 * (n // 2) or 1] if n < 4 else [(a, b) for a in (0, 1) for b in (0, 1)]
        n = len(grid)
    for i in range(n):
        o = Part()
        bad = p["bad"] if i == p["badat"] else None
        v = pts[i] if p["axis"] != "both" else None
        t, frt, real, th = fx.T0 + 12 * fx.HOUR, fx.T0, None, None
        if p["axis"] == "time":
            t += v * fx.HOUR
        elif p["axis"] == "cycle":
            frt -= v * fx.HOUR
        elif p["axis"] == "cycles":
            frt, t = frt - v * fx.HOUR, t - v * fx.HOUR
        elif p["axis"] == "realization":
            real = v
        elif p["axis"] == "threshold":
            th = 270.0 + v
        elif p["axis"] == "both":
            t, real = t + grid[i][0] * fx.HOUR, grid[i][1]
        w = 3 * fx.HOUR if bad == "period" else fx.HOUR
        thin = p["broadcast"] and i > 0 and p["thin"][i]
        dims = p["dims"].replace("r" if p["broadcast"] == "realization" else "t", "") if thin else p["dims"]
        mem = p["members"][i] if p["members"] else [0, 1, 2]
        if bad == "members":
            mem = [0, 1] if r.random() < 0.5 else [0, 1, 3]
        lead = []
        if "r" in dims:
            lead.append(fx.dim("realization", mem))
        if "t" in dims:
            lead.append(fx.threshold_coord("air_temperature", [275.0, 280.0], "K"))
        sh = tuple(len(c.points) for c in lead)
        ny, nx = (2, 4) if bad == "shape" else (2, 3)
        data = fx.field(r, sh + (ny, nx), 1, 2, ties=r.choice([None, 3]))
        if p["mask"] == "all" or p["mask"] == "some" and r.random() < 0.5:
            data = np.ma.masked_array(data, fx.mask_of(r, data.shape, 0.3))
        isprob = "t" in p["dims"] or th is not None
        g = fx.xy(ny, nx, x0=500.0 if bad == "grid" else 0.0)
        b = [t - w, t] if p["bounds"] and bad != "bounds" else [t - w, t] if bad == "bounds" else None
        if bad == "bounds" and p["bounds"]:
            b = None
        at = dict(fx.ATTRS)
        if p["history"]:
            at["history"] = "made by %d" % i
        meth = [CellMethod("maximum", coords="time")] * (p["methods"] and (p["use"] != "merge" or True))
        if p["methods"] and i % 2:
            meth = meth + [CellMethod("mean", coords="area")]
        name = "probability_of_air_temperature_above_threshold" if isprob and not thin else "air_temperature"
        c = fx.cube(data, lead, name="dew_point_temperature" if bad == "name" else name, units="m" if bad == "units" else ("1" if isprob else "K"), time=t, frt=frt, bounds=b, attrs=at, grid=g, cell_methods=meth)
        if real is not None:
            c.add_aux_coord(DimCoord(np.int32(real), "realization", units="1"))
        if th is not None:
            x = fx.threshold_coord("air_temperature", [th], "K")
            c.add_aux_coord(AuxCoord(x.points, units="K", attributes=x.attributes, standard_name=x.standard_name, var_name="threshold"))
        if bad == "coord" or p["extra"] and (p["use"] == "merge" or p["least"] or i == 0):
            c.add_aux_coord(DimCoord(np.float32(2.0 if bad != "coord" else 10.0), "height", units="m"))
        if bad == "flat" and "r" in dims:
            c = c[(slice(None),) + (0,) * (c.ndim - 1)]
            data = data[(slice(None),) + (0,) * (data.ndim - 1)]
        o.cube, o.data, o.t, o.frt, o.b, o.real, o.th, o.mem, o.thin, o.dims = c, data, t, frt, b, real, th, mem, thin, dims
        out.append(o)
    return out


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            run(plan, st)


def call(p, cubes):
    from iris.cube import CubeList

    if p["use"] == "merge":
        from improver.utilities.cube_manipulation import MergeCubes

        if p["cli"] and p["bad"] != "period":
            from improver.cli import merge

            return guard(merge.process, *cubes)
        return guard(MergeCubes(), CubeList(cubes), check_time_bounds_ranges=p["bad"] == "period")
    if p["use"] == "window":
        if p["cli"]:
            from improver.cli import max_in_time_window

            return guard(max_in_time_window.process, *cubes, minimum_realizations=p["least"])
        from improver.cube_combiner import MaxInTimeWindow

        return guard(MaxInTimeWindow(minimum_realizations=p["least"]), CubeList(cubes))
    k = {"broadcast": p["broadcast"], "minimum_realizations": p["least"], "new_name": p["name"], "cell_method_coordinate": "time" if p["method"] else None, "expand_bound": p["expand"]}
    if p["cli"]:
        from improver.cli import combine

        return guard(combine.process, *cubes, operation=p["op"], **k)
    from improver.cube_combiner import Combine

    args = {"separate": cubes, "list": [CubeList(cubes)], "nested": [CubeList(cubes[:1]), CubeList(cubes[1:])] if len(cubes) > 1 else [CubeList(cubes)]}[p["form"]]
    return guard(Combine(p["op"], **k), *args)


def run(p, st):
    parts = build(p)
    here = [i for i in range(len(parts)) if i not in p["lost"]]
    if not here:
        return
    st.fault("field-lost", len(parts) - len(here))
    ids0 = list(here)
    if p["dup"] in here:
        ids0.append(p["dup"])
        st.fault("field-duplicated")
    if p["broadcast"] and 0 not in here:
        return
    bad = p["bad"] if p["badat"] in here and len(here) > 1 else None
    if bad == "period" and (not p["bounds"] or p["axis"] in ("realization", "threshold", "both", "same")):
        bad = "other"
    if bad in ("members", "flat") and "r" not in p["dims"]:
        bad = None
    if bad == "bounds" and (not p["expand"] or p["axis"] == "same" or p["op"] in ("*", "multiply")) and p["use"] != "window":
        bad = "other"
    if bad:
        st.fault("field-that-does-not-fit:" + bad)
    if bad == "coord" and p["extra"]:
        bad = "other"
    if bad == "other":
        return
    first = {}
    for order in p["orders"]:
        q = random.Random(order)
        ids = list(ids0)
        q.shuffle(ids)
        if p["broadcast"]:  # the first field has the coordinate to broadcast to
            ids.remove(0)
            ids.insert(0, 0)
        st.fault("fields-reordered", len(ids))
        one = {i: parts[i].cube.copy() for i in ids}
        cubes = [one[i] if p["twin"] else parts[i].cube.copy() for i in ids]
        before = [c.copy() for c in cubes]
        got, err = call(p, cubes)
        st.op(p["use"] + (":" + p["op"] if p["op"] else ":" + p["axis"]))
        st.state(p["use"], p["op"], p["axis"], p["dims"], p["least"], p["broadcast"], p["expand"], bad, tuple(ids))
        st.log("call", order, type(err).__name__)
        what = "%s of %s along %s (order %s%s)" % (p["op"] or "merge", len(ids), p["axis"], ids, ", one of another " + bad if bad else "")
        for a, b in zip(cubes, before):
            if a != b:
                raise Violation("input-changed", "%s: a cube given was changed" % what)
        if bad:
            if err is None:
                raise Violation("not-rejected", "%s: accepted, giving %s" % (what, got.summary(shorten=True)))
            continue
        use = [parts[i] for i in ids]
        if p["use"] == "merge":
            merged(p, use, ids, got, err, what, st)
        else:
            combined(p, use, ids, got, err, what, st)
        if got is None:
            continue
        got.cell_methods = ()  # compared above
        if p["use"] == "merge":  # everything, between orders
            d = first and W.diff(first["any"], W.result(got))
            if d:
                raise Violation("order-dependent", "%s: %s, compared with another order" % (what, d))
            first["any"] = W.result(got)


def close(a, b, rtol=1e-5):
    a, b = np.ma.asanyarray(a), np.ma.asanyarray(b)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if (ma != mb).any():
        return "mask %s instead of %s" % (ma.astype(int).tolist(), mb.astype(int).tolist())
    fa, fb = a.filled(0), b.filled(0)
    if not np.allclose(fa, fb, rtol=rtol, atol=0):
        return "values %s instead of %s" % (fa.ravel()[:6].tolist(), fb.ravel()[:6].tolist())


def take(c, want):
    """Part of a cube at the given coordinate values."""
    ix = [slice(None)] * c.ndim
    for name, v in want.items():
        co = c.coord(name)
        hit = [k for k in range(len(co.points)) if abs(float(co.points[k]) - v) < 1e-6]
        if len(hit) != 1:
            return None
        d = c.coord_dims(co)
        if d:
            if not isinstance(ix[d[0]], slice) and ix[d[0]] != hit[0]:
                return None
            ix[d[0]] = hit[0]
    return c[tuple(ix)]


def merged(p, use, ids, got, err, what, st):
    dup = len(set(ids)) < len(ids)
    if dup:
        if err is None:
            raise Violation("duplicate", "%s: a field delivered twice was accepted, giving %s" % (what, got.summary(shorten=True)))
        return
    if p["axis"] == "both":
        cells = {(o.t, o.real) for o in use}
        if len(cells) != len({a for a, _ in cells}) * len({b for _, b in cells}):
            return
    if err is not None:
        raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
    size = 1 if len(use) == 1 else len(use)
    if got.data.size != size * use[0].data.size:
        raise Violation("fields", "%s: %d values from %d fields of %d" % (what, got.data.size, size, use[0].data.size))
    for o in use:
        want = {"time": {"time": o.t}, "cycle": {"forecast_reference_time": o.frt}, "cycles": {"forecast_reference_time": o.frt, "time": o.t}, "realization": {"realization": o.real}, "threshold": {"air_temperature": o.th}, "both": {"time": o.t, "realization": o.real}}[p["axis"]]
        part = take(got, want)
        if part is None:
            raise Violation("fields", "%s: the field of %s is not to be found in %s" % (what, want, got.summary(shorten=True)))
        d = close(part.data, o.data, 0)
        if d:
            raise Violation("fields", "%s: at %s %s" % (what, want, d))
        labels(part, o, what)
        keep = set(o.cube.cell_methods)
        for u in use:
            keep &= set(u.cube.cell_methods)
        if set(got.cell_methods) != keep:
            raise Violation("cell-methods", "%s: %s instead of %s" % (what, got.cell_methods, keep))
    if got.name() != use[0].cube.name() or got.units != use[0].cube.units:
        raise Violation("name", "%s: %s" % (what, got.summary(shorten=True)))
    st.probe("merges-checked")


def labels(part, o, what):
    for name, pt, b in (("time", o.t, o.b), ("forecast_reference_time", o.frt, None), ("forecast_period", o.t - o.frt, None if o.b is None else [x - o.frt for x in o.b])):
        co = part.coord(name)
        if co.points.tolist() != [pt] or (None if co.bounds is None else co.bounds.tolist()) != (None if b is None else [b]):
            raise Violation("labels", "%s: %s %s %s instead of %s %s" % (what, name, co.points, co.bounds, pt, b))


def fold(op, arrays):
    """Plain arithmetic over the fields."""
    masks = [np.ma.getmaskarray(a) for a in arrays]
    vals = [np.ma.asanyarray(a).filled(0).astype(np.float64) for a in arrays]
    shape = np.broadcast(*vals).shape if len(vals) > 1 else vals[0].shape
    if op == "masked_add":
        v = sum(np.where(m, 0, x) for m, x in zip(masks, vals))
        m = np.logical_and.reduce([np.broadcast_to(m, shape) for m in masks])
        return np.ma.masked_array(v, m)
    m = np.logical_or.reduce([np.broadcast_to(m, shape) for m in masks])
    if op in ("+", "add", "mean"):
        v = sum(vals)
        if op == "mean":
            v = v / len(vals)
    elif op in ("-", "subtract"):
        v = vals[0] - sum(vals[1:])
    elif op in ("*", "multiply"):
        v = np.prod(np.stack([np.broadcast_to(x, shape) for x in vals]), axis=0)
    else:
        v = (np.maximum if op == "max" else np.minimum).reduce([np.broadcast_to(x, shape) for x in vals])
    return np.ma.masked_array(v, m)


def combined(p, use, ids, got, err, what, st):
    reject = None
    arrays = [o.data for o in use]
    if len(use) < 2:
        reject = "a single field"
    if p["least"]:
        common = sorted(set.intersection(*[set(o.mem) for o in use]))
        if len(common) < p["least"]:
            reject = "only members %s are everywhere, %d are wanted" % (common, p["least"])
        elif len(set(ids)) < len(ids):
            reject = "a field delivered twice to be merged"
        else:
            arrays = [a[[o.mem.index(x) for x in common]] for o, a in zip(use, arrays)]
            if len(common) == 1:
                arrays = [a[0] for a in arrays]
    if p["broadcast"]:
        ax = p["dims"].index("r" if p["broadcast"] == "realization" else "t")
        if use[0].thin:
            return
        arrays = [np.ma.expand_dims(a, ax) if o.thin else a for o, a in zip(use, arrays)]
        arrays[0] = np.ma.asanyarray(arrays[0])
    if p["use"] == "window" and len(use) < 2:
        reject = "a single field"
    if reject:
        if err is None:
            raise Violation("not-rejected", "%s: accepted %s" % (what, reject))
        return
    if err is not None:
        raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
    want = fold(p["op"], arrays)
    d = close(got.data, want)
    if d:
        raise Violation("values", "%s%s: %s" % (what, ", members %s" % [o.mem for o in use] if p["least"] else "", d))
    name = p["name"] or use[0].cube.name()
    if p["name"] and p["op"] in ("*", "multiply") and use[0].cube.name().startswith("prob"):
        name = "probability_of_%s_above_threshold" % name
    if got.name() != name:
        raise Violation("name", "%s: called %s" % (what, got.name()))
    frts, ts = {o.frt for o in use}, [o.t for o in use]
    exp = p["expand"] and p["op"] not in ("*", "multiply")
    f0 = use[0]
    for name, pts, bs in (("time", ts, [o.b for o in use]), ("forecast_reference_time", [o.frt for o in use], [None] * len(use)), ("forecast_period", [o.t - o.frt for o in use], [None if o.b is None else [x - o.frt for x in o.b] for o in use])):
        if len(set(pts)) > 1 and exp:
            lo = min(pts) if bs[0] is None else min(b[0] for b in bs)
            hi = max(pts) if bs[0] is None else max(b[1] for b in bs)
            w = ([hi], [[lo, hi]])
        else:
            w = ([pts[0]], None if bs[0] is None else [bs[0]])
        co = got.coord(name)
        if p["least"] and not exp:
            continue
        if (co.points.tolist(), None if co.bounds is None else co.bounds.tolist()) != w:
            raise Violation("labels", "%s: %s %s %s instead of %s" % (what, name, co.points, co.bounds, w))
    if not p["least"]:
        a, b = f0.cube, got
        skip = {"time", "forecast_period", "forecast_reference_time"}
        if {p["name"] if p["name"] and c.var_name == "threshold" and not exp and p["op"] in ("*", "multiply") else c.name(): (c.points.tolist(), a.coord_dims(c)) for c in a.coords() if c.name() not in skip} != {c.name(): (c.points.tolist(), b.coord_dims(c)) for c in b.coords() if c.name() not in skip}:
            raise Violation("coordinates", "%s: %s instead of those of the first field" % (what, [c.name() for c in b.coords()]))
        if p["use"] == "combine" and a.attributes != b.attributes:
            raise Violation("attributes", "%s: %s" % (what, b.attributes))
    elif got.coord("realization").points.tolist() != common:
        raise Violation("coordinates", "%s: members %s instead of %s" % (what, got.coord("realization").points, common))
    if p["method"] and not [m for m in got.cell_methods if "time" in m.coord_names]:
        raise Violation("cell-methods", "%s: %s" % (what, got.cell_methods))
    if p["use"] == "window" and sorted(m.method for m in got.cell_methods if "time" in m.coord_names) != ["maximum", "sum"]:
        raise Violation("cell-methods", "%s: %s" % (what, got.cell_methods))
    st.probe("combinations-checked")
