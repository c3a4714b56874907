"""F03: blending uses whatever arrives, in any order, with weights summing to one."""
import random
import warnings

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from .f01 import guard

RUNS = {"quick": 1500, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated arrival of models, cycles, members and lead times for blending: seeded loss, reordering, duplication and holes, judged by the mean of what arrived with weights renormalised over it"
RULE = ("Each run blends 1-5 models, cycles, members or lead times (plain fields, directions, probabilities, percentiles, members; with masked points) by linear, nonlinear, equal, per-model or triangular weights, or weights that follow the masks, "
        "in 2-3 orders of arrival and as separate or merged cubes, with some inputs lost, given twice, valid at another time or without a name; cycles of several models are blended in two stages with the record of their weights.")
STATE_MEASURE = "hash of (scenario, form, weights, what arrived, order)"
REAL = ["improver.cli: weighted_blending, blend_adjacent_points, blend_cycles_and_realizations", "WeightAndBlend, MergeCubesForWeightedBlending, WeightedBlendAcrossWholeDimension, ChooseWeightsLinear and default weights, SpatiallyVaryingWeightsFromMask, record_run utilities"]
STUB = ["iris (stand-in)", "arrival of the inputs"]
MODELS = ["uk_ens", "uk_det", "nc_det", "gl_ens", "mo_uv"]
MID, RUN = "mosg__model_configuration", "mosg__model_run"
V = fx.T0 + 12 * fx.HOUR  # validity


def prepare():
    W.load_all()
    from improver.blending import calculate_weights_and_blend, blend_across_adjacent_points  # noqa: F401


def generate(rng, idx, tier):
    use = rng.choice(["cycles"] * 3 + ["models"] * 4 + ["members", "two", "two", "adjacent", "average"])
    form = rng.choice(["field", "field", "prob", "perc", "angle", "ens"])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    spatial = use == "models" and form != "angle" and rng.random() < 0.45
    weights = {"models": rng.choice(["dict", "dict", "dict", "equal"]), "cycles": rng.choice(["linear", "linear", "nonlinear", "inverse", "equal"]), "members": rng.choice(["linear", "nonlinear", "equal"]), "two": "linear"}.get(use, "equal")
    return {"use": use, "form": form, "n": n, "lags": rng.sample(range(8), n), "weights": weights, "y": [rng.choice([0, 0.5, 1, 2]), rng.choice([0.5, 1, 3])], "c": rng.choice([0.3, 0.85, 1.0]),
            "conf": [[rng.choice([0, 0, 1, 0.5, 0.3]) for _ in range(3)] for _ in range(len(MODELS))], "lead": rng.choice([3, 6, 8, 11, 12, 15, 40]), "late": rng.choice([0, 0, 1, 3]),
            "lost": [i for i in range(n) if n > 1 and rng.random() < 0.2], "dup": rng.choice([None] * 7 + [rng.randrange(n)]), "bad": rng.choice([None] * 6 + ["time", "name", "anon"]), "badat": rng.randrange(n),
            "merged": rng.choice([None, None, "up", "down"]) if use in ("cycles", "members", "adjacent") else None, "equal": rng.random() < 0.15, "mask": rng.choice([0.3, 0.6, "edge", "edge"]) if spatial else rng.choice([None, None, None, 0.3]),
            "spatial": spatial, "fuzzy": rng.choice([2000.0, 4000.0, 7000.0]), "first": rng.random() < 0.6, "record": rng.random() < 0.5, "had": rng.random() < 0.4, "bounds": rng.random() < 0.3, "last": rng.random() < 0.2, "down": rng.random() < 0.2,
            "orders": [rng.randrange(10 ** 6) for _ in range(rng.choice([2, 3]))], "seed": rng.randrange(10 ** 6), "blended": rng.random() < 0.3, "ragged": spatial and rng.random() < 0.4}


def shrink(p):
    if len(p["orders"]) > 1:
        yield dict(p, orders=p["orders"][:1])
        yield dict(p, orders=p["orders"][1:])
    if p["n"] > 1 and p["use"] != "two":
        yield dict(p, n=p["n"] - 1, lost=[i for i in p["lost"] if i < p["n"] - 1], badat=0, dup=None)
    for k, v in (("lost", []), ("dup", None), ("bad", None), ("merged", None), ("mask", None), ("spatial", False), ("record", False), ("bounds", False), ("last", False), ("down", False), ("equal", False), ("form", "field"), ("late", 0), ("ragged", False), ("had", False), ("blended", False)):
        if p[k] != v and not (k == "mask" and p["spatial"]):
            yield dict(p, **{k: v})


def payload(p, r, k=0, mask=None):
    """(data, leading coordinates, name, units)"""
    ny, nx = (4, 5) if p["spatial"] else (2, 3)
    form = p["form"]
    th = [275.0, 280.0, 285.0]
    if form == "prob":
        d = np.sort(fx.field(r, (3, ny, nx), 0, 1), axis=0)[::-1].copy()
        lead, name, units = [fx.threshold_coord("air_temperature", th, "K")], "probability_of_air_temperature_above_threshold", "1"
    elif form == "perc":
        d = np.sort(fx.field(r, (3, ny, nx), 270, 290), axis=0)
        lead, name, units = [fx.dim("percentile", [20, 50, 80])], "air_temperature", "K"
    elif form == "ens":
        d = fx.field(r, (3, ny, nx), 270, 290)
        lead, name, units = [fx.dim("realization", [0, 1, 2])], "air_temperature", "K"
    elif form == "angle":
        d = (fx.field(r, (ny, nx), 300, 420) % 360).astype(np.float32)
        lead, name, units = [], "wind_from_direction", "degrees"
    else:
        d = fx.field(r, (ny, nx), 270, 290)
        lead, name, units = [], "air_temperature", "K"
    if p["down"] and lead and form == "prob":
        c = lead[0]
        lead, d = [fx.threshold_coord("air_temperature", th[::-1], "K")], d[::-1].copy()
    m = p["mask"] if mask is None else mask
    if m and not (form == "perc" and not p["spatial"]) and not (p["spatial"] and k == 0 and p["first"]):
        if m == "edge":
            w = np.zeros((ny, nx), bool)
            w[:, : 1 + r.randrange(nx - 1)] = True
            if r.random() < 0.5:
                w = w[:, ::-1]
        else:
            w = fx.mask_of(r, (ny, nx), m)
        d = np.ma.masked_array(d, np.broadcast_to(w, d.shape).copy())
        d.data[d.mask] = r.choice([0.0, 9.96921e36, 288.0])
    return d, lead, name, units


def build(p, d, lead, name, units, frt, attrs, time=V):
    lead = list(lead)
    grid = fx.xy(d.shape[-2], d.shape[-1])
    b = [time - fx.HOUR, time] if p["bounds"] else None
    c = fx.cube(d, lead, name=name, units=units, time=time, frt=frt, bounds=b, attrs=attrs, grid=grid)
    if p["last"] and lead:
        c.transpose([1, 2, 0])
    return c


def canon(cube, form):
    """Data with the leading coordinate, if there is one, first and ascending."""
    d = np.ma.asanyarray(cube.data)
    name = {"prob": "air_temperature", "perc": "percentile", "ens": "realization"}.get(form)
    if name and cube.coords(name) and cube.coord_dims(name):
        i = cube.coord_dims(name)[0]
        d = np.ma.asanyarray(np.moveaxis(d, i, 0) if not np.ma.isMaskedArray(d) else d.transpose([i] + [j for j in range(d.ndim) if j != i]))
        if cube.coord(name).points[0] > cube.coord(name).points[-1]:
            d = d[::-1]
    return d


def percentile_blend(parts, ws, perc):
    """Mix the distributions that the percentiles stand for, at each point; ws: (n, y, x) normalised."""
    n, (k, ny, nx) = len(parts), parts[0].shape
    out = np.zeros((k, ny, nx))
    for j in range(ny):
        for i in range(nx):
            v = np.array([q[:, j, i] for q in parts], np.float64)
            use = [a for a in range(n) if ws[a][j, i] > 0]
            v, w = v[use], [ws[a][j, i] for a in use]
            if not use:
                continue
            cdf = np.zeros(v.shape)
            for a in range(len(use)):
                c = np.interp(v, v[a], perc)
                c[a] = perc
                cdf += w[a] * c
            out[:, j, i] = np.interp(perc, np.sort(cdf.ravel()), np.sort(v.ravel()))
    return out


def blend(form, parts, ws):
    """The weighted mean; parts: canonical data; ws: a number, or an array over y and x, for each."""
    if not parts:
        raise Violation("not-rejected", "accepted although no input carries weight")
    shape = parts[0].shape
    W_ = np.array([np.broadcast_to(np.asarray(w, np.float64), shape[-2:]) for w in ws])
    M = np.array([np.broadcast_to(np.ma.getmaskarray(q), shape) for q in parts])
    m2 = M.reshape((len(parts), -1) + shape[-2:])[:, 0]
    W_ = np.where(m2, 0, W_)
    tot = W_.sum(axis=0)
    N = np.divide(W_, tot, out=np.zeros_like(W_), where=tot > 0)
    raw = [np.ma.getdata(q).astype(np.float64) for q in parts]
    if form == "perc":
        out = percentile_blend(raw, N, np.array([20.0, 50.0, 80.0]))
    elif form == "angle":
        z = sum(N[i] * np.exp(1j * np.radians(raw[i])) for i in range(len(raw)))
        out = np.degrees(np.angle(z)) % 360
        return np.ma.masked_array(out, tot <= 0), np.abs(z) < 0.02
    else:
        out = sum(np.where(N[i] > 0, raw[i], 0) * N[i] for i in range(len(raw)))
    return np.ma.masked_array(out, np.broadcast_to(tot <= 0, shape)), None


def spatial(p, parts, w1):
    """Weights that follow the masks, as documented: zero where masked, reduced within the fuzzy length of a hole, made up for by the inputs without holes."""
    from scipy.ndimage import distance_transform_edt

    M = np.array([np.ma.getmaskarray(q).reshape((-1,) + q.shape[-2:])[0] for q in parts])
    w = np.where(M, 0, np.asarray(w1, np.float64)[:, None, None])
    if not M.any():
        return w
    tot = w.sum(axis=0)
    w = np.divide(w, tot, out=np.zeros_like(w), where=tot > 0)
    cut = np.zeros(w.shape, bool)
    new = w.copy()
    for i in range(len(w)):
        ok = w[i] > 0
        if not ok.all():
            new[i] = w[i] * np.clip(distance_transform_edt(ok) / (p["fuzzy"] / 2000.0), 0, 1)
            cut[i] = new[i].astype(np.float32) != w[i].astype(np.float32)
    rest, need = np.where(cut, 0, new).sum(axis=0), 1 - np.where(cut, new, 0).sum(axis=0)
    f = np.divide(need, rest, out=np.zeros_like(rest), where=rest > 0)
    return np.where(cut, new, new * f)


def hours(p, model):
    return [0, 6, 12], p["conf"][MODELS.index(model)]


def compare(what, got, form, want, slack, tol=None):
    d = canon(got, form)
    if d.shape != want.shape:
        raise Violation("shape", "%s: result of shape %s instead of %s" % (what, d.shape, want.shape))
    gm, wm = np.ma.getmaskarray(d), np.ma.getmaskarray(want)
    if not (gm == wm).all():
        raise Violation("holes", "%s: %d points without value where %d are without any input" % (what, int(gm.sum()), int(wm.sum())))
    a, b = np.ma.getdata(d).astype(np.float64), np.ma.getdata(want)
    if form == "angle":
        off = np.abs((a - b + 180) % 360 - 180)
        off = np.where(slack, 0, off)
        t = 0.05
    else:
        off = np.abs(a - b)
        t = 2e-5 if form == "prob" else 3e-3
    t = tol or t
    off = np.where(wm, 0, off)
    if not np.isfinite(a[~wm]).all() or off.max(initial=0) > t:
        at = np.unravel_index(int(np.argmax(np.where(np.isfinite(off), off, 1e30))), off.shape)
        raise Violation("value", "%s: %r at %s instead of %r" % (what, float(a[at]), tuple(map(int, at)), float(b[at])))


def ragged_mask(part, p, r):
    """Give one slice of the leading coordinate a hole that the others do not have."""
    c = part[1]
    d = c.data
    m = np.ma.getmaskarray(d).copy()
    name = {"prob": "air_temperature", "perc": "percentile", "ens": "realization"}[p["form"]]
    i = c.coord_dims(name)[0]
    at = [0] * d.ndim
    at[i] = r.randrange(d.shape[i])
    one = np.moveaxis(m, i, 0)
    free = np.argwhere(~one[0])
    if not len(free):
        return False
    j, k = free[r.randrange(len(free))]
    one[at[i]][j, k] = True
    c.data = np.ma.masked_array(np.ma.getdata(d), m)
    return True


def stamp(t):
    from datetime import datetime

    return datetime.utcfromtimestamp(t).strftime("%Y%m%dT%H%MZ")


def times(what, got, cycle, t=V):
    x = {k: got.coord(k).points.tolist() for k in ("time", "forecast_reference_time", "forecast_period")}
    if x != {"time": [t], "forecast_reference_time": [cycle], "forecast_period": [t - cycle]}:
        raise Violation("times", "%s: %s instead of cycle %s" % (what, x, cycle))
    if not got.coords("blend_time") or got.coord("blend_time").points.tolist() != [cycle]:
        raise Violation("times", "%s: blend time is not %s" % (what, cycle))
    left = [c.name() for c in got.coords() if c.name() in ("model_id", "model_configuration", "blend_record")]
    if left:
        raise Violation("leftover", "%s: %s left on the result" % (what, left))


def record(what, got, want):
    """want: {(model, cycle): weight}"""
    have = {}
    for line in got.attributes.get(RUN, "").split("\n"):
        k, w = line.rsplit(":", 1)
        if k in have:
            raise Violation("record", "%s: %s recorded twice" % (what, k))
        have[k] = float(w)
    want = {"%s:%s" % (m, stamp(c)): w for (m, c), w in want.items()}
    if set(have) != set(want) or any(abs(have[k] - want[k]) > 0.0021 for k in want):
        raise Violation("record", "%s: weights recorded %s instead of %s" % (what, have, want))


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            {"cycles": cycles, "models": models, "members": cycles, "two": two, "adjacent": adjacent, "average": average}[plan["use"]](plan, st)


def default_weights(p, n):
    if p["weights"] == "linear":
        y0, yn = p["y"]
        return np.array([1.0]) if n == 1 else y0 + (yn - y0) * np.arange(n) / (n - 1.0)
    if p["weights"] in ("nonlinear", "inverse"):
        w = p["c"] ** np.arange(n)
        return w[::-1] if p["weights"] == "inverse" else w
    return np.ones(n)


def method(p):
    if p["weights"] == "linear":
        return {"weighting_method": "linear", "y0val": p["y"][0], "ynval": p["y"][1]}
    if p["weights"] == "nonlinear":
        return {"weighting_method": "nonlinear", "cval": p["c"]}
    return {"weighting_method": "linear", "y0val": 1, "ynval": 1}


def call(p, coordinate, cubes, cycle, **k):
    if p["weights"] == "inverse":
        from improver.blending.calculate_weights_and_blend import WeightAndBlend

        return guard(WeightAndBlend(coordinate, "nonlinear", cval=p["c"], inverse_ordering=True), cubes, cycletime=stamp(cycle), **k)
    from improver.cli import weighted_blending

    return guard(weighted_blending.process, *cubes, coordinate=coordinate, cycletime=stamp(cycle), **dict(method(p), **k))


def settle(p, st, what, err, bad, dup, zero):
    """Whether the outcome is a rejection that may or must be; raises when it may not."""
    if err is None:
        if bad:
            raise Violation("not-rejected", "%s: accepted although one input has another %s" % (what, bad))
        return False
    st.op("rejected")
    if bad or dup or zero:
        return True
    raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))


def unchanged(what, cubes, before):
    for a, b in zip(cubes, before):
        if a != b:
            raise Violation("input-changed", "%s: an input was changed" % what)


def deliver(p, st, here, order):
    ids = list(here)
    random.Random(order).shuffle(ids)
    if p["dup"] in ids:
        ids.insert(random.Random(order + 1).randrange(len(ids) + 1), p["dup"])
        st.fault("input-given-twice")
    st.fault("inputs-reordered", len(ids))
    return ids


def cycles(p, st):
    """Cycles of one model, or members."""
    r = random.Random(p["seed"])
    over = "forecast_reference_time" if p["use"] == "cycles" else "realization"
    if p["use"] == "members" and p["form"] == "ens":
        p = dict(p, form="field")
    one = payload(p, r)
    bad = p["bad"] if p["bad"] != "anon" else None
    parts = []
    for i, lag in enumerate(p["lags"]):
        d, lead, name, units = one if p["equal"] else payload(p, r)
        d = d.copy()
        t = V + fx.HOUR if bad == "time" and i == p["badat"] else V
        frt = fx.T0 - lag * fx.HOUR if p["use"] == "cycles" else fx.T0
        c = build(p, d, lead, "air_pressure" if bad == "name" and i == p["badat"] else name, units, frt, dict(fx.ATTRS, **{MID: "uk_ens"}), t)
        if p["use"] == "members":
            from iris.coords import DimCoord

            c.add_aux_coord(DimCoord(np.int32(lag), "realization", units="1"))
        parts.append((frt if p["use"] == "cycles" else lag, c, canon(c, p["form"])))
    here = [i for i in range(p["n"]) if i not in p["lost"]]
    if not here:
        return
    st.fault("input-lost", len(p["lost"]))
    if bad and (p["badat"] not in here or len(here) < 2):
        if p["badat"] in here:
            return
        bad = None
    if bad:
        st.fault("input-of-another-" + bad)
    cycle = fx.T0 + p["late"] * fx.HOUR
    asc = sorted(here, key=lambda i: parts[i][0])
    w = default_weights(p, len(asc))
    zero = bool(w.sum() <= 0)
    if bad and (w[asc.index(p["badat"])] == 0 or (w > 0).sum() < 2):
        return  # nothing to be compared with
    rec = p["record"] and p["use"] == "cycles"
    kw = {"record_run_attr": RUN, "model_id_attr": MID} if rec else {}
    metas = []
    for order in p["orders"]:
        ids = deliver(p, st, here, order)
        cubes = [parts[i][1].copy() for i in ids]
        if p["merged"] and not bad and len(set(ids)) == len(ids) and len(ids) > 1:
            m = together(p, [parts[i] for i in asc], over)
            cubes = [m]
        what = "%s %s %s, %s%s" % (p["form"], p["use"], [parts[i][0] for i in ids], p["weights"], " merged " + p["merged"] if len(cubes) == 1 and len(ids) > 1 else "")
        before = [c.copy() for c in cubes]
        got, err = call(p, over, cubes, cycle, **kw)
        st.op("blend-" + p["use"])
        st.state(p["use"], p["form"], p["weights"], p["merged"], tuple(parts[i][0] for i in ids))
        st.log("blend", order, type(err).__name__)
        if settle(p, st, what, err, bad, len(set(ids)) != len(ids), zero):
            continue
        want, slack = blend(p["form"], [parts[i][2] for i in asc], list(w))
        compare(what, got, p["form"], want, slack)
        if p["use"] == "cycles":
            times(what, got, cycle)
        if rec:
            n = w / w.sum()
            record(what, got, {("uk_ens", parts[i][0]): n[j] for j, i in enumerate(asc) if n[j] > 0})
        if got.coords("realization") and p["use"] == "members" and len(asc) > 1:
            raise Violation("leftover", "%s: a member number is left on the result" % what)
        unchanged(what, cubes, before)
        metas.append((what, [x for x in fx.gone(got)], dict(got.attributes)))
        st.probe("blends-checked")
    agree(metas)


def agree(metas):
    for _, _, a in metas:
        a.pop(RUN, None)  # rounded weights; checked by record()
    for what, g, a in metas[1:]:
        if g != metas[0][1] or a != metas[0][2]:
            raise Violation("order-dependence", "%s: metadata differ from those of %s: %s" % (what, metas[0][0], [x for x in g if x not in metas[0][1]] or [(k, a.get(k), metas[0][2].get(k)) for k in set(a) | set(metas[0][2]) if a.get(k) != metas[0][2].get(k)]))


def together(p, asc, over):
    """One cube of all the parts along a leading dimension, ascending or descending."""
    from iris.coords import AuxCoord
    from iris.cube import Cube

    if p["merged"] == "down":
        asc = asc[::-1]
    first = asc[0][1]
    datas = [x[1].data for x in asc]
    data = np.ma.stack(datas) if any(np.ma.isMaskedArray(x) for x in datas) else np.stack(datas)
    pts = [x[0] for x in asc]
    dims = [(fx.dim(over, pts), 0)] + [(c.copy(), first.coord_dims(c)[0] + 1) for c in first.coords(dim_coords=True)]
    c = Cube(data, units=first.units, dim_coords_and_dims=dims)
    c.rename(first.name())
    c.attributes.update(first.attributes)
    for x in first.coords(dim_coords=False):
        if x.name() == over or (over == "forecast_reference_time" and x.name() == "forecast_period"):
            continue
        c.add_aux_coord(x.copy())
    if over == "forecast_reference_time":
        fp = [y[1].coord("forecast_period") for y in asc]
        c.add_aux_coord(AuxCoord(np.array([f.points[0] for f in fp], np.int32), "forecast_period", units="seconds", bounds=None if fp[0].bounds is None else np.array([f.bounds[0] for f in fp], np.int32)), 0)
    return c


def config(p, names):
    return {m: {"forecast_period": hours(p, m)[0], "weights": hours(p, m)[1], "units": "hours"} for m in names}


def weight_of(p, model, cycle):
    if p["weights"] == "equal":
        return 1.0
    h, w = hours(p, model)
    return float(np.interp((V - cycle) / fx.HOUR, h, w))


def models(p, st):
    r = random.Random(p["seed"])
    if p["ragged"] and p["seed"] % 2:
        p = dict(p, mask=None)
    one = payload(p, r, 1)
    parts = []
    cycle = V - p["lead"] * fx.HOUR
    for i in range(p["n"]):
        d, lead, name, units = one if p["equal"] and not p["mask"] else payload(p, r, i)
        d = d.copy()
        t = V + fx.HOUR if p["bad"] == "time" and i == p["badat"] else V
        frt = cycle - p["lags"][i] * fx.HOUR
        a = dict(fx.ATTRS, **{MID: MODELS[i]})
        if p["bad"] == "anon" and i == p["badat"]:
            del a[MID]
        recs = {(MODELS[i], frt): 1.0}
        if p["record"] and p["had"]:
            recs = {(MODELS[i], frt): 0.25, (MODELS[i], frt - 3 * fx.HOUR): 0.75}
            a[RUN] = "\n".join("%s:%s:%1.3f" % (m, stamp(c), w) for (m, c), w in recs.items())
        c = build(p, d, lead, "air_pressure" if p["bad"] == "name" and i == p["badat"] else name, units, frt, a, t)
        if p["blended"]:
            from iris.coords import DimCoord

            c.add_aux_coord(DimCoord(np.int64(frt), long_name="blend_time", units=fx.EPOCH))
            c.coord("forecast_period").attributes["deprecation_message"] = "forecast_period will be removed in future and should not be used"
        parts.append((MODELS[i], c, canon(c, p["form"]), recs))
    here = [i for i in range(p["n"]) if i not in p["lost"]]
    if not here:
        return
    st.fault("input-lost", len(p["lost"]))
    bad = p["bad"] if p["badat"] in here else None
    if bad and len(here) < 2 and bad != "anon":
        return
    w = {i: weight_of(p, MODELS[i], cycle) for i in here}
    if len(here) == 1:
        w = {here[0]: 1.0}
    zero = sum(w.values()) <= 0
    if bad and bad != "anon" and (w[p["badat"]] == 0 or sum(x > 0 for x in w.values()) < 2):
        return
    if bad == "time" and p["weights"] == "dict" and np.interp((V - cycle) / fx.HOUR + 1, *hours(p, MODELS[p["badat"]])) == 0:
        return  # without weight at its own lead time
    if bad:
        st.fault("input-of-another-" + bad)
    use = [i for i in here if w[i] > 0]
    W1 = [w[i] / (sum(w.values()) or 1) for i in use]
    holes = sum(bool(np.ma.getmaskarray(parts[i][2]).any()) for i in use)
    if p["spatial"] and p["form"] != "perc" and holes:
        st.fault("input-with-holes", holes)
    if p["weights"] == "dict":
        kw = {"weighting_method": "dict", "weighting_coord": "forecast_period", "weighting_config": config(p, MODELS)}
    else:
        kw = {"weighting_method": "linear", "y0val": 1, "ynval": 1}
        if len({c.coord("forecast_period").points[0] for c in (x[1] for x in parts)}) > 1:
            pass
    if p["record"]:
        kw["record_run_attr"] = RUN
    kw["model_id_attr"] = MID
    if p["spatial"]:
        kw.update(spatial_weights_from_mask=True, fuzzy_length=p["fuzzy"])
    metas = []
    ragged = bool(p["ragged"] and p["form"] in ("prob", "perc", "ens") and len(use) > 1 and ragged_mask(parts[use[-1]], p, r))
    if ragged:
        st.fault("holes-of-some-members-only")
    for order in p["orders"]:
        ids = deliver(p, st, here, order)
        cubes = [parts[i][1].copy() for i in ids]
        before = [c.copy() for c in cubes]
        what = "%s models %s, %s weights %s%s" % (p["form"], [MODELS[i] for i in ids], p["weights"], [round(w[i], 3) for i in ids], " by masks" if p["spatial"] else "")
        from improver.cli import weighted_blending

        got, err = guard(weighted_blending.process, *cubes, coordinate="model", cycletime=stamp(cycle), **kw)
        st.op("blend-models")
        st.state("models", p["form"], p["weights"], p["spatial"], tuple(w[i] for i in ids))
        st.log("blend", order, type(err).__name__)
        if settle(p, st, what, err, bad, len(set(ids)) != len(ids), zero or ragged):
            continue
        if ragged:
            raise Violation("not-rejected", "%s: accepted although the holes differ along another dimension, for which there is one set of weights" % what)
        ds = [parts[i][2] for i in use]
        ws = spatial(p, ds, W1) if p["spatial"] and len(use) > 1 else W1
        want, slack = blend(p["form"], ds, list(ws))
        compare(what, got, p["form"], want, slack)
        times(what, got, cycle)
        names = got.attributes.get(MID, "").split(" ")
        if names != sorted(MODELS[i] for i in use):
            raise Violation("models", "%s: labelled as a blend of %s" % (what, names))
        if p["record"]:
            record(what, got, {k: x * v for i, v in zip(use, W1) for k, x in parts[i][3].items()})
        unchanged(what, cubes, before)
        metas.append((what, fx.gone(got), dict(got.attributes)))
        st.probe("blends-checked")
    agree(metas)


def two(p, st):
    """Cycles of each model first, then the models."""
    from improver.cli import weighted_blending

    r = random.Random(p["seed"])
    cycle = V - p["lead"] * fx.HOUR
    k = max(1, min(3, p["n"]))
    plan = []
    for i in range(k):
        lags = r.sample(range(6), r.choice([1, 2, 3]))
        arrived = [x for x in lags if r.random() < 0.8]
        if arrived:
            plan.append((MODELS[i], arrived))
        st.fault("input-lost", len(lags) - len(arrived))
    if not plan:
        return
    data = {(m, l): payload(dict(p, mask=None), r) for m, ls in plan for l in ls}
    w = {m: weight_of(dict(p, weights="dict"), m, cycle) for m, _ in plan}
    if len(plan) == 1:
        w = {plan[0][0]: 1.0}
    if sum(w.values()) <= 0:
        return
    tot = sum(w.values())
    metas = []
    for order in p["orders"]:
        q = random.Random(order)
        ms, rec = list(plan), {}
        q.shuffle(ms)
        stage, wanted = [], []
        for m, lags in ms:
            ls = list(lags)
            q.shuffle(ls)
            st.fault("inputs-reordered", len(ls))
            cubes = [build(p, data[m, l][0].copy(), *data[m, l][1:], cycle - l * fx.HOUR, dict(fx.ATTRS, **{MID: m})) for l in ls]
            got, err = guard(weighted_blending.process, *cubes, coordinate="forecast_reference_time", cycletime=stamp(cycle), record_run_attr=RUN, model_id_attr=MID, **method(dict(p, weights="linear")))
            what = "cycles %s of %s" % (ls, m)
            if err is not None:
                raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
            asc = sorted(lags, reverse=True)
            cw = default_weights(p, len(asc))
            cw = cw / cw.sum()
            ds = [canon(build(p, data[m, l][0].copy(), *data[m, l][1:], cycle, {}), p["form"]) for l in asc]
            want, slack = blend(p["form"], ds, list(cw))
            compare(what, got, p["form"], want, slack)
            times(what, got, cycle)
            mine = {(m, cycle - l * fx.HOUR): x for l, x in zip(asc, cw) if x > 0}
            record(what, got, mine)
            stage.append(got)
            if w[m] > 0:
                wanted.append((m, canon(got, p["form"])))
                rec.update({a: x * w[m] / tot for a, x in mine.items()})
        got, err = guard(weighted_blending.process, *stage, coordinate="model", cycletime=stamp(cycle), record_run_attr=RUN, model_id_attr=MID, weighting_method="dict", weighting_coord="forecast_period", weighting_config=config(p, MODELS))
        st.op("two-stages")
        st.state("two", p["form"], tuple((m, tuple(ls)) for m, ls in ms))
        what = "models %s after their cycles, weights %s" % ([m for m, _ in ms], [round(w[m], 3) for m, _ in ms])
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        want, slack = blend(p["form"], [d for _, d in wanted], [w[m] for m, _ in wanted])
        compare(what, got, p["form"], want, slack)
        times(what, got, cycle)
        record(what, got, rec)
        if abs(sum(float(x.rsplit(":", 1)[1]) for x in got.attributes[RUN].split("\n")) - 1) > 0.02:
            raise Violation("record", "%s: recorded weights do not sum to one: %r" % (what, got.attributes[RUN]))
        metas.append((what, fx.gone(got), dict(got.attributes)))
        st.probe("blends-checked")
    agree(metas)


def adjacent(p, st):
    """Lead times around a central one, some of which did not arrive."""
    from improver.cli import blend_adjacent_points

    r = random.Random(p["seed"])
    if p["mask"] and p["form"] == "perc":
        p = dict(p, mask=None)
    hs = sorted(r.sample(range(3, 16), p["n"]))
    centre = r.choice(hs)
    width = r.choice([1.0, 2.0, 3.0, 6.0])
    units = r.choice(["hours", "minutes", "seconds"])
    f = {"hours": 1, "minutes": 60, "seconds": 3600}[units]
    parts = {}
    one = payload(p, r)
    for h in hs:
        d, lead, name, u = one if p["equal"] else payload(p, r)
        c = build(p, d.copy(), lead, name, u, fx.T0, dict(fx.ATTRS), fx.T0 + h * fx.HOUR)
        parts[h] = (h, c, canon(c, p["form"]))
    here = [h for i, h in enumerate(hs) if i not in p["lost"]]
    st.fault("input-lost", len(p["lost"]))
    if not here:
        return
    metas = []
    for order in p["orders"]:
        ids = list(here)
        random.Random(order).shuffle(ids)
        st.fault("inputs-reordered", len(ids))
        cubes = [parts[h][1].copy() for h in ids]
        before = [c.copy() for c in cubes]
        got, err = guard(blend_adjacent_points.process, *cubes, coordinate="forecast_period", central_point=centre * f, units=units, width=width * f, blend_time_using_forecast_period=r.random() < 0.7)
        st.op("blend-adjacent")
        st.state("adjacent", p["form"], width, tuple(ids), centre)
        st.log("adjacent", order, type(err).__name__)
        what = "%s lead times %s around %s h within %s h" % (p["form"], ids, centre, width)
        if centre not in here:
            if err is None:
                raise Violation("not-rejected", "%s: accepted although the central one did not arrive" % what)
            continue
        if err is not None and len(here) == 1:
            continue  # one point has nothing adjacent
        settle(p, st, what, err, None, False, False)
        w = {h: max(0.0, 1 - abs(h - centre) / width) for h in here}
        use = [h for h in here if w[h] > 0]
        want, slack = blend(p["form"], [parts[h][2] for h in use], [w[h] for h in use])
        compare(what, got, p["form"], want, slack)
        if got.coord("time").points.tolist() != [fx.T0 + centre * fx.HOUR] or got.coord("forecast_period").points.tolist() != [centre * fx.HOUR]:
            raise Violation("times", "%s: valid at %s, lead time %s" % (what, got.coord("time").points, got.coord("forecast_period").points))
        unchanged(what, cubes, before)
        metas.append((what, fx.gone(got), dict(got.attributes)))
        st.probe("blends-checked")
    agree(metas)


def average(p, st):
    """Members and cycles, all with the same weight for each cycle."""
    from improver.cli import blend_cycles_and_realizations

    r = random.Random(p["seed"])
    parts = []
    cycle = fx.T0 + p["late"] * fx.HOUR
    for i, lag in enumerate(p["lags"]):
        d = fx.field(r, (r.choice([1, 2, 3]), 2, 3), 270, 290)
        if p["mask"]:
            d = np.ma.masked_array(d, np.broadcast_to(fx.mask_of(r, (2, 3), 0.3), d.shape).copy())
        c = build(dict(p, last=False), d, [fx.dim("realization", range(len(d)))], "air_temperature", "K", fx.T0 - lag * fx.HOUR, dict(fx.ATTRS))
        parts.append((lag, c, np.ma.asanyarray(d.mean(axis=0))))
    here = [i for i in range(p["n"]) if i not in p["lost"]]
    st.fault("input-lost", len(p["lost"]))
    if not here:
        return
    metas = []
    for order in p["orders"]:
        ids = deliver(p, st, here, order)
        cubes = [parts[i][1].copy() for i in ids]
        before = [c.copy() for c in cubes]
        got, err = guard(blend_cycles_and_realizations.process, *cubes, cycletime=stamp(cycle))
        st.op("average")
        st.state("average", tuple(parts[i][0] for i in ids))
        what = "members of cycles %s" % [-parts[i][0] for i in ids]
        if settle(p, st, what, err, None, len(set(ids)) != len(ids), False):
            continue
        want, _ = blend("field", [parts[i][2] for i in here], [1.0] * len(here))
        compare(what, got, "field", want, None)
        times(what, got, cycle)
        unchanged(what, cubes, before)
        metas.append((what, fx.gone(got), dict(got.attributes)))
        st.probe("blends-checked")
    agree(metas)
