"""F08: relabelling forecasts to a common cycle."""
import itertools
import random
import warnings
from datetime import datetime, timedelta

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from .f01 import guard, same

RUNS = {"quick": 1500, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated arrival of forecast cycles: seeded loss, lateness, reordering and repeated relabelling, judged against validity time minus cycle time"
RULE = ("Each run lets 1-5 forecasts of different cycles arrive (some lost, some very late, some with time dimensions, periods, other units, several cycles in one cube or without lead time), relabels them 1-4 times to the latest or to given cycles in different orders, "
        "with seeded interrupts between the steps, and checks every label and all data after each step.")
STATE_MEASURE = "hash of (cycles arriving, order, sequence of relabellings)"
REAL = ["improver.metadata.forecast_times: unify_cycletime, rebadge_forecasts_as_latest_cycle, forecast_period_coord, add_blend_time"]
STUB = ["iris (stand-in)", "arrival of the forecasts"]


def prepare():
    W.load_all()
    from improver.metadata import forecast_times  # noqa: F401


def generate(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    span = rng.choice([1, 6, 24])
    msgs = []
    for i in range(n):
        msgs.append({"cycle": rng.choice([-span, -2, -1, 0, 0, 1, span, 0.25]), "fp": rng.choice([1, 2, 6, 36]), "form": rng.choice(["plain", "plain", "times", "members"]), "bounds": rng.random() < 0.3, "hours": rng.random() < 0.15,
                     "nofp": rng.random() < 0.15, "fpaux": rng.random() < 0.3, "frtb": rng.random() < 0.15, "mask": rng.random() < 0.2})
    return {"msgs": msgs, "lost": [i for i in range(n) if n > 1 and rng.random() < 0.15], "dim": rng.choice([None] * 9 + [rng.randrange(n)]), "seed": rng.randrange(10 ** 6),
            "steps": [rng.choice([None, None, -span, 0, 1, 3, span, 48]) for _ in range(rng.choice([1, 1, 2, 4]))], "direct": rng.random() < 0.4, "blend": rng.random() < 0.2, "order": rng.randrange(10 ** 6)}


def shrink(p):
    for i in range(len(p["msgs"])):
        if len(p["msgs"]) > 1:
            yield dict(p, msgs=p["msgs"][:i] + p["msgs"][i + 1:], lost=[], dim=None if p["dim"] is None or p["dim"] == i else p["dim"] - (p["dim"] > i))
    for i in range(len(p["steps"])):
        if len(p["steps"]) > 1:
            yield dict(p, steps=p["steps"][:i] + p["steps"][i + 1:])
    for i, m in enumerate(p["msgs"]):
        for k in ("bounds", "hours", "nofp", "fpaux", "frtb", "mask"):
            if m[k]:
                yield dict(p, msgs=p["msgs"][:i] + [dict(m, **{k: False})] + p["msgs"][i + 1:])
        if m["form"] != "plain":
            yield dict(p, msgs=p["msgs"][:i] + [dict(m, form="plain")] + p["msgs"][i + 1:])
    for k, v in (("lost", []), ("dim", None), ("blend", False)):
        if p[k] != v:
            yield dict(p, **{k: v})


def message(m, r, dim):
    """One forecast; (cube, cycle in seconds, validity times, their bounds)."""
    from iris.coords import AuxCoord, DimCoord

    frt = int(fx.T0 + m["cycle"] * fx.HOUR)
    t = frt + m["fp"] * fx.HOUR
    if dim:
        frts = [frt - 3 * fx.HOUR, frt]
        return fx.cube(fx.field(r, (2, 2, 3), 270, 290), [fx.dim("forecast_reference_time", frts)], time=t), frt, None, None
    times = [t + i * fx.HOUR for i in range(3)] if m["form"] == "times" else [t]
    tb = [[x - fx.HOUR, x] for x in times] if m["bounds"] else None
    shape = (3, 2, 3) if m["form"] != "plain" else (2, 3)
    data = fx.field(r, shape, 270, 290)
    if m["mask"]:
        data = np.ma.masked_array(data, fx.mask_of(r, shape, 0.3))
    lead = [fx.dim("time", times, bounds=None if tb is None else np.array(tb, np.int64))] if m["form"] == "times" else [fx.dim("realization", [0, 1, 2])] if m["form"] == "members" else []
    c = fx.cube(data, lead, time=t, frt=frt, bounds=None if tb is None else tb[0])
    fp = c.coord("forecast_period")
    if m["nofp"]:
        c.remove_coord(fp)
    elif m["fpaux"] and m["form"] != "times":
        c.remove_coord(fp)
        c.add_aux_coord(AuxCoord(fp.points, "forecast_period", units="seconds", bounds=fp.bounds))
    f = c.coord("forecast_reference_time")
    if m["frtb"]:
        f.bounds = np.array([[frt - 3 * fx.HOUR, frt]], np.int64)
    if m["hours"]:
        c.remove_coord(f)
        c.add_aux_coord(DimCoord(np.array([frt / 3600.0]), "forecast_reference_time", units="hours since 1970-01-01 00:00:00"))
    return c, frt, times, tb


def check(got, m, src, frt, times, tb, what, st):
    c, _, _, _ = src
    f = got.coords("forecast_reference_time")
    if len(f) != 1 or got.coord_dims(f[0]) != () or f[0].shape != (1,):
        raise Violation("cycle", "%s: %d cycle coordinates" % (what, len(f)))
    f = f[0]
    if str(f.units) != fx.EPOCH or f.dtype != np.int64 or f.points.tolist() != [frt] or f.bounds is not None:
        raise Violation("cycle", "%s: cycle %s %s %s instead of %s" % (what, f.points, f.bounds, f.units, frt))
    t, fps = got.coord("time"), got.coords("forecast_period")
    if t.points.tolist() != times or (None if t.bounds is None else t.bounds.tolist()) != tb or got.coord_dims(t) != c.coord_dims(c.coord("time")):
        raise Violation("validity", "%s: validity times %s %s" % (what, t.points, t.bounds))
    if len(fps) != 1:
        raise Violation("lead-time", "%s: %d forecast periods" % (what, len(fps)))
    fp = fps[0]
    want = [x - frt for x in times]
    wb = None if tb is None else [[a - frt, b - frt] for a, b in tb]
    if str(fp.units) not in ("seconds", "s", "second") or fp.dtype != np.int32 or fp.points.tolist() != want or (None if fp.bounds is None else fp.bounds.tolist()) != wb or got.coord_dims(fp) != got.coord_dims(t):
        raise Violation("lead-time", "%s: forecast period %s %s %s instead of %s %s" % (what, fp.points, fp.bounds, fp.units, want, wb))
    if not same(np.ma.asanyarray(got.data), np.ma.asanyarray(c.data)) or got.name() != c.name() or got.units != c.units or dict(got.attributes) != dict(c.attributes):
        raise Violation("data", "%s: data, name or attributes changed" % what)
    a, b = ([x for x in fx.gone(q) if x[0] not in ("forecast_reference_time", "forecast_period")] for q in (got, c))
    if a != b:
        raise Violation("data", "%s: coordinates %s instead of %s" % (what, a, b))
    st.probe("labels-checked")


def execute(plan, st):
    with np.errstate(all="ignore"):
        run(plan, st)


def run(p, st):
    from improver.metadata.forecast_times import add_blend_time, rebadge_forecasts_as_latest_cycle, unify_cycletime
    from iris.cube import CubeList

    r = random.Random(p["seed"])
    all_ = [message(m, r, p["dim"] == i) for i, m in enumerate(p["msgs"])]
    arrived = [i for i in range(len(all_)) if i not in p["lost"]]
    if not arrived:
        return
    st.fault("forecast-lost", len(p["lost"]))
    random.Random(p["order"]).shuffle(arrived)
    st.fault("forecasts-reordered", len(arrived))
    several = p["dim"] in arrived
    src = [all_[i] for i in arrived]
    keep = [c.copy() for c, _, _, _ in src]
    now = CubeList([c for c, _, _, _ in src])
    late = max(f for _, f, _, _ in src)
    label = [f for _, f, _, _ in src]
    st.state(tuple((m["cycle"], m["fp"]) for m in p["msgs"]), tuple(arrived), tuple(p["steps"]))
    touched = False
    for k, step in enumerate(p["steps"]):
        target = max(label) if step is None else int(fx.T0 + step * fx.HOUR)
        when = datetime(1970, 1, 1) + timedelta(seconds=target)
        how = "latest cycle" if step is None else "cycle %s" % when
        what = "forecasts of cycles %s in order %s, relabelled to %s (step %d)" % ([p["msgs"][i]["cycle"] for i in arrived], arrived, how, k)
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            if step is None:
                got, err = guard(rebadge_forecasts_as_latest_cycle, now)
            elif p["direct"]:
                got, err = guard(unify_cycletime, now, when)
            else:
                got, err = guard(rebadge_forecasts_as_latest_cycle, now, cycletime=when.strftime("%Y%m%dT%H%MZ"))
        st.op("relabel")
        st.log("step", k, type(err).__name__)
        for n, c in enumerate(keep):
            if not touched and (now[n] != c or not same(np.ma.asanyarray(now[n].data), np.ma.asanyarray(c.data))):
                raise Violation("input-changed", "%s: the forecast given was changed" % what)
        if several:
            st.fault("several-cycles-in-one")
            if len(arrived) == 1 and step is None and err is None:
                return  # nothing to do
            if err is None:
                raise Violation("not-rejected", "%s: a forecast of several cycles was relabelled to %s" % (what, [(c.coord("forecast_reference_time").points, c.coord("forecast_period").points) for c in got]))
            return
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        if len(got) != len(arrived):
            raise Violation("lost", "%s: %d of %d forecasts came back" % (what, len(got), len(arrived)))
        if step is None and len(arrived) == 1 and got[0] == now[0]:
            continue  # the only forecast is the latest
        past = any(t < target for _, _, ts, _ in src for t in ts)
        if past:
            st.fault("cycle-after-validity")
            if not any(issubclass(w.category, UserWarning) for w in seen):
                raise Violation("no-warning", "%s: validity before the cycle, without a warning" % what)
        for n, i in enumerate(arrived):
            check(got[n], p["msgs"][i], src[n], target, src[n][2], src[n][3], what + ", forecast %d" % i, st)
        touched = True
        keep, now, label = [c.copy() for c in got], got, [target] * len(arrived)
        touched = False
    if p["blend"] and not several:
        when = datetime(1970, 1, 1) + timedelta(seconds=late)
        for n, c in enumerate(now):
            _, err = guard(add_blend_time, c, when.strftime("%Y%m%dT%H%MZ"))
            if err is not None:
                raise Violation("rejected", "blend time: %s: %s" % (type(err).__name__, err))
            b = c.coord("blend_time")
            if b.points.tolist() != [late] or str(b.units) != fx.EPOCH or not same(np.ma.asanyarray(c.data), np.ma.asanyarray(keep[n].data)):
                raise Violation("blend-time", "blend time %s %s instead of %s" % (b.points, b.units, late))
        # labels that disagree are never combined
        other = datetime(1970, 1, 1) + timedelta(seconds=late + fx.HOUR)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, err = guard(unify_cycletime, now, other)
        if err is None:
            for c in got:
                f, b, fp = c.coord("forecast_reference_time").points[0], c.coord("blend_time").points[0], c.coord("forecast_period").points
                if f != b or (fp != c.coord("time").points - f).any():
                    raise Violation("inconsistent", "cycle %s, blend time %s, forecast period %s" % (f, b, fp))
        st.probe("blend-time-checked")
