"""F05: time-lagged ensembles."""
import random
import warnings

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from .f01 import guard, same

RUNS = {"quick": 900, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated arrival of ensemble cycles: seeded loss and reordering, members clashing in number, cycles valid at other times, judged by the multiset of members that arrived"
RULE = ("Each run lets 1-5 ensembles of different cycles arrive in 2-3 orders, some lost, with clashing, scattered, descending or single member numbers, masks, periods, time dimensions or thresholds, sometimes one valid at another time or over another period, "
        "and compares the lagged ensemble with the members that arrived; the result is lagged again with a cycle that arrives later.")
STATE_MEASURE = "hash of (cycles, member numbers, order)"
REAL = ["improver.cli.time_lagged_ensembles", "improver.utilities.time_lagging.GenerateTimeLaggedEnsemble", "MergeCubes", "rebadge_forecasts_as_latest_cycle"]
STUB = ["iris (stand-in)", "arrival of the cycles"]


def prepare():
    W.load_all()
    from improver.utilities import time_lagging  # noqa: F401


def generate(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    style = rng.choice(["same", "apart", "mixed", "mixed"])
    cyc = []
    for i in range(n):
        k = rng.choice([1, 2, 3, 4])
        if style == "same":
            m = list(range(k))
        elif style == "apart":
            m = list(range(10 * i, 10 * i + k))
        else:
            m = rng.sample(range(0, 9), k)
            m.sort(reverse=rng.random() < 0.2)
        cyc.append({"lag": i if rng.random() < 0.9 else max(0, i - 1), "members": m, "scalar": k == 1 and rng.random() < 0.6, "frtb": rng.random() < 0.05})
    return {"cycles": cyc, "lost": [i for i in range(n) if n > 2 and rng.random() < 0.2], "lead": rng.choice([None, None, "times", "threshold"]), "last": rng.random() < 0.3, "bounds": rng.random() < 0.4, "mask": rng.choice([None, None, 0.3]),
            "bad": rng.choice([None] * 4 + ["time", "period"]), "badat": rng.randrange(n), "orders": [rng.randrange(10 ** 6) for _ in range(rng.choice([2, 3]))], "again": rng.random() < 0.3, "seed": rng.randrange(10 ** 6), "history": rng.random() < 0.2, "plugin": rng.random() < 0.3}


def shrink(p):
    for i in range(len(p["cycles"])):
        if len(p["cycles"]) > 1:
            yield dict(p, cycles=p["cycles"][:i] + p["cycles"][i + 1:], lost=[], badat=0)
    for i, c in enumerate(p["cycles"]):
        if len(c["members"]) > 1:
            yield dict(p, cycles=p["cycles"][:i] + [dict(c, members=c["members"][:-1])] + p["cycles"][i + 1:])
    if len(p["orders"]) > 1:
        yield dict(p, orders=p["orders"][:1])
        yield dict(p, orders=p["orders"][1:])
    for k, v in (("lost", []), ("lead", None), ("bounds", False), ("mask", None), ("bad", None), ("again", False), ("history", False), ("last", False)):
        if p[k] != v:
            yield dict(p, **{k: v})


def ensemble(p, i, c, r):
    from iris.coords import DimCoord

    frt = fx.T0 - c["lag"] * fx.HOUR * 3
    t = fx.T0 + 12 * fx.HOUR
    w = fx.HOUR
    bad = p["bad"] and i == p["badat"] and len(p["cycles"]) > 1
    if bad and p["bad"] == "time":
        t += fx.HOUR
    if bad and p["bad"] == "period":
        w = 3 * fx.HOUR
    times = [t, t + fx.HOUR] if p["lead"] == "times" else [t]
    tb = [[x - w, x] for x in times] if p["bounds"] else None
    k = len(c["members"])
    extra = {"times": (2,), "threshold": (2,)}.get(p["lead"], ())
    data = fx.field(r, (k,) + extra + (2, 3), 0, 1)
    if p["mask"]:
        data = np.ma.masked_array(data, fx.mask_of(r, data.shape, p["mask"]))
    real = fx.dim("realization", c["members"])
    lead = [real]
    if p["lead"] == "times":
        lead.append(fx.dim("time", times, bounds=None if tb is None else np.array(tb, np.int64)))
    if p["lead"] == "threshold":
        lead.append(fx.threshold_coord("air_temperature", [275.0, 280.0], "K"))
    swap = len(lead) > 1 and p["last"]
    if swap:
        lead, data = lead[::-1], data.swapaxes(0, 1)
    attrs = dict(fx.ATTRS)
    if p["history"]:
        attrs["history"] = "made by cycle %d" % i
    cube = fx.cube(data, lead, name="probability_of_air_temperature_above_threshold" if p["lead"] == "threshold" else "air_temperature", units="1" if p["lead"] == "threshold" else "K", time=t, frt=frt, bounds=None if tb is None else tb[0], attrs=attrs)
    if c["scalar"]:
        cube = cube[:, 0] if swap else cube[0]
    if c["frtb"]:
        cube.coord("forecast_reference_time").bounds = np.array([[frt - fx.HOUR, frt]], np.int64)
    rows = data.swapaxes(0, 1) if swap else data
    return cube, frt, [rows[j] for j in range(k)], (times, tb)


def members(cube):
    """{number: data} of a cube's members."""
    out = []
    for s in cube.slices_over("realization"):
        out.append((int(s.coord("realization").points[0]), np.ma.asanyarray(s.data)))
    return out


def key(a):
    a = np.ma.asanyarray(a)
    return (a.shape, np.ma.getmaskarray(a).tobytes(), np.ascontiguousarray(a.filled(0)).tobytes())


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            run(plan, st)


def lag(p, cubes):
    if p["plugin"] and not p["bad"]:
        from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble
        from iris.cube import CubeList

        return guard(GenerateTimeLaggedEnsemble(), CubeList(cubes))
    from improver.cli import time_lagged_ensembles

    return guard(time_lagged_ensembles.process, *cubes)


def check(got, parts, what, st, single):
    have = members(got)
    nums = [n for n, _ in have]
    want = [key(d) for _, _, rows, _ in parts for d in rows]
    if sorted(key(d) for _, d in have) != sorted(want):
        lost = len([k for k in want if k not in [key(d) for _, d in have]])
        raise Violation("members", "%s: %d members, %d of the %d that arrived are not among them" % (what, len(have), lost, len(want)))
    if len(set(nums)) != len(nums):
        raise Violation("numbers", "%s: members numbered %s" % (what, nums))
    frt = max(f for _, f, _, _ in parts)
    f, t, fp = got.coord("forecast_reference_time"), got.coord("time"), got.coord("forecast_period")
    times, tb = parts[0][3]
    if f.points.tolist() != [frt] or got.coord_dims(f) != ():
        raise Violation("cycle", "%s: cycle %s instead of %s" % (what, f.points, frt))
    if t.points.tolist() != times or (None if t.bounds is None else t.bounds.tolist()) != tb:
        raise Violation("validity", "%s: valid at %s %s" % (what, t.points, t.bounds))
    if fp.points.tolist() != [x - frt for x in times] or (None if fp.bounds is None else fp.bounds.tolist()) != (None if tb is None else [[a - frt, b - frt] for a, b in tb]) or got.coord_dims(fp) != got.coord_dims(t):
        raise Violation("lead-time", "%s: forecast period %s %s with cycle %s and validity %s" % (what, fp.points, fp.bounds, frt, times))
    if not single and (got.coord_dims("realization") == () and len(have) > 1 or got.name() != parts[0][0].name() or got.units != parts[0][0].units):
        raise Violation("form", "%s: %s" % (what, got.summary(shorten=True)))
    st.probe("ensembles-checked")
    return sorted(key(d) for _, d in have)


def run(p, st):
    r = random.Random(p["seed"])
    parts = [ensemble(p, i, c, r) for i, c in enumerate(p["cycles"])]
    here = [i for i in range(len(parts)) if i not in p["lost"]]
    if not here:
        return
    st.fault("cycle-lost", len(p["lost"]))
    bad = p["bad"] if p["badat"] in here and len(here) > 1 and (p["bad"] != "period" or p["bounds"]) else None
    if bad:
        st.fault("cycle-of-another-" + bad)
    for order in p["orders"]:
        q = random.Random(order)
        ids = list(here)
        q.shuffle(ids)
        st.fault("cycles-reordered", len(ids))
        cubes = [parts[i][0].copy() for i in ids]
        before = [c.copy() for c in cubes]
        got, err = lag(p, cubes)
        st.op("lag")
        st.state(tuple((c["lag"], tuple(c["members"])) for c in p["cycles"]), tuple(ids))
        st.log("lag", order, type(err).__name__)
        what = "members %s of cycles %s in order %s" % ([p["cycles"][i]["members"] for i in ids], [-3 * p["cycles"][i]["lag"] for i in ids], ids)
        if bad:
            if err is None:
                raise Violation("not-rejected", "%s: accepted although cycle %d is of another %s" % (what, p["badat"], bad))
            continue
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        check(got, [parts[i] for i in ids], what, st, len(ids) == 1)
        for a, b in zip(cubes, before):
            if a != b:
                raise Violation("input-changed", "%s: an ensemble given was changed" % what)
        if p["again"] and len(ids) > 1:
            c = {"lag": q.choice([-1, 7]), "members": p["cycles"][ids[0]]["members"], "scalar": False, "frtb": False}
            late = ensemble(dict(p, bad=None), 99, c, q)
            pair = [got, late[0]]
            q.shuffle(pair)
            more, err = lag(p, pair)
            if err is not None:
                raise Violation("rejected", "%s, then one more cycle: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
            check(more, [parts[i] for i in ids] + [late], what + ", then one more cycle", st, False)
            st.op("lag-again")
