"""F02: every forecast-truth pair is counted once, however the pairs are split into tables and the tables aggregated."""
import random
import warnings

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from .f01 import Archive, guard

RUNS = {"quick": 500, "thorough": 100000}
BATCH = 20
TECHNIQUE = "simulated archive jobs: seeded partitions of the pairs into tables, staged aggregation in any order with lost, repeated and overlapping tables, judged against counts made by hand"
RULE = ("Each run builds tables from 1-8 days of forecasts and truths split into consecutive periods, with masks that vary with time, missing values and bin-edge probabilities, "
        "aggregates them in 1-3 stages in 2 different orders (some tables lost, repeated or of overlapping periods), over space at any stage, and compares with counts made by hand.")
STATE_MEASURE = "hash of (partition, order of aggregation, coordinates)"
REAL = ["improver.cli: construct_reliability_tables, aggregate_reliability_tables", "improver.calibration.reliability_calibration"]
STUB = ["iris (stand-in)", "delivery of the tables"]
TRUTH = "mosg__model_configuration=uk_det"
SPACE = ["projection_y_coordinate", "projection_x_coordinate"]


def prepare():
    W.load_all()
    from improver.calibration import reliability_calibration  # noqa: F401


def generate(rng, idx, tier):
    days = rng.choice([1, 2, 3, 4, 5, 8])
    cuts = sorted(rng.sample(range(1, days), rng.randrange(min(days, 4)))) if days > 1 else []
    lower, upper = rng.random() < 0.4, rng.random() < 0.4
    return {"days": days, "cuts": cuts, "bins": rng.choice([3, 4, 5]), "lower": lower, "upper": upper, "mask": rng.choice([None, "truth", "truth", "forecast", "both"]), "nan": rng.random() < 0.2, "edges": rng.random() < 0.5,
            "lost": rng.choice([None] * 4 + [rng.randrange(8)]), "bad": rng.choice([None] * 4 + ["twice", "overlap"]), "orders": [rng.randrange(10 ** 6) for _ in range(2)],
            "space": rng.choice([None, None, "construct", "end", "stage"]), "axes": rng.choice([SPACE, SPACE[:1]]), "seed": rng.randrange(10 ** 6), "messages": rng.random() < 0.3, "lost_pairs": rng.random() < 0.3}


def shrink(p):
    for i in range(len(p["cuts"])):
        yield dict(p, cuts=p["cuts"][:i] + p["cuts"][i + 1:])
    if p["days"] > 1:
        yield dict(p, days=p["days"] - 1, cuts=[c for c in p["cuts"] if c < p["days"] - 1])
    if len(p["orders"]) > 1:
        yield dict(p, orders=p["orders"][:1])
        yield dict(p, orders=p["orders"][1:])
    for k, v in (("mask", None), ("nan", False), ("edges", False), ("lost", None), ("bad", None), ("space", None), ("lower", False), ("upper", False), ("messages", False), ("lost_pairs", False)):
        if p[k] != v:
            yield dict(p, **{k: v})


class Pairs(Archive):
    def __init__(self, p, edges):
        Archive.__init__(self, {"use": "tables", "days": p["days"], "lead": True, "nan": None, "partial": False, "mask": None, "seed": p["seed"], "odd": p["seed"] % 3 == 0, "bounds": False, "period": None, "cycle": None})
        r = random.Random(p["seed"] + 1)
        shape = (self.ny, self.nx)
        for i in range(p["days"]):
            f, t = self.F[i], np.ma.getdata(self.T[i])
            for k in np.ndindex(*f.shape):
                if p["edges"] and r.random() < 0.6:
                    f[k] = r.choice(edges)
                if p["nan"] and not (p["mask"] in ("forecast", "both")) and k[1:] != (0, 0) and r.random() < 0.15:
                    f[k] = np.nan
            if p["mask"] in ("truth", "both"):
                t = np.ma.masked_array(t, np.broadcast_to(fx.mask_of(r, shape, r.choice([0, 0.3, 0.6])), t.shape).copy())
            if p["mask"] in ("forecast", "both"):
                m = fx.mask_of(r, shape, r.choice([0, 0.3, 0.6]))
                m[0, 0] = False
                f = np.ma.masked_array(f, np.broadcast_to(m, f.shape).copy())
            self.F[i], self.T[i] = f, t

    def table(self, days, bins):
        """(counted, [threshold, row, bin, y, x]) by hand; counted: pairs not masked, 2: of them with a value."""
        k = len(self.coords()[0].points)
        out = np.zeros((k, 3, len(bins), self.ny, self.nx))
        n, v = np.zeros((k, self.ny, self.nx), int), np.zeros((k, self.ny, self.nx), int)
        for d in days:
            F, T = np.ma.asanyarray(self.F[d]), np.ma.asanyarray(self.T[d])
            bad = np.ma.getmaskarray(F) | np.ma.getmaskarray(T)
            for th, y, x in np.ndindex(*F.shape):
                if bad[th, y, x]:
                    continue
                n[th, y, x] += 1
                p = np.ma.getdata(F)[th, y, x]
                if np.isnan(p):
                    continue
                v[th, y, x] += 1
                b = max(i for i in range(len(bins)) if p >= bins[i][0])
                out[th, 0, b, y, x] += np.ma.getdata(T)[th, y, x] == 1
                out[th, 1, b, y, x] += p
                out[th, 2, b, y, x] += 1
        return n, v, out

    def empty(self, day):
        """Is the forecast of this day without any data (and ignored as a whole)?"""
        return bool(np.isnan(np.ma.filled(np.ma.asanyarray(self.F[day]).astype(float), np.nan)).all())


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            run(plan, st)


def arranged(cube):
    """[threshold, row, bin, (y, x)] of a table cube."""
    names = [c.name() for c in cube.coords(dim_coords=True)]
    order = [n for n in ("air_temperature", "table_row_index", "probability_bin") + tuple(SPACE) if n in names]
    d = np.ma.asanyarray(cube.data)
    if len(order) != d.ndim:
        raise Violation("form", "a table with dimensions %s" % names)
    d = d.transpose([names.index(n) for n in order])
    return d if "air_temperature" in order else d[None], [n for n in order if n in SPACE]


def compare(p, arc, cube, days, bins, axes, what, st):
    got, left = arranged(cube)
    n, v, want = arc.table(days, bins)
    want_left = [a for a in SPACE if a not in axes]
    if left != want_left:
        raise Violation("form", "%s: a table over %s instead of %s" % (what, left, want_left))
    for ax in (1, 0):
        if SPACE[ax] in axes:
            n, v, want = n.sum(axis=1 + ax), v.sum(axis=1 + ax), want.sum(axis=3 + ax)
    if got.shape != want.shape:
        raise Violation("form", "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    m = np.ma.getmaskarray(got)
    per = m.reshape(m.shape[0], m.shape[1] * m.shape[2], -1)
    if (per.any(axis=1) != per.all(axis=1)).any():
        raise Violation("mask", "%s: rows masked differently" % what)
    mp = m[:, 0, 0]
    if (mp & (v > 0)).any() or (~mp & (n == 0)).any():
        raise Violation("pairs-lost" if (mp & (v > 0)).any() else "mask", "%s: masked %s where the numbers of pairs are %s" % (what, mp.tolist(), v.tolist()))
    diff = ~np.isclose(got.filled(0).astype(float), want, rtol=1e-5, atol=1e-5)
    if diff.any():
        k = tuple(int(i[0]) for i in np.nonzero(diff))
        raise Violation("counts", "%s: at (threshold, row, bin, place) %s: %s instead of %s" % (what, k, got.filled(0)[k], want[k]))
    st.probe("tables-compared")
    frt = cube.coord("forecast_reference_time")
    cyc = [arc.when(d, False)[1] for d in days]
    if int(frt.points[0]) != max(cyc) or frt.bounds is not None and frt.bounds[0].tolist() != [min(cyc), max(cyc)] or frt.bounds is None and len(cyc) > 1:
        raise Violation("cycles", "%s: cycles %s %s instead of %s to %s" % (what, frt.points, frt.bounds, min(cyc), max(cyc)))


def run(p, st):
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables
    from improver.cli import aggregate_reliability_tables, construct_reliability_tables

    opts = dict(n_probability_bins=p["bins"], single_value_lower_limit=p["lower"], single_value_upper_limit=p["upper"])
    bins, err = guard(lambda: ConstructReliabilityCalibrationTables(**opts).probability_bins)
    if err is not None:
        raise Violation("rejected", "options %s: %s" % (opts, err))
    if len(bins) != p["bins"] or bins[0][0] != 0 or bins[-1][1] != 1 or any(np.nextafter(bins[i][1], np.float32(2)) < bins[i + 1][0] or bins[i][1] >= bins[i + 1][0] for i in range(len(bins) - 1)):
        raise Violation("bins", "bins %s leave gaps or overlap" % bins.tolist())
    edges = [np.float32(e) for b in bins for e in b]
    arc = Pairs(p, edges)
    r = random.Random(p["seed"] + 2)
    # the archive lost some forecasts or truths: those pairs do not exist
    lostp = {d: r.choice("ft") for d in range(p["days"]) if p["lost_pairs"] and r.random() < 0.3}
    periods = [list(range(a, b)) for a, b in zip([0] + p["cuts"], p["cuts"] + [p["days"]])]
    axes = p["axes"] if p["space"] else []

    def build(days, what):
        f = [d for d in days if lostp.get(d) != "f"]
        t = [d for d in days if lostp.get(d) != "t"]
        both = [d for d in days if d not in lostp and not arc.empty(d)]
        if not f or not t:
            return None
        msgs = [arc.one(d, False) for d in f] + [arc.one(d, True) for d in t] if p["messages"] else [arc.many(f, False, False), arc.many(t, True, False)]
        r.shuffle(msgs)
        kw = dict(opts, truth_attribute=TRUTH)
        if p["space"] == "construct":
            kw["aggregate_coordinates"] = list(axes)
        got, err = guard(construct_reliability_tables.process, *msgs, **kw)
        st.op("construct")
        if not both:
            if err is None:
                raise Violation("nothing-accepted", "%s: a table from no pair" % what)
            return None
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        compare(p, arc, got, both, bins, axes if p["space"] == "construct" else [], what, st)
        return both, got

    st.fault("pair-lost", len(lostp))
    tables = [x for x in (build(d, "table of days %s without %s" % (d, lostp)) for d in periods) if x]
    if not tables:
        return
    if p["lost"] is not None and len(tables) > 1:
        del tables[p["lost"] % len(tables)]
        st.fault("table-lost")
    bad = None
    if p["bad"] == "twice":
        bad = r.choice(tables)
        bad = (bad[0], bad[1].copy())
    elif p["bad"] == "overlap" and len(tables) > 1:
        i = r.randrange(len(tables) - 1)
        span = list(range(tables[i][0][-1], tables[i + 1][0][0] + 1))
        bad = build(span, "table of days %s" % span)
    if bad:
        st.fault("table-" + p["bad"])
    for order in p["orders"]:
        r = random.Random(order)
        box = [(d, c.copy()) for d, c in tables] + ([(bad[0], bad[1].copy())] if bad else [])
        st.fault("tables-reordered", len(box))
        summed = p["space"] == "construct"
        story = []
        rejected = False
        while len(box) > 1 or p["space"] in ("end", "stage") and not summed:
            r.shuffle(box)
            # consecutive periods only may be put together first when the rest lie outside them
            k = r.choice([len(box), r.randint(1, len(box))])
            srt = sorted(box, key=lambda x: (x[0][0], x[0][-1]))
            if k < len(box):
                i = r.randrange(len(box) - k + 1)
                part = srt[i:i + k]
            else:
                part = list(box)
            r.shuffle(part)
            coords = None
            if p["space"] == "stage" and not summed or p["space"] == "end" and not summed and len(part) == len(box):
                if p["space"] == "stage" and len(part) < len(box):
                    part = list(box)
                coords = list(axes)
            if len(part) == 1 and coords is None:
                got, err = guard(aggregate_reliability_tables.process, part[0][1].copy())
                if err is not None or got != part[0][1]:
                    raise Violation("unchanged", "a single table was changed or rejected: %s" % err)
                continue
            before = list(coords) if coords else None
            story.append("%s%s" % ([d for d, _ in part], " over %s" % coords if coords else ""))
            what = "aggregating tables of days " + "; then ".join(story)
            got, err = guard(aggregate_reliability_tables.process, *[c for _, c in part], **({"coordinates": coords} if coords else {}))
            st.op("aggregate")
            st.log("aggregate", story[-1], type(err).__name__)
            if before is not None and coords != before:
                raise Violation("options-changed", "%s: the coordinates became %s" % (what, coords))
            flat = [d for ds, _ in part for d in ds]
            double = any(max(a[0][0], b[0][0]) <= min(a[0][-1], b[0][-1]) for n, a in enumerate(part) for b in part[:n])
            if double:
                if err is None:
                    raise Violation("counted-twice", "%s: accepted although %s" % (what, "days occur twice" if len(set(flat)) < len(flat) else "the periods overlap"))
                rejected = True
                break
            if err is not None:
                raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
            if coords:
                summed = True
            box = [x for x in box if not any(x is y for y in part)] + [(sorted(flat), got)]
            compare(p, arc, got, sorted(flat), bins, axes if summed else [], what, st)
        st.state(tuple(p["cuts"]), order, tuple(story))
        if bad and not rejected:
            raise Violation("counted-twice", "orders %s: a table of days %s was accepted beside %s" % (order, bad[0], [d for d, _ in tables]))
