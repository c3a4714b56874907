"""F01: forecasts are paired with the truth of their own time, whatever arrives and in whatever order."""
import random
import warnings

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where

RUNS = {"quick": 700, "thorough": 100000}
BATCH = 25
TECHNIQUE = "simulated delivery of historical forecasts and truths: seeded loss, duplication, reordering, wrong periods and empty forecasts, judged against the set of times present on both sides"
RULE = ("Each run delivers forecasts and truths of 1-8 days as separate messages or as ready-made cubes (ascending or descending times, leading dimensions, masks, with or without a land-sea mask) with losses, duplicates, forecasts without data, truths of another period and forecasts of another cycle, "
        "then pairs them and derives bias, reliability tables or ensemble calibration coefficients, for 2-3 orders of arrival.")
STATE_MEASURE = "hash of (delivered forecasts, delivered truths, order, form)"
REAL = ["improver.calibration: split_forecasts_and_truth, filter_non_matching_cubes, CalculateForecastBias, ConstructReliabilityCalibrationTables, EstimateCoefficientsForEnsembleCalibration", "MergeCubes"]
STUB = ["iris (stand-in)", "delivery of the messages"]
TRUTH = "mosg__model_configuration=uk_det"


def prepare():
    W.load_all()
    from improver.calibration import simple_bias_correction, reliability_calibration, ensemble_calibration, utilities  # noqa: F401


def generate(rng, idx, tier):
    use = rng.choice(["pair", "pair", "cycles", "bias", "bias", "tables", "emos" if idx % 10 == 0 else "bias"])
    days = rng.choice([1, 2, 3, 4, 6, 8]) if use != "emos" else rng.choice([4, 6])
    both = [i for i in range(days)]
    f = [i for i in both if rng.random() < rng.choice([0.7, 1.0])]
    t = [i for i in both if rng.random() < rng.choice([0.7, 1.0])]
    return {"use": use, "days": days, "f": f, "t": t, "form": rng.choice(["messages", "messages", "cube", "reversed"]), "bounds": rng.random() < 0.3, "lead": rng.random() < 0.4, "mask": rng.choice([None, None, 0.3, "some"]),
            "nan": rng.choice([None, None, None, rng.randrange(days)]), "partial": rng.random() < 0.2, "dup": rng.choice([None] * 8 + ["f", "t"]), "period": rng.choice([None] * 6 + [rng.randrange(days)]) , "cycle": rng.choice([None] * 9 + [rng.randrange(days)]),
            "land": rng.random() < 0.3, "orders": [rng.randrange(10 ** 6) for _ in range(rng.choice([2, 3]))], "seed": rng.randrange(10 ** 6), "odd": rng.random() < 0.3}


def shrink(p):
    for k in ("f", "t", "orders"):
        for i in range(len(p[k])):
            if len(p[k]) > 1:
                yield dict(p, **{k: p[k][:i] + p[k][i + 1:]})
    for k, v in (("mask", None), ("nan", None), ("partial", False), ("dup", None), ("period", None), ("cycle", None), ("land", False), ("lead", False), ("bounds", False), ("form", "messages"), ("use", "pair"), ("odd", False)):
        if p[k] != v:
            yield dict(p, **{k: v})


class Archive:
    """What was forecast and observed; cubes of single days or of several."""

    def __init__(self, p):
        r = random.Random(p["seed"])
        self.p, self.ny, self.nx = p, 2, 3
        self.fp = 6 * fx.HOUR
        self.lead = {"tables": "threshold", "emos": "realization"}.get(p["use"]) or ("realization" if p["lead"] and p["use"] == "pair" else None)
        n = p["days"]
        shape = (self.ny, self.nx)
        k = {"threshold": 2, "realization": 3}.get(self.lead)
        self.F, self.T = {}, {}
        for i in range(n):
            if self.lead == "threshold":
                self.F[i] = fx.field(r, (k,) + shape, 0, 1)
                self.T[i] = fx.field(r, (k,) + shape, 0, 1, ties=2)
            elif self.lead:
                base = fx.field(r, shape, 270, 290)
                self.F[i] = base + fx.field(r, (k,) + shape, -2, 2)
                self.T[i] = base + fx.field(r, shape, -2, 2)
            else:
                self.F[i], self.T[i] = fx.field(r, shape, 270, 290), fx.field(r, shape, 270, 290)
            if p["nan"] == i and self.lead != "threshold":
                self.F[i][...] = np.nan
            if p["partial"] and self.lead is None:
                self.F[i][0, 0] = np.nan  # a missing point is not an empty forecast
            if p["mask"]:
                m = fx.mask_of(r, shape, 0.3 if p["mask"] != "some" else r.choice([0, 0.4]))
                if self.lead != "realization":
                    self.T[i] = np.ma.masked_array(self.T[i], np.broadcast_to(m, self.T[i].shape).copy())

    def coords(self):
        if self.lead == "threshold":
            return [fx.threshold_coord("air_temperature", [275.0, 280.0], "K")]
        return [fx.dim("realization", [0, 1, 2])] if self.lead else []

    def when(self, i, truth):
        t = fx.T0 + i * fx.DAY + self.fp
        frt = t if truth else t - self.fp
        if not truth and self.p["cycle"] == i:
            frt -= 3 * fx.HOUR
        w = 3 * fx.HOUR if truth and self.p["period"] == i else fx.HOUR
        return t, frt, [t - w, t] if self.p["bounds"] else None

    def one(self, i, truth):
        d = (self.T if truth else self.F)[i].copy()
        t, frt, b = self.when(i, truth)
        a = dict(fx.ATTRS, mosg__model_configuration="uk_det" if truth else "uk_ens")
        name = "probability_of_air_temperature_above_threshold" if self.lead == "threshold" else "air_temperature"
        c = fx.cube(d, self.coords() if not truth or self.lead == "threshold" else [], name=name, units="1" if self.lead == "threshold" else "K", time=t, frt=frt, bounds=b, attrs=a)
        return c

    def many(self, days, truth, reverse):
        from iris.coords import AuxCoord
        from iris.cube import Cube

        days = sorted(days, reverse=reverse)
        if len(days) == 1:
            return self.one(days[0], truth)
        one = self.one(days[0], truth)
        D = [(self.T if truth else self.F)[i] for i in days]
        data = np.ma.stack(D) if any(np.ma.isMaskedArray(x) for x in D) else np.stack(D)
        W_ = [self.when(i, truth) for i in days]
        frts = np.array([w[1] for w in W_], np.int64)
        lead = self.coords() if not truth or self.lead == "threshold" else []
        t = fx.dim("time", [w[0] for w in W_], bounds=None if W_[0][2] is None else np.array([w[2] for w in W_], np.int64))
        nl = len(lead)
        if nl and self.p["odd"]:  # leading coordinate before time
            data = np.moveaxis(data, 0, nl)
            order = lead + [t]
        else:
            order = [t] + lead
        g = fx.xy(self.ny, self.nx)
        c = Cube(data, units=one.units, attributes=dict(one.attributes), dim_coords_and_dims=[(x, i) for i, x in enumerate(order)] + [(g[0], data.ndim - 2), (g[1], data.ndim - 1)])
        c.rename(one.name())
        td = order.index(t)
        c.add_aux_coord(AuxCoord(frts, "forecast_reference_time", units=fx.EPOCH), td)
        fps = np.array([w[0] - w[1] for w in W_], np.int32)
        if len(set(fps.tolist())) == 1:
            c.add_aux_coord(fx.dim("forecast_period", fps[:1], bounds=None if W_[0][2] is None else np.array([[fps[0] - fx.HOUR, fps[0]]], np.int32)))
        else:
            c.add_aux_coord(AuxCoord(fps, "forecast_period", units="seconds"), td)
        return c


def by_time(cube):
    """{validity time: [data slices]} of a paired cube."""
    out = {}
    for s in cube.slices_over("time"):
        out.setdefault(int(s.coord("time").points[0]), []).append(s)
    return out


def same(a, b):
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    return a.shape == b.shape and bool((ma == mb).all()) and np.array_equal(np.ma.filled(a, 0), np.ma.filled(b, 0)) or (a.shape == b.shape and bool((ma == mb).all()) and np.allclose(np.ma.filled(a, 0), np.ma.filled(b, 0), rtol=0, atol=0, equal_nan=True))


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            run(plan, st)


def guard(fn, *a, **k):
    try:
        return fn(*a, **k), None
    except Exception as e:
        if unsupported(e):
            raise Unsupported(str(e))
        return None, e


def cycles(p, st):
    """A forecast of several cycles and lead times: a truth is still used once."""
    from improver.calibration.utilities import filter_non_matching_cubes
    from iris.coords import AuxCoord

    r = random.Random(p["seed"])
    nf, nl = r.choice([2, 3]), r.choice([2, 3])
    frts, fps = fx.T0 + fx.DAY * np.arange(nf), fx.DAY * np.arange(1, nl + 1)
    data = fx.field(r, (nf, nl, 2, 3), 270, 290)
    gone = [(i, j) for i in range(nf) for j in range(nl) if r.random() < 0.25]
    for i, j in gone:
        data[i, j] = np.nan
    f = fx.cube(data, [fx.dim("realization", range(nf)), fx.dim("forecast_period", fps)], time=None)
    f.remove_coord("realization")
    f.add_dim_coord(fx.dim("forecast_reference_time", frts), 0)
    f.add_aux_coord(AuxCoord(frts[:, None] + fps[None, :], "time", units=fx.EPOCH), (0, 1))
    arc = Archive(dict(p, days=nf + nl - 1, use="bias", mask=None, bounds=False, lead=False, period=None, cycle=None, nan=None, partial=False, odd=False))
    there = [d for d in range(nf + nl - 1) if r.random() < 0.8]
    if not there:
        return
    when = {d: int(fx.T0 + fx.DAY * (d + 1)) for d in there}
    t = fx.cube(np.stack([arc.T[d] for d in there]), [fx.dim("time", [when[d] for d in there])], frt=None) if len(there) > 1 else fx.cube(arc.T[there[0]], time=when[there[0]], frt=when[there[0]])
    st.fault("forecast-without-data", len(gone))
    st.fault("message-lost", nf + nl - 1 - len(there))
    st.state("cycles", nf, nl, tuple(gone), tuple(there))
    got, err = guard(filter_non_matching_cubes, f, t)
    want = {d: [data[i, d - i] for i in range(nf) if 0 <= d - i < nl and (i, d - i) not in gone] for d in there}
    pairs = [d for d in there if want[d]]
    what = "%d cycles and %d lead times, without %s, truths of days %s" % (nf, nl, gone, there)
    st.log("cycles", type(err).__name__)
    if not pairs:
        if err is None:
            raise Violation("nothing-accepted", what)
        return
    if err is not None:
        raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
    F, T = by_time(got[0]), by_time(got[1])
    if sorted(F) != [when[d] for d in pairs] or sorted(T) != sorted(F) or any(len(v) != 1 for v in list(F.values()) + list(T.values())):
        raise Violation("times", "%s: forecasts at %s and truths at %s" % (what, sorted(F), sorted(T)))
    for d in pairs:
        if not any(same(F[when[d]][0].data, x) for x in want[d]) or not same(T[when[d]][0].data, arc.T[d]):
            raise Violation("values", "%s: day %d became %s and %s" % (what, d, F[when[d]][0].data, T[when[d]][0].data))
    if got[0].coord("time").points.ravel().tolist() != got[1].coord("time").points.ravel().tolist():
        raise Violation("order", "%s: %s and %s" % (what, got[0].coord("time").points, got[1].coord("time").points))
    st.probe("pairs-checked", len(pairs))


def run(p, st):
    if p["use"] == "cycles":
        return cycles(p, st)
    from iris.cube import CubeList

    from improver.calibration import split_forecasts_and_truth
    from improver.calibration.utilities import filter_non_matching_cubes

    arc = Archive(p)
    if not p["f"] or not p["t"]:
        st.probe("one-side-empty")
    wrong_period = p["bounds"] and p["period"] is not None
    pairs = [i for i in p["f"] if i in p["t"] and not (wrong_period and p["period"] == i) and not (p["nan"] == i and arc.lead != "threshold")]
    for side in "ft":
        st.fault("message-lost", p["days"] - len(p[side]))
    if wrong_period:
        st.fault("truth-of-another-period")
    if p["nan"] is not None:
        st.fault("forecast-without-data")
    if p["cycle"] is not None:
        st.fault("forecast-of-another-cycle")
    st.op(p["use"])
    mixed_cycle = p["cycle"] in pairs and len(pairs) > 1
    results = []
    for order in p["orders"]:
        r = random.Random(order)
        dup = None
        if p["form"] == "messages":
            msgs = [arc.one(i, False) for i in p["f"]] + [arc.one(i, True) for i in p["t"]]
            if p["dup"] and p[p["dup"]]:
                dup = r.choice(p[p["dup"]])
                msgs.append(arc.one(dup, p["dup"] == "t"))
                st.fault("message-twice")
        else:
            rev = p["form"] == "reversed"
            msgs = ([arc.many(p["f"], False, rev)] if p["f"] else []) + ([arc.many(p["t"], True, False)] if p["t"] else [])
        if p["land"] and len(msgs) > 2 or p["land"] and p["form"] != "messages" and len(msgs) == 2:
            lm = fx.cube(np.ones((2, 3), np.int8), name="land_binary_mask", units="1", time=None)
            msgs.append(lm)
        else:
            lm = None
        r.shuffle(msgs)
        st.fault("messages-reordered", len(msgs))
        what = "forecasts of days %s and truths of days %s%s, order %d" % (p["f"], p["t"], "" if dup is None else ", one %s of day %d twice" % ("forecast" if p["dup"] == "f" else "truth", dup), order)
        split, err = guard(split_forecasts_and_truth, CubeList(msgs), TRUTH)
        st.state(tuple(p["f"]), tuple(p["t"]), order, p["form"])
        st.log("split", order, type(err).__name__)
        if not p["f"] or not p["t"]:
            if err is None:
                raise Violation("nothing-accepted", "%s: accepted" % what)
            continue
        if err is not None:
            if dup is not None:
                results.append("rejected")
                continue  # a repeated message may be rejected
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        f, t, mask = split
        if (mask is None) != (lm is None):
            raise Violation("land-mask", "%s: land-sea mask %s" % (what, "lost" if lm is not None else "invented"))
        if p["use"] == "bias" and (arc.lead is None):
            results.append(bias(p, arc, f, t, pairs, mixed_cycle, what, st))
            continue
        if p["use"] == "tables":
            results.append(tables(p, arc, f, t, pairs, mixed_cycle, what, st))
            continue
        got, err = guard(filter_non_matching_cubes, f, t)
        if not pairs:
            if err is None:
                raise Violation("nothing-accepted", "%s: no common time, yet a pairing" % what)
            continue
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        F, T = by_time(got[0]), by_time(got[1])
        want = sorted(arc.when(i, False)[0] for i in pairs)
        if sorted(F) != want or sorted(T) != want or any(len(v) != 1 for v in list(F.values()) + list(T.values())):
            raise Violation("times", "%s: forecasts at %s and truths at %s instead of %s" % (what, sorted(F), sorted(T), want))
        ft, tt = got[0].coord("time").points.tolist(), got[1].coord("time").points.tolist()
        if ft != tt:
            raise Violation("order", "%s: forecast times %s, truth times %s" % (what, ft, tt))
        for i in pairs:
            k = arc.when(i, False)[0]
            for src, S in ((arc.F, F), (arc.T, T)):
                if not same(np.ma.asanyarray(S[k][0].data), np.ma.asanyarray(src[i])):
                    raise Violation("values", "%s: day %d became %s instead of %s" % (what, i, S[k][0].data, src[i]))
            if int(F[k][0].coord("forecast_reference_time").points[0]) != arc.when(i, False)[1]:
                raise Violation("cycle", "%s: day %d has cycle %s" % (what, i, F[k][0].coord("forecast_reference_time").points))
            st.probe("pairs-checked")
        if p["use"] == "emos" and not mixed_cycle:
            results.append(emos(f, t, what))
    for x in results[1:]:
        a, b = results[0], x
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) != isinstance(b, str) or a != b:
                raise Violation("order-dependent", "%s: %s in one order, %s in another" % (p["orders"], a, b))
        elif len(a) != len(b) or any(x.shape != y.shape or not np.allclose(np.ma.filled(x, -9), np.ma.filled(y, -9), rtol=1e-5, atol=1e-6, equal_nan=True) for x, y in zip(a, b)):
            raise Violation("order-dependent", "orders %s: %s and %s" % (p["orders"], a, b))


def bias(p, arc, f, t, pairs, mixed, what, st):
    from improver.calibration.simple_bias_correction import CalculateForecastBias

    got, err = guard(CalculateForecastBias(), f, t)
    if not pairs or mixed:
        if err is None:
            raise Violation("nothing-accepted", "%s: a bias from %s" % (what, "no pair" if not pairs else "several cycles"))
        return "rejected"
    if err is not None:
        raise Violation("rejected", "%s: bias: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
    e = np.ma.stack([np.ma.asanyarray(arc.F[i]).astype(float) - np.ma.asanyarray(arc.T[i]).astype(float) for i in pairs])
    ok, e = ~np.ma.getmaskarray(e), np.ma.getdata(e)
    n = ok.sum(axis=0)
    want = np.where(ok, e, 0).sum(axis=0) / np.maximum(n, 1)
    unknown = (np.isnan(e) & np.isfinite(want[None])).any(axis=0) | np.isnan(want)  # a point with a missing forecast may be missing either way
    d = np.ma.asanyarray(got.data)
    mw, mg = (n == 0), np.ma.getmaskarray(d)
    if d.shape != want.shape or ((mw != mg) & ~unknown).any() or not np.allclose(d.filled(0)[~mw & ~unknown], want[~mw & ~unknown], rtol=1e-4, atol=1e-3) or not (mg | np.isnan(d.filled(0)))[np.isnan(want)].all():
        raise Violation("bias", "%s: mean error %s instead of %s over days %s" % (what, d.tolist(), want.tolist(), pairs))
    st.probe("biases-checked")
    frt = got.coord("forecast_reference_time")
    first, last = (arc.when(i, False)[1] for i in (min(pairs), max(pairs)))
    if int(frt.points[0]) != last or len(pairs) > 1 and frt.bounds is not None and frt.bounds[0].tolist() != [first, last]:
        raise Violation("bias", "%s: cycles %s %s instead of %s to %s" % (what, frt.points, frt.bounds, first, last))
    return [np.ma.asanyarray(got.data)]


def tables(p, arc, f, t, pairs, mixed, what, st):
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables

    got, err = guard(ConstructReliabilityCalibrationTables(n_probability_bins=3), f, t)
    if not pairs or mixed:
        if err is None:
            raise Violation("nothing-accepted", "%s: tables from %s" % (what, "no pair" if not pairs else "several cycles"))
        return "rejected"
    if err is not None:
        raise Violation("rejected", "%s: tables: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
    d = np.ma.filled(np.ma.asanyarray(got.data), 0).astype(float)
    row = got.coord("table_row_name").points.tolist()
    ax = [c.name() for c in got.coords(dim_coords=True)].index("table_row_index")
    T = np.moveaxis(d, ax, 0)
    valid = np.ma.stack([np.ma.asanyarray(arc.T[i]) for i in pairs])
    n, pos = float(valid.count()), float(valid.sum())
    prob = float(np.ma.masked_array(np.stack([arc.F[i] for i in pairs]), np.ma.getmaskarray(valid)).sum())
    have = [float(T[row.index(x)].sum()) for x in ("forecast_count", "observation_count", "sum_of_forecast_probabilities")]
    if abs(have[0] - n) > 0.5 or abs(have[1] - pos) > 0.5 or abs(have[2] - prob) > 1e-2:
        raise Violation("tables", "%s: counts, events and probability sum %s instead of %s" % (what, have, [n, pos, prob]))
    st.probe("tables-checked")
    return [np.ma.asanyarray(got.data)]


def emos(f, t, what):
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration

    f, t = f.copy(), t.copy()
    got, err = guard(EstimateCoefficientsForEnsembleCalibration("norm", max_iterations=20), f, t)
    if err is not None:
        return "rejected"
    return [np.asarray(c.data, float) for c in got]
