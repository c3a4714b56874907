"""F06: inputs are recognised by what they are."""
import random
import warnings

import numpy as np

from .. import fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from .f01 import guard

RUNS = {"quick": 900, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated delivery of mixed inputs: seeded reordering, grouping, loss, duplication, replacement and intruders, judged by the undisturbed delivery and by which input is which"
RULE = ("Each run takes a processing step that is handed several kinds of input at once (19 plugins and functions with inputs recorded from the repository's tests, and generated forecasts with truths, coefficients, bias files, masks, templates and references), "
        "delivers them in several orders and groupings, complete, with one missing, one twice, one in place of another or a stranger among them, and compares the outcomes with each other and with that of the complete set.")
STATE_MEASURE = "hash of (step, inputs, change, order, grouping)"
REAL = ["mixed-input plugins of improver.psychrometric_calculations, precipitation_type, wind_calculations, lightning, nowcasting, visibility, calibration", "improver.calibration.split_*", "improver.cli.enforce_consistent_forecasts, normalise_to_reference", "improver.utilities.mask.apply_mask"]
STUB = ["iris (stand-in)", "delivery of the inputs"]
Q = "improver.psychrometric_calculations."
# what may be missing, what may come more than once
STEPS = {
    "improver.calibration.simple_bias_correction.ApplyBiasCorrection": ("forecast_error", "forecast_error"),
    "improver.lightning.LightningFromCapePrecip": (), "improver.lightning.LightningMultivariateProbability_USAF2024": (),
    "improver.nowcasting.lightning.NowcastLightning": ("vertical_integral_of_ice", None),
    "improver.precipitation_type.convection.ConvectionRatioFromComponents": (), "improver.precipitation_type.freezing_rain.FreezingRain": (), "improver.precipitation_type.hail_fraction.HailFraction": (),
    "improver.precipitation_type.shower_condition_probability.ShowerConditionProbability": (), "improver.precipitation_type.snow_fraction.SnowFraction": (), "improver.precipitation_type.snow_splitter.SnowSplitter": (),
    Q + "cloud_condensation_level.CloudCondensationLevel": (), Q + "cloud_top_temperature.CloudTopTemperature": (), Q + "precip_phase_probability.PrecipPhaseProbability": (), Q + "psychrometric_calculations.HumidityMixingRatio": (),
    Q + "psychrometric_calculations.PhaseChangeLevel": (), Q + "hail_size.HailSize": (), Q + "wet_bulb_temperature.WetBulbTemperature": (),
    "improver.visibility.visibility_combine_cloud_base.VisibilityCombineCloudBase": (), "improver.wind_calculations.vertical_updraught.VerticalUpdraught": (),
}
CHANGES = [None, "omit", "twice", "twice", "swap", "swap", "impostor", "stranger"]


def prepare():
    W.load_all()
    from improver import calibration  # noqa: F401


def steps():
    g = W.grouped(True).get("P", {})
    return [(p, g[p]) for p in sorted(STEPS) if p in g]


def generate(rng, idx, tier):
    use = "step" if idx % 2 else rng.choice(["truth", "coeffs", "coeffs", "bias", "reference", "normalise", "mask"])
    p = {"use": use, "change": rng.choice(CHANGES), "i": rng.randrange(100), "j": rng.randrange(100), "orders": [rng.randrange(10 ** 6) for _ in range(rng.choice([2, 3]))], "seed": rng.randrange(10 ** 6), "same": rng.random() < 0.4, "rid": None}
    if use == "step":
        all_ = steps()
        p["rid"] = rng.choice(all_[(idx // 2) % len(all_)][1])
        p["more"] = [[rng.choice(CHANGES[1:]), rng.randrange(100), rng.randrange(100), rng.random() < 0.4] for _ in range(7)]
    else:
        p["parts"] = {"days": rng.choice([1, 2, 3]), "land": rng.random() < 0.5, "static": rng.choice([0, 1, 2]), "template": rng.random() < 0.5, "coeffs": rng.random() < 0.8, "errors": rng.choice([0, 1, 2, 3]), "prob": rng.random() < 0.3}
    return p


def shrink(p):
    for i in range(len(p["orders"])):
        if len(p["orders"]) > 1:
            yield dict(p, orders=p["orders"][:i] + p["orders"][i + 1:])
    if p.get("parts"):
        for k, v in (("days", 1), ("land", False), ("static", 0), ("template", False), ("coeffs", False), ("errors", 0), ("prob", False)):
            if p["parts"][k] != v:
                yield dict(p, parts=dict(p["parts"], **{k: v}))
    if p["change"]:
        yield dict(p, change=None)
    for n in range(len(p.get("more", ()))):
        yield dict(p, more=p["more"][:n] + p["more"][n + 1:])


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            if plan["use"] != "step":
                return generated(plan, st)
            step(plan, st)
            for k, i, j, same in plan["more"]:
                step(dict(plan, change=k, i=i, j=j, same=same, orders=plan["orders"][:2]), st)


def grouping(q, cubes):
    """The same inputs, handed over separately, as lists, or nested."""
    from iris.cube import CubeList

    k = q.randrange(4)
    if k == 0 or len(cubes) < 2:
        return list(cubes)
    if k == 1:
        return [CubeList(cubes)]
    c = q.randrange(1, len(cubes))
    return [CubeList(cubes[:c]), CubeList(cubes[c:])] if k == 2 else [cubes[0], CubeList(cubes[1:])]


def altered(c):
    c = c.copy()
    W.apply_vary((c,), ["flip", 1])
    return c


def change(p, cubes):
    """What is delivered instead of the complete set."""
    k, i = p["change"], p["i"] % len(cubes)
    j = p["j"] % len(cubes)
    if k == "omit":
        return cubes[:i] + cubes[i + 1:], [cubes[i]]
    if k in ("twice", "swap"):
        extra = cubes[i].copy() if p["same"] else altered(cubes[i])
        if k == "twice":
            return cubes + [extra], [cubes[i]]
        if j == i:
            j = (i + 1) % len(cubes)
        return [c for n, c in enumerate(cubes) if n != j] + [extra], [cubes[j], cubes[i]]
    if k in ("impostor", "stranger"):
        c = altered(cubes[i])
        c.rename("tendency_of_air_density")
        return (cubes[:i] + [c] + cubes[i + 1:], [cubes[i]]) if k == "impostor" else (cubes + [c], [])
    return list(cubes), []


def step(p, st):
    rec = W.table().get(p["rid"])
    if rec is None:
        return
    spec = STEPS[rec.path] or ("", None)
    optional, repeat = spec
    base = W.build(p["rid"])
    packed = len(base.args) >= 1 and not hasattr(base.args[0], "coord_dims")
    cubes = list(base.args[0]) if packed else [a for a in base.args]
    tail = list(base.args[1:]) if packed else []
    if len(cubes) == 2 and isinstance(cubes[1], (list, tuple)):
        cubes = [cubes[0]] + list(cubes[1])
        packed = "mixed"
    if len(cubes) < 2 or any(not hasattr(c, "coord_dims") for c in cubes):
        return
    if len({c.name() for c in cubes}) < 2:
        return
    want = W.outcome(W.build(p["rid"]).target(), base.args, base.kwargs)
    if want[0] != "ok":
        return
    cubes = list(W.build(p["rid"]).args[0]) if packed is True else W.cubes_in((W.build(p["rid"]).args,))
    given, lost = change(p, cubes)
    k = p["change"]
    if k:
        st.fault("input-" + {"omit": "lost", "twice": "duplicated", "swap": "lost-and-another-duplicated", "impostor": "replaced-by-stranger", "stranger": "stranger"}[k])
    reject = k in ("omit", "swap", "impostor") and not (optional and any(optional in c.name() for c in lost[:1])) or k == "twice" and not (repeat and repeat in lost[0].name()) or k == "swap" and not (repeat and repeat in lost[1].name())
    if repeat and k == "impostor":
        return  # whatever is no bias file is a forecast
    seen = None
    for order in p["orders"]:
        q = random.Random(order)
        ids = list(range(len(given)))
        q.shuffle(ids)
        cs = [given[n].copy() for n in ids]
        fresh = W.build(p["rid"])
        if packed is True:
            args = [type(fresh.args[0])(cs)] + tail
        else:
            args = grouping(q, cs)
        got, raw = W.outcome(fresh.target(), args, fresh.kwargs, raw=True)
        st.op("step")
        st.fault("inputs-reordered", len(ids))
        st.state(p["rid"], k, p["i"], p["j"], tuple(ids), len(args))
        st.log("step", p["rid"], k, order, got[0])
        what = "%s given %s" % (rec.path.rsplit(".", 1)[1], [given[n].name() for n in ids])
        if k is None:
            d = W.diff(want, got)
            if d:
                raise Violation("order-dependent", "%s: %s, compared with the order %s" % (what, d, [c.name() for c in cubes]))
        elif reject and got[0] == "ok":
            raise Violation("not-rejected", "%s (%s): accepted" % (what, {"omit": "%s missing", "twice": "%s twice", "swap": "%s missing and %s twice", "impostor": "%s replaced by an unknown quantity"}[k] % tuple(c.name() for c in lost)))
        elif k == "stranger" and got[0] == "ok" and W.diff(want, got):
            raise Violation("stranger-used", "%s: %s" % (what, W.diff(want, got)))
        if seen is not None and got[0] != seen[0] or seen is not None and got[0] == "ok" and W.diff(seen, got):
            raise Violation("order-dependent", "%s: %s, compared with another order" % (what, W.show(got) if got[0] != seen[0] else W.diff(seen, got)))
        seen = got
    st.probe("steps-checked" if not reject else "rejections-checked")


# ---------------------------------------------------------------- generated inputs
def kinds(p, r):
    """(kind, cube) of every input of the complete set."""
    from iris.coords import DimCoord

    a = p["parts"]
    u = p["use"]
    sh = (2, 3)

    def f(name, units="K", lo=270, hi=290, **k):
        return fx.cube(fx.field(r, sh, lo, hi), name=name, units=units, **k)

    out = []
    if u == "truth":
        for i in range(a["days"]):
            for truth in (False, True):
                at = dict(fx.ATTRS, mosg__model_configuration="uk_det" if truth else "uk_ens")
                t = fx.T0 + i * fx.DAY
                out.append(("truth" if truth else "forecast", f("air_temperature", time=t, frt=t if truth else t - fx.HOUR, attrs=at)))
        if a["land"]:
            out.append(("land", f("land_binary_mask", "1", 0, 1, time=None)))
    elif u == "coeffs":
        prob = a["prob"]
        out.append(("forecast", fx.prob(fx.field(r, (2,) + sh), [275.0, 280.0]) if prob else f("air_temperature")))
        if a["coeffs"]:
            for n in ("alpha", "beta", "gamma", "delta"):
                c = f("emos_coefficient_" + n, "1", 0, 1)
                out.append(("coefficient", c))
        for i in range(a["static"]):
            out.append(("static", f(["surface_altitude", "distance_to_water"][i], "m", 0, 100, time=None)))
        if a["land"]:
            out.append(("land", f("land_binary_mask", "1", 0, 1, time=None)))
        if a["template"] and not prob:
            out.append(("template", fx.prob(fx.field(r, (2,) + sh), [275.0, 280.0])))
    elif u == "bias":
        out.append(("forecast", f("air_temperature")))
        for i in range(a["errors"]):
            out.append(("error", f("forecast_error_of_air_temperature", time=fx.T0 - i * fx.DAY, frt=fx.T0 - i * fx.DAY)))
    elif u == "reference":
        out = [("forecast", f("wind_speed_of_gust", "m s-1", 0, 10)), ("reference", f("wind_speed", "m s-1", 0, 10))]
    elif u == "normalise":
        out = [("reference", f("precipitation_rate", "m s-1", 1, 2)), ("wanted", f("rainfall_rate", "m s-1", 1, 2)), ("other", f("sleetfall_rate", "m s-1", 1, 2))]
        if a["static"]:
            out.append(("other", f("snowfall_rate", "m s-1", 1, 2)))
    else:
        out = [("forecast", f("wind_speed", "m s-1", 0, 10)), ("mask", fx.cube(fx.mask_of(r, sh, 0.4).astype(np.int8), name="land_binary_mask", units="1"))]
    return out


def generated(p, st):
    r = random.Random(p["seed"])
    parts = kinds(p, r)
    cubes = [c for _, c in parts]
    given, lost = change(p, cubes)
    k, u = p["change"], p["use"]
    kinds_given = []
    for c in given:
        hit = [n for n, x in parts if x is c]
        kinds_given.append(hit[0] if hit else "stranger" if c.name() == "tendency_of_air_density" else [n for n, x in parts if x.name() == c.name() and (u != "truth" or x.attributes == c.attributes)][0])
    count = {n: kinds_given.count(n) for n in set(kinds_given)}
    have = lambda n: count.get(n, 0)
    strange = have("stranger")
    stranger_timed = strange and any(c.name() == "tendency_of_air_density" and c.coords("time") for c in given)
    if k:
        st.fault("input-" + {"omit": "lost", "twice": "duplicated", "swap": "lost-and-another-duplicated", "impostor": "replaced-by-stranger", "stranger": "stranger"}[k])
    # what has to be rejected
    if u == "truth":
        if strange and (not p["parts"]["land"] or k == "impostor"):
            return  # the step knows the mask only as the odd one out
        dup = [(c.coord("time").points[0], n) for c, n in zip(given, kinds_given) if n in ("forecast", "truth")]
        reject = not have("forecast") or not have("truth") or have("land") > 1 or strange or len(set(dup)) < len(dup)
    elif u == "coeffs":
        reject = have("forecast") + (1 if strange and stranger_timed else 0) > 1 or have("land") > 1 or have("template") > 1 or not have("forecast") and not have("template") and not (strange and stranger_timed)
        if stranger_timed and p["parts"]["prob"]:
            return  # then it is the forecast, and the probabilities a template
    elif u == "bias":
        reject = have("forecast") + strange != 1
    elif u == "reference":
        reject = have("reference") != 1 or have("forecast") + strange != 1
    elif u == "normalise":
        reject = have("reference") != 1 or have("wanted") != 1 or have("wanted") + have("other") + strange < 2
    else:
        reject = have("mask") != 1 or have("forecast") + strange != 1
    for order in p["orders"]:
        q = random.Random(order)
        ids = list(range(len(given)))
        q.shuffle(ids)
        cs = [given[n].copy() for n in ids]
        ks = [kinds_given[n] for n in ids]
        got, err = call(p, q, cs)
        st.op(u)
        st.fault("inputs-reordered", len(ids))
        st.state(u, k, tuple(ks))
        st.log("call", u, order, type(err).__name__)
        what = "%s given %s" % (u, ["%s:%s" % (n, c.name()) for n, c in zip(ks, cs)])
        if reject:
            if err is None:
                raise Violation("not-rejected", "%s: accepted" % what)
            st.probe("rejections-checked")
            continue
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(err).__name__, err, where(err)))
        judge(p, got, cs, ks, what)
        st.probe("recognised")


def call(p, q, cs):
    from iris.cube import CubeList

    u = p["use"]
    if u == "truth":
        from improver.calibration import split_forecasts_and_truth

        return guard(split_forecasts_and_truth, cs, "mosg__model_configuration=uk_det")
    if u == "coeffs":
        from improver.calibration import split_forecasts_and_coeffs

        lists, i = [], 0
        while i < len(cs):
            n = q.choice([1, 1, 2, 4])
            lists.append(CubeList(cs[i:i + n]))
            i += n
        return guard(split_forecasts_and_coeffs, lists, "land_binary_mask")
    if u == "bias":
        from improver.calibration import split_forecasts_and_bias_files

        return guard(split_forecasts_and_bias_files, CubeList(cs))
    if u == "reference":
        from improver.cli import enforce_consistent_forecasts as cli

        return guard(cli.process, *grouping(q, cs), ref_name="wind_speed")
    if u == "normalise":
        from improver.cli import normalise_to_reference as cli

        return guard(cli.process, *grouping(q, cs), reference_name="precipitation_rate", return_name="rainfall_rate")
    from improver.utilities.mask import apply_mask

    return guard(apply_mask, *grouping(q, cs), mask_name="land_binary_mask")


def judge(p, got, cs, ks, what):
    u = p["use"]
    of = lambda *n: [c for c, k in zip(cs, ks) if k in n]

    def need(name, x, y):
        if y is None and x is None:
            return
        if x is None or y is None or not (x is y or x == y):
            raise Violation("mistaken", "%s: %s is %s" % (what, name, None if x is None else x.summary(shorten=True)))

    def one(l):
        return l[0] if l else None

    if u == "truth":
        f, t, land = got
        for c, k in ((f, "forecast"), (t, "truth")):
            have = sorted((int(s.coord("time").points[0]), s.data.tobytes()) for s in c.slices_over("time"))
            if have != sorted((int(s.coord("time").points[0]), s.data.tobytes()) for s in of(k)):
                raise Violation("mistaken", "%s: the %ss are %s" % (what, k, c.summary(shorten=True)))
        need("the land mask", land, one(of("land")))
    elif u == "coeffs":
        f, co, stat, land, tem = got
        strange = of("stranger")
        timed = [c for c in strange if c.coords("time")]
        if of("forecast") or timed:
            need("the forecast", f, one(of("forecast") + timed))
            need("the template", tem, one(of("template")))
        else:
            need("the forecast", f, one(of("template")))
            need("the template", tem, None)
        need("the land mask", land, one(of("land")))
        for name, x, y in (("coefficients", co, of("coefficient")), ("static predictors", stat, of("static") + [c for c in strange if not c.coords("time")])):
            have = sorted((c.name(), c.data.tobytes()) for c in x or [])
            if have != sorted((c.name(), c.data.tobytes()) for c in y):
                raise Violation("mistaken", "%s: the %s are %s" % (what, name, [c.name() for c in x or []]))
    elif u == "bias":
        need("the forecast", got[0], one(of("forecast", "stranger")))
        if sorted(c.data.tobytes() for c in got[1] or []) != sorted(c.data.tobytes() for c in of("error")):
            raise Violation("mistaken", "%s: bias files %s" % (what, [c.name() for c in got[1] or []]))
    else:
        f = one(of("forecast", "stranger") if u != "normalise" else of("wanted"))
        if u == "reference":
            want = np.maximum(f.data, of("reference")[0].data)
        elif u == "normalise":
            want = of("reference")[0].data * f.data / sum(c.data.astype(np.float64) for c in of("wanted", "other", "stranger"))
        else:
            want = np.ma.masked_array(f.data, of("mask")[0].data.astype(bool))
        if got.name() != f.name() or not np.array_equal(np.ma.getmaskarray(got.data), np.ma.getmaskarray(want)) or not np.allclose(np.ma.filled(got.data, 0), np.ma.filled(want, 0), rtol=1e-5):
            raise Violation("mistaken", "%s: %s %s instead of %s" % (what, got.name(), np.ma.filled(got.data, -1).ravel().tolist(), np.ma.filled(want, -1).ravel().tolist()))
