"""D04: results do not depend on hash-based iteration order."""
import random
import sys

import numpy as np

from .. import canon, fx, setorder
from .. import workload as W
from ..core import Unsupported, Violation, unsupported

RUNS = {"quick": 560, "thorough": 200000}
BATCH = 35
TECHNIQUE = "simulated hash order: every set formed by IMPROVER iterates in a seeded permutation, during import and during calls, results compared with a process using the natural order"
RULE = ("Each run makes one call of the corpus (every class and function in turn, varied inputs) or a generated call with many models, cycles, cell methods, sites or attributes under 3-6 seeded permutations of the iteration order of every set of strings, cubes, coordinates or other hashed objects, "
        "and compares results, including the order of coordinates and cell methods, and changes made to the inputs.")
STATE_MEASURE = "hash of (call, order seeds)"
REAL = ["all improver plugins and functions that run without the missing optional packages, compiled from the working tree with sets replaced"]
STUB = ["iris/cartopy (stand-in)", "iteration order of sets and of operations on dictionary views"]
Z = None


def answer(q):
    return call(q)


def prepare():
    global Z
    setorder.Order.seed = None
    W.load_all()
    for g in GENERATED:
        try:
            GENERATED[g](random.Random(0))  # everything a generator imports
        except Exception:
            pass
    Z = W.Zygote(answer)
    # this process: the same modules with seeded set order, during import too
    for n in [n for n in sys.modules if n == "improver" or n.startswith("improver.")]:
        del sys.modules[n]
    setorder.install()
    setorder.Order.seed = 77
    W.load_all()
    setorder.Order.seed = None


# ------------------------------------------------------------------ generated calls
GENERATED = {}


def gen(f):
    GENERATED[f.__name__] = f
    return f


def small(r, name="air_temperature", **k):
    return fx.cube(fx.field(r, (2, 3)), name=name, **k)


MODELS = ["uk_det", "uk_ens", "nc_det", "gl_ens", "gl_det"]
METHODS = [("mean", "time"), ("maximum", "time"), ("minimum", "realization"), ("mean", "realization"), ("sum", "time"), ("variance", "height")]


@gen
def merge_methods(r):
    from iris.coords import CellMethod
    from iris.cube import CubeList
    from improver.utilities.cube_manipulation import MergeCubes

    ms = r.sample(METHODS, r.randrange(2, 6))
    cubes = CubeList()
    for i in range(r.choice([2, 3])):
        c = small(r, time=fx.T0 + 3600 * (i + 6))
        for m, x in ms + ([r.choice(METHODS)] if r.random() < 0.3 else []):
            if not any(str(y) == str(CellMethod(m, coords=x)) for y in c.cell_methods):
                c.add_cell_method(CellMethod(m, coords=x))
        cubes.append(c)
    return MergeCubes(), (cubes,), {}


@gen
def model_ids(r):
    from improver.metadata.amend import update_model_id_attr_attribute

    cs = []
    for i in range(r.choice([2, 3, 4])):
        c = small(r)
        c.attributes["mosg__model_configuration"] = " ".join(sorted(r.sample(MODELS, r.choice([1, 2, 3]))))
        cs.append(c)
    return update_model_id_attr_attribute, (cs, "mosg__model_configuration"), {}


@gen
def run_record(r):
    from iris.cube import CubeList
    from improver.blending import utilities as U

    cs = CubeList()
    for i in range(r.choice([2, 3, 5])):
        c = small(r, frt=fx.T0 - 3600 * r.randrange(0, 7))
        c.attributes["mosg__model_configuration"] = r.choice(MODELS)
        cs.append(c)
    discard = r.random() < 0.7

    def f(cs):
        U.store_record_run_as_coord(cs, "run", "mosg__model_configuration")
        t = cs[0].copy()
        U.record_run_coord_to_attr(t, cs, "run", discard_weights=discard)
        return t
    return f, (cs,), {}


@gen
def mandatory(r):
    from improver.metadata.utilities import generate_mandatory_attributes

    cs = []
    for i in range(3):
        c = small(r)
        if r.random() < 0.5:
            c.attributes["title"] = r.choice(["A", "B"])
        if r.random() < 0.5:
            c.attributes["institution"] = r.choice(["A", "B"])
        cs.append(c)
    return generate_mandatory_attributes, (cs,), {"model_id_attr": r.choice([None, "title"])}


@gen
def equalise(r):
    from iris.cube import CubeList
    from improver.utilities.cube_manipulation import MergeCubes

    cs = CubeList()
    for i in range(3):
        c = small(r, time=fx.T0 + 3600 * (i + 6))
        for k in r.sample("abcdef", 4):
            c.attributes["x_" + k] = r.choice(["1", "1", "2"])
        cs.append(c)
    return MergeCubes(), (cs,), {}


TREE = {
    "meta": {"name": "weather_code"},
    "wet": {"if_true": "Rain", "if_false": "Sunny_Day", "thresholds": [0.1], "threshold_condition": ">", "condition_combination": "", "diagnostic_fields": ["rainfall_rate"], "deterministic": True},
    "Rain": {"leaf": 15, "group": "rain"}, "Drizzle": {"leaf": 12, "group": "rain", "is_unreachable": True}, "Sunny_Day": {"leaf": 1, "if_night": "Clear_Night"}, "Clear_Night": {"leaf": 0},
    "Cloudy": {"leaf": 8, "is_unreachable": True}, "Partly": {"leaf": 3, "is_unreachable": True}, "Thunder": {"leaf": 28, "is_unreachable": True},
}


@gen
def modal(r):
    from iris.cube import CubeList
    from improver.categorical.modal_code import ModalCategory

    cs = CubeList()
    n = r.choice([2, 3, 4])
    for i in range(n):
        t = fx.T0 + 3600 * (i + 6)
        c = fx.cube(np.array([[r.choice([1, 3, 8, 12, 15, 28]) for _ in range(3)] for _ in range(2)], np.int32), name="weather_code", units="1", time=t, bounds=[t - 3600, t])
        c.attributes["mosg__model_configuration"] = " ".join(sorted(r.sample(MODELS, r.choice([1, 2, 3]))))
        c.attributes["mosg__model_run"] = "\n".join(sorted("%s:20240102T%02d00Z:" % (m, r.randrange(9)) for m in c.attributes["mosg__model_configuration"].split()))
        cs.append(c)
    return ModalCategory(TREE, model_id_attr="mosg__model_configuration", record_run_attr="mosg__model_run"), (cs,), {}


@gen
def tree(r):
    """A category from several models and cycles; some diagnostics appear in several nodes."""
    from improver.categorical.decision_tree import ApplyDecisionTree

    t = {"meta": {"name": "weather_code"}}
    names = ["rainfall_rate", "lwe_snowfall_rate", "cloud_area_fraction", "visibility_in_air"]
    for i, n in enumerate(names):
        t["n%d" % i] = {"if_true": "L%d" % i, "if_false": "n%d" % (i + 1) if i < 3 else "L9", "thresholds": [0.5], "threshold_condition": ">", "condition_combination": "", "diagnostic_fields": [n], "deterministic": True}
    for i in (0, 1, 2, 3, 9):
        t["L%d" % i] = {"leaf": i + 1}
    cs = []
    for n in names:
        c = small(r, name=n, units="1", frt=fx.T0 + 3600 * r.randrange(5))
        c.attributes["mosg__model_configuration"] = " ".join(sorted(r.sample(MODELS, r.choice([1, 2, 3])))) if r.random() < 0.5 else r.choice(MODELS)
        c.attributes["title"] = r.choice(["A", "B"])
        cs.append(c)
    return ApplyDecisionTree(t, model_id_attr="mosg__model_configuration", record_run_attr="mosg__model_run"), cs, {}


@gen
def interrogate(r):
    from improver.categorical.utilities import check_tree

    t = {"meta": {"name": "weather_code"}}
    names = ["probability_of_%s_above_threshold" % x for x in ("rainfall_rate", "lwe_snowfall_rate", "cloud_area_fraction")]
    for i in range(5):
        n = r.sample(names, 2)
        t["n%d" % i] = {"if_true": "L%d" % i, "if_false": "n%d" % (i + 1) if i < 4 else "L9", "probability_thresholds": [0.5, 0.5], "threshold_condition": ">=", "condition_combination": "AND", "diagnostic_fields": n,
                        "diagnostic_thresholds": [[r.choice([0.1, 0.5, 1.0]), "1"] for _ in n], "diagnostic_conditions": ["above", "above"]}
    for i in (0, 1, 2, 3, 4, 9):
        t["L%d" % i] = {"leaf": i + 1}
    return check_tree, (t,), {}


@gen
def checker(r):
    from improver.utilities import cube_checker as K

    a = fx.cube(fx.field(r, (2, 3, 4)), [fx.dim("realization", [0, 1])])
    b = fx.cube(fx.field(r, (3, 4))) if r.random() < 0.5 else fx.cube(fx.field(r, (2, 3, 4)), [fx.dim("percentile", [20, 60])])
    return K.check_cube_coordinates, (b, a), {}


@gen
def solar(r):
    from improver.utilities.solar import DayNightMask

    n = r.choice([1, 2, 3])
    c = fx.cube(fx.field(r, (n, 3, 4)), [fx.dim("time", [fx.T0 + 3600 * 5 * i for i in range(n)])], latlon=r.random() < 0.5)
    return DayNightMask(), (c,), {}


@gen
def spot_dz(r):
    """Sites whose forecasts, truths and heights come from three sources, not all with all sites."""
    from improver.calibration import utilities as CU

    c = fx.cube(fx.field(r, (3, 2, 3)), [fx.dim("forecast_reference_time", [fx.T0 + 86400 * i for i in range(3)])], time=fx.T0 + 5 * 86400)
    return CU.get_frt_hours, (c.coord("forecast_reference_time"),), {}


def build(spec):
    if spec["op"] == "gen":
        return GENERATED[spec["gen"]](random.Random(spec["seed"]))
    c = W.build(spec["rid"], spec["vary"])
    return c.target(), c.args, c.kwargs


def call(spec):
    """Outcome, the order of coordinates, and the inputs afterwards."""
    try:
        fn, args, kwargs = build(spec)
    except Exception as e:
        if unsupported(e) or isinstance(e, Unsupported) or spec["op"] == "gen" and isinstance(e, (ImportError, AttributeError)):
            raise Unsupported(str(e))
        raise
    o, raw = W.outcome(fn, args, kwargs, raw=True)
    return o, orders(raw if o[0] == "ok" else None), W.result((args, kwargs)) if o[0] == "ok" else None


def orders(x):
    return [[c.name() for c in cube.coords()] for cube in W.cubes_in(x)]


def generate(rng, idx, tier):
    seeds = [rng.randrange(10 ** 6) for _ in range(rng.choice([3, 4, 6]))]
    if idx % 4 == 3:
        return {"call": {"op": "gen", "gen": sorted(GENERATED)[(idx // 4) % len(GENERATED)], "seed": rng.randrange(10 ** 6)}, "orders": seeds}
    kind, path = W.turn(idx - idx // 4, "PF")
    g, b = W.grouped(True)[kind][path], W.grouped(False)[kind].get(path, [])
    return {"call": {"op": "rid", "rid": rng.choice(g if not b or rng.random() < 0.85 else b), "vary": rng.choice([None, None, ["flip", 1], ["title", 1]])}, "orders": seeds}


def shrink(p):
    for i in range(len(p["orders"])):
        if len(p["orders"]) > 1:
            yield dict(p, orders=p["orders"][:i] + p["orders"][i + 1:])
    if p["call"].get("vary"):
        yield dict(p, call=dict(p["call"], vary=None))


def execute(plan, st):
    want = Z.ask(plan["call"])
    st.op(plan["call"]["op"])
    st.state(repr(plan))
    for seed in plan["orders"]:
        setorder.Order.seed, setorder.Order.sets = seed, 0
        try:
            got = call(plan["call"])
        finally:
            setorder.Order.seed = None
        st.fault("sets-reordered", setorder.Order.sets)
        st.log("call", plan["call"].get("rid") or plan["call"]["gen"], seed, got[0][0], setorder.Order.sets)
        what = "%s with set order %d" % (plan["call"], seed)
        d = W.diff(want[0], got[0], 0, 0)
        if d and W.diff(want[0], got[0], 1e-6, 1e-9) is None:
            st.probe("rounding-only")
            d = None
        if d:
            raise Violation("order-dependent", "%s: %s" % (what, d))
        if want[1] != got[1]:
            raise Violation("coordinate-order", "%s: coordinates %s instead of %s" % (what, got[1], want[1]))
        d = canon.diff(want[2], got[2], 1e-6, 1e-9)
        if d:
            raise Violation("order-dependent", "%s: inputs afterwards: %s" % (what, d))
