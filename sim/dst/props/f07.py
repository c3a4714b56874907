"""F07: the decision tree gives each point one category from whatever diagnostics arrived."""
import copy
import random

import numpy as np

from .. import trees
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where

RUNS = {"quick": 700, "thorough": 100000}
BATCH = 25
TECHNIQUE = "simulated delivery of diagnostics to a decision tree: seeded loss, duplication, delay and reordering over several calls, judged point by point by a small interpreter of the documented meaning of the tree"
RULE = ("Each run generates a tree (1-6 decision nodes; deterministic and probabilistic, one or two conditions, expressions, optional diagnostics, thresholds in other units or scaled by period, night variants), its diagnostics (ties, masks, several cycles), "
        "and 1-4 deliveries in which diagnostics are lost, duplicated, reordered or joined by unneeded ones, to one plugin instance or to new ones.")
STATE_MEASURE = "hash of (tree, delivered set, order)"
REAL = ["improver.categorical.decision_tree.ApplyDecisionTree", "improver.categorical.utilities", "improver.utilities.solar.DayNightMask"]
STUB = ["iris (stand-in)", "delivery of the diagnostics"]


def prepare():
    W.load_all()


def generate(rng, idx, tier):
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        calls.append({"lose": rng.choice([0, 0, 1, 1, 2, 3, 4]), "what": rng.choice(["optional", "optional", "any"]), "dup": rng.random() < 0.15, "extra": rng.random() < 0.25, "late": rng.random() < 0.06,
                      "seed": rng.randrange(10 ** 6), "fresh": rng.random() < 0.3, "listed": rng.random() < 0.5, "old": rng.random() < 0.12})
    return {"tree": rng.randrange(10 ** 9), "world": rng.randrange(10 ** 6), "calls": calls}


def shrink(p):
    c = p["calls"]
    for i in range(len(c)):
        if len(c) > 1:
            yield dict(p, calls=c[:i] + c[i + 1:])
    for i in range(len(c)):
        for k, v in (("lose", 0), ("dup", False), ("extra", False), ("late", False), ("fresh", True), ("listed", True), ("old", False)):
            if c[i][k] != v:
                yield dict(p, calls=c[:i] + [dict(c[i], **{k: v})] + c[i + 1:])


def execute(plan, st):
    from iris.cube import CubeList

    from improver.categorical.decision_tree import ApplyDecisionTree

    tree, period = trees.tree_spec(random.Random(plan["tree"]))
    w = trees.World(tree, period, random.Random(plan["world"]))
    need = trees.needed(tree)
    optional = [n for n in sorted(need) if all("if_diagnostic_missing" in tree[k] for k in need[n])]

    def make():
        return ApplyDecisionTree(copy.deepcopy(tree), target_period=period)

    plugin = None
    for c in plan["calls"]:
        r = random.Random(c["seed"])
        pool = optional if c["what"] == "optional" else sorted(need)
        lost = set(r.sample(pool, min(c["lose"], len(pool))))
        have = [n for n in sorted(need) if n not in lost]
        if not have:
            have, lost = [sorted(need)[0]], lost - {sorted(need)[0]}
        if c["extra"]:
            have += ["surface_temperature", "probability_of_wind_speed_of_gust_above_threshold"][:r.choice([1, 2])]
            st.fault("unneeded-diagnostic")
        if c["dup"]:
            have.append(r.choice(have))
            st.fault("diagnostic-twice")
        r.shuffle(have)
        cubes = CubeList([w.cube(n) for n in have])
        if c["old"]:
            for x in cubes:
                for co in x.coords(var_name="threshold"):
                    co.rename("threshold")
        late = None
        if c["late"] and len(cubes) > 1:
            late = r.randrange(len(cubes))
            for co in ("time",):
                t = cubes[late].coord(co)
                t.points = t.points + 3600
                if t.bounds is not None:
                    t.bounds = t.bounds + 3600
            st.fault("diagnostic-of-another-time")
        for _ in lost:
            st.fault("diagnostic-lost")
        st.op("call")
        if plugin is None or c["fresh"]:
            plugin = make()
        desc = "with %s%s" % (have, "" if not lost else ", without " + ", ".join(sorted(lost)))
        shown = "; tree %s" % tree
        got = err = None
        try:
            got = plugin(cubes) if c["listed"] else plugin(*cubes)
        except Exception as e:
            if unsupported(e):
                raise Unsupported(str(e))
            err = e
        gone = w.missing(set(have))
        st.state(plan["tree"], tuple(have))
        st.log("call", tuple(have), type(err).__name__)
        if late is not None and len(set(have)) > 0:
            if err is None:
                raise Violation("times-mixed", "%s: diagnostics of different times gave a result" % desc + shown)
            continue
        if gone:
            if err is None:
                raise Violation("missing-accepted", "%s: %s missing, yet a result" % (desc, sorted(gone)) + shown)
            quiet = [n for n in gone if n not in str(err)]
            if quiet or not isinstance(err, Exception):
                raise Violation("missing-unnamed", "%s: %s missing, told %s: %s" % (desc, quiet, type(err).__name__, err) + shown)
            st.probe("rejected")
            continue
        if err is not None:
            raise Violation("rejected", "%s: %s: %s (%s)" % (desc, type(err).__name__, err, where(err)) + shown)
        data = got.data
        if np.ma.getdata(data).shape != (w.ny, w.nx):
            raise Violation("shape", "%s: result of shape %s" % (desc, data.shape) + shown)
        m = np.ma.getmaskarray(data)
        for y in range(w.ny):
            for x in range(w.nx):
                want, loose = w.follow(set(have), y, x)
                have_v = None if m[y, x] else int(np.ma.getdata(data)[y, x])
                if have_v != want and not (loose and have_v is None):
                    raise Violation("category", "%s: point (%d, %d) at longitude %s is %s, by hand %s" % (desc, y, x, w.lons[x], have_v, want) + shown)
                st.probe("points")
                if want is None:
                    st.probe("masked-points")
        frt = int(got.coord("forecast_reference_time").points[0])
        if frt not in {w.frt[n] for n in have} or frt < max([w.frt[n] for n in set(have) & set(need) if all(set(trees.names_of(tree[k])) <= set(have) for k in need[n])] or [0]):
            raise Violation("cycle", "%s: reference time %s of %s" % (desc, frt, {n: w.frt[n] for n in have}) + shown)
        if int(got.coord("time").points[0]) != w.time or int(got.coord("forecast_period").points[0]) != w.time - frt:
            raise Violation("cycle", "%s: time %s and forecast period %s of cycle %s" % (desc, got.coord("time").points, got.coord("forecast_period").points, frt) + shown)
