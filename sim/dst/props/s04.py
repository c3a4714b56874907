"""S04: processing leaves its input data and configuration as they were."""
import re

import numpy as np

from .. import workload as W
from ..core import Unsupported, Violation, unsupported
from .c11 import CallFailer

RUNS = {"quick": 1600, "thorough": 200000}
BATCH = 50
TECHNIQUE = "simulated pipelines that hand the same input objects to a seeded sequence of steps, with failures injected into the calls IMPROVER makes; inputs compared with untouched twins after every step"
RULE = ("Each run builds the inputs of one recorded or generated call and hands the same objects to 1-5 steps: the call itself (same or new instance), its rejection, its failure at a seeded call it makes, "
        "or another plugin or function taking its cube. After every step cubes, arrays, lists and dictionaries given (settings of the instance included) are compared with a twin built separately, and each result with the one separate copies give.")
STATE_MEASURE = "hash of (call, variation, step kinds, points of failure)"
REAL = ["all improver plugins and functions that run without the missing optional packages"]
STUB = ["iris/cartopy (stand-in)", "failing calls (raised by a call tracer)"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "ValueError": ValueError}

# Operations whose purpose or documentation is to work on the object given.
IN_PLACE = {
    "improver.blending.utilities.record_run_coord_to_attr", "improver.blending.utilities.store_record_run_as_coord", "improver.blending.utilities.update_blended_metadata",
    "improver.calibration.add_warning_comment", "improver.calibration.utilities.merge_land_and_sea",
    "improver.metadata.amend.amend_attributes", "improver.metadata.amend.set_history_attribute", "improver.metadata.amend.update_diagnostic_name",
    "improver.metadata.amend.update_stage_v110_metadata", "improver.metadata.amend.update_model_id_attr_attribute",
    "improver.metadata.probabilistic.format_cell_methods_for_diagnostic", "improver.metadata.probabilistic.format_cell_methods_for_probability",
    "improver.metadata.forecast_times.add_blend_time", "improver.metadata.utilities.enforce_time_point_standard", "improver.metadata.enforce_datatypes_units",
    "improver.regrid.bilinear.adjust_for_surface_mismatch", "improver.regrid.nearest.nearest_with_mask_regrid",
    "improver.standardise.StandardiseMetadata", "improver.utilities.copy_attributes.CopyAttributes",
    "improver.utilities.cube_manipulation.expand_bounds", "improver.utilities.cube_manipulation.enforce_coordinate_ordering",
    "improver.utilities.interpolation.interpolate_missing_data",
    "improver.utilities.spatial.rename_vicinity_cube", "improver.utilities.spatial.update_name_and_vicinity_coord",
    "improver.utilities.temporal.relabel_to_period", "improver.utilities.flatten.flatten",
}
# Differences of a repeated call that come from a unit conversion of the input's coordinates.
UNIT_NAMES = {"m", "metre", "metres", "meter", "meters"}


def prepare():
    W.load_all()


def generate(rng, idx, tier):
    kind, path = W.turn(idx, "PFGFPGPF")
    if kind == "P":
        return one(rng, kind, path)
    # cheap: several calls
    rids = W.grouped(True)[kind][path]
    if kind == "F":
        return {"many": [one(rng, kind, path) for _ in range(3)]}
    return {"many": [one(rng, kind, path, rid) for rid in rng.sample(rids, min(14, len(rids)))]}


def one(rng, kind, path, rid=None):
    g, gb = W.grouped(True), W.grouped(False)
    ok = rng.random() < 0.8 or path not in gb[kind]
    rid = rid or rng.choice((g if ok else gb)[kind][path])
    steps = []
    for i in range(rng.choice([1, 2, 3, 3, 5])):
        k = rng.random()
        if i == 0 or k < 0.35:
            s = {"do": "call", "inst": rng.choice(["new", "same"])}
        elif k < 0.75:
            s = {"do": "fail", "at": rng.random(), "exc": rng.choice(sorted(EXC))}
        else:
            s = {"do": "cross", "rid": W.pick(rng, True, "PF")}
        steps.append(s)
    if rng.random() < 0.3:
        steps = steps[1:] + steps[:1]
    return {"rid": rid, "vary": W.random_vary(rng), "steps": steps}


def shrink(p):
    if "many" in p:
        m = p["many"]
        if len(m) == 1:
            yield m[0]
        for k in (len(m) // 2, 1):
            if k:
                for i in range(0, len(m), k):
                    if len(m) > k:
                        yield {"many": m[:i] + m[i + k:]}
        return
    s = p["steps"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    if p["vary"]:
        yield dict(p, vary=None)


# ------------------------------------------------------------------ comparison of content
def close(a, b, rtol=1e-5):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape:
        return "shape %s -> %s" % (a.shape, b.shape)
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if (ma != mb).any():
        return "mask (%d -> %d masked points)" % (ma.sum(), mb.sum())
    va, vb = np.ma.getdata(a), np.ma.getdata(b)
    if va.dtype.kind in "fiub" and vb.dtype.kind in "fiub":
        ok = np.isclose(va.astype(np.float64), vb.astype(np.float64), rtol=rtol, atol=rtol / 1000, equal_nan=True) | ma
        if ok.all():
            return None
        i = tuple(int(x[0]) for x in np.nonzero(~ok)) if ok.ndim else ()
        return "values, e.g. %s -> %s" % (va[i], vb[i])
    return None if va.astype(str).tolist() == vb.astype(str).tolist() else "values"


def cube_change(a, b):
    """What differs of b, which was like a, beyond equivalent units, data type and order of dimensions."""
    b = b.copy()
    if str(a.units) != str(b.units):
        b.convert_units(a.units)
    na = [[c.name() for c in a.coords(dimensions=d, dim_coords=True)] for d in range(a.ndim)]
    nb = [[c.name() for c in b.coords(dimensions=d, dim_coords=True)] for d in range(b.ndim)]
    if na != nb and sorted(map(str, na)) == sorted(map(str, nb)) and all(na):
        b.transpose([nb.index(x) for x in na])
    d = close(a.data, b.data)
    if d:
        return "data " + d
    if a.name() != b.name():
        return "name %s -> %s" % (a.name(), b.name())
    if attributes(a) != attributes(b):
        return "attributes %s -> %s" % (dict(a.attributes), dict(b.attributes))
    if list(map(str, a.cell_methods)) != list(map(str, b.cell_methods)):
        return "cell methods %s -> %s" % (a.cell_methods, b.cell_methods)
    ca, cb = sorted(c.name() for c in a.coords()), sorted(c.name() for c in b.coords())
    if ca != cb:
        return "coordinates %s -> %s" % (sorted(set(ca) - set(cb)), sorted(set(cb) - set(ca)))
    for c in a.coords():
        if ca.count(c.name()) > 1:
            continue
        o = b.coord(c.name()).copy()
        if str(o.units) != str(c.units):
            o.convert_units(c.units)
        d = close(c.points, o.points)
        if d:
            return "points of %s: %s" % (c.name(), d)
        if (c.bounds is None) != (o.bounds is None):
            return "bounds of %s" % c.name()
        d = c.bounds is not None and close(c.bounds, o.bounds)
        if d:
            return "bounds of %s: %s" % (c.name(), d)
        if a.coord_dims(c) != b.coord_dims(b.coord(c.name())):
            return "dimension of %s" % c.name()
    return None


def attributes(c):
    # a plugin that returns a cube it was given marks it as post-processed
    return {k: repr(v.replace("Post-Processed ", "") if isinstance(v, str) and k == "title" else v) for k, v in c.attributes.items()}


def is_cube(x):
    return hasattr(x, "coords") and hasattr(x, "cell_methods") and hasattr(x, "data")


def change(a, b, path="input", depth=0):
    if depth > 8:
        return None
    if is_cube(a):
        if not is_cube(b):
            return "%s is no cube any more" % path
        d = cube_change(a, b)
        return d and "%s (%s): %s" % (path, a.name(), d)
    if isinstance(a, np.ndarray):
        d = close(a, b, 0) if isinstance(b, np.ndarray) else "type"
        return d and "%s: %s" % (path, d)
    if isinstance(a, dict):
        if [repr(k) for k in a] != [repr(k) for k in b]:
            return "%s: keys %s -> %s" % (path, list(a), list(b))
        for k in a:
            d = change(a[k], b[k], "%s[%r]" % (path, k), depth + 1)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d elements -> %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = change(x, y, "%s[%d]" % (path, i), depth + 1)
            if d:
                return d
        return None
    if isinstance(a, (str, int, float, bool, type(None), bytes)):
        if type(a) is not type(b) or (a != b and a == a):
            return "%s: %r -> %r" % (path, a, b)
    return None


def order(x, depth=0):
    """Which objects lists hold, so that a reordering of equal cubes is seen."""
    if isinstance(x, dict):
        return [order(v, depth + 1) for v in x.values()] if depth < 6 else 0
    if isinstance(x, (list, tuple)):
        return [(id(v) if is_cube(v) or isinstance(v, np.ndarray) else 0, order(v, depth + 1)) for v in x] if depth < 6 else 0
    return 0


def given(c):
    return (c.args, c.kwargs, getattr(c, "init", None))


def exempt(path):
    return path in IN_PLACE or path.rsplit(".", 1)[-1].startswith("_")


# ------------------------------------------------------------------ run
def execute(plan, st):
    if "many" in plan:
        for p in plan["many"]:
            try:
                execute(p, st)
            except Unsupported:
                st.probe("skipped")
        return
    rid, vary = plan["rid"], plan["vary"]
    rec = W.table().get(rid)
    if rec is None or exempt(rec.path):
        return
    c, ref = W.build(rid, vary), W.build(rid, vary)
    before = order(given(c))
    fn = c.target()
    verify(ref, c, before, "constructing %s" % rid)
    want = None
    calls = 0
    for i, s in enumerate(plan["steps"]):
        what = "step %d, %s of %s varied %s" % (i, s["do"], rid, vary)
        st.op(s["do"])
        if s["do"] == "call":
            if want is None:
                c0 = W.build(rid, vary)
                want = W.outcome(c0.target(), c0.args, c0.kwargs)
            # another step, or an interrupted call, may have re-expressed the input, in other units for instance
            foreign = any(x["do"] in ("cross", "fail") for x in plan["steps"][:i]) and W.canon.diff(unmarked(W.result(given(ref))), unmarked(W.result(given(c)))) is not None
            got = W.outcome(fn if s["inst"] == "same" else c.target(), c.args, c.kwargs)
            st.log("call", rid, vary, got[0])
            verify(ref, c, before, what)
            d = not foreign and W.diff(unmarked(want), unmarked(got), rtol=1e-5, atol=1e-8)
            if d and not tolerated(d):
                raise Violation("not-as-with-copies", "%s after %s: %s" % (what, [x["do"] for x in plan["steps"][:i]], d))
            st.probe("results-compared")
        elif s["do"] == "fail":
            if not calls:
                # the second time: caches filled on first use do not count
                for _ in range(2):
                    c0 = W.build(rid, vary)
                    n = CallFailer()
                    with n:
                        W.outcome(c0.target(), c0.args, c0.kwargs)
                calls = n.n
            if not calls:
                continue
            f = CallFailer(1 + int(s["at"] * calls), EXC[s["exc"]]("injected"))
            try:
                with f:
                    W.outcome(c.target(), c.args, c.kwargs)
            except (KeyboardInterrupt, SystemExit):
                pass
            st.fault("%s-in-call" % s["exc"])
            st.log("fail", rid, f.where)
            verify(ref, c, before, "%s by %s in %s" % (what, s["exc"], f.where))
            st.state(rid, f.where)
        else:
            cross(plan, s, c, ref, before, st, what)
    st.state(rid, str(vary), tuple(s["do"] for s in plan["steps"]))


def verify(ref, c, before, what):
    try:
        d = change(given(ref), given(c)) or (order(given(c)) != before and "the order of the cubes in a list")
    except Violation:
        raise
    except Exception as e:
        if unsupported(e):
            return
        d = "%s: %s" % (type(e).__name__, e)
    if d:
        raise Violation("input-changed", "%s changed %s" % (what, d))


def unmarked(o):
    """Titles without the mark of post-processed data, which a returned input got."""
    if isinstance(o, str):
        return o.replace("Post-Processed ", "")
    return tuple(unmarked(x) for x in o) if type(o) is tuple else o


def tolerated(d):
    """A repeat on an input whose units were converted may name the same unit differently."""
    m = re.search(r": '(\w+)' vs '(\w+)'$", d)
    return bool(m) and set(m.groups()) <= UNIT_NAMES


def first_cube(c):
    for i, a in enumerate(c.args):
        if is_cube(a):
            return i
    return None


def cross(plan, s, c, ref, before, st, what):
    """Another step that is handed our cube in place of its own."""
    rec = W.table().get(s["rid"])
    ours = W.cubes_in(given(c))
    if rec is None or exempt(rec.path) or not ours:
        return
    a, b = W.build(s["rid"]), W.build(s["rid"])
    i = first_cube(a)
    if i is None:
        return
    theirs = W.cubes_in(given(ref))[0].copy()
    same = W.canon.diff(W.result(theirs), W.result(ours[0])) is None
    a.args, b.args = list(a.args), list(b.args)
    a.args[i], b.args[i] = ours[0], theirs
    got = W.outcome(a.target(), a.args, a.kwargs)
    st.log("cross", s["rid"], got[0])
    verify(ref, c, before, "%s handed to %s" % (what, s["rid"]))
    if same:
        d = W.diff(unmarked(W.outcome(b.target(), b.args, b.kwargs)), unmarked(got), rtol=1e-5, atol=1e-8)
        if d and not tolerated(d):
            raise Violation("not-as-with-copies", "%s, handed to %s: %s" % (what, s["rid"], d))
        st.probe("cross-%s" % got[0])
