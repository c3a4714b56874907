"""Seeded inputs for ensemble reordering, from a JSON-able specification."""
import random

import numpy as np

from . import fx


def spec(rng, big=False):
    return {"m": rng.choice([2, 2, 3, 4, 5]) if not big else rng.choice([3, 12, 36]), "p": rng.choice([0, 0, 0, 2, 3, 5]), "ny": rng.choice([1, 2, 4]), "nx": rng.choice([2, 3, 5]), "times": rng.choice([0, 0, 1, 2, 3]),
            "ties": rng.choice([None, 1, 2, 4, "near"]), "calties": rng.choice([None, None, 2]), "seed": rng.randrange(10 ** 6), "mask": rng.choice([None, None, None, "cal", "both", "some"]),
            "first": rng.choice([0, 0, 1, 12]), "order": rng.choice([0, 0, 1]), "timefirst": rng.random() < 0.3}


def build(s):
    """-> (raw cube, percentile cube)"""
    r = random.Random(s["seed"])
    m, p = s["m"], s["p"] or s["m"]
    nt = s["times"]
    shape = ((nt,) if nt else ()) + (s["ny"], s["nx"])
    if s["ties"] == "near":
        # neighbouring floating-point numbers: distinct, whatever is added to or multiplied with them
        raw = np.float32(280) + np.array([r.randrange(4 * m) for _ in range(m * int(np.prod(shape)))], np.float32).reshape((m,) + shape) * np.spacing(np.float32(280))
        assert raw.dtype == np.float32
    else:
        raw = fx.field(r, (m,) + shape, 270, 290, s["ties"])
    cal = np.sort(fx.field(r, (p,) + shape, 260, 300, s["calties"]), axis=0)
    if s["mask"]:
        k = fx.mask_of(r, shape[-2:], 0.3)
        k = np.broadcast_to(k, shape)
        if s["mask"] in ("cal", "both"):
            cal = np.ma.masked_array(cal, np.broadcast_to(k, cal.shape).copy())
        if s["mask"] == "both":
            raw = np.ma.masked_array(raw, np.broadcast_to(k, raw.shape).copy())
        if s["mask"] == "some":
            raw = np.ma.masked_array(raw, np.zeros(raw.shape, bool))
    times = [fx.dim("time", [fx.T0 + fx.HOUR * (6 + i) for i in range(nt)])] if nt else []
    a = fx.cube(raw, [fx.dim("realization", [s["first"] + i for i in range(m)])] + times)
    b = fx.cube(cal, [fx.dim("percentile", [100 * (i + 1) / (p + 1) for i in range(p)])] + times)
    if s["order"]:
        a.transpose(list(range(1, a.ndim)) + [0])
    if s["timefirst"] and nt:
        b.transpose([1, 0] + list(range(2, b.ndim)))
    return a, b


def leading(c, name):
    """Data with the named dimension first, then time if it is a dimension, then the rest in order."""
    d = c.data
    order = [c.coord_dims(name)[0]] if c.coord_dims(name) else []
    if c.coords("time") and c.coord_dims("time"):
        order.append(c.coord_dims("time")[0])
    for ax in "yx":
        k = c.coord_dims(c.coord(axis=ax, dim_coords=None if not c.coords(axis=ax, dim_coords=True) else True))
        order += [x for x in k if x not in order]
    order += [x for x in range(d.ndim) if x not in order]
    d = d.transpose(order)
    return d if c.coord_dims(name) else d[np.newaxis]
