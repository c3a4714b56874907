"""Random decision trees, the diagnostics they need, and a point-by-point interpreter of the documented meaning of a tree."""
import random

import numpy as np

from . import fx

COMPARE = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
DAY_LONS = [-60.0, -45.0, -20.0, 0.0, 15.0, 40.0, 60.0]
NIGHT_LONS = [-175.0, -150.0, -125.0, 125.0, 140.0, 165.0]
# name, units of the diagnostic, thresholds of a cube (all far apart), alternative units of the thresholds in the tree
PROBS = [("rainfall_rate", "m s-1", [0.0, 2e-7, 1e-6], ("mm hr-1", 3.6e6)), ("cloud_area_fraction", "1", [0.25, 0.5, 0.75], ("%", 100.0)), ("visibility_in_air", "m", [100.0, 1000.0, 5000.0], ("km", 1e-3)),
         ("lwe_thickness_of_precipitation_amount", "m", [0.0, 1e-3, 4e-3], ("mm", 1e3))]
DETS = ["wind_speed", "air_temperature", "lwe_snowfall_rate", "relative_humidity"]


def tree_spec(r, fancy=True):
    """A tree (JSON-able, as a user writes it) with 1-6 decision nodes; the target period in seconds or None."""
    n = r.choice([1, 2, 2, 3, 4, 6, 7])
    opt = r.choice([0.3, 0.6, 0.9])
    k = r.choice([2, 3, 4, 5])
    period = r.choice([None, 3600, 10800])
    codes = r.sample(range(0, 30), k + 2)
    leaves = ["leaf_%d" % i for i in range(k)]
    nodes = ["node_%d" % i for i in range(n)]
    tree = {}
    dets, probs = r.sample(DETS, r.choice([1, 2, 3])), r.sample(PROBS, r.choice([1, 2, 3]))
    for i, name in enumerate(nodes):
        later = nodes[i + 1:i + 3]
        a, b = (r.choice(later + [r.choice(leaves)]) for _ in range(2))
        if i + 1 < n:
            a, b = (nodes[i + 1], b) if r.random() < 0.5 else (a, nodes[i + 1])
        if a == b:
            b = r.choice([x for x in leaves + nodes[i + 1:] if x != a])
        q = {"if_true": a, "if_false": b}
        nf = r.choice([1, 1, 2])
        det = r.random() < 0.5
        fields, thr, cond = [], [], []
        for _ in range(nf):
            expr = r.random() < 0.3 and fancy
            m = r.choice([2, 3, 3]) if expr else 1
            vs = [r.choice(dets) if det else r.choice(probs) for _ in range(m)]
            f, t, c = [], [], []
            for j, v in enumerate(vs):
                if j:
                    f.append(r.choice("+-+-*"))
                if expr and r.random() < 0.15:
                    f += [r.choice([2.0, 0.5, 4.0]), "*"]
                if det:
                    f.append(v)
                else:
                    side = "above"
                    if v[0] == "visibility_in_air":
                        side = "below"
                    f.append("probability_of_%s_%s_threshold" % (v[0], side))
                    x = r.choice(v[2])
                    alt = r.random() < 0.4
                    t.append([x * v[3][1] if alt else x, v[3][0] if alt else v[1]])
                    if v[0].startswith("lwe_thickness") and period:
                        t[-1] = [t[-1][0] / (period / 3600.0), t[-1][1], 3600]
                    c.append(side)
            if expr and r.random() < 0.15:
                f += ["/", r.choice([2.0, 4.0])]
            if expr:
                fields.append(f)
                thr.append(t)
                cond.append(c)
            else:
                fields.append(f[0])
                thr += t
                cond += c
        q["thresholds" if det else "probability_thresholds"] = [r.randrange(0, 9) / 8.0 for _ in range(nf)]
        q["threshold_condition"] = r.choice(["<", "<=", ">", ">="])
        if nf == 2 or not det or r.random() < 0.7:
            q["condition_combination"] = r.choice(["AND", "OR"]) if nf == 2 else ""
        q["diagnostic_fields"] = fields
        if det:
            q["deterministic"] = True
        else:
            q["diagnostic_thresholds"], q["diagnostic_conditions"] = thr, cond
        if r.random() < opt:
            q["if_diagnostic_missing"] = r.choice(["if_true", "if_false"])
        tree[name] = q
    night = r.random() < 0.6
    for i, lf in enumerate(leaves):
        tree[lf] = {"leaf": codes[i]}
        if night and r.random() < 0.5:
            tree[lf]["if_night"] = "night_%d" % r.randrange(2)
    if night:
        for i in range(2):
            tree["night_%d" % i] = {"leaf": codes[k + i]}
    # leaves that nothing points to are declared so
    targets = {v for q in tree.values() for kk, v in q.items() if kk in ("if_true", "if_false", "if_night")}
    for x, q in tree.items():
        if "leaf" in q and x not in targets:
            q["is_unreachable"] = True
    items = list(tree.items())
    start = items[0]
    rest = items[1:]
    r.shuffle(rest)
    items = [start] + rest
    items.insert(r.choice([0, 0, len(items)]), ("meta", {"name": r.choice(["weather_code", "wxcode"])}))
    return dict(items), period


def names_of(q):
    out = []
    for f in q["diagnostic_fields"]:
        out += [x for x in (f if isinstance(f, list) else [f]) if isinstance(x, str) and x not in "+-*/"]
    return out


def needed(tree):
    """{diagnostic name: set of nodes}"""
    out = {}
    for k, q in tree.items():
        if k != "meta" and "leaf" not in q:
            for n in names_of(q):
                out.setdefault(n, set()).add(k)
    return out


def grid(r, ny, nx):
    from iris.coords import DimCoord

    lons = sorted(r.sample(DAY_LONS + NIGHT_LONS, nx))
    return lons, (DimCoord(np.linspace(-10, 10, ny).astype(np.float32), "latitude", units="degrees", coord_system=fx.geog()), DimCoord(np.array(lons, np.float32), "longitude", units="degrees", coord_system=fx.geog()))


class World:
    """Diagnostics for a tree: cubes on request, and the values by hand."""

    def __init__(self, tree, period, r):
        self.tree, self.period = tree, period
        self.ny, self.nx = r.choice([1, 2, 3]), r.choice([2, 4, 6])
        self.lons, self.grid = grid(r, self.ny, self.nx)
        self.time = fx.T0 + 12 * 3600  # noon at longitude zero
        self.width = period or r.choice([None, 3600])
        self.midnight = False
        if r.random() < 0.3:
            self.time += 12 * 3600
            self.midnight = True
        masks = r.random() < 0.4
        self.values, self.masks, self.frt, self.bounded = {}, {}, {}, {}
        shape = (self.ny, self.nx)
        for n in sorted(needed(tree)) + ["surface_temperature", "probability_of_wind_speed_of_gust_above_threshold"]:
            m = fx.mask_of(r, shape, 0.25) if masks and r.random() < 0.5 else None
            self.masks[n] = m
            self.frt[n] = fx.T0 + 3600 * r.randrange(0, 5)
            if n.startswith("probability_of"):
                k = 3
                d = np.sort(fx.field(r, (k,) + shape, 0, 1, ties=9), axis=0)
                self.values[n] = d if n.endswith("below_threshold") else d[::-1].copy()
            else:
                self.values[n] = fx.field(r, shape, -1, 2, ties=25)
            self.bounded[n] = r.random() < 0.5
        # all cubes of one run are bounded or none, so that the template is the same whichever comes first
        b = r.random() < 0.5
        self.bounded = {n: b for n in self.bounded}

    def thresholds(self, name):
        for p in PROBS:
            if name == "probability_of_%s_%s_threshold" % (p[0], "below" if name.endswith("below_threshold") else "above"):
                return p
        return ("wind_speed_of_gust", "m s-1", [1.0, 2.0, 3.0], None)

    def cube(self, n):
        d, m = self.values[n].copy(), self.masks[n]
        k = dict(time=self.time, frt=self.frt[n], grid=tuple(g.copy() for g in self.grid), bounds=[self.time - self.width, self.time] if self.width and self.bounded[n] else None)
        if d.ndim == 3:
            name, units, th, _ = self.thresholds(n)
            if m is not None:
                d = np.ma.masked_array(d, np.broadcast_to(m, d.shape).copy())
            return fx.prob(d, th, name, units, "less_than" if n.endswith("below_threshold") else "greater_than", **k)
        if m is not None:
            d = np.ma.masked_array(d, m)
        return fx.cube(d, name=n, units="1", **k)

    # ---- by hand
    def value(self, n, thr, y, x):
        v = self.values[n]
        if v.ndim == 2:
            return float(v[y, x])
        name, units, th, alt = self.thresholds(n)
        want = thr[0]
        if len(thr) == 3:
            want = want * self.period / thr[2]
        if alt and thr[1] != units:
            want = want / alt[1]
        i = min(range(len(th)), key=lambda j: abs(th[j] - want))
        return float(v[i, y, x])

    def expression(self, f, thrs, y, x):
        toks, j = [], 0
        for t in f if isinstance(f, list) else [f]:
            if isinstance(t, str) and t not in "+-*/":
                toks.append(self.value(t, thrs[j] if thrs else None, y, x))
                j += 1
            else:
                toks.append(t)
        for ops in ("*/", "+-"):
            i = 1
            while i < len(toks):
                if isinstance(toks[i], str) and toks[i] in ops:
                    a, b = toks[i - 1], toks[i + 1]
                    toks[i - 1:i + 2] = [a * b if toks[i] == "*" else a / b if toks[i] == "/" else a + b if toks[i] == "+" else a - b]
                else:
                    i += 2
        return toks[0]

    def night(self, x):
        """None where too close to call."""
        d = self.lons[x] in DAY_LONS
        return d if self.midnight else not d

    def follow(self, have, y, x):
        """(leaf code or None where masked, whether a node whose branches meet was passed where masked)."""
        names = [k for k in self.tree if k != "meta"]
        node, loose = names[0], False

        def resolve(name):
            q = self.tree[name]
            while "leaf" not in q and any(n not in have for n in names_of(q)):
                name = q[q["if_diagnostic_missing"]]
                q = self.tree[name]
            return name

        while True:
            node = resolve(node)
            q = self.tree[node]
            if "leaf" in q:
                if "if_night" in q and self.night(x):
                    return self.tree[q["if_night"]]["leaf"], loose
                return q["leaf"], loose
            res = []
            masked = any(self.masks[n] is not None and self.masks[n][y, x] for n in names_of(q))
            if masked:
                if resolve(q["if_true"]) == resolve(q["if_false"]):
                    loose = True
                    node = q["if_true"]
                    continue
                return None, loose
            det = q.get("deterministic")
            for i, f in enumerate(q["diagnostic_fields"]):
                t = None if det else q["diagnostic_thresholds"][i]
                t = t if isinstance(f, list) or t is None else [t]
                v = self.expression(f, t, y, x)
                res.append(COMPARE[q["threshold_condition"]](v, q["thresholds" if det else "probability_thresholds"][i]))
            ok = any(res) if q.get("condition_combination") == "OR" else all(res)
            node = q["if_true" if ok else "if_false"]

    def missing(self, have):
        """Diagnostics whose absence must be reported."""
        return {n for k, q in self.tree.items() if k != "meta" and "leaf" not in q and "if_diagnostic_missing" not in q for n in names_of(q) if n not in have}
