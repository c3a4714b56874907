"""Merging (shim of iris._merge semantics)."""
import copy as _copy
import itertools

import dask.array as da
import numpy as np

import iris.exceptions as exc
from iris.coords import AuxCoord, Cell, DimCoord, _is_lazy, _real
from iris.util import guess_coord_axis

HINTS = ["time", "forecast_reference_time", "forecast_period", "model_level_number"]
AXIS = {"T": 0, "Z": 1, "Y": 2, "X": 3}


def _defn_key(coord):
    return (coord.standard_name or "", coord.long_name or "", coord.var_name or "", str(coord.units),
            sorted((k, repr(v)) for k, v in coord.attributes.items()))


def _coord_key(coord):
    name = coord.name()
    return (coord.dtype.kind in "SU", not isinstance(coord, DimCoord),
            HINTS.index(name) if name in HINTS else len(HINTS), AXIS.get(guess_coord_axis(coord), 4), _defn_key(coord))


class _Proto:
    def __init__(self, cube):
        self.cube = cube
        self.scalars, self.vec_dim, self.vec_aux = [], [], []
        for coord in sorted(cube.coords(), key=_coord_key):
            dims = cube.coord_dims(coord)
            if not dims and coord.shape == (1,):
                self.scalars.append(coord)
            elif any(coord is c for c in cube.dim_coords):
                self.vec_dim.append((coord, dims))
            else:
                self.vec_aux.append((coord, dims))
        self.vals = []
        for c in self.scalars:
            bound = None if c.bounds is None else tuple(c.bounds[0])
            self.vals.append(Cell(c.points[0], bound) if c.dtype.kind not in "SU" else str(c.points[0]))

    def differences(self, other):
        msgs = []
        a, b = self.cube, other.cube
        ma, mb = a.metadata, b.metadata
        if ma.name() != mb.name():
            msgs.append("cube.name() differs: %r != %r" % (ma.name(), mb.name()))
        for f in ("standard_name", "long_name", "var_name"):
            if ma.name() == mb.name() and getattr(ma, f) != getattr(mb, f):
                msgs.append("cube.%s differs: %r != %r" % (f, getattr(ma, f), getattr(mb, f)))
        if ma.units != mb.units:
            msgs.append("cube.units differ: %r != %r" % (ma.units, mb.units))
        if not (ma.attributes == mb.attributes):
            keys_a, keys_b = set(ma.attributes), set(mb.attributes)
            if keys_a != keys_b:
                msgs.append("cube.attributes keys differ: %s" % ", ".join(repr(k) for k in sorted(keys_a ^ keys_b)))
            else:
                diff = [k for k in sorted(keys_a) if not np.array_equal(ma.attributes[k], mb.attributes[k])]
                msgs.append("cube.attributes values differ for keys: %s" % ", ".join(repr(k) for k in diff))
        if ma.cell_methods != mb.cell_methods:
            msgs.append("cube.cell_methods differ")
        if a.shape != b.shape:
            msgs.append("cube.shape differs: %s != %s" % (a.shape, b.shape))
        if a.dtype != b.dtype:
            msgs.append("cube data dtype differs: %s != %s" % (a.dtype, b.dtype))
        sa, sb = [c.metadata for c in self.scalars], [c.metadata for c in other.scalars]
        na, nb = [m.name() for m in sa], [m.name() for m in sb]
        if sorted(na) != sorted(nb):
            diff = sorted(set(na) ^ set(nb))
            msgs.append("Coordinates in cube.aux_coords (scalar) differ: %s." % ", ".join(diff))
        elif sa != sb:
            bad = [m.name() for m, n in zip(sa, sb) if not (m == n)]
            msgs.append("Scalar coordinates metadata differ: %s" % ", ".join(bad))
        for what, x, y in (("dim_coords", self.vec_dim, other.vec_dim), ("aux_coords (non-scalar)", self.vec_aux, other.vec_aux)):
            if len(x) != len(y) or any(d1 != d2 or not (c1 == c2) for (c1, d1), (c2, d2) in zip(x, y)):
                names = sorted({c.name() for c, _ in x} | {c.name() for c, _ in y})
                msgs.append("Coordinates in cube.%s differ: %s." % (what, ", ".join(names)))
        return msgs


def merge_cube(cubes):
    protos = [_Proto(c) for c in cubes]
    for p in protos[1:]:
        msgs = protos[0].differences(p)
        if msgs:
            raise exc.MergeError(msgs)
    result = _combine(protos, True)
    if len(result) != 1:
        raise exc.MergeError(["failed to merge into a single cube"])
    return result[0]


def merge(cubes, unique=True):
    groups = []
    for c in cubes:
        p = _Proto(c)
        for g in groups:
            if not g[0].differences(p):
                g.append(p)
                break
        else:
            groups.append([p])
    # iris groups by cube name then registration order
    out = []
    names = []
    for g in groups:
        n = g[0].cube.name()
        if n not in names:
            names.append(n)
    for n in sorted(names):
        for g in groups:
            if g[0].cube.name() == n:
                out.extend(_combine(g, unique))
    return out


def _sort_vals(vals):
    uniq = []
    for v in vals:
        if not any(_veq(v, u) for u in uniq):
            uniq.append(v)
    import functools

    return sorted(uniq, key=functools.cmp_to_key(lambda a, b: -1 if a < b else (1 if b < a else 0)))


def _veq(a, b):
    if isinstance(a, Cell) and isinstance(b, Cell):
        return a.point == b.point and a.bound == b.bound
    return a == b


def _combine(protos, unique):
    base = protos[0]
    n = len(base.scalars)
    uniq = [_sort_vals([p.vals[i] for p in protos]) for i in range(n)]

    def idx(i, v):
        for k, u in enumerate(uniq[i]):
            if _veq(u, v):
                return k

    pos = [tuple(idx(i, p.vals[i]) for i in range(n)) for p in protos]
    if len(set(pos)) != len(pos):
        if unique:
            dup = [x for x in pos if pos.count(x) > 1][0]
            desc = ", ".join("%s=%r" % (base.scalars[i].name(), uniq[i][k]) for i, k in enumerate(dup))
            raise exc.DuplicateDataError("failed to merge into a single cube. Duplicate %r cube, with scalar coordinates %s" % (
                base.cube.name(), desc))
        # split duplicates into separate layers
        layers = []
        for p, x in zip(protos, pos):
            for layer in layers:
                if x not in layer:
                    layer[x] = p
                    break
            else:
                layers.append({x: p})
        out = []
        for layer in layers:
            out.extend(_combine(list(layer.values()), True))
        return out
    cands = [i for i in range(n) if len(uniq[i]) > 1]
    # dependency components
    comp = {i: i for i in cands}

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for i, j in itertools.combinations(cands, 2):
        pairs = {(x[i], x[j]) for x in pos}
        if len(pairs) != len(uniq[i]) * len(uniq[j]):
            comp[find(j)] = find(i)
    groups = {}
    for i in cands:
        groups.setdefault(find(i), []).append(i)
    groups = list(groups.values())

    def group_tuples(g):
        return sorted({tuple(x[i] for i in g) for x in pos})

    # verify full cross product of groups; otherwise fuse them
    total = 1
    for g in groups:
        total *= len(group_tuples(g))
    if cands and total != len(pos):
        groups = [cands]
    dims = []  # list of (axis_rank, order, values(list of partial dict), coords placement)
    for g in groups:
        tuples = group_tuples(g)
        numeric = [i for i in g if base.scalars[i].dtype.kind not in "SU"]
        placed = False
        for i in g:
            if len({t[g.index(i)] for t in tuples}) == len(tuples) and i in numeric:
                dims.append(("single", g, [i]))
                placed = True
                break
        if not placed:
            for k in range(2, len(g) + 1):
                for sub in itertools.combinations(numeric, k):
                    size = 1
                    for i in sub:
                        size *= len(uniq[i])
                    if size == len(tuples) and len({tuple(t[g.index(i)] for i in sub) for t in tuples}) == size:
                        dims.append(("multi", g, list(sub)))
                        placed = True
                        break
                if placed:
                    break
        if not placed:
            for i in g:
                if len({t[g.index(i)] for t in tuples}) == len(tuples):
                    dims.append(("single", g, [i]))
                    placed = True
                    break
        if not placed:
            dims.append(("anon", g, []))
    newdims = []  # (rank, key, kind, group, member, size)
    for kind, g, members in dims:
        if kind == "anon":
            newdims.append((0, g[0], "anon", g, None, group_tuples(g)))
        else:
            for m in members:
                c = base.scalars[m]
                ax = guess_coord_axis(c)
                rank = {None: 0, "T": 1, "Z": 2, "Y": 3, "X": 4}[ax]
                newdims.append((rank, m, "coord", g, m, uniq[m]))
    newdims.sort(key=lambda d: (d[0], d[1]))
    shape = tuple(len(d[5]) for d in newdims)
    grid = np.empty(shape, dtype=object)
    for p, x in zip(protos, pos):
        loc = []
        for d in newdims:
            if d[2] == "anon":
                loc.append(d[5].index(tuple(x[i] for i in d[3])))
            else:
                loc.append(x[d[4]])
        if grid[tuple(loc)] is not None:
            raise exc.MergeError(["internal shim merge conflict"])
        grid[tuple(loc)] = (p, x)
    if any(g is None for g in grid.flat):
        raise exc.ShimUnsupported("incomplete merge space")
    datas = [g[0].cube.core_data() for g in grid.flat]
    if all(_is_lazy(d) for d in datas) or any(_is_lazy(d) for d in datas):
        lz = [d if _is_lazy(d) else da.from_array(d, chunks=d.shape or -1, asarray=False) for d in datas]
        data = da.stack(lz).reshape(shape + base.cube.shape) if base.cube.shape or True else None
    elif any(np.ma.isMaskedArray(d) for d in datas):
        data = np.ma.stack([np.ma.asarray(d) for d in datas]).reshape(shape + base.cube.shape)
    else:
        data = np.stack(datas).reshape(shape + base.cube.shape)
    from iris.cube import Cube

    new = Cube(data)
    new.metadata = base.cube.metadata
    new.attributes = _copy.deepcopy(base.cube.attributes)
    nd = len(newdims)
    used = set()
    for k, d in enumerate(newdims):
        if d[2] == "coord":
            i = d[4]
            c = _build(base.scalars[i], d[5], True)
            used.add(i)
            if isinstance(c, DimCoord):
                new.add_dim_coord(c, k)
            else:
                new.add_aux_coord(c, (k,))
    for coord, dims_ in base.vec_dim:
        new.add_dim_coord(coord.copy(), dims_[0] + nd)
    for coord, dims_ in base.vec_aux:
        new.add_aux_coord(coord.copy(), tuple(x + nd for x in dims_))
    for i in range(n):
        if i in used:
            continue
        c = base.scalars[i]
        if i not in cands:
            new.add_aux_coord(_build(c, [base.vals[i]], False, template=c), None)
            continue
        axes = [k for k, d in enumerate(newdims) if i in d[3]]
        # drop axes it does not depend on
        arr = np.empty(shape, dtype=object)
        for loc in np.ndindex(*shape):
            arr[loc] = grid[loc][1][i]
        dep = []
        for k in axes:
            first = arr.take([0], axis=k)
            if not np.all(arr == first):
                dep.append(k)
        sel = tuple(slice(None) if k in dep else 0 for k in range(nd))
        index = arr[sel]
        vals = [uniq[i][v] for v in np.asarray(index, dtype=object).flat]
        coord = _build(c, vals, len(dep) == 1, shape=np.shape(index))
        new.add_aux_coord(coord, tuple(dep))
    return [new]


def _build(src, vals, try_dim, shape=None, template=None):
    if template is not None:
        new = template.copy()
        if isinstance(new, AuxCoord):
            try:
                return DimCoord.from_coord(new)
            except ValueError:
                return new
        return new
    if src.dtype.kind in "SU":
        pts, bnds = np.array(vals), None
    else:
        pts = np.array([v.point for v in vals], dtype=src.points.dtype)
        bnds = None
        if vals[0].bound is not None:
            bnds = np.array([v.bound for v in vals], dtype=src.bounds_dtype)
    if shape is not None and len(shape) > 1:
        pts = pts.reshape(shape)
        if bnds is not None:
            bnds = bnds.reshape(tuple(shape) + bnds.shape[-1:])
    kw = dict(standard_name=src.standard_name, long_name=src.long_name, var_name=src.var_name, units=src.units,
              attributes=_copy.deepcopy(src.attributes), coord_system=_copy.deepcopy(src.coord_system), bounds=bnds)
    try:
        return DimCoord(pts, circular=getattr(src, "circular", False), **kw)
    except ValueError:
        return AuxCoord(pts, **kw)
