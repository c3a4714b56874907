"""Concatenation (shim)."""
import copy as _copy

import dask.array as da
import numpy as np

import iris.exceptions as exc
from iris.coords import AuxCoord, DimCoord, _is_lazy


def concatenate(cubes, strict=False):
    groups = []
    for c in cubes:
        for g in groups:
            why = _differences(g[0], c)
            if not why:
                g.append(c)
                break
            if strict:
                raise exc.ConcatenateError(why)
        else:
            groups.append([c])
    out = []
    for g in groups:
        out.extend(_join(g, strict))
    return out


def _differences(a, b):
    msgs = []
    if not (a.metadata == b.metadata):
        msgs.append("Cube metadata differs for phenomenon: %s" % a.name())
    if a.ndim != b.ndim:
        msgs.append("Data dimensions differ: %d != %d" % (a.ndim, b.ndim))
        return msgs
    if a.dtype != b.dtype:
        msgs.append("Data types differ: %s != %s" % (a.dtype, b.dtype))
    da_, db_ = [(c.name(), a.coord_dims(c)) for c in a.dim_coords], [(c.name(), b.coord_dims(c)) for c in b.dim_coords]
    if da_ != db_:
        msgs.append("Dimension coordinates differ: %s != %s" % (
            ", ".join(n for n, _ in da_), ", ".join(n for n, _ in db_)))
    else:
        for c in a.dim_coords:
            if not (c.metadata == b.coord(c.name()).metadata):
                msgs.append("Dimension coordinates metadata differ: %s" % c.name())
    aa = sorted((c.name(), a.coord_dims(c)) for c in a.aux_coords if a.coord_dims(c))
    bb = sorted((c.name(), b.coord_dims(c)) for c in b.aux_coords if b.coord_dims(c))
    if aa != bb:
        msgs.append("Auxiliary coordinates differ: %s != %s" % (aa, bb))
    sa = sorted(c.name() for c in a.aux_coords if not a.coord_dims(c))
    sb = sorted(c.name() for c in b.aux_coords if not b.coord_dims(c))
    if sa != sb:
        msgs.append("Scalar coordinates differ: %s != %s" % (", ".join(sa), ", ".join(sb)))
    else:
        for n in sa:
            if not (a.coord(n) == b.coord(n)):
                msgs.append("Scalar coordinates values or metadata differ: %s" % n)
    return msgs


def _join(cubes, strict):
    if len(cubes) == 1:
        return cubes
    base = cubes[0]
    cand = []
    for c in base.dim_coords:
        if any(not (x.coord(c.name()) == c) for x in cubes[1:]):
            cand.append(base.coord_dims(c)[0])
    if len(cand) != 1:
        if strict:
            raise exc.ConcatenateError(["Expected only a single cube, found %d." % len(cubes)])
        return cubes
    dim = cand[0]
    name = base.coord(dimensions=dim, dim_coords=True).name()

    decreasing = any(len(c.coord(name).points) > 1 and c.coord(name).points[0] > c.coord(name).points[1] for c in cubes)
    order = sorted(range(len(cubes)), key=lambda i: cubes[i].coord(name).points[0], reverse=decreasing)
    cs = [cubes[i] for i in order]
    pts = np.concatenate([c.coord(name).points for c in cs])
    bnds = None
    if all(c.coord(name).has_bounds() for c in cs):
        bnds = np.concatenate([c.coord(name).bounds for c in cs])
    elif any(c.coord(name).has_bounds() for c in cs):
        if strict:
            raise exc.ConcatenateError(["Dimension coordinate bounds differ"])
        return cubes
    try:
        nd = DimCoord(pts, bounds=bnds)
    except ValueError:
        if strict:
            raise exc.ConcatenateError(["Found cubes with overlap on concatenate axis %r. Cannot concatenate overlapping cubes." % name])
        return cubes
    nd.metadata = base.coord(name).metadata
    nd.attributes = _copy.deepcopy(base.coord(name).attributes)
    datas = [c.core_data() for c in cs]
    if any(_is_lazy(d) for d in datas):
        data = da.concatenate([d if _is_lazy(d) else da.from_array(d, asarray=False) for d in datas], axis=dim)
    elif any(np.ma.isMaskedArray(d) for d in datas):
        data = np.ma.concatenate(datas, axis=dim)
    else:
        data = np.concatenate(datas, axis=dim)
    from iris.cube import Cube

    new = Cube(data)
    new.metadata = base.metadata
    new.attributes = _copy.deepcopy(base.attributes)
    for c in base.dim_coords:
        d = base.coord_dims(c)[0]
        new.add_dim_coord(nd if d == dim else c.copy(), d)
    for c in base.aux_coords:
        dims = base.coord_dims(c)
        if dim in dims:
            others = [x.coord(c.name()) for x in cs]
            ax = dims.index(dim)
            p = np.concatenate([o.points for o in others], axis=ax)
            b = None
            if all(o.has_bounds() for o in others):
                b = np.concatenate([o.bounds for o in others], axis=ax)
            try:
                nc = type(c)(p, bounds=b)
            except ValueError:
                nc = AuxCoord(p, bounds=b)
            nc.metadata = c.metadata
            nc.attributes = _copy.deepcopy(c.attributes)
            new.add_aux_coord(nc, dims)
        else:
            if dims and any(not (x.coord(c.name()) == c) for x in cs):
                if strict:
                    raise exc.ConcatenateError(["Auxiliary coordinates differ: %s" % c.name()])
                return cubes
            new.add_aux_coord(c.copy(), dims)
    return [new]
