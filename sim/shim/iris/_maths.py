"""Cube arithmetic (shim)."""
import copy as _copy

import numpy as np

import iris.exceptions as exc
from iris.coords import Coord


def apply(cube, other, op, kind, in_place, reverse=False):
    from iris.cube import Cube

    units = cube.units
    src = cube
    if isinstance(other, Cube):
        if kind == "addsub" and cube.units != other.units:
            raise exc.NotYetImplementedError("Differing units (%s & %s) %s not implemented" % (cube.units, other.units, op.__name__))
        if kind == "mul":
            units = cube.units * other.units
        elif kind == "div":
            units = cube.units / other.units
        if other.ndim > cube.ndim or (other.ndim == cube.ndim and np.prod(other.shape) > np.prod(cube.shape)):
            rhs = other.data
            lhs = _broadcast(cube, other)
            src = other
        else:
            lhs = cube.data
            rhs = _broadcast(other, cube)
        data = op(lhs, rhs)
    elif isinstance(other, Coord):
        if kind == "addsub" and cube.units != other.units:
            raise exc.NotYetImplementedError("Differing units")
        if kind == "mul":
            units = cube.units * other.units
        elif kind == "div":
            units = cube.units / other.units
        dims = cube.coord_dims(cube.coord(other))
        shape = [cube.shape[d] if d in dims else 1 for d in range(cube.ndim)]
        data = op(cube.data, other.points.reshape(shape))
    else:
        if not np.isscalar(other):
            other = np.asanyarray(other)
        data = op(cube.core_data() if np.isscalar(other) else cube.data, other)
        if np.isscalar(other) and cube.dtype.kind == "f" and data.dtype != cube.dtype:
            data = data.astype(cube.dtype)
    if in_place:
        if data.shape != cube.shape:
            raise ValueError("shape mismatch in in-place operation")
        cube.data = data
        cube.rename(None)
        cube.units = units
        return cube
    new = src.copy()
    if data.shape != new.shape:
        raise exc.ShimUnsupported("broadcasting arithmetic that changes shape")
    new.data = data
    if isinstance(other, Cube):
        union = dict(other.attributes)
        union.update(cube.attributes)
        lenient = {k: v for k, v in union.items()
                   if not (k in other.attributes and k in cube.attributes) or np.array_equal(other.attributes[k], cube.attributes[k])}
        new.attributes = _copy.deepcopy(lenient)
        new.cell_methods = cube.cell_methods if cube.cell_methods == other.cell_methods else ()
        for c in list(new.coords()):
            oth = (other if src is cube else cube).coords(c.name())
            if oth and not new.coord_dims(c) and oth[0].shape == (1,) and not (
                    np.array_equal(oth[0].points, c.points)):
                new.remove_coord(c)
    new.rename(None)
    new.units = units
    return new


def _broadcast(small, big):
    if small.shape == big.shape:
        return small.data
    if small.ndim == 0:
        return small.data
    dims = []
    used = set()
    for d in range(small.ndim):
        cs = small.coords(dimensions=d, dim_coords=True)
        target = None
        if cs:
            try:
                t = big.coord_dims(big.coord(cs[0].name()))
                if len(t) == 1:
                    target = t[0]
            except exc.CoordinateNotFoundError:
                target = None
        if target is None:
            for k in range(big.ndim - 1, -1, -1):
                if k not in used and big.shape[k] == small.shape[d]:
                    target = k
                    break
        if target is None:
            raise ValueError("Coordinate systems / shapes of cubes incompatible for arithmetic")
        used.add(target)
        dims.append(target)
    data = small.data
    order = np.argsort(dims)
    data = np.transpose(data, order)
    shape = [1] * big.ndim
    for d, n in zip(sorted(dims), data.shape):
        shape[d] = n
    return data.reshape(shape)
