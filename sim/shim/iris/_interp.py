"""Interpolation and regridding on rectilinear grids (shim)."""
import copy as _copy
import datetime

import cftime
import numpy as np

from iris.coords import AuxCoord, DimCoord
from iris.exceptions import ShimUnsupported


def _weights(pts, new, method, mode):
    """Return (lo, hi, frac, outside) index/weight arrays for 1-d interpolation onto *new*."""
    pts = np.asarray(pts, dtype=np.float64)
    new = np.asarray(new, dtype=np.float64)
    rev = len(pts) > 1 and pts[0] > pts[-1]
    p = pts[::-1] if rev else pts
    outside = (new < p[0]) | (new > p[-1])
    if method == "nearest":
        if len(p) == 1:
            lo = np.zeros(len(new), int)
        else:
            right = np.clip(np.searchsorted(p, new), 1, len(p) - 1)
            left = right - 1
            lo = np.where(new - p[left] <= p[right] - new, left, right)
        hi, frac = lo, np.zeros(len(new))
    else:
        if len(p) == 1:
            raise ValueError("Cannot linearly interpolate over a length-one coordinate")
        hi = np.clip(np.searchsorted(p, new, side="left"), 1, len(p) - 1)
        lo = hi - 1
        frac = (new - p[lo]) / (p[hi] - p[lo])
    if rev:
        lo, hi = len(pts) - 1 - lo, len(pts) - 1 - hi
    return lo, hi, frac, outside


def _apply(data, axis, w, method, mode, dtype):
    lo, hi, frac, outside = w
    a = np.ma.take(data, lo, axis=axis) if np.ma.isMaskedArray(data) else np.take(data, lo, axis=axis)
    if method == "nearest":
        out = a
    else:
        b = np.ma.take(data, hi, axis=axis) if np.ma.isMaskedArray(data) else np.take(data, hi, axis=axis)
        shape = [1] * data.ndim
        shape[axis] = len(frac)
        f = frac.reshape(shape)
        out = (a * (1 - f) + b * f).astype(dtype)
        exact0 = (frac == 0)
        if np.any(exact0):
            sl = [slice(None)] * data.ndim
            sl[axis] = np.nonzero(exact0)[0]
            out[tuple(sl)] = a[tuple(sl)]
        exact1 = (frac == 1)
        if np.any(exact1):
            sl = [slice(None)] * data.ndim
            sl[axis] = np.nonzero(exact1)[0]
            out[tuple(sl)] = b[tuple(sl)]
    if np.any(outside) and mode not in ("linear", "extrapolate"):
        if mode == "error":
            raise ValueError("One of the requested xi is out of bounds")
        sl = [slice(None)] * data.ndim
        sl[axis] = np.nonzero(outside)[0]
        if mode == "nan":
            out = out.astype(np.promote_types(out.dtype, np.float16))
            out[tuple(sl)] = np.nan
        elif mode == "mask" or (mode == "nanmask" and np.ma.isMaskedArray(data)):
            out = np.ma.asarray(out)
            m = np.ma.getmaskarray(out).copy()
            m[tuple(sl)] = True
            out = np.ma.masked_array(out, mask=m)
        else:
            out = out.astype(np.promote_types(out.dtype, np.float16))
            out[tuple(sl)] = np.nan
    return out


def interpolate(cube, sample_points, scheme, collapse_scalar=True):
    if isinstance(sample_points, dict):
        sample_points = list(sample_points.items())
    result = cube
    for name, pts in sample_points:
        coord = result.coord(name)
        scalar = np.ndim(pts) == 0
        pts = np.atleast_1d(np.asarray(pts))
        if pts.dtype.kind == "O" and isinstance(pts.flat[0], (datetime.datetime, cftime.datetime)):
            pts = np.array([coord.units.date2num(p) for p in pts])
        dims = result.coord_dims(coord)
        if len(dims) != 1:
            raise ShimUnsupported("interpolation over coordinate with dims %r" % (dims,))
        dim = dims[0]
        w = _weights(coord.points, pts, scheme.method, scheme.extrapolation_mode)
        data = result.data
        dtype = np.promote_types(data.dtype, np.float16) if scheme.method == "linear" else data.dtype
        new_data = _apply(data, dim, w, scheme.method, scheme.extrapolation_mode, dtype)
        from iris.cube import Cube

        new = Cube(new_data)
        new.metadata = result.metadata
        new.attributes = _copy.deepcopy(result.attributes)
        dim_ids = [id(c) for c in result.dim_coords]
        for c in result.coords():
            cd = result.coord_dims(c)
            if dim not in cd:
                nc = c.copy()
            elif c is coord:
                npts = pts.astype(coord.dtype) if coord.dtype.kind in "iu" and np.all(pts == pts.astype(coord.dtype)) else pts
                try:
                    nc = DimCoord(npts)
                except ValueError:
                    nc = AuxCoord(npts)
                nc.metadata = c.metadata
                nc.attributes = _copy.deepcopy(c.attributes)
            elif c.points.dtype.kind in "SU":
                wn = _weights(coord.points, pts, "nearest", "extrapolate")
                nc = AuxCoord(np.take(c.points, wn[0], axis=cd.index(dim)))
                nc.metadata = c.metadata
            else:
                p = _apply(c.points.astype(np.float64) if scheme.method == "linear" else c.points, cd.index(dim), w, scheme.method,
                           "extrapolate", np.float64)
                try:
                    nc = DimCoord(p)
                except ValueError:
                    nc = AuxCoord(p)
                nc.metadata = c.metadata
                nc.attributes = _copy.deepcopy(c.attributes)
            if id(c) in dim_ids and isinstance(nc, DimCoord):
                new.add_dim_coord(nc, cd[0])
            else:
                new.add_aux_coord(nc, cd)
        if scalar and collapse_scalar:
            new = new[tuple(0 if d == dim else slice(None) for d in range(new.ndim))]
        result = new
    return result


class Regridder:
    def __init__(self, src, tgt, scheme):
        self.scheme = scheme
        self.src_x, self.src_y = src.coord(axis="x", dim_coords=True), src.coord(axis="y", dim_coords=True)
        self.tgt_x, self.tgt_y = tgt.coord(axis="x", dim_coords=True), tgt.coord(axis="y", dim_coords=True)
        if self.src_x.coord_system != self.tgt_x.coord_system:
            raise ShimUnsupported("regridding across coordinate systems")

    def __call__(self, cube):
        out = cube
        sx, sy = cube.coord(axis="x", dim_coords=True), cube.coord(axis="y", dim_coords=True)
        xd, yd = cube.coord_dims(sx)[0], cube.coord_dims(sy)[0]
        data = cube.data
        m, mode = self.scheme.method, self.scheme.extrapolation_mode
        dtype = np.promote_types(data.dtype, np.float16) if m == "linear" else data.dtype
        tx, ty = np.array(self.tgt_x.points, dtype=float), np.array(self.tgt_y.points, dtype=float)
        if getattr(sx, "circular", False):
            raise ShimUnsupported("circular source in regrid")
        data = _apply(data, xd, _weights(sx.points, tx, m, mode), m, mode, dtype)
        data = _apply(data, yd, _weights(sy.points, ty, m, mode), m, mode, data.dtype if m == "nearest" else dtype)
        if m == "linear" and data.dtype != dtype and mode not in ("nan", "nanmask"):
            data = data.astype(dtype)
        from iris.cube import Cube

        new = Cube(data)
        new.metadata = cube.metadata
        new.attributes = _copy.deepcopy(cube.attributes)
        for c in cube.coords():
            cd = cube.coord_dims(c)
            if c is sx:
                new.add_dim_coord(self.tgt_x.copy(), xd)
            elif c is sy:
                new.add_dim_coord(self.tgt_y.copy(), yd)
            elif xd in cd or yd in cd:
                if len(cd) == 1:
                    continue
                raise ShimUnsupported("regridding a cube with 2-d aux coords")
            elif any(c is k for k in cube.dim_coords):
                new.add_dim_coord(c.copy(), cd[0])
            else:
                new.add_aux_coord(c.copy(), cd)
        return new
