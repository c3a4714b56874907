"""iris.analysis (shim)."""
import numpy as np

from iris.coords import CellMethod
from iris.exceptions import ShimUnsupported


class _Aggregator:
    weighted = False

    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        self.cell_method = cell_method
        self.call_func = call_func
        self.units_func = units_func
        self.lazy_func = lazy_func
        self._kwargs = kwargs

    def name(self):
        return (self.cell_method or "").replace(" ", "_").lower() if self.cell_method else str(self.cell_method)

    def lazy_aggregate(self, data, axis, **kwargs):
        return self.aggregate(np.asanyarray(data), axis, **kwargs)

    def aggregate(self, data, axis, **kwargs):
        kw = dict(self._kwargs)
        kw.update(kwargs)
        mdtol = kw.pop("mdtol", None)
        result = self.call_func(data, axis=axis, **kw)
        if mdtol is not None and np.ma.isMaskedArray(data) and result is not np.ma.masked:
            frac = np.ma.getmaskarray(data).mean(axis=axis)
            bad = frac > mdtol
            if np.any(bad):
                result = np.ma.masked_array(result, mask=np.ma.getmaskarray(result) | bad)
        return result

    def update_metadata(self, cube, coords, **kwargs):
        if self.units_func is not None:
            cube.units = self.units_func(cube.units)
        names = [c.name() for c in coords]
        if self.cell_method is not None:
            kw = dict(self._kwargs)
            kw.update(kwargs)
            try:
                method = self.cell_method.format(**kw)
            except (KeyError, IndexError):
                method = self.cell_method
            cube.add_cell_method(CellMethod(method.lower(), names))

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        if not hasattr(data_result, "shape") or not hasattr(data_result, "dtype") or np.isscalar(data_result):
            data_result = np.ma.asarray(data_result) if data_result is np.ma.masked else np.asarray(data_result)
        if data_result is np.ma.masked:
            data_result = np.ma.masked_all((), dtype=collapsed_cube.dtype)
        collapsed_cube._data = data_result if data_result.shape == collapsed_cube.shape else data_result
        if data_result.shape != collapsed_cube.shape:
            raise ValueError("aggregation changed shape")
        return collapsed_cube

    def aggregate_shape(self, **kwargs):
        return ()


class Aggregator(_Aggregator):
    pass


class WeightedAggregator(Aggregator):
    weighted = True

    def uses_weighting(self, **kwargs):
        return kwargs.get("weights") is not None

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        if kwargs.get("returned", False):
            data, weights = data_result
            cube = Aggregator.post_process(self, collapsed_cube, data, coords, **kwargs)
            return cube, weights
        return Aggregator.post_process(self, collapsed_cube, data_result, coords, **kwargs)


def _is_lazyable(*_a, **_k):  # marker only
    raise ShimUnsupported("lazy function")


def _mean(data, axis=-1, weights=None, returned=False, **kw):
    if np.ma.isMaskedArray(data):
        r = np.ma.average(data, axis=axis, weights=weights, returned=returned)
    else:
        r = np.ma.average(data, axis=axis, weights=weights, returned=returned)
    if not returned and not np.ma.isMaskedArray(data) and np.ma.isMaskedArray(r) and not np.ma.is_masked(r):
        r = r.data
    return r


def _sum(data, axis=-1, weights=None, returned=False, **kw):
    w = 1 if weights is None else weights
    total = np.ma.sum(data * w, axis=axis)
    if not np.ma.isMaskedArray(data) and np.ma.isMaskedArray(total):
        total = total.data
    if returned:
        return total, (np.sum(weights, axis=axis) if weights is not None else np.prod(np.shape(data)) / np.prod(np.shape(total)))
    return total


def _wrap(mafunc, npfunc):
    def f(data, axis=-1, **kw):
        return mafunc(data, axis=axis, **kw) if np.ma.isMaskedArray(data) else npfunc(data, axis=axis, **kw)

    return f


def _unmask(data, r):
    return r.data if np.ma.isMaskedArray(r) and not np.ma.isMaskedArray(data) and not np.ma.is_masked(r) else r


def _std(data, axis=-1, ddof=1, **kw):
    return _unmask(data, np.ma.std(data, axis=axis, ddof=ddof))


def _var(data, axis=-1, ddof=1, **kw):
    return _unmask(data, np.ma.var(data, axis=axis, ddof=ddof))


def _count(data, axis=-1, function=None, **kw):
    return np.ma.sum(function(data), axis=axis)


class PercentileAggregator(_Aggregator):
    def __init__(self, units_func=None, **kwargs):
        super().__init__(None, self._percentile, units_func, None, **kwargs)

    def name(self):
        return "percentile"

    @staticmethod
    def _percentile(data, axis=-1, percent=None, fast_percentile_method=False, alphap=1, betap=1, **kw):
        if percent is None:
            raise ValueError("percentile aggregator requires the mandatory keyword argument 'percent'.")
        pcts = np.atleast_1d(np.asarray(percent, dtype=float))
        data = np.moveaxis(data, axis, -1) if not np.ma.isMaskedArray(data) else np.ma.asarray(np.moveaxis(data, axis, -1))
        if fast_percentile_method:
            if np.ma.is_masked(data):
                raise TypeError("Cannot use fast np.percentile method with masked array.")
            result = np.percentile(np.ma.getdata(data), pcts, axis=-1)
            result = np.moveaxis(result, 0, -1)
        else:
            import scipy.stats.mstats

            shape = data.shape[:-1]
            flat = data.reshape((-1, data.shape[-1])) if shape else data.reshape((1, -1))
            result = scipy.stats.mstats.mquantiles(flat, pcts / 100.0, axis=1, alphap=alphap, betap=betap)
            result = np.ma.asarray(result).reshape(shape + (len(pcts),))
            if not np.ma.isMaskedArray(data):
                result = result.data
        return result.astype(data.dtype) if data.dtype.kind == "f" else result

    def update_metadata(self, cube, coords, **kwargs):
        pass

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        from iris.coords import AuxCoord
        from iris.cube import CubeList

        names = [c.name() for c in coords]
        points = np.atleast_1d(kwargs["percent"])
        cubes = CubeList()
        for i, p in enumerate(points):
            cube = collapsed_cube.copy()
            cube.add_aux_coord(AuxCoord(p, long_name="percentile_over_{}".format("_".join(names)), units="percent"))
            cube._data = np.asanyarray(data_result[..., i])
            cubes.append(cube)
        if len(cubes) == 1:
            return cubes[0]
        return cubes.merge_cube()


COUNT = Aggregator("count", _count, units_func=lambda u: 1)
MEAN = WeightedAggregator("mean", _mean, lazy_func=_is_lazyable)
SUM = WeightedAggregator("sum", _sum, lazy_func=_is_lazyable)
MAX = Aggregator("maximum", _wrap(np.ma.max, np.max), lazy_func=_is_lazyable)
MIN = Aggregator("minimum", _wrap(np.ma.min, np.min), lazy_func=_is_lazyable)
MEDIAN = Aggregator("median", _wrap(np.ma.median, np.median))
STD_DEV = Aggregator("standard_deviation", _std, lazy_func=_is_lazyable, ddof=1)
VARIANCE = Aggregator("variance", _var, units_func=lambda u: u * u, lazy_func=_is_lazyable, ddof=1)
PERCENTILE = PercentileAggregator(alphap=1, betap=1)
PROPORTION = Aggregator("proportion", lambda data, axis=-1, function=None, **k: np.ma.mean(function(data), axis=axis), units_func=lambda u: 1)
RMS = WeightedAggregator("root mean square", lambda data, axis=-1, weights=None, **k: np.sqrt(np.ma.average(np.square(data), axis=axis, weights=weights)))


def clear_phenomenon_identity(cube):
    cube.rename(None)
    cube.attributes.clear()


class Linear:
    def __init__(self, extrapolation_mode="linear"):
        if extrapolation_mode not in ("linear", "extrapolate", "nan", "error", "mask", "nanmask"):
            raise ValueError("Extrapolation mode {!r} not supported.".format(extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode
        self.method = "linear"

    def __repr__(self):
        return "Linear(%r)" % self.extrapolation_mode

    def regridder(self, src, tgt):
        from iris import _interp

        return _interp.Regridder(src, tgt, self)

    def interpolator(self, cube, coords):
        from iris import _interp

        return lambda pts, collapse_scalar=True: _interp.interpolate(cube, list(zip(coords, pts)), self, collapse_scalar)


class Nearest:
    def __init__(self, extrapolation_mode="extrapolate"):
        if extrapolation_mode not in ("linear", "extrapolate", "nan", "error", "mask", "nanmask"):
            raise ValueError("Extrapolation mode {!r} not supported.".format(extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode
        self.method = "nearest"

    def __repr__(self):
        return "Nearest(%r)" % self.extrapolation_mode

    regridder = Linear.regridder
    interpolator = Linear.interpolator


class AreaWeighted:
    def __init__(self, mdtol=1):
        self.mdtol = mdtol

    def regridder(self, src, tgt):
        raise ShimUnsupported("AreaWeighted")
