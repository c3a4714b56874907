"""More generated calls of functions that work on plain arrays and settings."""
import datetime

import numpy as np

from .workload import _arr, gen

E = "improver.ensemble_copula_coupling."
CU = "improver.categorical.utilities."


def _api(f, name):
    got = f(name)
    return got.__module__, got.__name__


@gen("improver.api.__getattr__", wrap=_api)
def g_api(r, n):
    return (r.choice(["boxsum", "__doc_x__", "Threshold", "Combine", "apply_mask", "MergeCubes", "RegridLandSea", "DayNightMask", "OpticalFlow", "SpotExtraction", "PercentileConverter", "NotThere", "WindDirection", "TemporalInterpolation"]),), {}


def _interp(r, n, same):
    rows, m, k = r.choice([1, 2, 4]), r.choice([2, 3, 5]), r.choice([1, 2, 4])
    x = n.uniform(-1, 6, k).astype(r.choice(["f4", "f8"]))
    if r.random() < 0.5:
        x.sort()
    if same == "x":
        xp = np.sort(np.round(n.uniform(0, 5, m), 1))
        fp = n.uniform(0, 1, (rows, m)).astype("f4")
    else:
        xp = np.sort(np.round(n.uniform(0, 5, (rows, m)), 1), axis=1)
        fp = n.uniform(0, 1, m).astype("f4")
    if r.random() < 0.1:
        x = x.reshape(1, -1)
    return (x, xp, fp), {}


for _s in "xy":
    for _p in ("utilities.slow_interp_same_", "utilities.interpolate_multiple_rows_same_"):
        gen(E + _p + _s, name="g_%s%s" % (_p.split(".")[1], _s))(lambda r, n, s=_s: _interp(r, n, s))


@gen(E + "utilities.concatenate_2d_array_with_2d_array_endpoints")
def g_concat(r, n):
    return (n.uniform(0, 1, (r.choice([1, 3]), 3)).astype("f4"), 0.0, r.choice([1.0, 2]),), {}


@gen(E + "utilities.insert_lower_and_upper_endpoint_to_1d_array")
def g_endpoints(r, n):
    return (np.sort(n.uniform(0, 100, r.choice([1, 3]))).astype("f4"), r.choice([0, -5.5]), 100), {}


@gen(E + "utilities.choose_set_of_percentiles")
def g_percentiles(r, n):
    return (r.choice([1, 2, 3, 9, 10.0, 0]),), r.choice([{}, {"sampling": "quantile"}, {"sampling": "random"}, {"sampling": "other"}])


@gen(E + "utilities.get_bounds_of_distribution")
def g_bounds(r, n):
    from cf_units import Unit

    return r.choice([("air_temperature", Unit(r.choice(["K", "degC", "Fahrenheit"]))), ("wind_speed", Unit(r.choice(["m s-1", "knots", "K"]))), ("nothing", Unit("K")), ("relative_humidity", Unit(r.choice(["1", "%"])))]), {}


def _masked(r, n, p=0.5, **k):
    a = _arr(r, n, **k)
    if r.random() < p:
        m = n.uniform(0, 1, a.shape) < 0.3
        a = np.ma.masked_array(a, m if r.random() < 0.8 else False)
    return a


@gen("improver.cube_combiner.masked_add")
def g_madd(r, n):
    a = _masked(r, n, 0.9)
    b = np.ma.masked_array(np.asarray(a)[::-1].copy(), n.uniform(0, 1, a.shape) < 0.3)
    return (np.ma.masked_array(a), b), {}


@gen("improver.utilities.rescale.rescale")
def g_rescale(r, n):
    k = {}
    if r.random() < 0.7:
        k["data_range"] = r.choice([(-5.0, 5.0), [-10, 15], (0.0, 1.0), [3.0, 3.0]])
    if r.random() < 0.6:
        k["scale_range"] = r.choice([(0.0, 10.0), [5, -5], (1.0, 1.0)])
    if r.random() < 0.4:
        k["clip"] = True
    return (_masked(r, n, 0.2, kind="f4"),), k


@gen("improver.calibration.utilities.flatten_ignoring_masked_data")
def g_flatmask(r, n):
    a = _arr(r, n, dims=[2, 3])
    if r.random() < 0.7:
        m = np.zeros(a.shape, bool)
        m[..., 0] = True
        if r.random() < 0.2:
            m[0, ..., 1] = True
        a = np.ma.masked_array(a, m)
    return (a,), r.choice([{}, {"preserve_leading_dimension": True}])


@gen("improver.utilities.spatial.maximum_within_vicinity")
def g_vicinity(r, n):
    a = _masked(r, n, 0.4, dims=[2], kind="f4")
    k = {"landmask": n.uniform(0, 1, a.shape) < 0.5} if r.random() < 0.5 else {}
    return (a, r.choice([1, 1, 2])), k


@gen("improver.nbhood.nbhood.circular_kernel")
def g_kernel(r, n):
    return (r.choice([1, 2, 3, 4]), r.random() < 0.5), {}


@gen("improver.utilities.mathematical_operations.fast_linear_fit")
def g_fit(r, n):
    x = _masked(r, n, 0.3, dims=[2, 3], kind="f8")
    y = np.ma.masked_array(n.uniform(0, 5, x.shape), np.ma.getmaskarray(x)) if np.ma.isMaskedArray(x) else n.uniform(0, 5, x.shape)
    return (x, y), r.choice([{}, {"axis": -1}, {"axis": 0, "keepdims": True}, {"axis": (-1, -2)}, {"gradient_only": True}, {"with_nan": True, "axis": -1}])


@gen("improver.regrid.bilinear.apply_weights")
def g_weights(r, n):
    v = n.uniform(270, 300, (9,) if r.random() < 0.6 else (9, 2)).astype("f4")
    if r.random() < 0.4:
        v = np.ma.masked_array(v, n.uniform(0, 1, v.shape) < 0.3)
    w = n.uniform(0, 1, (5, 4)).astype("f4")
    return (n.randint(0, 9, (5, 4)), v, w / w.sum(axis=1, keepdims=True)), {}


@gen("improver.regrid.nearest.nearest_regrid")
def g_nearest(r, n):
    return (n.uniform(0, 100, (5, 4)), n.randint(0, 9, (5, 4)), n.uniform(270, 300, (9,) if r.random() < 0.5 else (9, 2)).astype("f4")), {}


@gen("improver.regrid.grid.similar_surface_classify")
def g_classify(r, n):
    return (n.uniform(0, 1, 9) < 0.5, n.uniform(0, 1, 5) < 0.5, n.randint(0, 9, (5, 4))), {}


def _latlons(n, k):
    return np.stack([np.repeat(np.arange(k), k) * 1.0 + 40, np.tile(np.arange(k), k) * 1.0 - 5], axis=-1).astype("f4")


@gen("improver.regrid.bilinear.basic_indexes")
def g_bindex(r, n):
    return (n.uniform([40, -5], [42, -3], (6, 2)).astype("f4"), _latlons(n, 3), 3, 1.0, 1.0), {}


@gen("improver.regrid.bilinear.basic_weights")
def g_bweights(r, n):
    out = n.uniform([40, -5], [41.9, -3.1], (4, 2)).astype("f4")
    y, x = (out[:, 0] - 40).astype(int), (out[:, 1] + 5).astype(int)
    a = y * 3 + x
    return (np.arange(4) if r.random() < 0.6 else np.array([0, 2]), np.stack([a, a + 3, a + 4, a + 1], axis=1), out, _latlons(n, 3), 1.0, 1.0), {}


@gen("improver.regrid.idw.nearest_input_pts")
def g_nearpts(r, n):
    return (_latlons(n, 3), n.uniform([40, -5], [42, -3], (4, 2)).astype("f4"), r.choice([1, 2, 4])), {}


@gen("improver.regrid.idw.ecef_coords")
def g_ecef(r, n):
    return (n.uniform(-90, 90, 4), n.uniform(-180, 360, 4)), {}


def _sun(r, n):
    lon = n.uniform(-180, 180, (2, 3)).astype("f4") if r.random() < 0.7 else r.choice([-10.0, 0.0, 170.5])
    if np.ndim(lon) and r.random() < 0.4:
        lon.flat[0] = r.choice([-180, 180, 0])
    return lon, r.choice([0, 1, 10, 120, 364, 366, -1]), r.choice([0.0, 6.5, 12.0, 23.9, 24.5])


@gen("improver.utilities.solar.calc_solar_time")
def g_soltime(r, n):
    return _sun(r, n), r.choice([{}, {"normalise": True}])


@gen("improver.utilities.solar.calc_solar_hour_angle")
def g_solhour(r, n):
    return _sun(r, n), {}


@gen("improver.utilities.solar.calc_solar_elevation")
def g_solelev(r, n):
    lon, d, h = _sun(r, n)
    lat = n.uniform(-90, 90, np.shape(lon)).astype("f4") if np.ndim(lon) else r.choice([10.0, 95.0])
    return (lat, lon, d, h), r.choice([{}, {"return_sine": True}])


@gen("improver.utilities.solar.daynight_terminator")
def g_term(r, n):
    return (n.uniform(-180, 180, 4), r.choice([1, 80, 172, 300]), r.choice([0.0, 6.5, 12.0])), {}


@gen("improver.utilities.solar.calc_solar_declination")
def g_decl(r, n):
    return (r.choice([0, 1, 80, 172, 300, 365, 400]),), {}


@gen("improver.utilities.solar.get_day_of_year")
def g_doy(r, n):
    return (datetime.datetime(r.choice([2023, 2024]), r.randrange(1, 13), r.randrange(1, 28), r.randrange(24), r.randrange(60)),), {}


@gen("improver.utilities.solar.get_hour_of_day")
def g_hod(r, n):
    return (datetime.datetime(2024, 1, r.randrange(1, 28), r.randrange(24), r.randrange(60), r.randrange(60)),), {}


@gen("improver.utilities.temporal.cycletime_to_datetime")
def g_cycdt(r, n):
    return ("2024%02d%02dT%02d%02dZ" % (r.randrange(1, 14), r.randrange(1, 28), r.randrange(24), r.randrange(60)),), {}


@gen("improver.utilities.temporal.cycletime_to_number")
def g_cycnum(r, n):
    return ("2024%02d%02dT%02d00Z" % (r.randrange(1, 13), r.randrange(1, 28), r.randrange(24)),), r.choice([{}, {"time_unit": "seconds since 1970-01-01 00:00:00"}, {"calendar": "gregorian"}])


@gen("improver.utilities.temporal.datetime_to_cycletime")
def g_dtcyc(r, n):
    return (datetime.datetime(2024, r.randrange(1, 13), r.randrange(1, 28), r.randrange(24), r.randrange(60)),), r.choice([{}, {"cycletime_format": "%Y%m%d"}])


@gen("improver.psychrometric_calculations.psychrometric_calculations.dry_adiabatic_temperature")
def g_dryt(r, n):
    return (n.uniform(250, 300, 4).astype("f4"), n.uniform(8e4, 1e5, 4).astype("f4"), n.uniform(3e4, 8e4, 4).astype("f4")), {}


@gen("improver.psychrometric_calculations.psychrometric_calculations.saturated_humidity")
def g_sath(r, n):
    return (n.uniform(200, 320, (2, 3)).astype("f4"), n.uniform(5e4, 1e5, (2, 3)).astype("f4")), {}


@gen("improver.psychrometric_calculations.psychrometric_calculations.calculate_svp_in_air")
def g_svp(r, n):
    return (n.uniform(r.choice([200, 150]), r.choice([320, 360]), (2, 3)).astype("f4"), n.uniform(5e4, 1e5, (2, 3)).astype("f4")), {}


@gen("improver.psychrometric_calculations.psychrometric_calculations.adjust_for_latent_heat")
def g_latent(r, n):
    return (n.uniform(250, 300, (2, 3)).astype("f4"), n.uniform(1e-4, 2e-2, (2, 3)).astype("f4"), n.uniform(7e4, 1e5, (2, 3)).astype("f4")), {}


@gen(CU + "expand_nested_lists")
def g_expand(r, n):
    return ({"a": [r.choice(["x", ["y", "z"], [], 1.5]) for _ in range(r.randrange(5))], "b": [["q"], "r"]}, r.choice(["a", "a", "a", "a", "b", "c"])), {}


@gen(CU + "get_parameter_names")
def g_params(r, n):
    return ([r.choice(["probability_of_rain_above_threshold", ["texture_of_x", "+", "probability_of_y_below_threshold"], "air"]) for _ in range(r.randrange(1, 4))],), {}


@gen(CU + "is_variable")
def g_isvar(r, n):
    return (r.choice(["a", "+", "1.5", "-", "probability_of_x", ["+"]]),), {}


@gen("improver.metadata.probabilistic.get_threshold_coord_name_from_probability_name")
def g_thname(r, n):
    return (r.choice(["probability_of_%s_%s_threshold" % (a, b) for a in ("air_temperature", "x_in_vicinity", "wind_speed") for b in ("above", "below", "between")] + ["air_temperature"]),), {}


@gen("improver.metadata.probabilistic.get_diagnostic_cube_name_from_probability_name")
def g_dgname(r, n):
    return g_thname(r, n)


@gen("improver.utilities.probability_manipulation.comparison_operator_dict", wrap=lambda f: sorted((k, v.spp_string, v.inverse) for k, v in f().items()))
def g_compop(r, n):
    return (), {}


@gen("improver.utilities.cube_extraction.parse_constraint_list")
def g_parse(r, n):
    c = [r.choice(["percentile=50", "time=[1:3]", "threshold=[273.15,280]", "longitude=[0:20:5]", "realization=0", "name=abc"]) for _ in range(r.randrange(1, 4))]
    return (c,), r.choice([{}, {"units": [r.choice(["K", "None", "1"]) for _ in c]}])
