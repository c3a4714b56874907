"""Suites of real commands linked by files: a catalogue of command lines by the kind of file they read and write."""
import datetime as dt
import json
import os

import numpy as np

from . import simlib
from .core import Unsupported, unsupported

NY, NX = 6, 7


def cube_of(kind, seed, size=(NY, NX)):
    """A source cube of a kind.  Seeds 0-2 of one kind differ in values and cycle, not in grid."""
    from improver.synthetic_data import set_up_test_cubes as su

    ny, nx = size
    rs = np.random.RandomState(seed * 101 + sum(map(ord, kind)) % 97)
    time, frt = dt.datetime(2024, 1, 2, 12), dt.datetime(2024, 1, 2, (0, 6, 3)[seed % 3])
    kw = dict(time=time, frt=frt, spatial_grid="equalarea", attributes={"title": "Simulated", "source": "IMPROVER", "institution": "Met Office", "mosg__model_configuration": ("uk_ens", "uk_det", "gl_ens")[seed % 3]}, standard_grid_metadata=None)
    field = (rs.randint(-40, 80, size=(3, ny, nx)) / 8.0).astype(np.float32)
    if kind == "ens":
        return su.set_up_variable_cube((field + 280).astype(np.float32), name="air_temperature", units="K", **kw)
    if kind == "dew":
        return su.set_up_variable_cube((field + 279).astype(np.float32), name="dew_point_temperature", units="K", **kw)
    if kind == "det":
        return su.set_up_variable_cube((field[0] + 280).astype(np.float32), name="air_temperature", units="K", **kw)
    if kind == "later":
        return su.set_up_variable_cube((field[1] + 281).astype(np.float32), name="air_temperature", units="K", **dict(kw, time=dt.datetime(2024, 1, 2, 15)))
    if kind == "prob":
        p = np.sort(rs.randint(0, 65, size=(3, ny, nx)) / 64.0, axis=0)[::-1].astype(np.float32)
        return su.set_up_probability_cube(np.ascontiguousarray(p), np.array([278, 281, 284], np.float32), variable_name="air_temperature", threshold_units="K", **kw)
    if kind == "perc":
        return su.set_up_percentile_cube((np.sort(field, axis=0) + 280).astype(np.float32), np.array([20, 50, 80], np.float32), name="air_temperature", units="K", **kw)
    if kind == "lsm":
        c = su.set_up_variable_cube((rs.rand(ny, nx) > 0.4).astype(np.int8), name="land_binary_mask", units="1", **kw)
        for n in ("time", "forecast_reference_time", "forecast_period"):
            c.remove_coord(n)
        return c
    if kind == "orog":
        c = su.set_up_variable_cube((rs.randint(0, 4000, size=(ny, nx)) / 8.0).astype(np.float32), name="surface_altitude", units="m", **kw)
        for n in ("time", "forecast_reference_time", "forecast_period"):
            c.remove_coord(n)
        return c
    if kind == "dir":
        return su.set_up_variable_cube((rs.randint(0, 360, size=(3, ny, nx))).astype(np.float32), name="wind_from_direction", units="degrees", **kw)
    if kind == "wind":
        return su.set_up_variable_cube((np.abs(field)).astype(np.float32), name="wind_speed", units="m s-1", **kw)
    if kind == "rh":
        return su.set_up_variable_cube((np.abs(field) / 12 + 0.1).astype(np.float32), name="relative_humidity", units="1", **kw)
    if kind == "mslp":
        return su.set_up_variable_cube((field * 10 + 100000).astype(np.float32), name="air_pressure_at_sea_level", units="Pa", **kw)
    if kind == "uv":
        return su.set_up_variable_cube((np.abs(field[0]) / 40).astype(np.float32), name="surface_downwelling_ultraviolet_flux_in_air", units="W m-2", **kw)
    if kind in ("period", "period2", "rate", "rain", "snowrate"):
        h = 15 if kind == "period2" else 12
        b = dict(kw, time=dt.datetime(2024, 1, 2, h), time_bounds=[dt.datetime(2024, 1, 2, h - 3), dt.datetime(2024, 1, 2, h)])
        if kind.startswith("period"):
            from iris.coords import CellMethod

            c = su.set_up_variable_cube((field[0] + 283).astype(np.float32), name="air_temperature", units="K", **b)
            c.add_cell_method(CellMethod("maximum", coords="time"))
            return c
        return su.set_up_variable_cube((np.abs(field) / 1e7).astype(np.float32), name={"rate": "lwe_precipitation_rate", "rain": "rainfall_rate", "snowrate": "lwe_snowfall_rate"}[kind], units="m s-1", **(b if kind == "rate" else kw))
    if kind in ("pressure", "airp"):
        return su.set_up_variable_cube((field * 10 + 95000).astype(np.float32), name="surface_air_pressure" if kind == "pressure" else "air_pressure", units="Pa", **kw)
    if kind == "perc-later":
        return su.set_up_percentile_cube((np.sort(field, axis=0) + 281).astype(np.float32), np.array([20, 50, 80], np.float32), name="air_temperature", units="K", **dict(kw, time=dt.datetime(2024, 1, 2, 14)))
    if kind in ("ll", "target", "llorog"):
        n = (ny + 3, nx + 3) if kind == "target" else (ny, nx)
        d = (rs.randint(0, 200, size=n) / 8 + 280).astype(np.float32)
        return su.set_up_variable_cube(d, name="surface_altitude" if kind == "llorog" else "air_temperature", units="m" if kind == "llorog" else "K", **dict(
            kw, spatial_grid="latlon", domain_corner=(10, 10), x_grid_spacing=0.6 if kind == "target" else 1.0, y_grid_spacing=0.6 if kind == "target" else 1.0))
    if kind in ("hist", "truth", "enshist", "enstruth", "dethist"):
        from iris.cube import CubeList

        out = CubeList()
        for day in range(4):
            k = dict(kw, time=dt.datetime(2024, 1, 1 + day, 12), frt=dt.datetime(2024, 1, 1 + day, 6))
            k["attributes"] = dict(kw["attributes"], mosg__model_configuration="uk_det" if "truth" in kind else "uk_ens")
            if "truth" in kind:
                k["frt"] = k["time"]
            f = (rs.randint(-40, 80, size=(3, ny, nx)) / 8.0).astype(np.float32)
            if kind == "hist":
                out.append(su.set_up_probability_cube(np.ascontiguousarray(np.sort(np.abs(f) / 10.5, axis=0)[::-1]).astype(np.float32), np.array([278, 281, 284], np.float32), variable_name="air_temperature", threshold_units="K", **k))
            elif kind == "truth":
                out.append(su.set_up_probability_cube(np.stack([(f[0] > x) for x in (-2, 1, 4)]).astype(np.float32), np.array([278, 281, 284], np.float32), variable_name="air_temperature", threshold_units="K", **k))
            elif kind == "dethist":
                out.append(su.set_up_variable_cube((f[1] + 280).astype(np.float32), name="air_temperature", units="K", **k))
            else:
                out.append(su.set_up_variable_cube((f + 280 if kind == "enshist" else f[0] + 280.5).astype(np.float32), name="air_temperature", units="K", **k))
        return out.merge_cube()
    if kind in ("codes", "codes2"):
        return su.set_up_variable_cube(rs.choice([1, 3, 7], size=(ny, nx)).astype(np.int32), name="weather_code", units="1", **dict(kw, time=dt.datetime(2024, 1, 2, 12 + (kind == "codes2"))))
    raise KeyError(kind)


CONFIGS = {
    "thresholds": {"279.0": "None", "282.0": "None"},
    "thresholds-fuzzy": {"279.0": [278.0, 280.0], "282.0": [281.0, 283.0]},
    "ranges": [[278, 281], [281, 284]],
    "attributes": {"title": "Standardised", "source": "remove"},
    "blending": {"uk_ens": {"forecast_period": [6, 24], "weights": [0.25, 0.75], "units": "hours"}},
    "sites": [{"altitude": 10.0, "latitude": 54.89 + i / 100, "longitude": -2.51 + i / 100, "wmo_id": 3000 + i} for i in range(3)],
    "bands": {"bounds": [[-100.0, 50.0], [50.0, 200.0], [200.0, 6000.0]], "units": "m"},
}

# name, kinds of the inputs, kind of the output (None: not used further), arguments; %n is the n-th input
LINES = [
    ("threshold", ["ens"], "prob-ens", "%0 --threshold-values=279,282.5"),
    ("threshold", ["ens"], "prob", "%0 --threshold-values=278,281,284 --collapse-coord=realization"),
    ("threshold", ["ens"], "prob", "%0 --threshold-config={thresholds-fuzzy} --collapse-coord=realization"),
    ("threshold", ["det"], None, "%0 --threshold-config={thresholds} --threshold-units=K --comparison-operator=le"),
    ("threshold", ["ens", "lsm"], None, "%0 %1 --threshold-values=280 --vicinity=4000 --collapse-coord=realization"),
    ("nbhood", ["prob"], "prob", "%0 --neighbourhood-output=probabilities --radii=4000"),
    ("nbhood", ["prob"], "prob", "%0 --neighbourhood-output=probabilities --neighbourhood-shape=circular --radii=4000 --weighted-mode"),
    ("nbhood", ["prob-ens"], "prob-ens", "%0 --neighbourhood-output=probabilities --radii=2000,4000 --lead-times=0,24"),
    ("nbhood", ["ens"], None, "%0 --neighbourhood-output=percentiles --neighbourhood-shape=circular --radii=4000 --percentiles=25,50,75"),
    ("nbhood", ["prob", "lsm"], "prob", "%0 %1 --neighbourhood-output=probabilities --radii=4000"),
    ("generate-percentiles", ["ens"], "perc", "%0 --coordinates=realization --percentiles=20,50,80"),
    ("generate-percentiles", ["prob"], "perc", "%0 --percentiles=20,50,80"),
    ("generate-realizations", ["perc"], "ens", "%0 --realizations-count=3"),
    ("generate-realizations", ["prob"], "ens", "%0 --realizations-count=3"),
    ("generate-realizations", ["perc", "ens"], "ens", "%0 %1 --realizations-count=3 --random-seed=0"),
    ("generate-realizations", ["prob", "ens"], "ens", "%0 %1 --realizations-count=3 --random-seed=4"),
    ("combine", ["det", "det"], "det", "%0 %1 --operation=mean"),
    ("combine", ["det", "det"], "det", "%0 %1 --operation=max"),
    ("combine", ["ens", "ens"], "ens", "%0 %1 --operation=mean"),
    ("combine", ["det", "det"], None, "%0 %1 --operation=- --new-name=temperature_difference"),
    ("collapse-realizations", ["ens"], "det", "%0 --method=mean"),
    ("collapse-realizations", ["ens"], None, "%0 --method=std_dev --new-name=spread"),
    ("clip", ["det"], "det", "%0 --min-value=279 --max-value=284"),
    ("clip", ["ens"], "ens", "%0 --max-value=284"),
    ("extract", ["ens"], "det", "%0 --constraints=realization=1"),
    ("extract", ["prob"], None, "%0 --constraints=air_temperature=281 --units=K"),
    ("extract", ["det"], None, "%0 --constraints=air_temperature=300 --ignore-failure"),
    ("vicinity", ["prob"], None, "%0 4000"),
    ("generate-orographic-smoothing-coefficients", ["orog"], "smooth", "%0"),
    ("generate-orographic-smoothing-coefficients", ["orog", "lsm"], "smooth", "%0 %1 --max-gradient-smoothing-coefficient=0.1"),
    ("recursive-filter", ["prob", "smooth"], "prob", "%0 %1 --iterations=1"),
    ("recursive-filter", ["det", "smooth"], "det", "%0 %1"),
    ("weighted-blending", ["prob", "prob"], None, "%0 %1 --coordinate=forecast_reference_time --weighting-method=linear --y0val=1 --ynval=2 --cycletime=20240102T0600Z"),
    ("weighted-blending", ["det", "det"], None, "%0 %1 --coordinate=model_id --weighting-method=nonlinear --cval=0.85 --cycletime=20240102T0600Z --model-id-attr=mosg__model_configuration"),
    ("time-lagged-ensembles", ["ens", "ens"], None, "%0 %1"),
    ("temporal-interpolate", ["det", "later"], None, "%0 %1 --interval-in-mins=60"),
    ("temporal-interpolate", ["det", "later"], None, "%0 %1 --times=20240102T1330Z"),
    ("standardise", ["det"], "det", "%0 --attributes-config={attributes}"),
    ("standardise", ["ens"], None, "%0 --attributes-config={attributes} --new-name=screen_temperature --new-units=celsius"),
    ("merge", ["det", "later"], None, "%0 %1"),
    ("between-thresholds", ["prob"], None, "%0 --threshold-ranges={ranges} --threshold-units=K"),
    ("expected-value", ["prob"], None, "%0"),
    ("expected-value", ["ens"], None, "%0"),
    ("generate-percentiles", ["ens"], "perc-even", "%0 --percentiles=25,50,75 --coordinates=realization"),
    ("expected-value", ["perc-even"], None, "%0"),
    ("apply-mask", ["det", "lsm"], None, "%0 %1 --mask-name=land_binary_mask"),
    ("regrid", ["ll", "target"], None, "%0 %1 --regrid-mode=nearest-2"),
    ("regrid", ["ll", "target"], None, "%0 %1 --regrid-mode=bilinear-2"),
    ("copy-attributes", ["det", "ens"], "det", "%0 %1 --attributes=title,institution"),
    ("create-grid-with-halo", ["det"], None, "%0 --halo-radius=4000"),
    ("wind-direction", ["dir"], None, "%0 --backup-method=first_realization"),
    ("feels-like-temp", ["ens", "wind", "rh", "mslp"], "ens-feels", "%0 %1 %2 %3"),
    ("threshold", ["ens-feels"], None, "%0 --threshold-values=274,280 --collapse-coord=realization"),
    ("uv-index", ["uv"], None, "%0"),
    ("generate-landmask-ancillary", ["lsm"], None, "%0"),
    ("generate-topography-bands-mask", ["orog", "lsm"], "bands", "%0 %1 --bands-config={bands}"),
    ("generate-topography-bands-weights", ["orog", "lsm"], None, "%0 %1 --bands-config={bands}"),
    ("nbhood-iterate-with-mask", ["prob", "bands"], None, "%0 %1 --coord-for-masking=topographic_zone --radii=4000"),
    ("apply-night-mask", ["uv"], None, "%0"),
    ("max-in-time-window", ["period", "period2"], None, "%0 %1"),
    ("field-texture", ["prob-ens"], None, "%0 --nbhood-radius=4000 --diagnostic-threshold=279"),
    ("normalise-to-reference", ["two", "one"], None, "%0 %1 --reference-name=wind_speed --return-name=relative_humidity"),
    ("interpolate-using-difference", ["masked", "det"], None, "%0 %1"),
    ("combine", ["period", "period2"], None, "%0 %1 --operation=max --cell-method-coordinate=time"),
    ("integrate-time-bounds", ["rate"], None, "%0 --new-name=lwe_thickness_of_precipitation_amount"),
    ("construct-reliability-tables", ["hist", "truth"], "table-all", "%0 %1 --truth-attribute=mosg__model_configuration=uk_det --aggregate-coordinates=projection_y_coordinate,projection_x_coordinate"),
    ("construct-reliability-tables", ["hist", "truth"], "table", "%0 %1 --truth-attribute=mosg__model_configuration=uk_det --n-probability-bins=3"),
    ("aggregate-reliability-tables", ["table"], None, "%0 --coordinates=projection_y_coordinate,projection_x_coordinate"),
    ("manipulate-reliability-table", ["table-all"], "tables", "%0 --minimum-forecast-count=5"),
    ("apply-reliability-calibration", ["prob", "tables"], None, "%0 %1"),
    ("nbhood-land-and-sea", ["prob", "lsm"], None, "%0 %1 --radii=4000"),
    ("temp-lapse-rate", ["ens", "orog", "lsm"], None, "%0 %1 %2 --nbhood-radius=1"),
    ("blend-cycles-and-realizations", ["ens", "ens"], None, "%0 %1 --cycletime=20240102T0600Z"),
    ("wet-bulb-temperature", ["ens", "rh", "airp"], "wbt", "%0 %1 %2"),
    ("snow-fraction", ["rain", "snowrate"], None, "%0 %1"),
    ("blend-adjacent-points", ["perc", "perc-later"], None, "%0 %1 --coordinate=forecast_period --central-point=12 --units=hours --width=4 --calendar=gregorian"),
    ("neighbour-finding", ["orog", "lsm"], "neighbours", "%0 %1 {sites}"),
    ("spot-extract", ["det", "neighbours"], "spot", "%0 %1"),
    ("spot-extract", ["ens", "neighbours"], None, "%0 %1 --realization-collapse"),
    ("relabel-to-period", ["det"], None, "%0 --period=3"),
    ("enforce-consistent-forecasts", ["ens", "dew"], None, "%0 %1 --comparison-operator=>= --ref-name=air_temperature"),
    ("generate-solar-time", ["llorog"], None, "%0 --time=20240102T1200Z"),
    ("generate-clearsky-solar-radiation", ["llorog"], None, "%0 --time=20240102T1200Z --accumulation-period=3"),
    ("calculate-forecast-bias", ["dethist", "enstruth"], "bias", "%0 %1 --truth-attribute=mosg__model_configuration=uk_det"),
    ("apply-bias-correction", ["det", "bias"], None, "%0 %1"),
]
SOURCES = ["ens", "det", "later", "prob", "perc", "lsm", "orog", "dir", "wind", "rh", "mslp", "uv", "small", "two", "one", "masked", "period", "period2", "rate", "rain", "snowrate", "pressure", "perc-later", "ll", "target", "llorog", "hist", "truth", "enshist", "enstruth", "codes", "codes2", "airp", "dew", "dethist"]


def source(kind, seed):
    from iris.cube import CubeList

    if kind == "small":
        return cube_of("det", seed, (NY - 2, NX - 2))
    if kind == "two":
        return CubeList([cube_of("wind", seed), cube_of("rh", seed)])
    if kind == "one":
        c = cube_of("rh", seed + 1)
        c.rename("reference_humidity")
        return c
    if kind == "masked":
        c = cube_of("det", seed)
        m = np.zeros(c.shape, bool)
        m[2:4, 2:4] = True
        c.data = np.ma.masked_array(c.data, m)
        return c
    return cube_of(kind, seed)


def argv(i, inputs, root, config=None):
    """Arguments of line i on the given input paths."""
    name, kinds, out, text = LINES[i]
    a = [name]
    for w in text.split():
        if w[0] == "%":
            a.append(inputs[int(w[1:])])
        else:
            if "{" in w:
                k = w[w.index("{") + 1:w.index("}")]
                w = w.replace("{%s}" % k, os.path.join(root, "%s.json" % k))
            a.append(w)
    return a


def write_configs(root, i=None):
    for k, v in CONFIGS.items():
        if i is None or "{%s}" % k in LINES[i][3]:
            with open(os.path.join(root, k + ".json"), "w") as f:
                json.dump(v, f)


def configs_of(i):
    return [k for k in CONFIGS if "{%s}" % k in LINES[i][3]]


def run(args):
    cli = simlib.load_cli()
    return cli.main.cli("improver", *args)
