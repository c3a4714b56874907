"""iris.std_names (shim): the CF standard names used by improver, with canonical units."""
_TABLE = """
air_density kg m-3
air_potential_temperature K
air_pressure Pa
air_pressure_at_mean_sea_level Pa
air_pressure_at_sea_level Pa
air_temperature K
air_temperature_lapse_rate K m-1
altitude m
aerosol_angstrom_exponent 1
atmosphere_convective_available_potential_energy J kg-1
atmosphere_mass_content_of_water_vapor kg m-2
atmosphere_boundary_layer_thickness m
cloud_area_fraction 1
cloud_area_fraction_in_atmosphere_layer 1
cloud_base_altitude m
cloud_ice_mixing_ratio 1
convective_rainfall_rate m s-1
convective_snowfall_flux kg m-2 s-1
dew_point_temperature K
downward_heat_flux_in_air W m-2
duration_of_sunshine s
surface_direct_downwelling_shortwave_flux_in_air W m-2
surface_downwelling_longwave_flux_in_air W m-2
surface_downwelling_shortwave_flux_in_air W m-2
surface_downwelling_ultraviolet_flux_in_air W m-2
surface_diffuse_downwelling_shortwave_flux_in_air W m-2
surface_upwelling_shortwave_flux_in_air W m-2
forecast_period s
forecast_reference_time s
freezing_level_altitude m
geopotential_height m
grid_latitude degrees
grid_longitude degrees
height m
height_above_reference_ellipsoid m
high_type_cloud_area_fraction 1
humidity_mixing_ratio 1
land_area_fraction 1
land_binary_mask 1
latitude degrees_north
lifted_index K
longitude degrees_east
low_type_cloud_area_fraction 1
lwe_convective_precipitation_rate m s-1
lwe_convective_snowfall_rate m s-1
lwe_precipitation_rate m s-1
lwe_snowfall_rate m s-1
lwe_stratiform_precipitation_rate m s-1
lwe_thickness_of_convective_precipitation_amount m
lwe_thickness_of_precipitation_amount m
lwe_thickness_of_snowfall_amount m
lwe_thickness_of_stratiform_precipitation_amount m
medium_type_cloud_area_fraction 1
model_level_number 1
platform_id 1
precipitation_amount kg m-2
precipitation_flux kg m-2 s-1
pressure Pa
projection_x_coordinate m
projection_y_coordinate m
rainfall_amount kg m-2
rainfall_flux kg m-2 s-1
rainfall_rate m s-1
lwe_rainfall_rate m s-1
realization 1
relative_humidity 1
region 1
sea_surface_temperature K
snowfall_amount kg m-2
snowfall_flux kg m-2 s-1
soil_temperature K
specific_humidity 1
stratiform_rainfall_rate m s-1
stratiform_snowfall_flux kg m-2 s-1
surface_air_pressure Pa
surface_altitude m
surface_roughness_length m
surface_temperature K
thunderstorm_probability 1
time s
toa_incoming_shortwave_flux W m-2
tropopause_altitude m
ultraviolet_index 1
upward_air_velocity m s-1
vertical_wind_speed m s-1
visibility_in_air m
wet_bulb_freezing_level_altitude m
wet_bulb_potential_temperature K
wet_bulb_temperature K
wind_chill_of_air_temperature K
wind_from_direction degree
wind_speed m s-1
wind_speed_of_gust m s-1
wind_speed_shear s-1
wind_to_direction degree
x_wind m s-1
y_wind m s-1
eastward_wind m s-1
grid_eastward_wind m s-1
grid_northward_wind m s-1
northward_wind m s-1
convective_precipitation_rate m s-1
cloud_top_altitude m
air_temperature_at_cloud_top K
atmosphere_convective_inhibition J kg-1
air_pressure_at_convective_cloud_base Pa
air_temperature_at_convective_cloud_base K
storm_motion_speed m s-1
"""
STD_NAMES = {}
for _line in _TABLE.strip().splitlines():
    _name, _, _units = _line.partition(" ")
    STD_NAMES[_name] = {"canonical_units": _units}
for _bad in ("pressure", "wet_bulb_freezing_level_altitude", "air_temperature_lapse_rate_", "vertical_wind_speed",
             "cloud_ice_mixing_ratio", "lwe_rainfall_rate_", "convective_precipitation_rate",
             "lwe_convective_snowfall_rate_", "height_of_"):
    STD_NAMES.pop(_bad, None)
