"""iris.coord_systems (shim)."""


def _num(value):
    return None if value is None else float(value)


class CoordSystem:
    grid_mapping_name = None

    def __eq__(self, other):
        if type(self) is not type(other):
            return NotImplemented if not isinstance(other, CoordSystem) else False
        return self.__dict__ == other.__dict__

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    def __hash__(self):
        return hash((type(self).__name__,) + tuple(sorted((k, repr(v)) for k, v in self.__dict__.items())))

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items())))

    def xml_element(self, doc=None, attrs=None):
        return repr(self)


class GeogCS(CoordSystem):
    grid_mapping_name = "latitude_longitude"

    def __init__(self, semi_major_axis=None, semi_minor_axis=None, inverse_flattening=None, longitude_of_prime_meridian=0):
        if semi_major_axis is None:
            semi_major_axis = semi_minor_axis
        if semi_minor_axis is None and inverse_flattening is None:
            semi_minor_axis = semi_major_axis
            inverse_flattening = 0.0
        elif inverse_flattening is None:
            if semi_major_axis == semi_minor_axis:
                inverse_flattening = 0.0
            else:
                f = (float(semi_major_axis) - float(semi_minor_axis)) / float(semi_major_axis)
                inverse_flattening = 1.0 / f
        elif semi_minor_axis is None:
            semi_minor_axis = semi_major_axis - (1.0 / inverse_flattening) * semi_major_axis if inverse_flattening else semi_major_axis
        self.semi_major_axis = float(semi_major_axis)
        self.semi_minor_axis = float(semi_minor_axis)
        self.inverse_flattening = float(inverse_flattening)
        self.longitude_of_prime_meridian = float(longitude_of_prime_meridian)

    def __repr__(self):
        if self.semi_major_axis == self.semi_minor_axis:
            return "GeogCS(%r)" % self.semi_major_axis
        return "GeogCS(semi_major_axis=%r, semi_minor_axis=%r)" % (self.semi_major_axis, self.semi_minor_axis)

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Geodetic(self.as_cartopy_globe())

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.PlateCarree()

    def as_cartopy_globe(self):
        import cartopy.crs as ccrs

        return ccrs.Globe(semimajor_axis=self.semi_major_axis, semiminor_axis=self.semi_minor_axis, ellipse=None)


class RotatedGeogCS(CoordSystem):
    grid_mapping_name = "rotated_latitude_longitude"

    def __init__(self, grid_north_pole_latitude, grid_north_pole_longitude, north_pole_grid_longitude=0, ellipsoid=None):
        self.grid_north_pole_latitude = float(grid_north_pole_latitude)
        self.grid_north_pole_longitude = float(grid_north_pole_longitude)
        self.north_pole_grid_longitude = float(north_pole_grid_longitude)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.RotatedGeodetic(self.grid_north_pole_longitude, self.grid_north_pole_latitude)


class TransverseMercator(CoordSystem):
    grid_mapping_name = "transverse_mercator"

    def __init__(self, latitude_of_projection_origin, longitude_of_central_meridian, false_easting=None, false_northing=None,
                 scale_factor_at_central_meridian=None, ellipsoid=None):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_central_meridian = float(longitude_of_central_meridian)
        self.false_easting = float(false_easting or 0.0)
        self.false_northing = float(false_northing or 0.0)
        self.scale_factor_at_central_meridian = float(1.0 if scale_factor_at_central_meridian is None else scale_factor_at_central_meridian)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.TransverseMercator(
            central_longitude=self.longitude_of_central_meridian, central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting, false_northing=self.false_northing,
            scale_factor=self.scale_factor_at_central_meridian,
            globe=self.ellipsoid.as_cartopy_globe() if self.ellipsoid is not None else None)

    as_cartopy_projection = as_cartopy_crs


class OSGB(TransverseMercator):
    def __init__(self):
        super().__init__(49, -2, 400000, -100000, 0.9996012717, GeogCS(6377563.396, 6356256.909))


class LambertAzimuthalEqualArea(CoordSystem):
    grid_mapping_name = "lambert_azimuthal_equal_area"

    def __init__(self, latitude_of_projection_origin=0.0, longitude_of_projection_origin=0.0, false_easting=None,
                 false_northing=None, ellipsoid=None):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_projection_origin = float(longitude_of_projection_origin)
        self.false_easting = float(false_easting or 0.0)
        self.false_northing = float(false_northing or 0.0)
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return ("LambertAzimuthalEqualArea(latitude_of_projection_origin={!r}, longitude_of_projection_origin={!r}, "
                "false_easting={!r}, false_northing={!r}, ellipsoid={!r})").format(
            self.latitude_of_projection_origin, self.longitude_of_projection_origin, self.false_easting,
            self.false_northing, self.ellipsoid)

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.LambertAzimuthalEqualArea(
            central_longitude=self.longitude_of_projection_origin, central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting, false_northing=self.false_northing,
            globe=self.ellipsoid.as_cartopy_globe() if self.ellipsoid is not None else None)

    as_cartopy_projection = as_cartopy_crs
