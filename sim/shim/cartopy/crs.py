"""cartopy.crs (shim): lat-lon, LAEA and transverse Mercator on a sphere (series-free spherical formulae)."""
import math

import numpy as np


class Globe:
    def __init__(self, datum=None, ellipse="WGS84", semimajor_axis=None, semiminor_axis=None, flattening=None,
                 inverse_flattening=None, **k):
        self.semimajor_axis = semimajor_axis
        self.semiminor_axis = semiminor_axis

    @property
    def radius(self):
        return float(self.semimajor_axis or 6371229.0)

    def __eq__(self, other):
        return isinstance(other, Globe) and self.__dict__ == other.__dict__

    def __hash__(self):
        return hash((self.semimajor_axis, self.semiminor_axis))


class CRS:
    def __init__(self, globe=None, **kw):
        self.globe = globe or Globe()

    def as_geocentric(self):
        return Geocentric(self.globe)

    def as_geodetic(self):
        return Geodetic(self.globe)

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__

    def __hash__(self):
        return hash(type(self).__name__)

    def _to_ll(self, x, y):
        return x, y

    def _from_ll(self, lon, lat):
        return lon, lat

    def transform_points(self, src_crs, x, y, z=None):
        x, y = np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64)
        zz = np.zeros_like(x) if z is None else np.asarray(z, dtype=np.float64)
        if type(self) is type(src_crs) and self == src_crs:
            return np.stack([x, y, zz], axis=-1)
        lon, lat = src_crs._to_ll(x, y)
        if isinstance(self, Geocentric):
            r = self.globe.radius + zz
            lo, la = np.radians(lon), np.radians(lat)
            return np.stack([r * np.cos(la) * np.cos(lo), r * np.cos(la) * np.sin(lo), r * np.sin(la)], axis=-1)
        a, b = self._from_ll(lon, lat)
        return np.stack([a, b, zz], axis=-1)

    def transform_point(self, x, y, src_crs, trap=True):
        r = self.transform_points(src_crs, np.array([x]), np.array([y]))[0]
        return float(r[0]), float(r[1])


class Projection(CRS):
    pass


class PlateCarree(Projection):
    def __init__(self, central_longitude=0.0, globe=None):
        super().__init__(globe)


class Geodetic(CRS):
    def __init__(self, globe=None):
        super().__init__(globe)


class Geocentric(CRS):
    def __init__(self, globe=None):
        super().__init__(globe)


class RotatedGeodetic(CRS):
    def __init__(self, pole_longitude, pole_latitude, central_rotated_longitude=0.0, globe=None):
        super().__init__(globe)
        self.p = (pole_longitude, pole_latitude)


class LambertAzimuthalEqualArea(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, false_easting=0.0, false_northing=0.0, globe=None):
        super().__init__(globe)
        self.lon0, self.lat0 = float(central_longitude), float(central_latitude)
        self.fe, self.fn = float(false_easting), float(false_northing)

    def _from_ll(self, lon, lat):
        R = self.globe.radius
        dl, la, l0 = np.radians(lon - self.lon0), np.radians(lat), math.radians(self.lat0)
        k = np.sqrt(2.0 / np.maximum(1e-30, 1 + math.sin(l0) * np.sin(la) + math.cos(l0) * np.cos(la) * np.cos(dl)))
        return (R * k * np.cos(la) * np.sin(dl) + self.fe,
                R * k * (math.cos(l0) * np.sin(la) - math.sin(l0) * np.cos(la) * np.cos(dl)) + self.fn)

    def _to_ll(self, x, y):
        R = self.globe.radius
        x, y = x - self.fe, y - self.fn
        rho = np.hypot(x, y)
        c = 2 * np.arcsin(np.clip(rho / (2 * R), -1, 1))
        l0 = math.radians(self.lat0)
        safe = np.where(rho == 0, 1.0, rho)
        lat = np.where(rho == 0, l0, np.arcsin(np.clip(np.cos(c) * math.sin(l0) + y * np.sin(c) * math.cos(l0) / safe, -1, 1)))
        lon = np.arctan2(x * np.sin(c), rho * math.cos(l0) * np.cos(c) - y * math.sin(l0) * np.sin(c))
        return np.degrees(lon) + self.lon0, np.degrees(lat)


class TransverseMercator(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, false_easting=0.0, false_northing=0.0, scale_factor=1.0, globe=None):
        super().__init__(globe)
        self.lon0, self.lat0 = float(central_longitude), float(central_latitude)
        self.fe, self.fn, self.k0 = float(false_easting), float(false_northing), float(scale_factor)

    def _from_ll(self, lon, lat):
        R = self.globe.radius * self.k0
        dl, la = np.radians(lon - self.lon0), np.radians(lat)
        b = np.cos(la) * np.sin(dl)
        x = 0.5 * R * np.log((1 + b) / (1 - b))
        y = R * (np.arctan2(np.tan(la), np.cos(dl)) - math.radians(self.lat0))
        return x + self.fe, y + self.fn

    def _to_ll(self, x, y):
        R = self.globe.radius * self.k0
        x, y = (x - self.fe) / R, (y - self.fn) / R
        d = y + math.radians(self.lat0)
        lat = np.arcsin(np.sin(d) / np.cosh(x))
        lon = np.arctan2(np.sinh(x), np.cos(d))
        return np.degrees(lon) + self.lon0, np.degrees(lat)


class OSGB(TransverseMercator):
    def __init__(self, approx=None):
        super().__init__(-2, 49, 400000, -100000, 0.9996012717)
