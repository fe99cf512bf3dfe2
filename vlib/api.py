"""The public functions under test, by name, with what is documented about them."""
import warnings

import numpy as np

from geotiepoints import modisinterpolator, simple_modis_interpolator

ANGLE = {(1000, 500): modisinterpolator.modis_1km_to_500m, (1000, 250): modisinterpolator.modis_1km_to_250m,
         (5000, 1000): modisinterpolator.modis_5km_to_1km, (5000, 500): modisinterpolator.modis_5km_to_500m,
         (5000, 250): modisinterpolator.modis_5km_to_250m}
SIMPLE = {(1000, 500): simple_modis_interpolator.modis_1km_to_500m,
          (1000, 250): simple_modis_interpolator.modis_1km_to_250m}

# (coarse, fine, width)
ANGLE_CONFIGS = [(1000, 500, 1354), (1000, 250, 1354), (5000, 1000, 271), (5000, 1000, 270), (5000, 500, 271),
                 (5000, 500, 270), (5000, 250, 271), (5000, 250, 270)]


def rows_per_scan(coarse):
    return {5000: 2, 1000: 10, 500: 20, 250: 40}[coarse]


def label(kind, coarse, fine):
    return "%s %dm->%dm" % (kind, coarse, fine)


def angle(c, coarse, fine, lon, lat, satz):
    """Mostly the functions for one resolution, in some cases the one for any."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c.k % 7 == 5 and lon.ndim == 2:
            width = {} if coarse == 1000 else [{}, dict(coarse_scan_width=0)][c.k // 7 % 2] if lon.shape[1] == 271 and c.k % 2 else \
                dict(coarse_scan_width=lon.shape[1])
            return c.call(label("zenith-angle", coarse, fine), modisinterpolator.interpolate, lon, lat, satz, coarse_resolution=coarse,
                          fine_resolution=fine, **width)
        return c.call(label("zenith-angle", coarse, fine), ANGLE[coarse, fine], lon, lat, satz)


def simple(c, coarse, fine, lon, lat):
    if (coarse, fine) in SIMPLE and c.rng.random() < 0.8:
        return c.call(label("lon/lat only", coarse, fine), SIMPLE[coarse, fine], lon, lat)
    return c.call(label("lon/lat only", coarse, fine), simple_modis_interpolator.interpolate_geolocation_cartesian,
                  lon, lat, coarse_resolution=coarse, fine_resolution=fine)


def fine_shape(coarse, fine, shape, kind="angle"):
    """Documented shape of the result."""
    f = coarse // fine
    rows = shape[0] * f
    if kind == "angle":
        return rows, 1354 * (1000 // fine)
    return rows, shape[1] * f
