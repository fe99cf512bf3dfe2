"""The fixed-geometry helpers and simulated input for them."""
import numpy as np
import geotiepoints
from geotiepoints.interpolator import generic_modis5kmto1km

from vlib import gen

AVHRR_DELTA = np.deg2rad(2 * 55.37) / 2047
METOP_COLS = np.array([0] + list(range(4, 2048, 20)) + [2047])


def metop(start, lines):
    """Tie lon/lat and true lon/lat of an AVHRR-like whisk-broom scanner."""
    kw = dict(scan_km=1.1, delta=AVHRR_DELTA, mid_row=0, mid_col=1023.5)
    g, _ = gen.modis_points(start, lines, [0.0], np.arange(2048), **kw)
    lon, lat = gen.to_lonlat(g)
    return lon[:, METOP_COLS], lat[:, METOP_COLS], lon, lat


def modis(start, nscans, coarse, fine):
    lon, lat, satz, tlon, tlat = gen.modis_case(start, nscans, coarse, fine)
    return lon, lat, tlon, tlat


HELPERS = {
    "metop20kmto1km": (geotiepoints.metop20kmto1km, None, None),
    "modis5kmto1km": (geotiepoints.modis5kmto1km, 5000, 1000),
    "modis1kmto500m": (geotiepoints.modis1kmto500m, 1000, 500),
    "modis1kmto250m": (geotiepoints.modis1kmto250m, 1000, 250),
}


def simulate(name, start, n):
    """(tie lon, tie lat, true lon, true lat) for helper *name*; n lines or scans."""
    fn, coarse, fine = HELPERS[name]
    if coarse is None:
        return metop(start, n)
    return modis(start, n, coarse, fine)


def generic(*data):
    return generic_modis5kmto1km(*data)
