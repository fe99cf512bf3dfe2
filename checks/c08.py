"""C08: lon/lat-only MODIS interpolation recovers the true pixel positions."""
import numpy as np

from vlib import api, gen, refs
from vlib.core import group

TRUTH = {(250, "float64"): (60.0, 5.0), (250, "float32"): (65.0, 6.0),
         (500, "float64"): (40.0, 4.0), (500, "float32"): (45.0, 5.0)}


@group(quick=160, thorough=3000)
def simulated_instrument(c):
    fine = c.pick([250, 500])
    dtype = c.pick([np.float64, np.float32])
    fr = gen.random_frame(c.rng)
    nscans = int(c.rng.integers(1, 4))
    c.note(fine=fine, dtype=dtype.__name__, frame=fr, scans=nscans)
    lon, lat, _, tlon, tlat = gen.modis_case(gen.frame(*fr), nscans, 1000, fine)
    if c.rng.random() < 0.2:
        lon = np.where(lon < 0, lon + 360, lon)
    glon, glat = api.simple(c, 1000, fine, lon.astype(dtype), lat.astype(dtype))
    c.ensure(glon.shape == tlon.shape and glat.shape == tlon.shape, "shape %s instead of %s" % (glon.shape, tlon.shape))
    err = gen.dist_m(glon, glat, tlon, tlat)
    anywhere, median = TRUTH[fine, dtype.__name__]
    what = "%s %s" % (api.label("lon/lat only", 1000, fine), dtype.__name__)
    c.within(err, anywhere, what + ": metres from the simulated truth")
    c.within(np.median(err), median, what + ": median metres from the simulated truth")
    c.seen("pixels compared with the simulated truth", err.size)


@group(quick=600, thorough=10000)
def definition(c):
    coarse, fine = c.pick([(1000, 250), (1000, 500), (1000, 250), (1000, 500), (500, 250), (500, 125), (250, 125)])
    dtype = c.pick([np.float64, np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    nscans = int(c.rng.integers(1, 5))
    cols = int(c.pick([2, 3, 4, 5, 10, 33, 100, 300, 1354]))
    fr = gen.random_frame(c.rng)
    spacing = float(c.pick([0.5, 1.0, 5.0, 20.0]))
    lon, lat = gen.wiggly_positions(c.rng, (nscans * rps, cols), spacing, fr)
    if c.rng.random() < 0.2:
        lon = np.where(lon < 0, lon + 360, lon)
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    c.note(coarse=coarse, fine=fine, dtype=dtype.__name__, frame=fr, scans=nscans, columns=cols, spacing=spacing)
    glon, glat = api.simple(c, coarse, fine, lon, lat)
    xyz = refs.simple_xyz(lon, lat, coarse // fine, rps)
    c.ensure(glon.shape == xyz.shape[:2] and glat.shape == glon.shape,
             "shape %s instead of %s" % (glon.shape, xyz.shape[:2]))
    err = refs.position_error(glon, glat, xyz)
    c.within(err, 1e-4 if dtype is np.float64 else 12.0,
             "%s %s: metres from the bilinear definition" % (api.label("lon/lat only", coarse, fine), dtype.__name__))
    c.seen("pixels compared with the definition", err.size)
    c.seen("definition compared: " + api.label("lon/lat only", coarse, fine))


@group(quick=24, thorough=400)
def granules(c):
    """Hundreds of scans, or scans of thousands of columns."""
    coarse, fine = c.pick([(1000, 250), (1000, 500), (500, 250), (500, 125), (250, 125)])
    dtype = c.pick([np.float64, np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    if c.k % 3:
        nscans, cols = int(10 ** c.rng.uniform(1.3, 2.6)), int(c.pick([2, 3, 4, 9, 20]))
        if cols <= 4:
            nscans *= int(c.pick([1, 3, 5]))
    else:
        nscans, cols = int(c.rng.integers(1, 4)), int(c.pick([1355, 2708, 3000, 4097, 5416]))
    lon, lat = (a.astype(dtype) for a in gen.wiggly_positions(c.rng, (nscans * rps, cols), 1.0, gen.random_frame(c.rng)))
    c.note(coarse=coarse, fine=fine, dtype=dtype.__name__, scans=nscans, columns=cols)
    glon, glat = api.simple(c, coarse, fine, lon, lat)
    xyz = refs.simple_xyz(lon, lat, coarse // fine, rps)
    c.ensure(glon.shape == xyz.shape[:2] and glat.shape == glon.shape, "shape %s instead of %s" % (glon.shape, xyz.shape[:2]))
    c.within(refs.position_error(glon, glat, xyz), 1e-4 if dtype is np.float64 else 12.0,
             "many scans or columns, %s: metres from the bilinear definition" % dtype.__name__)
    c.seen("scans of granules", nscans)
