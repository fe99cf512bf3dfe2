"""C07: zenith-angle MODIS interpolation recovers the true pixel positions."""
import numpy as np

from vlib import api, gen, refs
from vlib.core import group

# allowed distance from the simulated truth in metres: (anywhere, away from the first/last two cells, median)
TRUTH = {1000: {"float64": (6.0, 1.5, 0.2), "float32": (12.0, 9.0, 1.5)},
         271: {"float64": (70.0, 25.0, 2.0), "float32": (75.0, 30.0, 2.5)},
         270: {"float64": (350.0, 25.0, 2.0), "float32": (360.0, 30.0, 2.5)}}


def shift360(c, lon):
    """Longitudes in either convention."""
    return np.where(lon < 0, lon + 360, lon) if c.rng.random() < 0.2 else lon


@group(quick=200, thorough=3000)
def simulated_instrument(c):
    coarse, fine, width = api.ANGLE_CONFIGS[c.k % len(api.ANGLE_CONFIGS)]
    dtype = c.pick([np.float64, np.float32])
    fr = gen.random_frame(c.rng)
    nscans = int(c.rng.integers(1, 4))
    c.note(coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, frame=fr, scans=nscans)
    lon, lat, satz, tlon, tlat = gen.modis_case(gen.frame(*fr), nscans, coarse, fine, width)
    lon = shift360(c, lon)
    glon, glat = api.angle(c, coarse, fine, lon.astype(dtype), lat.astype(dtype), satz.astype(dtype))
    c.ensure(glon.shape == tlon.shape and glat.shape == tlon.shape, "shape %s instead of %s" % (glon.shape, tlon.shape))
    err = gen.dist_m(glon, glat, tlon, tlat)
    anywhere, inside, median = TRUTH[1000 if coarse == 1000 else width][dtype.__name__]
    what = "%s %s" % (api.label("zenith-angle", coarse, fine), dtype.__name__)
    if coarse == 5000:
        what += " from %d columns" % width
    c.within(err, anywhere, what + ": metres from the simulated truth")
    m = (2 if coarse == 1000 else 10) * (1000 // fine)
    c.within(err[:, m:-m], inside, what + ": metres from the simulated truth, inner columns")
    c.within(np.median(err), median, what + ": median metres from the simulated truth")
    c.seen("pixels compared with the simulated truth", err.size)


@group(quick=200, thorough=3000)
def published_formulas(c):
    coarse, fine, width = api.ANGLE_CONFIGS[c.k % len(api.ANGLE_CONFIGS)]
    dtype = c.pick([np.float64, np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    nscans = int(c.rng.integers(1, 3))
    shape = (nscans * rps, width)
    fr = gen.random_frame(c.rng)
    if c.rng.random() < 0.35:
        lon, lat, satz, _, _ = gen.modis_case(gen.frame(*fr), nscans, coarse, fine, width)
        kind = "instrument positions"
    else:
        lon, lat = gen.wiggly_positions(c.rng, shape, coarse / 1000.0, fr)
        kind = "arbitrary positions"
        satz = None
    if satz is None or c.rng.random() < 0.4:
        high = c.pick([66, 66, 66, 75, 82])
        satz = gen.random_zenith(c.rng, shape, coarse, high)
        c.seen("zenith angles of more than 66 degrees", int((satz > 66).sum()))
    lon, lat, satz = (a.astype(dtype) for a in (shift360(c, lon), lat, satz))
    c.note(coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, frame=fr, scans=nscans, kind=kind)
    glon, glat = api.angle(c, coarse, fine, lon, lat, satz)
    xyz, gap = refs.cviirs_xyz(lon, lat, satz, coarse, fine)
    c.ensure(glon.shape == xyz.shape[:2] and glat.shape == glon.shape,
             "shape %s instead of %s" % (glon.shape, xyz.shape[:2]))
    err = refs.position_error(glon, glat, xyz)
    cell = gen.dist_m(lon[:, 1:], lat[:, 1:], lon[:, :-1], lat[:, :-1]).max()
    # how far the expansion coefficients are determined at all in this precision
    eps = np.finfo(dtype).eps
    amp = 1 + 4 * (3.0 if width == 270 else 0.6)
    with np.errstate(divide="ignore"):
        loose = cell * amp * 40 * eps / np.where(np.isinf(gap), np.inf, gap)
    tol = (1e-4 if dtype is np.float64 else 12.0) + loose
    # nothing can be said where neighbouring zenith angles differ by rounding only
    keep = loose < 0.5 * cell
    c.within(err[keep], tol[keep], "%s %s: metres from the formulas" % (api.label("zenith-angle", coarse, fine), dtype.__name__))
    c.seen("pixels compared with the formulas", int(keep.sum()))
    c.seen("pixels left out (undetermined coefficients)", int((~keep).sum()))


MANY = [((5000, 1000, 271), (257, 320)), ((5000, 1000, 270), (60, 300)), ((1000, 500, 1354), (12, 40)), ((5000, 500, 271), (20, 60)),
        ((1000, 250, 1354), (8, 16)), ((5000, 250, 271), (12, 24)), ((5000, 500, 270), (20, 60)), ((5000, 250, 270), (12, 24))]


@group(quick=8, thorough=200)
def granules(c):
    """As many scans as a granule has (and more): every one of them by the formulas."""
    (coarse, fine, width), (low, high) = MANY[c.k % len(MANY)]
    dtype = c.pick([np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    nscans = int(c.rng.integers(low, high))
    lon, lat, satz, tlon, tlat = gen.modis_case(gen.frame(*gen.random_frame(c.rng)), nscans, coarse, fine, width)
    c.note(coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans)
    glon, glat = api.angle(c, coarse, fine, *(a.astype(dtype) for a in (lon, lat, satz)))
    c.ensure(glon.shape == tlon.shape and glat.shape == tlon.shape, "shape %s instead of %s" % (glon.shape, tlon.shape))
    anywhere = TRUTH[1000 if coarse == 1000 else width][dtype.__name__][0]
    err = gen.dist_m(glon, glat, tlon, tlat)
    c.within(err, anywhere, "granule, %s: metres from the simulated truth" % dtype.__name__)
    at = np.unique(np.concatenate([[0, nscans - 1], c.rng.integers(0, nscans, 4)]))
    lon, lat, satz = (a.astype(dtype) for a in (lon, lat, satz))
    for n in at:
        one = slice(n * rps, (n + 1) * rps)
        xyz, gap = refs.cviirs_xyz(lon[one], lat[one], satz[one], coarse, fine)
        keep = gap > 1e-3
        rows = slice(n * len(xyz), (n + 1) * len(xyz))
        err = refs.position_error(glon[rows], glat[rows], xyz)
        c.within(err[keep], 1e-3 if dtype is np.float64 else 25.0, "granule, %s: metres from the formulas" % dtype.__name__)
    c.seen("scans of granules", nscans)
