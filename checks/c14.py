"""C14: VII interpolation is bilinear within each scan."""
import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import gen, refs
from vlib.core import group

R_IUGG = 6371008.7714


def dims_for(c):
    return c.pick([("num_tie_points_alt", "num_tie_points_act"), ("y", "x"), ("x", "y"), ("a", "b")])


def geometry(c):
    ties = int(c.rng.integers(2, 8))
    nscans = int(c.pick([1, 1, 2, 3, 5]))
    factor = int(c.pick([1, 2, 3, 4, 5, 8, 8]))
    act = int(c.pick([2, 3, 7, 19]))
    if c.rng.random() < 0.03:      # a long piece or a wide scan
        nscans, act = (int(c.rng.integers(20, 60)), act) if c.rng.random() < 0.5 else (nscans, int(c.rng.integers(40, 300)))
    return ties, nscans, factor, act


def number(c, n):
    """The same number, in one of the types of numbers."""
    kinds = [t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.int64) if n <= np.iinfo(t).max]
    return c.pick([int, int, int] + kinds)(n)


def as_array(c, data, dims, dask_p=0.3):
    kw = {}
    if c.rng.random() < 0.2:
        kw["coords"] = {dims[0]: np.arange(data.shape[0]) * 7.0, dims[1]: np.arange(data.shape[1])[::-1]}
    if c.rng.random() < 0.2:
        kw.update(attrs={"a": 1}, name="n")
    if c.rng.random() < dask_p:
        data = da.from_array(data, chunks=tuple(int(c.rng.integers(max(1, s // 30), s + 1)) for s in data.shape))
    return xr.DataArray(data, dims=dims, **kw)


@group(quick=500, thorough=8000)
def generic_data(c):
    ties, nscans, factor, act = geometry(c)
    shape = (ties * nscans, act)
    dims = dims_for(c)
    n = int(c.rng.integers(1, 5))
    dtype = c.pick([np.float64, np.float64, np.float32])
    raw = []
    for _ in range(n):
        v = c.rng.normal(size=shape) * 10.0 ** c.rng.integers(-3, 6) + c.rng.normal() * 100
        if c.rng.random() < 0.3:        # scans far apart: nothing may leak between them
            v += np.repeat(c.rng.normal(size=nscans) * 1e6, ties)[:, None]
        raw.append(v.astype(dtype))
    c.note(ties=ties, scans=nscans, factor=factor, act=act, arrays=n, dtype=dtype.__name__, dims=list(dims))
    res = c.call("vii data", tie_points_interpolation, [as_array(c, v, dims) for v in raw], number(c, ties), number(c, factor))
    c.ensure(len(res) == n, "%d results for %d arrays" % (len(res), n))
    eps = np.finfo(dtype).eps
    for v, r in zip(raw, res):
        want = refs.vii(v, ties, factor)
        c.ensure(r.shape == want.shape, "shape %s instead of %s" % (r.shape, want.shape))
        c.ensure(isinstance(r, xr.DataArray) and r.dims == dims, "dimensions %s instead of %s" % (getattr(r, "dims", None), dims))
        c.within(np.abs(r.values - want), 30 * eps * np.abs(v).max(), "vii data (%s)" % dtype.__name__)
        c.seen("vii pixels compared", want.size)


@group(quick=4, thorough=60)
def long_granules(c):
    """Tens of thousands of lines or columns."""
    factor, ties = int(c.pick([8, 16, 30])), int(c.pick([2, 2, 5]))
    n = int(c.pick([32768, 40000, 65536, 70000])) + int(c.rng.integers(0, 400))
    nscans, act = (n // (factor * ties) + 1, 3) if c.rng.random() < 0.6 else (1, n // factor + 1)
    v = c.rng.normal(size=(ties * nscans, act))
    c.note(ties=ties, scans=nscans, factor=factor, act=act)
    r, = c.call("vii data", tie_points_interpolation, [as_array(c, v, ("y", "x"))], ties, factor)
    want = refs.vii(v, ties, factor)
    c.ensure(r.shape == want.shape, "shape %s instead of %s" % (r.shape, want.shape))
    c.within(np.abs(r.values - want), 1e-13, "vii data of a long granule")
    c.seen("long granules")


def reference_geo(lon, lat, ties, factor, cartesian):
    if not cartesian:
        return refs.vii(lon, ties, factor), refs.vii(lat, ties, factor), None
    v = R_IUGG * gen.unit(lon, lat)
    return None, None, np.stack([refs.vii(v[..., i], ties, factor) for i in range(3)], -1)


@group(quick=500, thorough=8000)
def positions(c):
    ties, nscans, factor, act = geometry(c)
    shape = (ties * nscans, act)
    kw = {}
    thr = 60.0
    zthr = 0.8
    if c.rng.random() < 0.5:
        thr = float(c.pick([0.0, 30.0, 59.0, 61.0, 80.0, 89.0, 90.0, 100.0, c.rng.uniform(0, 90)]))
        kw["lat_threshold_use_cartesian"] = thr
    if c.rng.random() < 0.4:
        zthr = float(c.pick([0.0, 0.3, 0.5, 0.9, 0.99, 1.0, c.rng.uniform(0, 1)]))
        kw["z_threshold_use_xy"] = zthr
    spacing = float(c.pick([1.0, 8.0, 8.0, 100.0, 500.0]))
    where = c.pick(["anywhere", "near the latitude threshold", "antimeridian", "span", "0..360", "equator", "symmetrical"])
    if where == "equator" and c.rng.random() < 0.7:     # in cartesian coordinates, latitudes from x and y
        thr, zthr = float(c.pick([0.0, 1e-3])), float(c.pick([0.0, 0.0, 1e-9, 1e-3]))
        kw = dict(lat_threshold_use_cartesian=thr, z_threshold_use_xy=zthr)
    if where == "near the latitude threshold" and thr < 89.5:
        sign = c.pick([1, -1])
        lon = c.rng.uniform(-60, 60) + np.arange(act)[None, :] * 0.1 + np.zeros(shape)
        lat = thr - c.rng.uniform(0.0, 0.5, shape)
        if c.rng.random() < 0.5:
            # beyond, or exactly at the threshold
            lat.flat[int(c.rng.integers(lat.size))] = thr + c.pick([c.rng.uniform(1e-9, 0.01), 0.0])
        lat *= sign
    elif where == "equator":
        lon = c.rng.uniform(-180, 180) + np.arange(act)[None, :] * c.pick([0.01, 0.1]) + np.zeros(shape)
        lon = (lon + 180) % 360 - 180
        lat = c.pick([0.0, 1e-9, 1e-3, 0.01]) * c.rng.normal(size=shape) * (c.rng.random(shape) < 0.5)
        lat.flat[int(c.rng.integers(lat.size))] = c.pick([0.0, 0.01, -0.5])
    elif where == "symmetrical":
        lon, lat, where = gen.symmetric_positions(c.rng, shape, spacing)
        lat = np.clip(lat, -90, 90)
    elif where == "span":
        span = float(c.pick([179.0, 180.0, 180.5, 181.0, 200.0, 359.0]))
        lon = np.linspace(0, span, act)[None, :] + c.pick([-180.0, -90.0, 0.0]) + np.zeros(shape)
        lat = c.rng.uniform(-20, 20) + c.rng.normal(0, 0.1, shape)
    else:
        fr = gen.random_frame(c.rng) if where != "antimeridian" else (180.0 + c.rng.normal(0, .01), c.rng.uniform(-50, 50), 0.0)
        lon, lat = gen.wiggly_positions(c.rng, shape, spacing, fr)
        if where == "0..360":
            lon = np.mod(lon, 360)
    cartesian = bool(np.abs(lat).max() > thr or np.ptp(lon) > 180)
    dtype = np.float64 if c.rng.random() < 0.9 else np.float32
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    cartesian = bool(np.abs(lat).max() > np.float64(thr) or lon.max() - lon.min() > 180)
    c.note(ties=ties, scans=nscans, factor=factor, act=act, where=where, spacing_km=spacing, dtype=dtype.__name__,
           cartesian=cartesian, **kw)
    dims = dims_for(c)
    res = c.call("vii positions", tie_points_geo_interpolation, as_array(c, lon, dims), as_array(c, lat, dims), number(c, ties), number(c, factor), **kw)
    c.ensure(len(res) == 2 and all(isinstance(r, xr.DataArray) and r.dims == dims for r in res), "results %s" % (res,))
    glon, glat = (np.asarray(r.values, dtype=np.float64) for r in res)
    wlon, wlat, xyz = reference_geo(lon, lat, ties, factor, cartesian)
    eps = np.finfo(dtype).eps
    if not cartesian:
        c.ensure(glon.shape == wlon.shape, "shape %s instead of %s" % (glon.shape, wlon.shape))
        c.within(np.abs(glon - wlon), 400 * 8 * eps, "longitude, degrees (%s, in degrees)" % dtype.__name__)
        c.within(np.abs(glat - wlat), 400 * 8 * eps, "latitude, degrees (%s, in degrees)" % dtype.__name__)
        c.seen("vii: in degrees")
        return
    c.ensure(glon.shape == xyz.shape[:2], "shape %s instead of %s" % (glon.shape, xyz.shape[:2]))
    norm = np.sqrt((xyz ** 2).sum(-1)) / R_IUGG
    ok = norm > 0.01
    r = np.hypot(xyz[..., 0], xyz[..., 1])
    # longitude from the direction, weighed with the distance from the axis
    dlon = np.abs(np.deg2rad((glon - np.rad2deg(np.arctan2(xyz[..., 1], xyz[..., 0])) + 180) % 360 - 180)) * r / R_IUGG
    c.within(dlon[ok], 40 * eps, "longitude, radians on the ground (%s, cartesian)" % dtype.__name__)
    z = xyz[..., 2] / R_IUGG
    with np.errstate(invalid="ignore"):
        by_z = np.rad2deg(np.arcsin(z))
        by_xy = np.sign(z) * (90 - np.rad2deg(np.arcsin(np.minimum(r / R_IUGG, 1))))
    # either formula at the threshold itself
    low = np.abs(z) < zthr
    edge = np.abs(np.abs(z) - zthr) < 100 * eps
    tol_z = np.rad2deg(40 * eps / np.maximum(np.sqrt(np.maximum(1 - z ** 2, 0)), np.sqrt(eps)))
    tol_xy = np.rad2deg(40 * eps / np.maximum(np.sqrt(np.maximum(1 - (r / R_IUGG) ** 2, 0)), np.sqrt(eps)))
    err = np.where(low, np.abs(glat - by_z), np.abs(glat - by_xy))
    tol = np.where(low, tol_z, tol_xy)
    # at the equator the sign of a rounding error decides between the hemispheres
    eq = ~low & (np.abs(z) < 100 * eps)
    err = np.where(eq, np.abs(np.abs(glat) - np.abs(by_xy)), err)
    keep = ok & ~edge
    c.within(err[keep], tol[keep], "latitude, degrees (%s, cartesian)" % dtype.__name__)
    if edge.any():
        e = np.fmin(np.abs(glat - by_z), np.abs(glat - by_xy))
        c.within(e[edge & ok], np.maximum(tol_z, tol_xy)[edge & ok] + np.rad2deg(100 * eps), "latitude at the z threshold")
    c.seen("vii: in cartesian coordinates")
    c.seen("vii pixels within 1 m of the equator, latitude from x and y", int((eq | (~low & (np.abs(z) < 1.6e-7))).sum()))


@group(quick=24, thorough=400)
def granules(c):
    """Many scans, many arrays, wide scans."""
    ties = int(c.rng.integers(2, 31))
    nscans = int(c.rng.integers(8, 300 // ties + 9))
    factor, act = int(c.pick([1, 2, 8])), int(c.pick([2, 5, 40, 200]))
    if act == 200:
        nscans = min(nscans, 20)
    shape, dims = (ties * nscans, act), dims_for(c)
    n = int(c.pick([1, 2, 6, 12])) if act < 40 else 1
    raw = [c.rng.normal(size=shape) + np.repeat(c.rng.normal(size=nscans) * 1e4, ties)[:, None] for _ in range(n)]
    c.note(ties=ties, scans=nscans, factor=factor, act=act, arrays=n)
    res = c.call("vii data", tie_points_interpolation, [as_array(c, v, dims) for v in raw], ties, factor)
    c.ensure(len(res) == n, "%d results for %d arrays" % (len(res), n))
    for v, r in zip(raw, res):
        want = refs.vii(v, ties, factor)
        c.ensure(r.shape == want.shape and r.dims == dims, "shape %s dimensions %s instead of %s %s" % (r.shape, r.dims, want.shape, dims))
        c.within(np.abs(r.values - want), 30 * np.finfo(float).eps * np.abs(v).max(), "vii data, many scans")
    lon, lat = gen.wiggly_positions(c.rng, shape, 4.0, (float(c.rng.uniform(-100, 100)), 0.0, 0.0) if c.rng.random() < 0.7 else None)
    cartesian = bool(np.abs(lat).max() > 60.0 or np.ptp(lon) > 180)
    glon, glat = (np.asarray(a) for a in c.call("vii positions", tie_points_geo_interpolation, as_array(c, lon, dims), as_array(c, lat, dims),
                                                ties, factor))
    wlon, wlat, xyz = reference_geo(lon, lat, ties, factor, cartesian)
    if cartesian:
        err = refs.position_error(glon, glat, xyz, R_IUGG)
    else:
        err = gen.dist_m(glon, glat, wlon, wlat)
    c.within(err, 1e-2 if not cartesian else 1.0, "vii positions, many scans: metres")
    c.seen("vii scans of granules", nscans)


@group(quick=60, thorough=1000)
def alike(c):
    """Granules one after the other that have much in common: numbers of pixels, rows, scans, data."""
    pixels = int(c.pick([4, 6, 8, 12, 24]))
    splits = [(pixels // f + 1, f) for f in range(1, pixels + 1) if pixels % f == 0]      # tie points per scan, factor
    nscans, act = int(c.rng.integers(2, 5)), int(c.rng.integers(2, 9))
    dims = dims_for(c)
    last = None
    how = []
    for _ in range(int(c.rng.integers(3, 6))):
        ties, factor = splits[int(c.rng.integers(len(splits)))]
        n = nscans
        if last is not None and c.rng.random() < 0.4:     # as many tie rows, other scans
            rows = last.shape[0]
            ties = int(c.pick([t for t in range(2, rows + 1) if rows % t == 0]))
            n = rows // ties
        v = last if last is not None and last.shape == (ties * n, act) and c.rng.random() < 0.7 else c.rng.normal(size=(ties * n, act))
        last = v
        how.append((ties, n, factor))
        geo = c.rng.random() < 0.4
        if geo:
            got = c.call("vii positions", tie_points_geo_interpolation, as_array(c, v, dims), as_array(c, v * 0.5, dims), ties, factor)
        else:
            got = c.call("vii data", tie_points_interpolation, [as_array(c, v, dims), as_array(c, v * 0.5, dims)], ties, factor)
        want = refs.vii(v, ties, factor)
        for r, k in zip(got, (1, 0.5)):
            c.ensure(r.shape == want.shape, "shape %s instead of %s" % (r.shape, want.shape))
            c.within(np.abs(r.values - k * want), 1e-13, "granules alike")
        c.seen("granules alike")
    c.note(granules=str(how), act=act)
