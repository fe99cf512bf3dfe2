"""C03: interpolation reproduces the tie points."""
import numpy as np
import xarray as xr

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, interp, legacy
from vlib.core import group


def with_extra(c, p, unit):
    """The tie positions with others in between; returns the positions and where the ties are among them."""
    p = np.asarray(p)
    if c.rng.random() < 0.25:
        return p.copy(), np.arange(len(p))
    if p.dtype.kind == "i" and c.rng.random() < 0.6:
        q = np.arange(p[0], p[-1] + 1)
        return q, np.searchsorted(q, p)
    extra = c.rng.uniform(float(p[0]), float(p[-1]), int(c.rng.integers(1, 20)))
    q = np.unique(np.concatenate([p.astype(float), extra]))
    return q, np.searchsorted(q, p)


def smooth_or_not(c, shape):
    kind = c.pick(["noise", "noise", "smooth", "steps", "tiny", "offset"])
    d = c.rng.normal(size=shape)
    if kind == "smooth":
        d = np.cos(np.arange(shape[0]) / 3.0)[:, None] * np.sin(np.arange(shape[1]) / 4.0)[None, :]
    elif kind == "steps":
        d = np.sign(d)
    elif kind == "tiny":
        d = d * 1e-9
    elif kind == "offset":
        d = d + 1e5
    return d


def spline_tolerance(dtype, k, scale):
    return scale * (1e-9 if np.dtype(dtype) == np.float64 else 1e-5) * (1 if k < 4 else 30)


@group(quick=300, thorough=6000)
def generic_spline(c):
    kx, ky = int(c.rng.integers(1, 6)), int(c.rng.integers(1, 6))
    rows, ru = interp.tie_positions(c, int(c.rng.integers(kx + 1, kx + 10)), ratio=5)
    cols, cu = interp.tie_positions(c, int(c.rng.integers(ky + 1, ky + 10)), ratio=5)
    frows, ri = with_extra(c, rows, ru)
    fcols, ci = with_extra(c, cols, cu)
    n = int(c.rng.integers(1, 4))
    data = [smooth_or_not(c, (len(rows), len(cols))) for _ in range(n)]
    if c.rng.random() < 0.2:
        dtype = c.pick([np.uint8, np.int16, np.int32, np.uint32, np.int64])
        top = min(np.iinfo(dtype).max, 2 ** 45)
        data = [c.rng.integers(top // 2 if c.rng.random() < 0.5 else 0, top, d.shape, endpoint=True).astype(dtype) for d in data]
        c.seen("tie points of integers looked at (Interpolator)", data[0].size)
    c.note(kx=kx, ky=ky, units=[ru, cu], same_rows=bool(len(frows) == len(rows)))
    it = interp.generic(c, data if n > 1 or c.rng.random() < 0.5 else data[0], (rows, cols), (frows, fcols), kx, ky)
    for got, d in zip(c.call("Interpolator.interpolate", it.interpolate), data):
        got = np.asarray(got)
        c.ensure(got.shape == (len(frows), len(fcols)), "shape %s" % (got.shape,))
        d = d.astype(np.float64)
        c.within(np.abs(got[np.ix_(ri, ci)] - d), spline_tolerance(np.float64, max(kx, ky), np.abs(d).max()), "generic spline at tie points")
        c.seen("tie points looked at", d.size)


@group(quick=400, thorough=8000)
def grid_and_spline(c):
    kind = c.pick(["grid", "spline"])
    dtype = c.pick([np.float64, np.float64, np.float32, np.float64, np.float64, np.float32, np.int16, np.uint8, np.int64])
    kw, k = {}, 1
    if kind == "spline":
        k = 3
        if c.rng.random() < 0.6:
            kw = dict(kx=int(c.rng.integers(1, 5)), ky=int(c.rng.integers(1, 5)))
            k = max(kw.values())
    else:
        method = c.pick([None, None, "linear", "nearest", "cubic"])
        if method:
            kw = dict(method=method)
        k = 3 if method == "cubic" else 1
    rows, ru = interp.tie_positions(c, interp.count(c, k + 2, k + 9), ratio=5)
    cols, cu = interp.tie_positions(c, interp.count(c, k + 2, k + 9), ratio=5)
    frows, ri = with_extra(c, rows, ru)
    fcols, ci = with_extra(c, cols, cu)
    n = int(c.rng.integers(1, 4))
    data = [smooth_or_not(c, (len(rows), len(cols))).astype(dtype) for _ in range(n)]
    if np.issubdtype(dtype, np.integer):
        top = min(np.iinfo(dtype).max, 30000)
        data = [c.rng.integers(0, top, (len(rows), len(cols)), endpoint=True).astype(dtype) for _ in range(n)]
    lazy = c.rng.random() < 0.35
    ckw = dict(chunks=interp.random_chunks(c, (len(frows), len(fcols)))) if lazy else {}
    c.note(kind=kind, lazy=bool(lazy), dtype=dtype.__name__, arrays=n, units=[ru, cu], options=str(kw))
    if n == 1:
        it = interp.single(c, kind, (rows, cols), data[0], **kw)
        res = [c.call("Single%s.interpolate" % kind.title(), it.interpolate, (frows, fcols), **ckw)]
    else:
        it = interp.multiple(c, kind, (rows, cols), *data, **kw)
        res = list(c.call("Multiple%s.interpolate" % kind.title(), it.interpolate, (frows, fcols), **ckw))
    c.ensure(len(res) == n, "%d results for %d arrays" % (len(res), n))
    for got, d in zip(res, data):
        got = np.asarray(got)
        if np.issubdtype(dtype, np.integer):
            tol = 0 if k < 3 or kind == "spline" else 9 + 3e-4 * float(np.abs(d).max())
            c.within(np.abs(got[np.ix_(ri, ci)].astype(float) - d), tol, "%s (%s) at tie points" % (kind, dtype.__name__))
            c.seen("tie points of integers looked at", d.size)
            continue
        tol = spline_tolerance(dtype, k, np.abs(d).max())
        if kind == "grid" and k == 3:      # scipy solves for these splines iteratively, to 1e-5
            tol = 3e-4 * np.abs(d).max() + 1e-5
        c.within(np.abs(got[np.ix_(ri, ci)].astype(float) - d), tol, "%s (%s) at tie points" % (kind, dtype.__name__))
        c.seen("tie points looked at", d.size)
        c.seen("lazy" if lazy else "eager")


@group(quick=24, thorough=300)
def many_ties(c):
    """Tens of thousands of tie points."""
    kind = ["grid", "spline", "generic", "generic 1d", "geo grid", "geo spline", "multilinear", "vii data"][c.k % 8]
    shape = int(c.rng.integers(90, 300)), int(c.rng.integers(90, 300))
    if kind == "vii data":
        shape = 90 * int(c.rng.integers(2, 4)), shape[1]
    rows, cols = (np.cumsum(c.rng.integers(1, 4, n)) for n in shape)
    fine = rows.copy(), cols.copy()
    if kind != "generic 1d" and c.rng.random() < 0.4:
        fine = [np.unique(np.append(t, c.rng.uniform(t[0], t[-1], 5))) for t in fine]
    at = np.ix_(np.searchsorted(fine[0], rows), np.searchsorted(fine[1], cols))
    lazy = dict(chunks=int(c.rng.integers(50, 400))) if c.rng.random() < 0.3 and not kind.startswith("gen") else {}
    c.note(kind=kind, shape=list(shape), lazy=bool(lazy))
    c.seen("grids of many tie points: " + kind)
    if kind.startswith("geo"):
        lon, lat = gen.wiggly_positions(c.rng, shape, 5.0)
        it = c.call(kind, GeoGridInterpolator if "grid" in kind else GeoSplineInterpolator, (rows, cols), lon, lat)
        glon, glat = (np.asarray(a) for a in c.call(kind + " interpolate", it.interpolate, fine, **lazy))
        c.within(gen.dist_m(glon[at], glat[at], lon, lat), 1e-2, "%s at many tie points, metres" % kind)
        return
    data = [smooth_or_not(c, shape) for _ in range(int(c.rng.integers(1, 3)))]
    if kind == "multilinear":
        it = c.call("MultilinearInterpolator", MultilinearInterpolator, [0.0, 0.0], [1.0, 1.0], shape, np.array([d.ravel() for d in data]))
        res = [r.reshape(shape) for r in c.call("multilinear interpolate", it.interpolate, it.grid)]
        at = np.ix_(range(shape[0]), range(shape[1]))
    elif kind == "vii data":
        res = c.call("vii data", tie_points_interpolation, [xr.DataArray(d, dims=("y", "x")) for d in data], 90, 2)
        res = [np.asarray(r)[:, ::2] for r in res]
        keep = np.arange(shape[0]) % 90 != 89
        data = [d[keep, :-1] for d in data]
        at = np.ix_(np.arange(0, 2 * keep.sum(), 2), range(shape[1] - 1))
    elif kind.startswith("generic"):
        it = interp.generic(c, data, (rows, cols), fine, 1 if c.rng.random() < 0.5 else 3, int(c.pick([1, 3])))
        res = c.call("Interpolator.interpolate", it.interpolate)
    else:
        it = interp.multiple(c, kind, (rows, cols), *data)
        res = list(c.call("Multiple%s.interpolate" % kind.title(), it.interpolate, fine, **lazy))
    for got, d in zip(res, data):
        c.within(np.abs(np.asarray(got)[at] - d), spline_tolerance(np.float64, 3, np.abs(d).max()), "%s at many tie points" % kind)
        c.seen("tie points looked at", d.size)


@group(quick=250, thorough=5000)
def geographical(c):
    kind = c.pick(["grid", "spline", "interpolator"])
    shape = (int(c.rng.integers(5, 12)), int(c.rng.integers(5, 12)))
    rows, cols = np.cumsum(c.rng.integers(1, 5, shape[0])), np.cumsum(c.rng.integers(1, 5, shape[1]))
    lon, lat = gen.wiggly_positions(c.rng, shape, float(c.pick([1.0, 20.0, 200.0])))
    if c.rng.random() < 0.2:
        lon = np.mod(lon, 360)
    frows, ri = with_extra(c, rows, 1.0)
    fcols, ci = with_extra(c, cols, 1.0)
    kx, ky = (int(v) for v in c.rng.integers(1, 4, 2))
    c.note(kind=kind, shape=list(shape), kx=kx, ky=ky)
    data = (lon, lat)
    if c.rng.random() < 0.2 and np.abs(lon).max() <= 180:
        from pyresample.geometry import SwathDefinition
        data = (SwathDefinition(lons=lon, lats=lat),)
    if kind == "interpolator":
        it = c.call("GeoInterpolator", GeoInterpolator, data if len(data) == 2 else data[0], (rows, cols), (frows, fcols), kx, ky)
        if c.rng.random() < 0.5:
            c.call("fill_borders", it.fill_borders, "x", "y")
        res = c.call("GeoInterpolator.interpolate", it.interpolate)
    else:
        if kind == "grid":
            it = c.call("GeoGridInterpolator", GeoGridInterpolator, (rows, cols), *data)
        else:
            it = c.call("GeoSplineInterpolator", GeoSplineInterpolator, (rows, cols), *data, kx=kx, ky=ky)
        kw = dict(chunks=interp.random_chunks(c, (len(frows), len(fcols)))) if c.rng.random() < 0.3 else {}
        res = c.call("Geo%s.interpolate" % kind.title(), it.interpolate, (frows, fcols), **kw)
    glon, glat = (np.asarray(r)[np.ix_(ri, ci)] for r in res)
    c.within(gen.dist_m(glon, glat, lon, lat), 1e-3, "geo %s: metres from the tie points" % kind)
    c.seen("tie points looked at", lon.size)


@group(quick=200, thorough=4000)
def multilinear(c):
    d = int(c.rng.integers(1, 5))
    orders = [int(n) for n in c.rng.integers(2, {1: 60, 2: 20, 3: 9, 4: 6}[d], d)]
    dtype = c.pick([np.float64, np.float64, np.float32])
    scale = 10.0 ** c.rng.integers(-2, 4)
    smin = c.rng.uniform(-1, 1, d) * scale
    smax = smin + c.rng.uniform(0.5, 2, d) * scale
    it = c.call("MultilinearInterpolator", MultilinearInterpolator, smin, smax, orders, dtype=dtype)
    grid = it.grid
    n = int(c.rng.integers(1, 4))
    v = c.rng.normal(size=(n, grid.shape[1])).astype(dtype)
    c.call("set_values", it.set_values, v)
    c.note(orders=str(orders), dtype=dtype.__name__, functions=n)
    pts = grid
    sel = np.arange(grid.shape[1])
    if c.rng.random() < 0.5:
        sel = c.rng.permutation(sel)
        pts = np.ascontiguousarray(grid[:, sel])
    got = np.asarray(c.call("multilinear interpolate", it.interpolate if c.rng.random() < 0.5 else it, pts))
    c.within(np.abs(got - v[:, sel]), np.finfo(dtype).eps * 400 * d * max(orders) * np.abs(v).max(), "multilinear at grid points (%s)" % dtype.__name__)
    c.seen("tie points looked at", v.size)


@group(quick=60, thorough=1000)
def basic(c):
    rows, cols = (np.concatenate([[0], np.cumsum(c.rng.integers(1, 9, int(c.rng.integers(1, 9))))]) for _ in range(2))
    lat, lon = c.rng.uniform(-90, 90, (len(rows), len(cols))), c.rng.uniform(-180, 180, (len(rows), len(cols)))
    it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, cols, rows, lat, lon)
    glat, glon = c.call("basic interpolate", it.interpolate)
    for got, tie in ((glat, lat), (glon, lon)):
        c.within(np.abs(np.asarray(got)[np.ix_(rows, cols)] - tie), 1e-11, "pandas-based interpolator at tie points")
        c.seen("tie points looked at", tie.size)


@group(quick=150, thorough=2500)
def vii(c):
    ties, nscans, factor, act = int(c.rng.integers(2, 7)), int(c.rng.integers(1, 4)), int(c.pick([1, 2, 4, 8])), int(c.rng.integers(2, 12))
    shape = (ties * nscans, act)
    c.note(ties=ties, scans=nscans, factor=factor, act=act)
    trow = np.concatenate([s * ties + np.arange(ties - 1) for s in range(nscans)])
    tcol = np.arange(act - 1)
    prow, pcol = np.arange(len(trow)) * factor, tcol * factor
    d = c.rng.normal(size=shape) * 1000
    res, = c.call("vii data", tie_points_interpolation, [xr.DataArray(d, dims=("y", "x"))], ties, factor)
    c.within(np.abs(res.values[np.ix_(prow, pcol)] - d[np.ix_(trow, tcol)]), 1e-9, "vii data at tie points")
    lon, lat = gen.wiggly_positions(c.rng, shape, 8.0)
    glon, glat = c.call("vii positions", tie_points_geo_interpolation, xr.DataArray(lon, dims=("y", "x")),
                        xr.DataArray(lat, dims=("y", "x")), ties, factor)
    a = np.ix_(prow, pcol)
    b = np.ix_(trow, tcol)
    c.within(gen.dist_m(glon.values[a], glat.values[a], lon[b], lat[b]), 1e-3, "vii: metres from the tie points")
    c.seen("tie points looked at", 2 * len(trow) * len(tcol))


@group(quick=48, thorough=800)
def fixed_geometry(c):
    what = c.pick(["metop20kmto1km", "modis5kmto1km", "generic_modis5kmto1km", "zenith-angle", "zenith-angle"])
    n = int(c.rng.integers(1, 5))
    c.note(what=what, n=n)
    if what == "metop20kmto1km":
        shape, ri, ci = (n, 104), np.arange(n), legacy.METOP_COLS
    else:
        shape, ci = (2 * n, 271), np.arange(2, 1354, 5)
        ri = np.arange(2 * n) * 5 + 2
    if what == "metop20kmto1km":
        lon, lat, _, _ = legacy.metop(gen.frame(*gen.random_frame(c.rng)), n)
        got = c.call(what, legacy.HELPERS[what][0], lon, lat)
    elif what == "modis5kmto1km":
        lon, lat, _, _ = legacy.simulate(what, gen.frame(*gen.random_frame(c.rng)), n)
        got = c.call(what, legacy.HELPERS[what][0], lon, lat)
    elif what == "generic_modis5kmto1km":
        d = [c.rng.normal(size=shape) for _ in range(2)]
        res = c.call(what, legacy.generic, *d)
        for g, t in zip(res, d):
            c.within(np.abs(g[np.ix_(ri, ci)] - t), 1e-9, "generic data at tie points")
        return
    else:
        width = int(c.pick([270, 271]))
        dtype = c.pick([np.float64, np.float32])
        lon, lat, satz = (a.astype(dtype) for a in gen.modis_input(c.rng, 5000, n, width))
        got = api.angle(c, 5000, 1000, lon, lat, satz)
        ci = ci[:width]
        g = [np.asarray(v)[np.ix_(ri, ci)] for v in got]
        c.within(gen.dist_m(g[0], g[1], lon, lat), 0.01 if dtype is np.float64 else 4.0, "zenith-angle 5km to 1km (%s): metres from the tie points" % dtype.__name__)
        c.seen("tie points looked at", lon.size)
        return
    g = [np.asarray(v)[np.ix_(ri, ci)] for v in got]
    c.within(gen.dist_m(g[0], g[1], lon, lat), 1e-3, what + ": metres from the tie points")
    c.seen("tie points looked at", lon.size)
