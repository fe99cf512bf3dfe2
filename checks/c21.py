"""C21: results have the documented shape and the dtype of the input."""
import dask
import dask.array as da
import numpy as np
import xarray as xr

import geotiepoints
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator, lonlat2xyz, xyz2lonlat
from geotiepoints.interpolator import Interpolator
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, interp, legacy
from vlib.core import group

CONFIGS = [("angle",) + cfg for cfg in api.ANGLE_CONFIGS] + [("simple", 1000, 250, 0), ("simple", 1000, 500, 0), ("simple", 500, 250, 0)]


def check(c, a, shape, dtype, what):
    c.ensure(tuple(a.shape) == tuple(shape), "%s: shape %s instead of %s" % (what, a.shape, tuple(shape)))
    if dtype is not None:
        c.ensure(a.dtype == np.dtype(dtype), "%s: dtype %s instead of %s" % (what, a.dtype, np.dtype(dtype)))


def order(c, res, lon, lat, what):
    """Longitude first: the middle of the result is where the middle of the tie points is."""
    i, j = lon.shape[0] // 2, lon.shape[1] // 2
    glon, glat = (np.asarray(r, dtype=float) for r in res)
    d = gen.dist_m(glon, glat, float(lon[i, j]), float(lat[i, j])).min()
    c.ensure(d < 60e3, "%s: nothing near the middle tie point (%.0f km): longitude and latitude swapped?" % (what, d / 1e3))


@group(quick=160, thorough=3000)
def modis(c):
    kind, coarse, fine, width = CONFIGS[c.k % len(CONFIGS)]
    width = width or int(c.pick([2, 3, 50, 271, 1354, 777]))
    dtype = c.pick([np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    nscans = int(c.rng.integers(1, 5))
    arrs = [gen.wiggly_positions(c.rng, (rps * nscans, width), coarse / 1000.0, (c.rng.uniform(100, 170), c.rng.uniform(-50, 50), 0.0))]
    arrs = [a.astype(dtype) for a in arrs[0]] + [gen.random_zenith(c.rng, (rps * nscans, width), coarse).astype(dtype)]
    if kind == "simple":
        arrs = arrs[:2]
    container = c.pick(["numpy", "dask", "dataarray", "lazy dataarray"])
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, scans=nscans, dtype=dtype.__name__, container=container)
    given = arrs
    if "dask" in container or "lazy" in container:
        given = [da.from_array(a, chunks=(rps, -1)) for a in given]
    if "dataarray" in container:
        given = [xr.DataArray(a, dims=("y", "x")) for a in given]
    run = (lambda *a: api.angle(c, coarse, fine, *a)) if kind == "angle" else (lambda *a: api.simple(c, coarse, fine, *a))
    res = run(*given)
    shape = api.fine_shape(coarse, fine, arrs[0].shape, kind)
    what = "%s %s" % (api.label(kind, coarse, fine), container)
    c.ensure(len(res) == 2, "%s: %d results" % (what, len(res)))
    for r in res:
        check(c, r, shape, dtype, what + " (declared)")
    res = dask.compute(*[getattr(r, "data", r) if container != "numpy" else r for r in res]) if container != "numpy" else res
    for r in res:
        c.ensure(type(r) is np.ndarray, "%s: a %s" % (what, type(r).__name__))
        check(c, r, shape, dtype, what)
    order(c, res, arrs[0], arrs[1], what)
    c.seen("modis " + container)


@group(quick=250, thorough=5000)
def grid_and_spline(c):
    kind, flavour = c.pick(["grid", "spline"]), c.pick(["single", "multiple", "geo"])
    dtype = c.pick([np.float64, np.float32])
    if flavour != "geo" and c.rng.random() < 0.3:
        dtype = c.pick([np.float16, np.int16, np.int32, np.uint8, np.int64])
    rows, ru = interp.tie_positions(c, int(c.rng.integers(5, 12)))
    cols, cu = interp.tie_positions(c, int(c.rng.integers(5, 12)))
    fine = interp.inside(c, rows, ru), interp.inside(c, cols, cu)
    shape = len(fine[0]), len(fine[1])
    n = {"single": 1, "geo": 2}.get(flavour) or int(c.rng.integers(1, 5))
    if flavour == "geo":
        data = [a.astype(dtype) for a in gen.wiggly_positions(c.rng, (len(rows), len(cols)), 5.0, (c.rng.uniform(100, 170), c.rng.uniform(-50, 50), 0.0))]
        it = c.call("Geo" + kind.title(), GeoGridInterpolator if kind == "grid" else GeoSplineInterpolator, (rows, cols), *data)
    else:
        data = [c.rng.uniform(0, 100, size=(len(rows), len(cols))).astype(dtype) for _ in range(n)]
        if c.rng.random() < 0.2:
            data = [d.astype(d.dtype.newbyteorder(">")) for d in data]
            c.seen("values in the other byte order")
        it = (interp.single if flavour == "single" else interp.multiple)(c, kind, (rows, cols), *data)
    lazy = c.rng.random() < 0.4
    chunks = interp.random_chunks(c, shape)
    c.note(kind=kind, flavour=flavour, dtype=dtype.__name__, lazy=bool(lazy), shape=list(shape))
    res = c.call("%s %s" % (flavour, kind), it.interpolate, fine, **(dict(chunks=chunks) if lazy else {}))
    res = [res] if flavour == "single" else list(res)
    c.ensure(len(res) == n, "%d results instead of %d" % (len(res), n))
    for r in res:
        # of integers: only that the declared dtype is the computed one
        # in which byte order is not promised, only that it is declared
        want = dtype if np.issubdtype(dtype, np.floating) else r.dtype.newbyteorder("=")
        c.ensure(r.dtype.newbyteorder("=") == np.dtype(want), "%s %s: dtype %s instead of %s" % (flavour, kind, r.dtype, np.dtype(want)))
        check(c, r, shape, None, "%s %s %s" % (flavour, kind, "declared" if lazy else "eager"))
        if lazy:
            check(c, r.compute(), shape, r.dtype, "%s %s computed, and declared" % (flavour, kind))
            c.seen("lazy")


@group(quick=120, thorough=2500)
def generic(c):
    kx, ky = int(c.rng.integers(1, 4)), int(c.rng.integers(1, 4))
    rows, ru = interp.tie_positions(c, int(c.rng.integers(kx + 1, 9)))
    cols, cu = interp.tie_positions(c, int(c.rng.integers(ky + 1, 9)))
    same = c.rng.random() < 0.3
    fine = rows.copy() if same else interp.inside(c, rows, ru), interp.inside(c, cols, cu)
    n = int(c.rng.integers(1, 4))
    dtype = c.pick([np.float64, np.float32, np.int64, np.uint8, np.int16])
    data = [(c.rng.uniform(0, 200, size=(len(rows), len(cols)))).astype(dtype) for _ in range(n)]
    c.note(arrays=n, dtype=dtype.__name__, same_rows=bool(same))
    it = c.call("Interpolator", Interpolator, data, (rows, cols), fine, kx, ky)
    res = c.call("Interpolator.interpolate", it.interpolate)
    c.ensure(len(res) == n, "%d results instead of %d" % (len(res), n))
    for r, d in zip(res, data):
        check(c, r, (len(fine[0]), len(fine[1])), None, "generic spline")
        c.ensure(r.dtype.kind == "f", "generic spline of %s: dtype %s is not floating point" % (d.dtype, r.dtype))
    lon, lat = gen.wiggly_positions(c.rng, (len(rows), len(cols)), 5.0, (c.rng.uniform(100, 170), c.rng.uniform(-50, 50), 0.0))
    it = c.call("GeoInterpolator", GeoInterpolator, (lon, lat), (rows, cols), fine, kx, ky)
    res = c.call("GeoInterpolator.interpolate", it.interpolate)
    c.ensure(len(res) == 2, "%d results instead of longitude and latitude" % len(res))
    for r in res:
        check(c, r, (len(fine[0]), len(fine[1])), np.float64, "geo interpolator")
    order_at = np.asarray(res[0], float), np.asarray(res[1], float)
    c.ensure(bool((order_at[0] > 80).any()) and bool((np.abs(order_at[1]) < 80).all()), "geo interpolator: longitude is not first")


@group(quick=100, thorough=2000)
def multilinear(c):
    d = int(c.rng.integers(1, 5))
    orders = [int(v) for v in c.rng.integers(2, 6, d)]
    dtype = c.pick([np.float64, np.float32])
    n, m = int(c.rng.integers(1, 6)), int(c.pick([1, 2, 7, 100, 0]))
    spelled = c.pick([dtype, dtype, np.dtype(dtype), np.dtype(dtype).name, np.dtype(dtype).char, np.zeros(1, dtype).dtype]
                     + [float] * (dtype is np.float64))
    it = c.call("MultilinearInterpolator", MultilinearInterpolator, [0.0] * d, [1.0] * d, orders, dtype=spelled)
    v = c.rng.normal(size=(n, int(np.prod(orders))))
    c.call("set_values", it.set_values, v.astype(dtype))
    s = c.rng.uniform(0, 1, (d, m)).astype(dtype)
    c.note(orders=str(orders), functions=n, points=m, dtype=dtype.__name__, spelled=repr(spelled))
    r = c.call("multilinear interpolate", it.interpolate, s)
    check(c, r, (n, m), dtype, "multilinear")
    check(c, it.grid, (d, int(np.prod(orders))), None, "multilinear grid")


@group(quick=60, thorough=1000)
def vii_and_basic(c):
    ties, nscans, factor, act = int(c.rng.integers(2, 7)), int(c.rng.integers(1, 4)), int(c.pick([1, 2, 4, 8])), int(c.rng.integers(2, 9))
    dtype = c.pick([np.float64, np.float32])
    lon, lat = (a.astype(dtype) for a in gen.wiggly_positions(c.rng, (ties * nscans, act), 8.0, (c.rng.uniform(100, 170), c.rng.uniform(-50, 50), 0.0)))
    want = (nscans * (ties - 1) * factor, (act - 1) * factor)
    c.note(ties=ties, scans=nscans, factor=factor, act=act, dtype=dtype.__name__)
    a, b = (xr.DataArray(v, dims=("alt", "act")) for v in (lon, lat))
    for res, what in ((c.call("vii data", tie_points_interpolation, [a, b], ties, factor), "vii data"),
                      (c.call("vii positions", tie_points_geo_interpolation, a, b, ties, factor), "vii positions")):
        c.ensure(len(res) == 2, "%s: %d results" % (what, len(res)))
        for r in res:
            check(c, r, want, None, what)
            c.ensure(r.dtype.kind == "f", "%s: dtype %s" % (what, r.dtype))
        order(c, res, lon, lat, what)
    rows, cols = (np.concatenate([[0], np.cumsum(c.rng.integers(1, 9, int(c.rng.integers(1, 9))))]) for _ in range(2))
    blat, blon = c.rng.uniform(-90, 90, (len(rows), len(cols))), c.rng.uniform(100, 180, (len(rows), len(cols)))
    it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, cols, rows, blat, blon)
    res = [np.asarray(r) for r in c.call("basic interpolate", it.interpolate)]
    for r in res:
        check(c, r, (rows[-1] + 1, cols[-1] + 1), None, "pandas-based interpolator")
    c.ensure(bool((res[0] <= 90).all() and (res[1] >= 99.9).all()), "pandas-based interpolator: latitude is not first")


@group(quick=24, thorough=300)
def helpers(c):
    name = sorted(legacy.HELPERS)[c.k % 4]
    n = int(c.rng.integers(1, 5)) + (1 if name.startswith("metop") else 0)
    lon, lat, tlon, _ = legacy.simulate(name, gen.frame(c.rng.uniform(110, 160), c.rng.uniform(-50, 50), 10.0), n)
    res = c.call(name, legacy.HELPERS[name][0], lon, lat)
    c.note(helper=name, n=n)
    want = {"metop20kmto1km": (n, 2048), "modis5kmto1km": (10 * n, 1354), "modis1kmto500m": (20 * n, 2708), "modis1kmto250m": (40 * n, 5416)}[name]
    for r in res:
        check(c, r, want, np.float64, name)
    order(c, res, lon, lat, name)
    if name == "modis5kmto1km":
        d = [c.rng.normal(size=(2 * n, 271)) for _ in range(int(c.rng.integers(1, 4)))]
        g = c.call("generic_modis5kmto1km", legacy.generic, *d)
        c.ensure(len(g) == len(d), "%d results" % len(g))
        for r in g:
            check(c, r, want, np.float64, "generic_modis5kmto1km")


@group(quick=120, thorough=2000)
def nothing(c):
    """Where nothing is asked for, nothing comes, in the documented shape: empty requests, no positions."""
    what = c.pick(["grid", "spline", "geo grid", "geo spline", "to shape", "Interpolator", "conversion"])
    rng, dtype = c.rng, c.pick([np.float64, np.float32])
    c.note(what=what, dtype=dtype.__name__)
    rows, ru = interp.tie_positions(c, int(rng.integers(5, 9)))
    cols, cu = interp.tie_positions(c, int(rng.integers(5, 9)))
    shape = len(rows), len(cols)
    fine = [interp.inside(c, rows, ru), interp.inside(c, cols, cu)]
    for i in ([0], [1], [0, 1])[int(rng.integers(3))]:
        fine[i] = fine[i][:0]
    want = len(fine[0]), len(fine[1])
    if what == "conversion":
        for fn in (lonlat2xyz, xyz2lonlat):
            given = [np.zeros(want, dtype) for _ in range(2 if fn is lonlat2xyz else 3)]
            for r in c.call(fn.__name__, fn, *given):
                check(c, r, want, dtype, fn.__name__ + " of nothing")
        c.seen("conversions of nothing")
        return
    lon, lat = (a.astype(dtype) for a in gen.wiggly_positions(rng, shape, 5.0))
    if what == "Interpolator":
        for cls, data in ((Interpolator, [lat]), (GeoInterpolator, (lon, lat))):
            it = c.call(cls.__name__, cls, data, (rows, cols), tuple(fine), int(rng.integers(1, 4)), int(rng.integers(1, 4)))
            for r in c.call(cls.__name__ + ".interpolate", it.interpolate):
                check(c, r, want, None, cls.__name__ + " at no positions")
                c.ensure(r.dtype.kind == "f", "%s at no positions: dtype %s" % (cls.__name__, r.dtype))
        c.seen("Interpolators at no positions")
        return
    kind = "grid" if what == "to shape" and rng.random() < 0.5 or "grid" in what else "spline"
    if what.startswith("geo"):
        it = c.call(what, GeoGridInterpolator if kind == "grid" else GeoSplineInterpolator, (rows, cols), lon, lat)
    else:
        it = interp.multiple(c, kind, (rows, cols), lat, lon)
    if what == "to shape":
        if rows[0] != 0 or cols[0] != 0:
            it = interp.multiple(c, kind, (np.arange(len(rows)), np.arange(len(cols))), lat, lon)
        want = tuple(0 if len(f) == 0 else int(rng.integers(1, 5)) for f in fine)
        run = lambda **kw: list(c.call("interpolate_to_shape", it.interpolate_to_shape, want, **kw))     # noqa: E731
    else:
        run = lambda **kw: list(c.call(what, it.interpolate, tuple(fine), **kw))     # noqa: E731
    for kw in ({}, dict(chunks=int(c.pick([1, 3, 100])))):
        for r in run(**kw):
            check(c, r, want, dtype, "%s at no positions %s" % (what, kw))
            check(c, np.asarray(r), want, dtype, "%s at no positions (computed)" % what)
    c.seen("interpolation at no positions")
