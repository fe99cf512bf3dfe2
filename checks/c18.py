"""C18: malformed input is rejected with an exception (at the latest when a lazy result is computed)."""
import warnings

import dask
import dask.array as da
import numpy as np
import xarray as xr

import geotiepoints
from geotiepoints import modisinterpolator, simple_modis_interpolator
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator, generic_modis5kmto1km)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen
from vlib.core import Violation, group

CONTAINERS = ["numpy", "dask", "DataArray", "lazy DataArray"]


def rejected(c, label, why, fn, *args, **kw):
    """The call has to raise, or what it returns lazily has to when computed."""
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fn(*args, **kw)
            seq = list(res) if isinstance(res, (tuple, list)) or hasattr(res, "__next__") else [res]
            return [np.asarray(r) for r in dask.compute(*seq)]
    res, exc = c.attempt(label, go)
    c.ensure(exc is not None, "%s: %s: no exception, but results of shape %s" % (label, why, [r.shape for r in res or []]))
    c.seen("rejected: " + why)
    c.seen("rejected with " + type(exc).__name__)


def boxed(c, arrs, how, rps=None):
    if "azy" in how or how == "dask":
        layout = []
        for a in arrs:
            same = not layout or c.rng.random() < 0.3 or a.ndim != 2
            rows = layout[0] if layout and same else int(c.pick([rps or 1, 2 * (rps or 1), 1, 3, 10 ** 6]))
            layout.append(rows)
        arrs = [da.from_array(a, chunks=(r,) + (-1,) * (a.ndim - 1) if a.ndim else -1, name=False) for a, r in zip(arrs, layout)]
    if "Data" in how:
        dims = ("y", "x", "z", "w")
        arrs = [xr.DataArray(a, dims=dims[:a.ndim]) for a in arrs]
    return arrs


def other_shape(rng, shape):
    """A shape that differs from *shape* in an interesting way."""
    n, m = shape
    while True:
        s = [(n, m + int(rng.integers(-2, 3))), (n + int(rng.integers(-2, 3)), m), (n // 2, m), (n * 2, m), (n, m // 2), (m, n), (1, m), (n, 1),
             (n - n // 2 if n % 2 else n // 2, m * 2)][int(rng.integers(9))]
        if s != shape and min(s) > 0:
            return s


@group(quick=320, thorough=8000)
def modis(c):
    rng = c.rng
    kind = c.pick(["zenith-angle", "lon/lat only"])
    if kind == "zenith-angle":
        coarse, fine, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
        fn = api.ANGLE[coarse, fine]
    else:
        coarse, fine = c.pick([(1000, 500), (1000, 250)])
        width = int(c.pick([1354, 271, 7, 40]))
        fn = api.SIMPLE[coarse, fine]
    rps = api.rows_per_scan(coarse)
    nscans = int(rng.integers(1, 4))
    dtype = c.pick([np.float64, np.float32])
    arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, nscans, width)][:2 if kind != "zenith-angle" else 3]
    n = int(rng.integers(len(arrs)))
    why = c.pick(["partial scans", "different shapes", "different shapes", "different numbers of scans", "dimensions", "all dimensions",
                  "dtype", "one dtype", "width"])
    what = None
    if why == "partial scans":
        rows = rps * nscans - int(rng.integers(1, rps))
        arrs = [a[:rows] for a in arrs]
    elif why == "different shapes":
        shape = other_shape(rng, arrs[0].shape)
        arrs[n] = np.resize(arrs[n], shape)
    elif why == "different numbers of scans":
        more = int(c.pick([k for k in (1, 2, 3, 4) if k != nscans]))
        arrs[n] = np.resize(arrs[n], (rps * more, width))
    elif why == "dimensions":
        arrs[n] = c.pick([arrs[n].ravel(), arrs[n][None], arrs[n][..., None], arrs[n][0], arrs[n][0, 0]])
        arrs[n] = np.asarray(arrs[n])
    elif why == "all dimensions":
        form = c.pick(["ravel", "front", "back"])
        arrs = [a.ravel() if form == "ravel" else a[None] if form == "front" else a[..., None] for a in arrs]
    elif why in ("dtype", "one dtype"):
        what = c.pick([np.int64, np.int32, np.uint8, np.complex128, np.float16, np.longdouble, "M8[s]", object, np.bool_])
        with np.errstate(all="ignore"):
            if why == "dtype":
                arrs = [(a * (1 + 0j) if what is np.complex128 else a).astype(what) for a in arrs]
            else:
                what = c.pick([what, np.float32 if dtype == np.float64 else np.float64])
                arrs[n] = arrs[n].astype(what)
    elif why == "width":
        if kind == "zenith-angle":
            new = int(c.pick([w for w in (1, 2, 100, 135, 268, 269, 270, 271, 272, 273, 542, 1353, 1354, 1355, 2708)
                              if w not in ((1354,) if coarse == 1000 else (270, 271))]))
        else:
            new = int(c.pick([0, 1]))
        arrs = [np.resize(a, (a.shape[0], new)) for a in arrs]
    how = c.pick(CONTAINERS)
    label = api.label(kind, coarse, fine)
    c.note(call=label, why=why, shapes=str([a.shape for a in arrs]), dtypes=str([str(a.dtype) for a in arrs]), container=how)
    rejected(c, label, why, fn, *boxed(c, arrs, how, rps))
    c.seen("malformed MODIS input as " + how)


@group(quick=60, thorough=1000)
def modis_resolutions(c):
    """Resolution pairs that the lon/lat only interpolation cannot handle, or missing ones."""
    if c.k % 2:
        return angle_resolutions(c)
    fn = simple_modis_interpolator.interpolate_geolocation_cartesian
    coarse, fine = c.pick([(5000, 1000), (5000, 500), (5000, 250), (5000, 2500), (1000, 1000), (1000, 2000), (1000, 125), (1000, 200), (1000, 333),
                           (2000, 1000), (1500, 500), (750, 375), (1000, 0), (100, 50), (1000, -500)])
    arrs = gen.modis_input(c.rng, 1000, 2, int(c.pick([271, 1354])))[:2]
    how = c.pick(CONTAINERS)
    kw = dict(coarse_resolution=coarse, fine_resolution=fine)
    if c.rng.random() < 0.2:
        kw.pop(c.pick(sorted(kw)))
    c.note(container=how, **kw)
    rejected(c, "lon/lat only", "resolution", fn, *boxed(c, arrs, how, 10), **kw)


def angle_resolutions(c):
    """The same for the zenith angle based interpolation, and scan widths other than the given one."""
    coarse, fine, width, given = c.pick([(2000, 1000, 1354, None), (500, 250, 2708, None), (5000, 2500, 271, 271), (1000, 125, 1354, None),
                                         (1000, 333, 1354, None), (10000, 1000, 136, None), (1000, 2000, 1354, None), (5000, 0, 271, 271),
                                         (5000, 1000, 100, 100), (5000, 500, 1354, 1354), (5000, 250, 269, 269), (5000, 1000, 270, None),
                                         (5000, 500, 271, 270), (5000, 250, 270, 271), (250, 250, 5416, None), (0, 1000, 271, None),
                                         (5000, 125, 271, None), (1000, 5000, 1354, None), (5000, 5000, 271, None), (0, 0, 271, 271)])
    arrs = gen.modis_input(c.rng, 1000, 2, width)
    how = c.pick(CONTAINERS)
    kw = dict(coarse_resolution=coarse, fine_resolution=fine, **({} if given is None else dict(coarse_scan_width=given)))
    if c.rng.random() < 0.2:
        kw.pop("fine_resolution")
    c.note(container=how, width=width, **kw)
    rejected(c, "zenith-angle", "resolution or width", modisinterpolator.interpolate, *boxed(c, arrs, how, 20), **kw)


@group(quick=60, thorough=1000)
def mixed_containers(c):
    """Arguments in different containers: rejected, or interpolated like any others."""
    kind = c.pick(["zenith-angle", "lon/lat only"])
    coarse, fine, width = (1000, 500, 1354) if kind != "zenith-angle" else c.pick(api.ANGLE_CONFIGS)
    arrs = gen.modis_input(c.rng, coarse, int(c.rng.integers(1, 4)), width)
    fn = api.ANGLE[coarse, fine]
    if kind != "zenith-angle":
        arrs, fn = arrs[:2], api.SIMPLE[coarse, fine]
    hows = [c.pick(CONTAINERS) for _ in arrs]
    given = [boxed(c, [a], h, api.rows_per_scan(coarse))[0] for a, h in zip(arrs, hows)]
    c.note(call=api.label(kind, coarse, fine), containers=str(hows))
    label = api.label(kind, coarse, fine)
    want = (api.angle if kind == "zenith-angle" else api.simple)(c, coarse, fine, *arrs)

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [np.asarray(r) for r in dask.compute(*fn(*given))]
    got, exc = c.attempt(label, go)
    if exc is not None:
        c.ensure(len(set(hows)) > 1, "%s raised %r for arguments that are all %s" % (label, exc, hows[0]))
        c.seen("mixed containers rejected")
        return
    c.ensure(len(got) == 2 and all(g.shape == w.shape for g, w in zip(got, want)), "%s of mixed containers: shapes %s" % (label, [g.shape for g in got]))
    c.within(gen.max_dist(got, want), 1e-3, "%s of mixed containers: metres" % kind)
    c.seen("mixed containers interpolated")


@group(quick=150, thorough=4000)
def multilinear(c):
    rng = c.rng
    d = int(rng.integers(1, 5))
    orders = [int(rng.integers(2, 7)) for _ in range(d)]
    n = int(np.prod(orders))
    smin, smax = rng.uniform(-2, 0, d), rng.uniform(1, 2, d)
    nv, ns = int(rng.integers(1, 4)), int(rng.integers(1, 30))
    nvals, dlo, dhi, ds = n, d, d, d
    why = c.pick(["number of values", "dimension of points", "dimension of bounds", "small order", "five dimensions", "ndim of values", "ndim of points", "dtype"])
    shape_v, shape_s = None, None
    dtype = np.float64
    if why == "number of values":
        nvals = int(c.pick([k for k in (n - 1, n + 1, n * 2, n // 2, 1, 0, n + orders[0]) if k != n and k >= 0]))
    elif why == "dimension of points":
        ds = int(c.pick([k for k in range(0, 7) if k != d]))
    elif why == "dimension of bounds":
        k = int(c.pick([k for k in range(0, 6) if k != d]))
        dlo, dhi = c.pick([(k, d), (d, k), (k, k)])
    elif why == "small order":
        orders[int(rng.integers(d))] = int(c.pick([1, 0, -1, -2]))
        nvals = int(c.pick([n, abs(int(np.prod(orders)))]))
    elif why == "five dimensions":
        d = ds = dlo = dhi = 5
        orders = [2] * 5
        nvals = 32
    elif why == "ndim of values":
        shape_v = c.pick([(nvals,), (1, 1, nvals), (nv, 1, nvals)])
    elif why == "ndim of points":
        shape_s = c.pick([(ns,), (d, ns, 1), ()])
    elif why == "dtype":
        dtype = c.pick([np.int64, np.complex128, np.float16, np.longdouble, object])
    vals = rng.normal(size=shape_v or (nv, nvals))
    pts = rng.uniform(-1, 1, (ds, ns) if shape_s is None else shape_s)
    c.note(why=why, orders=str(orders), values=str(vals.shape), points=str(pts.shape), bounds=str((dlo, dhi)))

    def go():
        it = MultilinearInterpolator(np.resize(smin, dlo), np.resize(smax, dhi), orders, vals if rng.random() < 0.5 else None, dtype=dtype)
        if not hasattr(it, "values"):
            it.set_values(vals)
        return it(pts) if rng.random() < 0.3 else it.interpolate(pts)
    rejected(c, "multilinear %dd" % d, "multilinear " + why, go)


@group(quick=120, thorough=3000)
def vii(c):
    rng = c.rng
    ties, factor, scans, m = int(rng.integers(2, 6)), int(c.pick([1, 2, 8])), int(c.pick([1, 2, 3, 6, 25, 150])), int(rng.integers(2, 9))
    n = ties * scans
    geo = rng.random() < 0.5
    k = 2 if geo else int(rng.integers(1, 5))
    why = c.pick(["indivisible", "indivisible"] + ["differing shapes"] * 2 * (k > 1) + ["differing dimensions"] * (k > 1) + ["number of dimensions"]
                 + ["order of dimensions"] * (k > 1 and not geo))
    if why == "order of dimensions" and rng.random() < 0.7:
        m = n
    shapes = [(n, m)] * k
    dims = [("y", "x")] * k
    which = int(rng.integers(1, k)) if k > 1 else 0
    if why == "indivisible":
        shapes = [(n + int(rng.integers(1, ties)), m)] * k
    elif why == "differing shapes":
        which = int(rng.integers(0, k))
        shapes[which] = c.pick([(n + ties, m), (n, m + 1), (m, n) if m != n else (n + 1, m), (n + 1, m), (n, m - 1)])
    elif why == "order of dimensions":
        dims[which], shapes[which] = ("x", "y"), (m, n)
    elif why == "differing dimensions":
        dims[which] = c.pick([("a", "b"), ("y", "b"), ("a", "x")])
    else:
        which = int(rng.integers(0, k))
        shapes[which], dims[which] = c.pick([((n,), ("y",)), ((n, m, 2), ("y", "x", "z")), ((1, n, m), ("t", "y", "x"))])
    lat0 = c.pick([0.0, 75.0])
    data = [rng.uniform(-10, 10, s) + (lat0 if geo and i == 1 else 0) for i, s in enumerate(shapes)]
    if rng.random() < 0.3:
        data = [da.from_array(a, chunks=-1) for a in data]
    arrs = [xr.DataArray(a, dims=d) for a, d in zip(data, dims)]
    c.note(why=why, shapes=str(shapes), dims=str(dims), ties=ties, factor=factor, geo=geo, lat=lat0)
    if geo:
        rejected(c, "vii positions", "vii " + why, tie_points_geo_interpolation, *arrs, ties, factor)
    else:
        rejected(c, "vii data", "vii " + why, tie_points_interpolation, arrs, ties, factor)


@group(quick=200, thorough=5000)
def grids(c):
    """Tie points that do not fit their positions, unknown borders, wrong numbers of arrays, chunks that do not fit."""
    rng = c.rng
    n, m = int(rng.integers(6, 12)), int(rng.integers(6, 12))
    rows, cols = np.arange(n) * 3.0, np.arange(m) * 4.0
    fine = (np.linspace(0, rows[-1], 13), np.linspace(0, cols[-1], 11))
    lon, lat = gen.wiggly_positions(rng, (n, m), 10.0)
    data = [lon.copy(), lat.copy()]
    bad = c.pick([(n + 1, m), (n - 1, m), (n, m + 1), (n, m - 1), (2 * n, m)] + [(m, n)] * (m != n))
    why = c.pick(["unknown border", "number of geographical arrays", "values do not fit positions", "values do not fit positions",
                  "data does not fit tie points", "data does not fit tie points", "data does not fit tie rows equal to fine rows",
                  "chunks do not fit", "positions not increasing", "positions outside of the grid", "basic: data does not fit", "data does not fit before filling"])
    c.note(why=why, tie=str((n, m)), data=str(bad))
    if why == "unknown border":
        names = [c.pick(["z", "", "Y", "xy", "rows", None, 0, "both"])]
        if rng.random() < 0.5:
            names.insert(int(rng.integers(0, 2)), c.pick(["x", "y"]))
        cls = c.pick([Interpolator, GeoInterpolator])
        it = cls(tuple(data), (rows, cols), (fine[0], fine[1]), 1, 1)
        before = [np.array(v) for v in it.tie_data]
        rejected(c, cls.__name__ + ".fill_borders", why, lambda: [it.fill_borders(*names)])
        got = c.call(cls.__name__ + ".interpolate", it.interpolate)
        want = c.call(cls.__name__ + ".interpolate", cls(tuple(data), (rows, cols), (fine[0], fine[1]), 1, 1).interpolate)
        for g, w in zip(got, want):
            c.close(g, w, 1e-9, "after an unknown border was rejected")
        c.ensure(len(before) == len(it.tie_data), "tie data")
    elif why == "number of geographical arrays":
        cls = c.pick([GeoGridInterpolator, GeoSplineInterpolator])
        given = c.pick([(), (lon,), (lon, lat, lat), (lon, lat, lat, lon), ((lon, lat),)])
        rejected(c, cls.__name__, why, lambda: list(cls((rows, cols), *given).interpolate(fine)))
    elif why == "values do not fit positions":
        cls = c.pick([SingleGridInterpolator, SingleSplineInterpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                      GeoGridInterpolator, GeoSplineInterpolator])
        kw = c.pick([{}, {}, dict(chunks=5)])
        wrong = [np.resize(v, bad) for v in data]
        if cls in (MultipleGridInterpolator, MultipleSplineInterpolator) and rng.random() < 0.5:
            wrong[int(rng.integers(2))] = data[0]

        def go():
            res = cls((rows, cols), *wrong[:1 if cls in (SingleGridInterpolator, SingleSplineInterpolator) else 2]).interpolate(fine, **kw)
            return res if not hasattr(res, "__next__") else list(res)
        rejected(c, cls.__name__, why, go)
    elif why in ("data does not fit tie points", "data does not fit tie rows equal to fine rows", "data does not fit before filling"):
        cls = c.pick([Interpolator, GeoInterpolator])
        wrong = [np.resize(v, bad) for v in data]
        hrows = rows.copy() if "equal" in why else fine[0]
        if cls is Interpolator and rng.random() < 0.5:
            wrong[int(rng.integers(2))] = data[0]

        def go():
            it = cls(tuple(wrong), (rows, cols), (hrows, fine[1]), 1, int(rng.integers(1, 4)))
            if "filling" in why:
                it.hrow_indices, it.hcol_indices = np.arange(-1, rows[-1] + 2), np.arange(-1, cols[-1] + 2)
                it.fill_borders(*c.pick([("x", "y"), ("y", "x"), ("y",), ("x",)]))
            return list(it.interpolate())
        rejected(c, cls.__name__, why, go)
    elif why == "chunks do not fit":
        lazy = dict(chunks=c.pick([(5, 5, 5), ((5, 5), (11,)), ((13,), (5, 5)), ((13,), (11,), (1,))]))
        cls = c.pick([SingleGridInterpolator, SingleSplineInterpolator, GeoGridInterpolator])
        rejected(c, cls.__name__, why, lambda: cls((rows, cols), *data[:2 if "Geo" in cls.__name__ or cls is GeoGridInterpolator else 1]).interpolate(fine, **lazy))
    elif why == "positions not increasing":
        cls = c.pick([SingleGridInterpolator, SingleSplineInterpolator, Interpolator])
        r = rows.copy()
        i = int(rng.integers(n - 1))
        how = rng.integers(2)
        r[i + 1] = r[i] if how else r[i] - 5
        if cls is Interpolator:
            rejected(c, cls.__name__, why, lambda: list(cls(data, (r, cols), fine, 1, 1).interpolate()))
        else:
            rejected(c, cls.__name__, why, lambda: cls((r, cols), data[0]).interpolate(fine))
    elif why == "positions outside of the grid":
        kw = c.pick([{}, dict(chunks=6)])
        far = (np.append(fine[0], rows[-1] + 1), fine[1]) if rng.random() < 0.5 else (fine[0], np.append(-2.0, fine[1]))
        rejected(c, "SingleGridInterpolator", why, lambda: SingleGridInterpolator((rows, cols), data[0]).interpolate(far, **kw))
    else:
        r, q = np.arange(n) * 3, np.arange(m) * 2
        wrong = list(data)
        wrong[int(rng.integers(2))] = np.resize(lon, bad)
        rejected(c, "basic", why, lambda: list(BasicSatelliteInterpolator(q, r, *wrong).interpolate()))


@group(quick=60, thorough=1200)
def helpers(c):
    """Fixed-geometry helpers: partial scans, other widths, differing shapes."""
    rng = c.rng
    name = c.pick(["modis5kmto1km", "modis1kmto500m", "modis1kmto250m", "generic_modis5kmto1km", "metop20kmto1km"])
    fn = generic_modis5kmto1km if name.startswith("generic") else getattr(geotiepoints, name)
    rps, width = {"modis5kmto1km": (2, 271), "generic_modis5kmto1km": (2, 271), "metop20kmto1km": (1, 105)}.get(name, (10, 1354))
    scans = int(rng.integers(1, 4)) if rps > 1 else int(rng.integers(2, 6))
    why = c.pick(["width", "differing shapes"] + ["partial scans"] * (2 * (rps > 1)))
    shape = [(rps * scans, width)] * 2
    if why == "partial scans":
        shape = [(rps * scans + int(rng.integers(1, rps)), width)] * 2
    elif why == "width":
        shape = [(rps * scans, int(c.pick([w for w in (50, width - 1, width + 1, 2 * width, 271, 1354, 105) if w != width])))] * 2
    else:
        shape[int(rng.integers(2))] = c.pick([(rps * scans + rps, width), (rps * scans, width + 1), (rps * (scans + 2), width), (rps * scans, width - 1)])
    u = [gen.wiggly_positions(rng, s, 5.0) for s in shape]
    lon, lat = u[0][0], u[1][1]
    kw = {}
    if name.startswith("modis1km") and rng.random() < 0.4:
        kw["cores"] = int(rng.integers(2, 4))
    c.note(helper=name, why=why, shapes=str(shape), **kw)
    rejected(c, name, "helper " + why, fn, lon, lat, **kw)
