"""C25: equivalent ways of asking give equal results."""
import dask
import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import Interpolator
from geotiepoints.modisinterpolator import interpolate as modis_interpolate
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.simple_modis_interpolator import interpolate_geolocation_cartesian
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, interp
from vlib.core import group


class Definition:
    """What the library uses of a pyresample definition."""

    def __init__(self, lon, lat):
        self.lons, self.lats = lon, lat

    def get_cartesian_coords(self, nprocs=None, data_slice=None, cache=False):
        return gen.R_M * gen.unit(self.lons, self.lats)


def definition(c, lon, lat):
    try:
        from pyresample import SwathDefinition
    except ImportError:
        c.seen("stand-in for a pyresample definition")
        return Definition(lon, lat)
    if c.rng.random() < 0.3:
        c.seen("stand-in for a pyresample definition")
        return Definition(lon, lat)
    c.seen("pyresample definition")
    return SwathDefinition(lon, lat)


def represented(c, p):
    """The same positions in another way."""
    p = np.asarray(p)
    how = c.pick(["as is", "list", "tuple", "float", "int", "int32", "float32", "smallest", "smallest"])
    whole = bool((p == np.floor(p)).all() and np.abs(p).max(initial=0) < 1e6)
    if how in ("list", "tuple"):
        q = p.tolist()
        if c.rng.random() < 0.6:      # whole ones without a point
            q = [int(v) if v == int(v) else v for v in q]
            if len({type(v) for v in q}) == 2:
                c.seen("integers and fractions in one list")
        return (q if how == "list" else tuple(q)), how
    if how == "float" or not whole:
        return p.astype(float), how
    if how == "smallest":
        dtypes = [t for t in (np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.uint64)
                  if p.size == 0 or np.iinfo(t).min <= p.min() and p.max() <= np.iinfo(t).max]
        how = c.pick(dtypes).__name__
        return p.astype(how), how
    if how in ("int", "int32", "float32"):
        return p.astype({"int": int, "int32": np.int32, "float32": np.float32}[how]), how
    return p.copy(), how


def whole_ties(c, low):
    return np.concatenate([[0], np.cumsum(c.rng.integers(1, 5, int(c.rng.integers(low, low + 5)) - 1))])


def fine_inside(c, p):
    if c.rng.random() < 0.5:
        a, b = np.sort(c.rng.integers(p[0], p[-1] + 1, 2))
        return np.arange(a, b + 1)
    q = np.sort(c.rng.uniform(p[0], p[-1], int(c.rng.integers(1, 15))))
    if c.rng.random() < 0.5:
        q[0] = p[0]
    return q


def same(c, got, want, what, tol=1e-10):
    got, want = list(got), list(want)
    c.ensure(len(got) == len(want), "%s: %d results instead of %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        c.ensure(g.shape == w.shape and g.dtype == w.dtype, "%s: %s%s instead of %s%s" % (what, g.dtype, g.shape, w.dtype, w.shape))
        c.close(g, w, tol * (np.nanmax(np.abs(w), initial=0) + 1e-300), what)


def same_positions(c, got, want, what, dtype=np.float64):
    got, want = list(got), list(want)
    c.ensure(len(got) == 2 and len(want) == 2, "%s: %d results" % (what, len(got)))
    got, want = [np.asarray(g) for g in got], [np.asarray(w) for w in want]
    for g, w in zip(got, want):
        c.ensure(g.shape == w.shape and g.dtype == w.dtype, "%s: %s%s instead of %s%s" % (what, g.dtype, g.shape, w.dtype, w.shape))
    c.within(gen.max_dist(got, want), 2 * gen.rounding_m(dtype), what + ": metres")


@group(quick=200, thorough=4000)
def definitions(c):
    """Longitudes and latitudes, or a definition of them, for the geographical interpolators; numpy or dask."""
    rows, cols = whole_ties(c, 5), whole_ties(c, 5)
    lon, lat = gen.wiggly_positions(c.rng, (len(rows), len(cols)), 20.0)
    lazy = c.rng.random() < 0.3
    kind = c.pick(["grid", "spline", "generic", "generic filled"])
    other = "a definition" if c.rng.random() < 0.7 else "dask arrays"
    c.note(kind=kind, lazy=bool(lazy), other=other)

    def run(data):
        if kind.startswith("generic"):
            hr, hc = (np.arange(-1, rows[-1] + 2), np.arange(-2, cols[-1] + 1)) if "filled" in kind else (fine[0], fine[1])
            it = c.call("GeoInterpolator", GeoInterpolator, data[0] if len(data) == 1 else data, (rows, cols), (hr, hc), 1, 3)
            if "filled" in kind:
                c.call("fill_borders", it.fill_borders, "y", "x")
            return c.call("GeoInterpolator.interpolate", it.interpolate), it
        cls = GeoGridInterpolator if kind == "grid" else GeoSplineInterpolator
        it = c.call("geo " + kind, cls, (rows, cols), *data)
        res = c.call("geo %s interpolate" % kind, it.interpolate, fine, **(dict(chunks=4) if lazy else {}))
        return dask.compute(*res), it
    fine = fine_inside(c, rows), fine_inside(c, cols)
    want, first = run((lon, lat))
    if other == "dask arrays":
        k = int(c.rng.integers(1, 4))
        data = da.from_array(lon, chunks=k), da.from_array(lat, chunks=k)
    else:
        data = definition(c, lon, lat),
    got, it = run(data)
    same_positions(c, got, want, "%s from %s" % (kind, other))
    if kind.startswith("generic"):
        c.equal(np.asarray(it.lon_tiepoint), lon, "lon_tiepoint")
        c.equal(np.asarray(it.lat_tiepoint), lat, "lat_tiepoint")
    c.seen("positions from " + other)


@group(quick=400, thorough=8000)
def positions(c):
    """Tie and requested positions as lists, tuples, integers or floats; slices and shapes for them."""
    rows, cols = whole_ties(c, 5), whole_ties(c, 5)
    kind, flavour = c.pick(["grid", "spline"]), c.pick(["single", "multiple", "geo", "generic"])
    fine = fine_inside(c, rows), fine_inside(c, cols)
    shape = len(rows), len(cols)
    data = list(gen.wiggly_positions(c.rng, shape, 20.0)) if flavour == "geo" else [c.rng.normal(size=shape) for _ in range(1 if flavour == "single" else 2)]
    ways = []
    fill = flavour == "generic" and c.rng.random() < 0.6
    if fill:
        rows, cols = (p + int(c.rng.integers(1, 9)) for p in (rows, cols))
        fine = tuple(np.arange(max(0, p[0] - c.rng.integers(0, 4)), p[-1] + c.rng.integers(1, 5)) for p in (rows, cols))
        if c.rng.random() < 0.4:
            data = [c.rng.integers(0, 100, shape) for _ in range(2)]

    def way(p):
        q, how = represented(c, p)
        ways.append(how)
        return q

    def make(ties, fine):
        if flavour == "generic":
            it = c.call("Interpolator", Interpolator, list(data), ties, fine, 1, 2)
            if fill:
                c.call("fill_borders", it.fill_borders, "y", "x")
            return it
        if flavour == "geo":
            return c.call("geo " + kind, GeoGridInterpolator if kind == "grid" else GeoSplineInterpolator, ties, *data)
        return (interp.single if flavour == "single" else interp.multiple)(c, kind, ties, *data)

    def ask(it, fine, **kw):
        if flavour == "generic":
            return list(c.call("Interpolator.interpolate", it.interpolate))
        res = c.call("%s %s" % (flavour, kind), it.interpolate, fine, **kw)
        return [res] if flavour == "single" else list(res)
    judge = same_positions if flavour == "geo" else same
    it = make((rows, cols), fine)
    want = ask(it, fine)
    ties2, fine2 = (way(rows), way(cols)), (way(fine[0]), way(fine[1]))
    if c.rng.random() < 0.5:
        ties2, fine2 = list(ties2), list(fine2)
    c.note(kind=kind, flavour=flavour, ways=str(ways), filled=bool(fill))
    if fill:
        if data[0].dtype.kind == "i":
            data = [d.astype(c.pick([np.uint8, np.int8, np.float32, np.uint16, np.uint64])) for d in data]
            c.seen("data as " + data[0].dtype.name)
        c.seen("borders filled")
    kw = dict(chunks=3) if c.rng.random() < 0.3 and flavour != "generic" else {}
    got = dask.compute(*ask(make(ties2, fine2), fine2, **kw))
    # borders are extrapolated in the precision of the positions
    loose = dict(tol=1e-4) if fill and ("float32" in ways or data[0].dtype != np.float64) else {}
    if fill:
        got, want = ([np.asarray(r, dtype=np.float64) for r in res] for res in (got, want))
    judge(c, got, want, "positions given in another way (%s)" % flavour, **loose)
    for how in ways:
        c.seen("positions as " + how)
    if flavour == "single":
        sl = tuple(slice(int(a), int(b) + 1, c.pick([None, 1, 2, 3])) for a, b in (np.sort(c.rng.integers(0, p[-1] + 1, 2)) for p in (rows, cols)))
        points = [np.arange(s.start, s.stop)[::s.step] for s in sl]
        got = c.call("interpolate_slices", it.interpolate_slices, sl)
        judge(c, [got], ask(it, points), "slices")
        c.seen("slices")
        if kind == "grid":
            beyond_the_ties(c, rows, cols, data[0])
    elif flavour in ("multiple", "geo"):
        upto = int(c.rng.integers(1, rows[-1] + 2)), int(c.rng.integers(1, cols[-1] + 2))
        options = {}
        if c.rng.random() < 0.5 and flavour == "multiple":
            options = c.pick([dict(method="nearest"), dict(method="slinear")] if kind == "grid" else [dict(dx=1), dict(dy=1), dict(dx=1, dy=2)])
            c.seen("shapes with options")
        elif c.rng.random() < 0.4 and kind == "grid":
            options = dict(method="nearest")
        res = list(c.call("interpolate_to_shape", it.interpolate_to_shape, c.pick([tuple, list])(upto), **kw, **options))
        judge(c, dask.compute(*res), ask(it, (np.arange(upto[0]), np.arange(upto[1])), **options), "to a shape")
        c.seen("shapes")


def beyond_the_ties(c, rows, cols, data):
    """Slices of positions before the first and after the last tie point, upwards and downwards."""
    it = interp.single(c, "grid", (rows, cols), data, bounds_error=False, fill_value=c.pick([None, None, np.nan, -999.0]))
    sl, points = [], []
    for p in (rows, cols):
        start, stop = int(c.rng.integers(-9, p[-1] + 3)), int(c.rng.integers(1, p[-1] + 12))
        start, stop = min(start, stop - 1), max(start + 1, stop)
        step = int(c.rng.integers(1, 4))
        if c.rng.random() < 0.3:
            start, stop, step = stop - 1, start - 1, -step
        if c.rng.random() < 0.3:       # at fractions, exactly representable
            start, stop, step = start + float(c.pick([0.5, 0.25, 0.75])), stop + 0.125, step * float(c.pick([0.5, 0.25, 1.0, 1.5]))
            n = int(np.ceil((stop - start) / step))
            sl.append(slice(start, stop, step))
            points.append(start + step * np.arange(n))
            c.seen("slices of fractional positions")
            continue
        sl.append(slice(start, stop, step))
        points.append(np.array(range(start, stop, step)))
    got = c.call("interpolate_slices", it.interpolate_slices, tuple(sl))
    same(c, [got], [c.call("single grid", it.interpolate, points)], "slices beyond the tie points")
    c.seen("slices beyond the tie points")


@group(quick=12, thorough=100)
def long_axes(c):
    """Tens of thousands of rows or columns: shapes, slices and positions in any type."""
    n = int(c.pick([300, 32768, 33000, 65536, 66000, 140000])) + int(c.rng.integers(-2, 3))
    down = bool(c.rng.random() < 0.5)
    kind = c.pick(["grid", "spline"])
    ties = [np.array([0, n // 3, n // 2, n + 8]), np.array([0, 2, 3, 4])]
    small = int(c.rng.integers(1, 5))
    shape = n, small
    if not down:
        ties, shape = ties[::-1], shape[::-1]
    data = c.rng.normal(size=(4, 4)), c.rng.normal(size=(4, 4))
    c.note(kind=kind, shape=str(shape))
    it = interp.multiple(c, kind, ties, *data)
    fine = [np.arange(s, dtype=float) for s in shape]
    kw = dict(chunks=20000) if c.rng.random() < 0.4 else {}
    want = list(c.call("multiple " + kind, it.interpolate, fine))
    same(c, dask.compute(*c.call("interpolate_to_shape", it.interpolate_to_shape, shape, **kw)), want, "to a long shape")
    one = interp.single(c, kind, ties, data[0])
    same(c, [c.call("interpolate_slices", one.interpolate_slices, tuple(slice(0, s) for s in shape))], want[:1], "long slices")
    same(c, dask.compute(c.call("single " + kind, one.interpolate, fine, chunks=30000)), want[:1], "long positions, lazily")
    gen_it = interp.generic(c, list(data), ties, [np.arange(s) for s in shape], 3, 3)
    if kind == "spline":
        same(c, c.call("Interpolator.interpolate", gen_it.interpolate), want, "long positions (Interpolator)")
    c.seen("long axes")


@group(quick=200, thorough=4000)
def arrangements(c):
    """One array bare or in a list, lists or tuples; single or multiple interpolators; numpy or dask data."""
    kind = c.pick(["generic", "generic filled", "grid", "spline"])
    rows, cols = whole_ties(c, 5), whole_ties(c, 5)
    n = int(c.rng.integers(1, 4))
    data = [c.rng.normal(size=(len(rows), len(cols))) for _ in range(n)]
    if kind.startswith("generic"):
        fine = (np.arange(-1, rows[-1] + 3), np.arange(-2, cols[-1] + 1)) if "filled" in kind else (fine_inside(c, rows), fine_inside(c, cols))
        if c.rng.random() < 0.25 and kind == "generic":
            fine = rows.copy(), fine[1]

        def run(d):
            it = c.call("Interpolator", Interpolator, d, (rows, cols), fine, 1, 3)
            if "filled" in kind:
                c.call("fill_borders", it.fill_borders, "y", "x")
            return c.call("Interpolator.interpolate", it.interpolate)
        want = [run([d])[0] for d in data]
        for how, d in (("list", list(data)), ("tuple", tuple(data))) + ((("bare", data[0]),) if n == 1 else ()):
            same(c, run(d), want, "arrays given as " + how)
            c.seen("arrays as " + how)
        if kind == "generic":
            same(c, run([da.from_array(d, chunks=2) for d in data]), want, "arrays given as dask arrays")
            c.seen("arrays as dask arrays")
    else:
        fine = fine_inside(c, rows), fine_inside(c, cols)
        kw = c.pick([{}, dict(method="nearest"), dict(bounds_error=False)]) if kind == "grid" else c.pick([{}, dict(kx=1, ky=1), dict(kx=2, ky=4)])
        want = [c.call("single " + kind, interp.single(c, kind, (rows, cols), d, **kw).interpolate, fine) for d in data]
        got = list(c.call("multiple " + kind, interp.multiple(c, kind, (rows, cols), *data, **kw).interpolate, fine))
        same(c, got, want, "single and multiple")
        got = list(c.call("multiple " + kind, interp.multiple(c, kind, (rows, cols), *[da.from_array(d, chunks=2) for d in data], **kw).interpolate, fine))
        same(c, got, want, "data as dask arrays")
        got = list(c.call("multiple " + kind, interp.multiple(c, kind, (rows, cols), *[da.from_array(d, chunks=2) for d in data], **kw).interpolate, fine, chunks=3))
        same(c, dask.compute(*got), want, "data as dask arrays, lazily")
        c.seen("single and multiple")
    c.note(kind=kind, arrays=n)


@group(quick=300, thorough=6000)
def multilinear(c):
    d = int(c.rng.integers(1, 5))
    orders = c.rng.integers(2, 6, d)
    lo, hi = c.rng.integers(-5, 0, d), c.rng.integers(1, 6, d)
    n = int(c.rng.integers(1, 4))
    values = c.rng.normal(size=(n, int(np.prod(orders))))
    s = c.rng.uniform(-7, 8, (d, int(c.rng.integers(1, 40))))
    dtype = c.pick([np.float64, np.float64, np.float32])
    kw = {} if dtype is np.float64 else dict(dtype=dtype)
    want = c.call("multilinear interpolate", c.call("MultilinearInterpolator", MultilinearInterpolator, lo.astype(dtype), hi.astype(dtype), orders, values.astype(dtype), **kw).interpolate, s.astype(dtype))
    lo2, hi2, or2 = (c.pick([np.ndarray.copy, np.ndarray.tolist, lambda a: tuple(a.tolist()), lambda a: a.astype(np.int32), lambda a: a.astype(float) if a is not orders else a])(a) for a in (lo, hi, orders))
    s2 = s.astype(dtype)
    if c.rng.random() < 0.3:
        s2 = s2.tolist()
    v2 = values.astype(dtype)
    if c.rng.random() < 0.3:
        v2 = v2.tolist()
    later = c.rng.random() < 0.5
    it = c.call("MultilinearInterpolator", MultilinearInterpolator, lo2, hi2, or2, *([] if later else [v2]), **kw)
    if later:
        if c.rng.random() < 0.5:
            c.call("grid", lambda: it.grid)
        c.call("set_values", it.set_values, v2)
        c.seen("values given later")
    got = c.call("multilinear called", it, s2) if c.rng.random() < 0.6 else c.call("multilinear interpolate", it.interpolate, s2)
    c.note(orders=str(orders.tolist()), functions=n, points=s.shape[1], dtype=dtype.__name__)
    same(c, [got], [want], "multilinear asked in another way", 1e-5 if dtype is np.float32 else 1e-12)
    # the documented attributes
    c.ensure(it.d == d, "d is %r for %d dimensions" % (it.d, d))
    for name, want in (("smin", lo), ("smax", hi), ("orders", orders)):
        c.ensure(np.array_equal(getattr(it, name), want.astype(dtype) if name != "orders" else want), "%s is %r" % (name, getattr(it, name)))
    # the grid is made of the bounds
    g = np.asarray(it.grid)
    want = np.stack([m.ravel() for m in np.meshgrid(*[np.linspace(a, b, k) for a, b, k in zip(lo, hi, orders)], indexing="ij")])
    c.ensure(g.shape == want.shape, "grid of shape %s instead of %s" % (g.shape, want.shape))
    c.within(np.abs(g - want), 1e-5 if dtype is np.float32 else 1e-13, "grid")


@group(quick=60, thorough=1200)
def modis(c):
    """The function for two resolutions, or the general function with these resolutions."""
    kind = c.pick(["angle", "simple"])
    if kind == "angle":
        coarse, fine, width = c.pick(api.ANGLE_CONFIGS)
    else:
        coarse, fine, width = 1000, c.pick([250, 500]), int(c.pick([5, 60, 1354]))
    dtype = c.pick([np.float64, np.float32])
    lon, lat, satz = (a.astype(dtype) for a in gen.modis_input(c.rng, coarse, int(c.rng.integers(1, 3)), width))
    kw = dict(coarse_resolution=coarse, fine_resolution=fine)
    if kind == "angle":
        want = api.angle(c, coarse, fine, lon, lat, satz)
        if coarse == 5000 and (width == 270 or c.rng.random() < 0.5):
            kw["coarse_scan_width"] = width
        got = c.call("interpolate", modis_interpolate, lon, lat, satz, **kw)
    else:
        want = c.call("lon/lat only", api.SIMPLE[coarse, fine], lon, lat)
        got = c.call("interpolate_geolocation_cartesian", interpolate_geolocation_cartesian, lon, lat, **kw)
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__)
    same_positions(c, got, want, "general MODIS function", dtype)
    c.seen("general MODIS function: " + kind)


@group(quick=200, thorough=4000)
def vii(c):
    """VII arrays that hold numpy or dask arrays in any chunks; names of dimensions and thresholds given in any way."""
    ties, nscans, factor, act = int(c.rng.integers(2, 6)), int(c.rng.integers(1, 4)), int(c.pick([1, 2, 8])), int(c.rng.integers(2, 9))
    shape = ties * nscans, act
    geo = c.rng.random() < 0.6
    data = list(gen.wiggly_positions(c.rng, shape, 8.0)) if geo else [c.rng.normal(size=shape) for _ in range(int(c.rng.integers(1, 4)))]
    dims = c.pick([("y", "x"), ("num_tie_points_alt", "num_tie_points_act"), ("x", "y"), ("a", "b")])

    def run(arrs, dims, **kw):
        d = [xr.DataArray(a, dims=dims) for a in arrs]
        if geo:
            args = [ties, factor]
            if c.rng.random() < 0.4:
                args += [60., 0.8] if c.rng.random() < 0.5 else [60.]
            elif c.rng.random() < 0.4:
                kw.update(lat_threshold_use_cartesian=60., z_threshold_use_xy=0.8)
            return list(c.call("vii positions", tie_points_geo_interpolation, *d, *args, **kw))
        return list(c.call("vii data", tie_points_interpolation, d, ties, factor))
    want = run(data, ("y", "x"))
    how = c.pick(["numpy", "dask", "dask"])
    arrs = data
    if how == "dask":
        arrs = [da.from_array(a, chunks=interp.random_chunks(c, shape)) for a in data]
    c.note(geo=bool(geo), dims=str(dims), how=how, shape=list(shape))
    got = run(arrs, dims)
    for g in got:
        c.ensure(g.dims == dims, "dimensions %s instead of %s" % (g.dims, dims))
    (same_positions if geo else same)(c, [g.values for g in got], [w.values for w in want], "vii holding %s" % how)
    c.seen("vii holding " + how)
