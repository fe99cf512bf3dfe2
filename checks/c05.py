"""C05: results do not depend on where on the globe the swath lies."""
import numpy as np
import xarray as xr
from scipy.interpolate import RectBivariateSpline

from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation
from vlib import api, gen, legacy, refs
from vlib.core import group

CONFIGS = [("angle",) + cfg for cfg in api.ANGLE_CONFIGS] + [("simple", 1000, 250, 0), ("simple", 1000, 500, 0),
                                                             ("simple", 500, 250, 0)]


def rotation(rng):
    """A random rotation matrix."""
    q = rng.normal(size=4)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def carry(lon, lat, to):
    """The rotation that brings position (lon, lat) to position *to*."""
    a, b = gen.unit(lon, lat), gen.unit(*to)
    axis = np.cross(a, b)
    s, co = np.linalg.norm(axis), a @ b
    if s < 1e-9:
        return np.eye(3) if co > 0 else np.diag([-1.0, -1.0, 1.0])
    k = axis / s
    kx = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + s * kx + (1 - co) * (kx @ kx)


SPOTS = {"north pole": (0.0, 90.0), "south pole": (0.0, -90.0), "antimeridian": (180.0, 10.0), "greenwich": (0.0, -40.0),
         "formula threshold": (20.0, np.rad2deg(np.arcsin(0.8))), "latitude 60": (100.0, 60.0),
         "antimeridian far south": (180.0, -75.0), "equator": (-90.0, 0.0)}


class Move:
    """A transformation of positions: forward on lon/lat arrays, to apply to input and to results alike."""

    def __init__(self, c, lon, lat):
        self.kind = c.pick(["rotate", "rotate", "spot", "spot", "spot", "spot", "shift", "0..360", "mirror", "mirror east-west"])
        rng = c.rng
        mid = (float(lon[lon.shape[0] // 2, lon.shape[1] // 2]), float(lat[lon.shape[0] // 2, lon.shape[1] // 2]))
        if rng.random() < 0.5:      # put some other part of the swath onto the spot
            i, j = int(rng.integers(lon.shape[0])), int(rng.integers(lon.shape[1]))
            mid = (float(lon[i, j]), float(lat[i, j]))
        self.spot = None
        if self.kind == "rotate":
            self.m = rotation(rng)
        elif self.kind == "spot":
            self.spot = c.pick(sorted(SPOTS))
            to = SPOTS[self.spot]
            if rng.random() < 0.5:
                to = (to[0] + rng.normal(0, 0.2), float(np.clip(to[1] + rng.normal(0, 0.2), -90, 90)))
            self.m = carry(*mid, to)
            c.seen("swaths moved onto: " + self.spot)
        elif self.kind == "shift":
            self.d = float(c.pick([90.0, 180.0, -180.0, 123.456, -77.7, 360.0]))
        c.seen("transformation: " + self.kind)
        c.note(move=self.kind, spot=self.spot or "")

    def __call__(self, lon, lat, result=False):
        lon, lat = np.asarray(lon, dtype=np.float64), np.asarray(lat, dtype=np.float64)
        if self.kind in ("rotate", "spot"):
            return gen.to_lonlat(gen.unit(lon, lat) @ self.m.T)
        if self.kind == "shift":
            new = lon + self.d
            return (new + 180) % 360 - 180, lat
        if self.kind == "0..360":
            return np.mod(lon, 360.0), lat
        if self.kind == "mirror":
            return lon, -lat
        return -lon, lat


def compare(c, moved_result, result_of_moved, tol, what):
    c.within(gen.dist_m(moved_result[0], moved_result[1], np.asarray(result_of_moved[0]), np.asarray(result_of_moved[1])),
             tol, what)


@group(quick=220, thorough=4000)
def modis(c):
    kind, coarse, fine, width = CONFIGS[c.k % len(CONFIGS)]
    width = width or int(c.pick([2, 7, 60, 300]))
    dtype = c.pick([np.float64, np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    lon, lat = gen.wiggly_positions(c.rng, (rps, width), coarse / 1000.0)
    satz = gen.random_zenith(c.rng, lon.shape, coarse)
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__)
    move = Move(c, lon, lat)
    lon2, lat2 = move(lon, lat)
    if kind == "angle":
        xyz, _ = refs.cviirs_xyz(lon, lat, satz, coarse, fine)
    else:
        xyz = refs.simple_xyz(lon, lat, coarse // fine, rps)
    off = np.abs(np.sqrt((xyz ** 2).sum(-1)) - gen.R_M)       # what the formula for the latitude makes of it may differ
    a, b = (x.astype(dtype) for x in (lon, lat)), (x.astype(dtype) for x in (lon2, lat2))
    z = satz.astype(dtype)
    run = (lambda p, q: api.angle(c, coarse, fine, p, q, z)) if kind == "angle" else \
        (lambda p, q: api.simple(c, coarse, fine, p, q))
    one, two = run(*a), run(*b)
    far = 3 * np.nanmax(off) if dtype == np.float32 else 0
    compare(c, move(*one), two, 3 * off + far + gen.rounding_m(dtype) * (2 if dtype == np.float32 else 1) + 1e-4,
            "%s %s: metres between moved results and results of moved tie points" % (kind, dtype.__name__))


def spline_norm_error(rows, cols, lon, lat, frows, fcols, kx, ky):
    v = gen.R_M * gen.unit(lon, lat)
    parts = [RectBivariateSpline(rows, cols, v[..., i], s=0, kx=kx, ky=ky)(frows, fcols) for i in range(3)]
    return np.abs(np.sqrt(sum(p ** 2 for p in parts)) - gen.R_M)


def swath_definition(lon, lat):
    from pyresample.geometry import SwathDefinition
    return SwathDefinition(lons=lon, lats=lat)


@group(quick=400, thorough=6000)
def geo_interpolators(c):
    what = c.pick(["grid", "spline", "interpolator", "interpolator"])
    shape = int(c.rng.integers(4, 14)), int(c.rng.integers(4, 14))
    spacing = float(c.pick([1.0, 10.0, 20.0, 100.0, 300.0]))
    lon, lat = gen.wiggly_positions(c.rng, shape, spacing)
    rows = np.cumsum(c.rng.integers(1, 6, shape[0]))
    cols = np.cumsum(c.rng.integers(1, 6, shape[1]))
    frows, fcols = np.arange(rows[0], rows[-1] + 1), np.arange(cols[0], cols[-1] + 1)
    kx, ky = (1, 1) if what == "grid" else (int(c.rng.integers(1, 4)), int(c.rng.integers(1, 4)))
    c.note(what=what, shape=list(shape), spacing_km=spacing, kx=kx, ky=ky)
    move = Move(c, lon, lat)
    lon2, lat2 = move(lon, lat)
    off = spline_norm_error(rows, cols, lon, lat, frows, fcols, kx, ky)
    pyr = c.rng.random() < 0.2 and np.abs(lon2).max() <= 180
    lazy = what != "interpolator" and c.rng.random() < 0.25

    def run(a, b):
        data = (swath_definition(a, b),) if pyr else (a, b)
        if what == "interpolator":
            it = GeoInterpolator(data[0] if pyr else data, (rows, cols), (frows, fcols), kx, ky)
            return c.call("GeoInterpolator", it.interpolate)
        if what == "grid":
            it = GeoGridInterpolator((rows, cols), *data)
        else:
            it = GeoSplineInterpolator((rows, cols), *data, kx=kx, ky=ky)
        kw = dict(chunks=4) if lazy else {}
        res = c.call("Geo%s" % what.title(), it.interpolate, (frows, fcols), **kw)
        return [np.asarray(r) for r in res]
    one, two = run(lon, lat), run(lon2, lat2)
    # where the interpolated point is more than a tenth off the sphere, latitudes lose their meaning
    ok = off < 0.002 * gen.R_M
    c.ensure(ok.any(), "harness: no usable pixels")
    tol = 3 * off + 1e-3 + 1e-6 * off.max()
    m = move(*one)
    compare(c, [v[ok] for v in m], [np.asarray(v)[ok] for v in two], tol[ok],
            "geo %s: metres between moved results and results of moved tie points" % what)


@group(quick=60, thorough=1000)
def borders(c):
    """Filled borders: extrapolated in cartesian coordinates as well."""
    shape = int(c.rng.integers(3, 8)), int(c.rng.integers(4, 10))
    spacing = float(c.pick([1.0, 5.0, 20.0]))
    lon, lat = gen.wiggly_positions(c.rng, shape, spacing)
    rows, cols = np.arange(shape[0]) * 5 + 2, np.arange(shape[1]) * 5 + 2
    frows, fcols = np.arange(shape[0] * 5), np.arange(shape[1] * 5)
    ky = int(c.pick([1, 3]))
    c.note(shape=list(shape), spacing_km=spacing, ky=ky)
    move = Move(c, lon, lat)

    def run(a, b):
        it = GeoInterpolator((a, b), (rows, cols), (frows, fcols), 1, ky)
        it.fill_borders("y", "x")
        return c.call("GeoInterpolator with borders", it.interpolate)
    sag = refs.sag_m(lon, lat)
    compare(c, move(*run(lon, lat)), run(*move(lon, lat)), 20 * sag + 1e-3,
            "geo interpolator with borders: metres between moved results and results of moved tie points")


@group(quick=120, thorough=2000)
def symmetric(c):
    """Swaths exactly symmetrical about the antimeridian or a pole against the same swath at other longitudes."""
    what = c.pick(["modis", "modis", "vii", "vii", "grid", "interpolator"])
    shift = float(c.pick([90.0, 33.3, -77.7]))
    dtype = np.float64
    if what == "modis":
        kind, coarse, fine, width = CONFIGS[c.k % len(CONFIGS)]
        width = width or int(c.pick([2, 6, 7, 60]))
        shape, spacing = (api.rows_per_scan(coarse), width), coarse / 1000.0
        satz = np.zeros(shape) if c.rng.random() < 0.5 else gen.random_zenith(c.rng, shape, coarse)

        def run(a, b):
            if kind == "angle":
                return api.angle(c, coarse, fine, a, b, satz)
            return api.simple(c, coarse, fine, a, b)
        what = api.label(kind, coarse, fine)
    else:
        shape, spacing = (int(c.pick([4, 6])), int(c.rng.integers(4, 10))), float(c.pick([1.0, 8.0, 50.0]))
        rows, cols = np.arange(shape[0]) * 4, np.arange(shape[1]) * 4
        fgrid = np.arange(rows[-1] + 1), np.arange(cols[-1] + 1)

        def run(a, b):
            if what == "vii":
                res = c.call("vii geo", tie_points_geo_interpolation, xr.DataArray(a, dims=("alt", "act")),
                             xr.DataArray(b, dims=("alt", "act")), shape[0] // 2, 4)
                return [r.values for r in res]
            if what == "grid":
                return c.call("GeoGrid", GeoGridInterpolator((rows, cols), a, b).interpolate, fgrid)
            return c.call("GeoInterpolator", GeoInterpolator((a, b), (rows, cols), fgrid, 1, 1).interpolate)
    lon, lat, how = gen.symmetric_positions(c.rng, shape, spacing)
    c.note(what=what, how=how, shape=list(shape), shift=shift)
    one = run(lon.astype(dtype), lat.astype(dtype))
    lon2 = (lon + shift + 180) % 360 - 180
    two = run(lon2.astype(dtype), lat.astype(dtype))
    moved = (np.asarray(one[0], dtype=np.float64) + shift, np.asarray(one[1]))
    step_m = spacing * 1000.0 * (5 if how == "symmetrical about a pole" and "5000m" in what else 1)
    # VII in degrees on one side and in cartesian coordinates on the other: the difference is the sag of a parallel
    sag = 10 * step_m ** 2 / gen.R_M * (1 + np.tan(np.deg2rad(np.minimum(np.abs(lat).max(), 89)))) if what == "vii" else 0.0
    compare(c, moved, two, sag + 0.02, "%s, %s: metres between moved results and results of moved tie points" % (what, how))
    c.ensure(np.abs(np.asarray(one[0])).max() <= 180 and np.abs(np.asarray(one[1])).max() <= 90, "positions out of range")
    c.seen("exactly symmetrical swaths: " + how)


@group(quick=150, thorough=2500)
def vii(c):
    ties, factor = int(c.rng.integers(2, 7)), int(c.pick([2, 3, 4, 8]))
    nscans = int(c.rng.integers(1, 4))
    shape = (ties * nscans, int(c.rng.integers(2, 20)))
    spacing = float(c.pick([1.0, 4.0, 8.0, 8.0]))
    lon, lat = gen.wiggly_positions(c.rng, shape, spacing)
    c.note(shape=list(shape), ties=ties, factor=factor, spacing_km=spacing)
    move = Move(c, lon, lat)

    def run(a, b):
        res = c.call("vii geo", tie_points_geo_interpolation, xr.DataArray(a, dims=("alt", "act")),
                     xr.DataArray(b, dims=("alt", "act")), ties, factor)
        return [r.values for r in res]
    sag = refs.sag_m(lon, lat)
    lon2, lat2 = move(lon, lat)
    compare(c, move(*run(lon, lat)), run(lon2, lat2), 10 * sag + 1e-2,
            "vii: metres between moved results and results of moved tie points")
    for a, b in ((lon, lat), (lon2, lat2)):
        c.seen("vii: in cartesian coordinates" if np.abs(b).max() > 60 or np.ptp(a) > 180 else "vii: in degrees")


@group(quick=48, thorough=600)
def helpers(c):
    name = sorted(legacy.HELPERS)[c.k % 4]
    n = int(c.rng.integers(2, 30)) if name.startswith("metop") else int(c.rng.integers(1, 4))
    lon, lat, _, _ = legacy.simulate(name, gen.frame(*gen.random_frame(c.rng)), n)
    c.note(helper=name, n=n)
    move = Move(c, lon, lat)
    fn = legacy.HELPERS[name][0]
    one, two = c.call(name, fn, lon, lat), c.call(name, fn, *move(lon, lat))
    compare(c, move(*one), two, 20 * refs.sag_m(lon, lat) + 1e-2,
            "%s: metres between moved results and results of moved tie points" % name)
    c.ensure(np.abs(two[0]).max() <= 180.0 and np.abs(two[1]).max() <= 90.0, "%s: positions out of range" % name)
