"""C17: missing tie points stay local and valid input gives valid positions."""
import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.geointerpolator import GeoGridInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, refs
from vlib.core import group

CONFIGS = [("angle",) + cfg for cfg in api.ANGLE_CONFIGS] + [("simple", 1000, 250, 0), ("simple", 1000, 500, 0)] * 2 + [
    ("simple", 500, 250, 0)]


def cells(kind, coarse, fine, width):
    """Cell number and relative coordinate of the fine rows and columns of a scan, number of tie rows."""
    if kind == "angle":
        return refs.modis_cells(coarse, fine, width)
    f = coarse // fine
    nrows = api.rows_per_scan(coarse)
    rows = np.arange(nrows * f) / f - (f / 16.0 + 1 / 8.0)
    cols = np.arange(width * f) / f
    i = np.clip(np.floor(rows), 0, nrows - 2).astype(int)
    j = np.clip(np.floor(cols), 0, width - 2).astype(int)
    return i, rows - i, j, cols - j, nrows


def touched(bad, i, t, j, s, nrows, closed=True):
    """Fine pixels of the cells of the *bad* tie points; with closed=False only those on which the bad one has weight."""
    out = []
    for n in range(bad.shape[0] // nrows):
        b = bad[n * nrows:(n + 1) * nrows]
        hit = np.zeros((len(i), len(j)), dtype=bool)
        for di in (0, 1):
            for dj in (0, 1):
                corner = b[np.ix_(i + di, j + dj)]
                if not closed:
                    wr = (t if di else 1 - t)[:, None]
                    ws = (s if dj else 1 - s)[None, :]
                    corner = corner & (np.abs(wr) > 1e-9) & (np.abs(ws) > 1e-9)
                hit |= corner
        out.append(hit)
    return np.concatenate(out)


@group(quick=140, thorough=2500)
def missing_positions(c):
    kind, coarse, fine, width = CONFIGS[c.k % len(CONFIGS)]
    width = width or int(c.pick([2, 3, 7, 50, 300]))
    dtype = c.pick([np.float64, np.float32])
    nscans = int(c.rng.integers(1, 4))
    lon, lat, satz = (a.astype(dtype) for a in gen.modis_input(c.rng, coarse, nscans, width))
    run = (lambda a, b, z: api.angle(c, coarse, fine, a, b, z)) if kind == "angle" else \
        (lambda a, b, z: api.simple(c, coarse, fine, a, b))
    before = run(lon, lat, satz)
    what = c.pick(["position", "position", "longitude", "latitude"] + (["zenith"] if kind == "angle" else []))
    how = c.pick(["single", "few", "row", "column", "corner", "block", "many"])
    bad = np.zeros(lon.shape, dtype=bool)
    if how == "single":
        bad[int(c.rng.integers(lon.shape[0])), int(c.rng.integers(width))] = True
    elif how == "few":
        bad.flat[c.rng.integers(0, bad.size, 5)] = True
    elif how == "row":
        bad[int(c.rng.integers(lon.shape[0]))] = True
    elif how == "column":
        bad[:, int(c.rng.choice([0, width - 1, int(c.rng.integers(width))]))] = True
    elif how == "corner":
        bad[c.pick([0, -1]), c.pick([0, -1])] = True
    elif how == "block":
        r, q = int(c.rng.integers(lon.shape[0])), int(c.rng.integers(width))
        bad[r:r + 5, q:q + 20] = True
    else:
        bad[:] = c.rng.random(bad.shape) < 0.02
    a, b, z = lon.copy(), lat.copy(), satz.copy()
    if what in ("position", "longitude"):
        a[bad] = np.nan
    if what in ("position", "latitude"):
        b[bad] = np.nan
    if what == "zenith":
        z[bad] = np.nan
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans, missing=what, how=how,
           first=[int(v) for v in np.argwhere(bad)[0]] if bad.any() else [])
    after = run(a, b, z)
    i, t, j, s, nrows = cells(kind, coarse, fine, width)
    allowed = touched(bad, i, t, j, s, nrows)
    c.ensure(after[0].shape == allowed.shape and before[0].shape == allowed.shape, "unexpected shape %s" % (after[0].shape,))
    same = ~allowed
    c.within(gen.max_dist([v[same] for v in before], [v[same] for v in after]), gen.rounding_m(dtype),
             "%s: metres moved outside the cells of a missing tie point" % dtype.__name__)
    c.ensure(np.isfinite(before[0]).all() and np.isfinite(before[1]).all(), "valid input gave missing positions")
    if what != "zenith":
        needed = touched(bad, i, t, j, s, nrows, closed=False)
        res = after[0] if what in ("position", "longitude") else after[1]
        wrong = needed & ~np.isnan(res)
        c.ensure(not wrong.any(), "%d pixels interpolated from a missing %s are not missing (first at %s: %r)"
                 % (wrong.sum(), what, np.argwhere(wrong)[:1].tolist(), res[wrong][:1].tolist()))
        c.seen("pixels that had to be missing", int(needed.sum()))
    c.seen("pixels that had to stay", int(same.sum()))


def degenerate(c, shape, coarse):
    """Finite but degenerate tie points."""
    rows, cols = shape
    how = c.pick(["all equal", "equal rows", "equal columns", "pole", "pole inside", "meridian", "antimeridian",
                  "equator", "threshold", "360", "repeated", "plain", "symmetrical", "symmetrical"])
    lon, lat = gen.wiggly_positions(c.rng, shape, coarse / 1000.0)
    if how == "all equal":
        lon[:], lat[:] = c.pick([180.0, -180.0, 0.0, 90.0, 33.3]), c.pick([90.0, -90.0, 0.0, 53.13010235415598, -45.0])
    elif how == "equal rows":
        lon[:], lat[:] = lon[:1], lat[:1]
    elif how == "equal columns":
        lon[:], lat[:] = lon[:, :1], lat[:, :1]
    elif how == "pole":
        m = c.rng.random(shape) < 0.2
        sign = c.pick([1, -1])
        lon, lat = gen.wiggly_positions(c.rng, shape, coarse / 1000.0, (0.0, sign * 89.95, 0.0))
        lat[m] = sign * 90.0
    elif how == "pole inside":
        lon, lat = gen.wiggly_positions(c.rng, shape, coarse / 1000.0, (c.rng.uniform(-180, 180), c.pick([90.0, -90.0]), 0.0))
    elif how in ("meridian", "antimeridian"):
        lon[:] = 0.0 if how == "meridian" else c.rng.choice([180.0, -180.0], shape)
        lat[:] = np.linspace(-0.01 * rows, 0.01 * rows, rows)[:, None] + c.rng.uniform(-89, 89)
        lat = np.clip(lat, -90, 90)
    elif how == "equator":
        lat[:] = 0.0
        lon[:] = (np.arange(cols) * 0.01 + c.rng.uniform(-180, 180))[None, :]
    elif how == "threshold":
        lat[:] = c.pick([1, -1]) * np.rad2deg(np.arcsin(0.8))
        lon[:] = (np.arange(cols) * 0.01 + c.rng.uniform(-180, 180))[None, :]
    elif how == "360":
        lon = np.mod(lon, 360.0)
    elif how == "symmetrical":
        lon, lat, how = gen.symmetric_positions(c.rng, shape, coarse / 1000.0)
    elif how == "repeated":
        m = c.rng.random(shape) < 0.3
        m[:, 0] = False
        lon[:, 1:][m[:, 1:]] = lon[:, :-1][m[:, 1:]]
        lat[:, 1:][m[:, 1:]] = lat[:, :-1][m[:, 1:]]
    zen = gen.random_zenith(c.rng, shape, coarse)
    z = c.pick(["random", "random", "zero", "constant", "decreasing", "zero patches", "tiny", "nadir in one row"])
    if z == "zero":
        zen[:] = 0
    elif z == "constant":
        zen[:] = c.rng.uniform(0, 65)
    elif z == "decreasing":
        zen[:] = np.linspace(65, 0, cols)[None, :]
    elif z == "zero patches":
        zen[c.rng.random(shape) < 0.5] = 0
    elif z == "tiny":
        zen[:] = c.rng.uniform(0, 1e-6, shape)
    elif z == "nadir in one row":
        zen[:, cols // 2 - 1:cols // 2 + 1] = 0
    return lon, lat, zen, how, z


def valid(c, res, what):
    lon, lat = (np.asarray(a) for a in res)
    bad = ~(np.isfinite(lon) & np.isfinite(lat))
    c.ensure(not bad.any(), "%s: %d positions from valid input are not finite, first at %s"
             % (what, bad.sum(), np.argwhere(bad)[:1].tolist()))
    c.ensure(np.abs(lon).max() <= 180 and np.abs(lat).max() <= 90,
             "%s: positions out of range: |lon| %r |lat| %r" % (what, float(np.abs(lon).max()), float(np.abs(lat).max())))
    c.seen("positions checked for validity", lon.size)


@group(quick=200, thorough=3000)
def valid_positions(c):
    kind, coarse, fine, width = CONFIGS[c.k % len(CONFIGS)]
    width = width or int(c.pick([2, 3, 7, 50, 300]))
    dtype = c.pick([np.float64, np.float32])
    nscans = int(c.rng.integers(1, 3))
    lon, lat, satz, how, z = degenerate(c, (nscans * api.rows_per_scan(coarse), width), coarse)
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans, how=how, zenith=z)
    lon, lat, satz = lon.astype(dtype), lat.astype(dtype), satz.astype(dtype)
    res = api.angle(c, coarse, fine, lon, lat, satz) if kind == "angle" else api.simple(c, coarse, fine, lon, lat)
    valid(c, res, api.label(kind, coarse, fine))
    if how == "all equal":
        c.within(gen.dist_m(res[0], res[1], np.float64(lon.flat[0]), np.float64(lat.flat[0])), gen.rounding_m(dtype) + 1,
                 "%s: metres from the one place all tie points are at" % dtype.__name__)


@group(quick=150, thorough=2500)
def valid_vii(c):
    ties, nscans, factor = int(c.rng.integers(2, 6)), int(c.rng.integers(1, 4)), int(c.pick([1, 2, 3, 8]))
    lon, lat, _, how, _ = degenerate(c, (ties * nscans, int(c.pick([2, 3, 7, 30]))), c.pick([1000, 8000, 50000]))
    lat = np.clip(lat, -90, 90)
    dtype = c.pick([np.float64, np.float64, np.float32])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    kw = c.pick([{}, {}, dict(lat_threshold_use_cartesian=0.0), dict(lat_threshold_use_cartesian=90.0), dict(z_threshold_use_xy=0.0),
                 dict(z_threshold_use_xy=1.0, lat_threshold_use_cartesian=0.0), dict(lat_threshold_use_cartesian=0.0, z_threshold_use_xy=0.0)])
    c.note(vii=how, ties=ties, scans=nscans, factor=factor, shape=list(lon.shape), dtype=dtype.__name__, **kw)
    res = c.call("vii positions", tie_points_geo_interpolation, *(xr.DataArray(a, dims=("y", "x")) for a in (lon, lat)), ties, factor, **kw)
    glon, glat = (np.asarray(a, dtype=np.float64) for a in res)
    bad = ~(np.isfinite(glon) & np.isfinite(glat))
    c.ensure(not bad.any(), "vii: %d positions from valid input are not finite, first at %s" % (bad.sum(), np.argwhere(bad)[:1].tolist()))
    eps = 1e-12 if dtype is np.float64 else 1e-4
    most = max(180.0, float(lon.max())) + eps
    c.ensure(glon.max() <= most and glon.min() >= -180 - eps and np.abs(glat).max() <= 90,
             "vii: positions out of range: lon %r to %r, |lat| %r" % (float(glon.min()), float(glon.max()), float(np.abs(glat).max())))
    c.seen("vii positions checked for validity", glon.size)


@group(quick=200, thorough=4000)
def geographical_grid(c):
    rows, cols = int(c.rng.integers(2, 12)), int(c.rng.integers(2, 12))
    lon, lat, _, how, _ = degenerate(c, (rows, cols), c.pick([1000, 5000, 20000]))
    y, x = np.arange(rows) * 4, np.arange(cols) * 5 + 2
    fine = np.arange(y[-1] + 1), np.arange(x[0], x[-1] + 1)
    c.note(how=how, shape=[rows, cols])
    g = c.call("GeoGridInterpolator", GeoGridInterpolator, (y, x), lon, lat)
    before = [np.asarray(a) for a in c.call("geo grid interpolate", g.interpolate, fine)]
    valid(c, before, "geographical grid interpolator")
    bad = np.zeros(lon.shape, dtype=bool)
    bad.flat[c.rng.integers(0, bad.size, int(c.rng.integers(1, 4)))] = True
    a, b = np.where(bad, np.nan, lon), np.where(bad, np.nan, lat)
    g2 = c.call("GeoGridInterpolator", GeoGridInterpolator, (y, x), a, b)
    after = [np.asarray(v) for v in c.call("geo grid interpolate", g2.interpolate, fine)]
    # every cell a pixel may be counted to
    allowed = np.zeros(before[0].shape, dtype=bool)
    needed = np.zeros(before[0].shape, dtype=bool)
    for r, q in np.argwhere(bad):
        dy, dx = np.abs(fine[0] - y[r]), np.abs(fine[1] - x[q])
        allowed |= (dy <= 4)[:, None] & (dx <= 5)[None, :]
        needed |= (dy < 4)[:, None] & (dx < 5)[None, :]
    c.within(gen.max_dist([v[~allowed] for v in before], [v[~allowed] for v in after]), 1e-4,
             "geo grid: metres moved outside the cells of a missing tie point")
    c.ensure(np.isnan(after[0][needed]).all() and np.isnan(after[1][needed]).all(),
             "positions interpolated from missing tie points are not missing")


def vii_cells(bad, ties, factor, closed):
    """Pixels of the cells of the bad tie points, also those between scans; with closed=False only those on which they have weight."""
    start = np.arange(bad.shape[0] // ties) * ties
    rows = (start[:, None] + (np.arange((ties - 1) * factor) / factor)[None, :]).ravel()
    cols = np.arange((bad.shape[1] - 1) * factor) / factor
    hit = np.zeros((len(rows), len(cols)), dtype=bool)
    for r, q in np.argwhere(bad):
        dr, dq = np.abs(rows - r), np.abs(cols - q)
        hit |= (((dr <= 1)[:, None] & (dq <= 1)[None, :]) if closed else ((dr < 1)[:, None] & (dq < 1)[None, :]))
    return hit


@group(quick=200, thorough=4000)
def missing_vii(c):
    ties, nscans, factor = int(c.rng.integers(2, 8)), int(c.rng.integers(1, 5)), int(c.pick([1, 2, 3, 8]))
    act = int(c.pick([2, 3, 7, 15]))
    shape = (ties * nscans, act)
    where = c.pick(["anywhere", "high latitudes", "antimeridian", "low latitudes", "data"])
    if where == "high latitudes":
        fr = (c.rng.uniform(-180, 180), c.pick([1, -1]) * c.rng.uniform(65, 90), c.rng.uniform(-180, 180))
    elif where == "antimeridian":
        fr = (180.0, c.rng.uniform(-50, 50), 0.0)
    elif where == "low latitudes":
        fr = (c.rng.uniform(-100, 100), c.rng.uniform(-40, 40), c.rng.uniform(-180, 180))
    else:
        fr = None
    lon, lat = gen.wiggly_positions(c.rng, shape, float(c.pick([1.0, 8.0, 50.0])), fr)
    bad = np.zeros(shape, dtype=bool)
    how = c.pick(["single", "few", "row", "column", "many"])
    if how == "row":
        bad[int(c.rng.integers(shape[0]))] = True
    elif how == "column":
        bad[:, int(c.rng.integers(act))] = True
    else:
        bad.flat[c.rng.integers(0, bad.size, {"single": 1, "few": 4, "many": bad.size // 4 + 1}[how])] = True
    lazy = c.rng.random() < 0.3
    c.note(vii=where, ties=ties, scans=nscans, factor=factor, act=act, how=how, lazy=lazy)

    def wrap(a):
        return xr.DataArray(da.from_array(a, chunks=tuple(int(c.rng.integers(max(1, s // 20), s + 1)) for s in a.shape)) if lazy else a,
                            dims=("y", "x"))
    if where == "data":
        arrs = [c.rng.normal(size=shape) for _ in range(3)]
        bad3 = [bad, np.zeros(shape, dtype=bool), c.rng.random(shape) < 0.1]

        def run(arrs):
            return [np.asarray(r) for r in c.call("vii data", tie_points_interpolation, [wrap(a) for a in arrs], ties, factor)]
        before, after = run(arrs), run([np.where(b, np.nan, a) for a, b in zip(arrs, bad3)])
        for b, f, m in zip(before, after, bad3):
            c.ensure(np.isfinite(b).all(), "vii data: valid input gave missing values")
            c.close(f[~vii_cells(m, ties, factor, True)], b[~vii_cells(m, ties, factor, True)], 1e-12, "vii data outside the cells of missing values")
            c.ensure(np.isnan(f[vii_cells(m, ties, factor, False)]).all(), "vii data interpolated from missing values are not missing")
        return

    def positions(lon, lat):
        return [np.asarray(r) for r in c.call("vii positions", tie_points_geo_interpolation, wrap(lon), wrap(lat), ties, factor)]

    def choice(lon, lat):
        return bool(np.nanmax(np.abs(lat)) > 60.0 or np.nanmax(lon) - np.nanmin(lon) > 180)
    before = positions(lon, lat)
    c.ensure(all(np.isfinite(b).all() for b in before), "vii positions: valid input gave missing positions")
    c.ensure(np.abs(before[0]).max() <= 180 and np.abs(before[1]).max() <= 90, "vii positions out of range")
    if bad.all():
        return
    mlon, mlat = np.where(bad, np.nan, lon), np.where(bad, np.nan, lat)
    after = positions(mlon, mlat)
    allowed, needed = vii_cells(bad, ties, factor, True), vii_cells(bad, ties, factor, False)
    c.ensure(after[0].shape == allowed.shape == before[0].shape, "vii positions: shape %s" % (after[0].shape,))
    c.ensure(np.isnan(after[0][needed]).all() and np.isnan(after[1][needed]).all(), "vii positions interpolated from missing ones are not missing")
    if choice(lon, lat) == choice(mlon, mlat):      # the missing ones do not decide how to interpolate
        c.within(gen.max_dist([v[~allowed] for v in before], [v[~allowed] for v in after]), 1e-3,
                 "vii positions: metres moved outside the cells of a missing tie point")
        c.seen("vii pixels that had to stay (%s)" % ("cartesian" if choice(lon, lat) else "in degrees"), int((~allowed).sum()))
    else:
        c.ensure(np.isfinite(after[0][~allowed]).all() and np.isfinite(after[1][~allowed]).all(),
                 "vii positions missing outside the cells of a missing tie point")
