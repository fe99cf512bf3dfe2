"""Requests that have much in common - shapes, numbers, first and last values, all arguments but one - for code that remembers too much.

family(c, name) -> list of (label, arrays, run) as in subjects.
"""
import numpy as np
import xarray as xr

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator, lonlat2xyz, xyz2lonlat
from geotiepoints.interpolator import Interpolator, SingleGridInterpolator, SingleSplineInterpolator
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, legacy

NAMES = ["zenith-angle", "zenith-angle widths", "lon/lat only", "multilinear", "grid", "spline", "geo grid", "geo spline", "Interpolator",
         "GeoInterpolator", "vii data", "vii positions", "basic", "conversion", "helpers"]


def nudged(c, a):
    """The same but for one value, a block, or the order."""
    b = np.array(a)
    flat = b.reshape(-1)
    how = c.pick(["one", "block", "reversed", "rolled", "last"])
    if how == "one":
        flat[int(c.rng.integers(flat.size))] *= 0.999
    elif how == "last":
        flat[-1] *= 0.999
    elif how == "block":
        k = int(c.rng.integers(flat.size))
        flat[k:k + max(1, flat.size // 4)] *= 0.9999
    elif how == "rolled":
        flat[:] = np.roll(flat, b.shape[-1])
    else:
        b = np.ascontiguousarray(b[::-1])
    return b


def between(c, p):
    """As many positions, from and to the same ones."""
    q = np.array(p, dtype=float)
    if len(q) > 2:
        q[1:-1] = np.sort(c.rng.uniform(q[0], q[-1], len(q) - 2))
    return q


def family(c, name, n=4):
    rng = c.rng
    dtype = c.pick([np.float64, np.float32])
    out = []
    if name == "zenith-angle":
        # one swath: all resolutions, other angles, other latitudes
        coarse, _, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
        arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, 1, width)]
        fines = [f for r, f, w in api.ANGLE_CONFIGS if (r, w) == (coarse, width)]
        for _ in range(n):
            fine = int(c.pick(fines))
            given = [nudged(c, a) if rng.random() < 0.25 else a for a in arrs]
            out.append((api.label(name, coarse, fine), given, lambda a, fine=fine: list(api.angle(c, coarse, fine, *a))))
        return out
    if name == "zenith-angle widths":
        # 5 km swaths of both widths and 1 km ones, to the same resolutions
        for _ in range(n):
            coarse, fine, width = c.pick([(r, f, w) for r, f, w in api.ANGLE_CONFIGS if f != 250])
            arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, 1, width)]
            out.append((api.label("zenith-angle", coarse, fine), arrs, lambda a, r=coarse, f=fine: list(api.angle(c, r, f, *a))))
        return out
    if name == "lon/lat only":
        arrs = [a.astype(dtype) for a in gen.modis_input(rng, 500, int(rng.integers(1, 3)), int(c.pick([2, 30, 200])))[:2]]
        for _ in range(n):
            coarse, fine = c.pick([(1000, 500), (1000, 250), (500, 250)])
            given = [nudged(c, a) if rng.random() < 0.25 else a for a in arrs]
            out.append((api.label(name, coarse, fine), given, lambda a, r=coarse, f=fine: list(api.simple(c, r, f, *a))))
        return out
    if name == "multilinear":
        d = int(rng.integers(1, 4))
        total, k = {1: [[12]], 2: [[2, 6], [6, 2], [3, 4], [4, 3]], 3: [[2, 2, 3], [3, 2, 2], [2, 3, 2]]}[d], int(rng.integers(1, 3))
        base = [rng.uniform(-2, 0, d).astype(dtype), rng.uniform(1, 2, d).astype(dtype), rng.normal(size=(k, 12)).astype(dtype),
                rng.uniform(-3, 3, (d, 20)).astype(dtype)]
        for _ in range(n):
            orders = np.array(c.pick(total))
            given = [nudged(c, a) if rng.random() < 0.3 else a for a in base]

            def run(a, orders=orders):
                it = c.call("MultilinearInterpolator", MultilinearInterpolator, a[0], a[1], orders, a[2], dtype=dtype)
                return [c.call("multilinear interpolate", it.interpolate, a[3]), it.grid]
            out.append((name, given, run))
        return out
    if name in ("grid", "spline", "geo grid", "geo spline", "Interpolator", "GeoInterpolator"):
        s, m = int(rng.integers(6, 10)), int(rng.integers(6, 10))
        rows, cols = np.arange(s) * 5.0, np.arange(m) * 4.0
        fine = [np.sort(rng.uniform(rows[0], rows[-1], 12)), np.sort(rng.uniform(cols[0], cols[-1], 11))]
        geo = name.lower().startswith("geo")
        data = list(gen.wiggly_positions(rng, (s, m), 10.0)) if geo else [rng.normal(size=(s, m))]
        cls = {"grid": SingleGridInterpolator, "spline": SingleSplineInterpolator, "geo grid": GeoGridInterpolator, "geo spline": GeoSplineInterpolator,
               "Interpolator": Interpolator, "GeoInterpolator": GeoInterpolator}[name]
        for _ in range(n):
            d = [np.clip(nudged(c, a), -180, 180) if rng.random() < 0.4 else a for a in data]
            f = [between(c, p) if rng.random() < 0.4 else p for p in fine]
            t = [between(c, p) if rng.random() < 0.2 else p for p in (rows, cols)]
            kx, ky = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            lazy = {} if rng.random() < 0.6 else dict(chunks=5)

            def run(a, kx=kx, ky=ky, lazy=lazy):
                if "Interpolator" in name:
                    it = c.call(name, cls, tuple(a[4:]) if geo else list(a[4:]), (a[0], a[1]), (a[2], a[3]), kx, ky)
                    return list(c.call(name, it.interpolate))
                kw = dict(kx=kx, ky=ky) if "spline" in name else dict(method=["linear", "nearest", "slinear"][kx - 1])
                it = c.call(name, cls, (a[0], a[1]), *a[4:], **kw)
                res = c.call(name, it.interpolate, (a[2], a[3]), **lazy)
                return [np.asarray(r) for r in (res if geo else [res])]
            out.append((name, t + f + d, run))
        return out
    if name.startswith("vii"):
        pixels = int(c.pick([4, 6, 8, 12, 24]))
        splits = [(pixels // f + 1, f) for f in range(1, pixels + 1) if pixels % f == 0]
        scans, act = int(rng.integers(1, 4)), int(rng.integers(2, 9))
        for _ in range(n):
            ties, factor = splits[int(rng.integers(len(splits)))]
            data = list(gen.wiggly_positions(rng, (ties * scans, act), 8.0))
            if out and rng.random() < 0.4:
                data = [a.copy() for a in out[-1][1]]
                ties = int(c.pick([t for t in range(2, len(data[0]) + 1) if len(data[0]) % t == 0]))

            def run(a, ties=ties, factor=factor):
                d = [xr.DataArray(v, dims=("y", "x")) for v in a]
                if name == "vii data":
                    return [r.values for r in c.call(name, tie_points_interpolation, d, ties, factor)]
                return [r.values for r in c.call(name, tie_points_geo_interpolation, *d, ties, factor)]
            out.append((name, data, run))
        return out
    if name == "basic":
        s, m = int(rng.integers(4, 8)), int(rng.integers(4, 8))
        rows, cols = (np.concatenate([[0], np.cumsum(rng.integers(1, 6, k - 1))]) for k in (s, m))
        data = [rng.uniform(-90, 90, (s, m)), rng.uniform(-180, 180, (s, m))]
        for _ in range(n):
            r, q = rows.copy(), cols.copy()
            for p in (r, q):
                if rng.random() < 0.5:      # as long, other positions in between
                    k = int(rng.integers(1, len(p) - 1))
                    p[k] = int(rng.integers(p[k - 1] + 1, p[k + 1]))  if p[k + 1] - p[k - 1] > 1 else p[k]
            given = [nudged(c, a) if rng.random() < 0.4 else a for a in data]

            def run(a):
                it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, *a)
                return [np.asarray(v) for v in c.call("basic interpolate", it.interpolate)]
            out.append((name, [q, r] + given, run))
        return out
    if name == "conversion":
        shape = (int(rng.integers(1, 9)), int(rng.integers(1, 9)))
        lon, lat = gen.wiggly_positions(rng, shape, 100.0)
        for _ in range(n):
            radius, low, thr = float(c.pick([1.0, 6370997.0, 6378137.0])), bool(rng.random() < 0.5), float(c.pick([0.3, 0.8]))
            given = [np.clip(nudged(c, a), -180, 180) if rng.random() < 0.3 else a for a in (lon, np.clip(lat, -90, 90))]

            def run(a, radius=radius, low=low, thr=thr):
                xyz = c.call("lonlat2xyz", lonlat2xyz, *a, radius=radius)
                return list(xyz) + list(c.call("xyz2lonlat", xyz2lonlat, *xyz, radius=radius, low_lat_z=low, thr=thr))
            out.append((name, given, run))
        return out
    lon, lat, _, _ = legacy.simulate("modis1kmto500m", gen.frame(*gen.random_frame(rng)), 1)
    for _ in range(n):
        which = c.pick(["modis1kmto500m", "modis1kmto500m", "modis1kmto250m"])
        given = [nudged(c, a) if rng.random() < 0.4 else a for a in (lon, lat)]
        out.append((which, given, lambda a, which=which: list(c.call(which, legacy.HELPERS[which][0], *a))))
    return out
