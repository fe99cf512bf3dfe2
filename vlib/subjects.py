"""Every public entry point as a subject: valid numpy input of it and how to call it with any representation of that input.

A subject is (label, arrays, run): *arrays* are the data arguments (float numpy arrays), run(arrays) -> list of results.
Position-like arguments (tie positions, requested positions, bounds) are part of *arrays* where *run* takes arrays.
"""
import numpy as np
import xarray as xr

import geotiepoints
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import (GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator, lonlat2xyz, xyz2lonlat)
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator, mlinspace
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, legacy

NAMES = ["zenith-angle", "zenith-angle", "lon/lat only", "lon/lat only", "multilinear", "multilinear", "grid", "spline", "multiple grid",
         "multiple spline", "geo grid", "geo spline", "Interpolator", "Interpolator 1d", "Interpolator borders",
         "GeoInterpolator", "GeoInterpolator borders", "vii data", "vii positions", "basic", "lonlat2xyz", "xyz2lonlat",
         "metop20kmto1km", "modis5kmto1km", "modis1kmto500m", "modis1kmto250m", "generic_modis5kmto1km"]


LONGITUDE = {"zenith-angle": 0, "lon/lat only": 0, "geo grid": 4, "geo spline": 4, "GeoInterpolator": 4, "GeoInterpolator borders": 4,
             "vii positions": 0, "lonlat2xyz": 0, "metop20kmto1km": 0, "modis5kmto1km": 0, "modis1kmto500m": 0, "modis1kmto250m": 0}


def subject(c, name=None, float32=True):
    name = name or NAMES[c.k % len(NAMES)]
    label, arrs, run = simple_subject(c, name, float32)
    if name in LONGITUDE and c.rng.random() < 0.25:      # longitudes of 0 to 360 degrees
        i = LONGITUDE[name]
        arrs[i] = np.ascontiguousarray(np.mod(arrs[i], np.array(360, arrs[i].dtype)))
        c.seen("longitudes of 0 to 360 degrees")
    return label, arrs, run


def requested(c, rows, cols):
    """Positions between those of the ties, sometimes exactly those along one or both axes."""
    fine = [np.sort(c.rng.uniform(rows[0], rows[-1], 12)), np.sort(c.rng.uniform(cols[0], cols[-1], 11))]
    if c.rng.random() < 0.3:
        which = int(c.rng.integers(6))
        fine = [t.copy() if which == i or which > 1 else f for i, (t, f) in enumerate(((rows, fine[0]), (cols, fine[1])))]
        c.seen("requests for the tie points themselves")
    return fine


def simple_subject(c, name, float32):
    rng = c.rng
    dtype = c.pick([np.float64, np.float64, np.float32]) if float32 else np.float64
    if name == "zenith-angle":
        coarse, fine, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
        arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, int(rng.integers(1, 3)), width)]
        return api.label(name, coarse, fine), arrs, lambda a: list(api.angle(c, coarse, fine, *a))
    if name == "lon/lat only":
        coarse, fine = c.pick([(1000, 500), (1000, 250), (500, 250)])
        arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, int(rng.integers(1, 3)), int(c.pick([2, 9, 100, 1354])))[:2]]
        return api.label(name, coarse, fine), arrs, lambda a: list(api.simple(c, coarse, fine, *a))
    if name == "multilinear":
        d = int(rng.integers(1, 5))
        orders = np.array(rng.integers(2, 6, d))
        arrs = [rng.uniform(-2, 0, d).astype(dtype), rng.uniform(1, 2, d).astype(dtype),
                rng.normal(size=(int(rng.integers(1, 4)), int(np.prod(orders)))).astype(dtype),
                rng.uniform(-3, 3, (d, int(rng.integers(2, 50)))).astype(dtype)]

        def run(a):
            it = c.call("MultilinearInterpolator", MultilinearInterpolator, a[0], a[1], orders, a[2], dtype=dtype)
            return [c.call("multilinear interpolate", it.interpolate, a[3]), it.grid]
        return name, arrs, run
    n, m = int(rng.integers(6, 11)), int(rng.integers(6, 11))
    rows, cols = np.arange(n) * 5.0 + 2, np.arange(m) * 4.0 + 1
    if name in ("grid", "spline", "multiple grid", "multiple spline"):
        k = 1 if " " not in name else int(rng.integers(2, 4))
        data = [rng.normal(size=(n, m)).astype(dtype) for _ in range(k)]
        fine = requested(c, rows, cols)
        cls = {"grid": SingleGridInterpolator, "spline": SingleSplineInterpolator, "multiple grid": MultipleGridInterpolator,
               "multiple spline": MultipleSplineInterpolator}[name]
        lazy = {} if rng.random() < 0.6 else dict(chunks=5)

        def run(a):
            it = c.call(cls.__name__, cls, (a[0], a[1]), *a[4:])
            res = c.call(name, it.interpolate, (a[2], a[3]), **lazy)
            return [np.asarray(r) for r in ([res] if k == 1 else res)]
        return name, [rows, cols] + fine + data, run
    if name in ("geo grid", "geo spline"):
        data = [a.astype(dtype) for a in gen.wiggly_positions(rng, (n, m), 10.0)]
        fine = requested(c, rows, cols)
        cls = GeoGridInterpolator if "grid" in name else GeoSplineInterpolator

        def run(a):
            it = c.call(name, cls, (a[0], a[1]), a[4], a[5])
            return list(c.call(name, it.interpolate, (a[2], a[3])))
        return name, [rows, cols] + fine + data, run
    if name.startswith("Interpolator") or name.startswith("GeoInterpolator"):
        geo = name.startswith("Geo")
        data = list(gen.wiggly_positions(rng, (n, m), 10.0)) if geo else [rng.normal(size=(n, m)) for _ in range(int(rng.integers(1, 3)))]
        hrows = rows.copy() if "1d" in name else np.arange(n * 5.0) if "borders" in name else np.sort(rng.uniform(rows[0], rows[-1], 12))
        hcols = np.arange(m * 4.0) if "borders" in name else np.sort(rng.uniform(cols[0], cols[-1], 12))
        if "borders" not in name and rng.random() < 0.3:
            hrows, hcols = [t.copy() if rng.random() < 0.8 else h for t, h in ((rows, hrows), (cols, hcols))]
        kx, ky = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        cls = GeoInterpolator if geo else Interpolator

        def run(a):
            it = c.call(cls.__name__, cls, tuple(a[4:]) if geo else list(a[4:]), (a[0], a[1]), (a[2], a[3]), kx, ky)
            if "borders" in name:
                c.call("fill_borders", it.fill_borders, "y", "x")
            return list(c.call(name, it.interpolate))
        return name, [rows, cols, hrows, hcols] + data, run
    if name.startswith("vii"):
        ties, factor = int(rng.integers(2, 5)), int(c.pick([1, 2, 8]))
        data = list(gen.wiggly_positions(rng, (ties * int(rng.integers(1, 3)), m), 8.0))

        def run(a):
            d = [xr.DataArray(v, dims=("y", "x")) for v in a]
            if name == "vii data":
                return [r.values for r in c.call(name, tie_points_interpolation, d, ties, factor)]
            return [r.values for r in c.call(name, tie_points_geo_interpolation, *d, ties, factor)]
        return name, data, run
    if name == "basic":
        r, q = (np.concatenate([[0], np.cumsum(rng.integers(1, 6, k - 1))]) for k in (n, m))
        data = [rng.uniform(-90, 90, (n, m)), rng.uniform(-180, 180, (n, m))]

        def run(a):
            it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, a[0], a[1], a[2], a[3])
            return [np.asarray(v) for v in c.call("basic interpolate", it.interpolate)]
        return name, [q, r] + data, run
    if name == "lonlat2xyz":
        return name, [a.astype(dtype) for a in gen.wiggly_positions(rng, (n, m), 100.0)], lambda a: list(c.call(name, lonlat2xyz, *a))
    if name == "xyz2lonlat":
        v = gen.R_M * gen.unit(*gen.wiggly_positions(rng, (n, m), 100.0))
        return name, [np.ascontiguousarray(v[..., i]).astype(dtype) for i in range(3)], lambda a: list(c.call(name, xyz2lonlat, *a))
    if name == "generic_modis5kmto1km":
        data = [rng.normal(size=(2 * int(rng.integers(1, 2)), 271)) for _ in range(2)]
        return name, data, lambda a: list(c.call(name, legacy.generic, *a))
    lon, lat, _, _ = legacy.simulate(name, gen.frame(*gen.random_frame(rng)), 2 if name == "metop20kmto1km" else 1)
    return name, [lon, lat], lambda a: list(c.call(name, legacy.HELPERS[name][0], *a))
