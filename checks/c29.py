"""C29: what setup.py does not require is not needed: numpy data is interpolated alike without dask, xarray and the like.

Oracle: the bits of what processes compute in which some packages cannot be found, against what this process computes.
"""
import atexit
import subprocess
import sys

import numpy as np
import xarray as xr

from vlib import api, gen, legacy
from vlib.core import Violation, group
from vlib.plans import play, receive, send

# what may be missing (setup.py requires numpy, scipy and pandas)
WORLDS = {"without dask": "dask,distributed,cloudpickle", "without xarray and dask": "xarray,dask,distributed,cloudpickle,fsspec,toolz",
          "without geometry packages": "pyresample,pyproj,shapely,h5py,pyhdf,netCDF4,pykdtree,configobj,yaml,donfig,platformdirs,pytest",
          "bare": "dask,distributed,cloudpickle,xarray,pyresample,pyproj,shapely,h5py,pyhdf,netCDF4,pykdtree,pytest,toolz,fsspec,numba,numexpr,bottleneck,Cython,versioneer"}
MODULES = ["geotiepoints", "geotiepoints.interpolator", "geotiepoints.geointerpolator", "geotiepoints.multilinear", "geotiepoints.basic_interpolator",
           "geotiepoints.modisinterpolator", "geotiepoints.simple_modis_interpolator"]
PROCESSES = {}


def process(c, world):
    if world not in PROCESSES:
        first = [str(m) for m in c.rng.permutation(MODULES)[:int(c.pick([0, 1, len(MODULES)]))]]
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vlib.plans", WORLDS[world], ",".join(first)], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE)
        atexit.register(p.kill)
        start = receive(p.stdout)
        if not start or start[0] != "ready":
            p.kill()
            raise Violation("%s %s cannot be imported: %s" % (world, first or "geotiepoints", start and start[1]))
        PROCESSES[world] = p
    return PROCESSES[world]


def plan(c, name, with_xarray):
    rng = c.rng
    dtype = c.pick([np.float64, np.float64, np.float32])
    n, m = int(rng.integers(6, 11)), int(rng.integers(6, 11))
    rows, cols = np.arange(n) * 5.0 + 2, np.arange(m) * 4.0 + 1
    if name in ("zenith-angle", "lon/lat only"):
        if name == "zenith-angle":
            coarse, fine, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
            fn = api.ANGLE[coarse, fine].__name__, "geotiepoints.modisinterpolator"
        else:
            coarse, fine, width = c.pick([(1000, 500, 1354), (1000, 250, 9), (1000, 500, 2)])
            fn = api.SIMPLE[coarse, fine].__name__, "geotiepoints.simple_modis_interpolator"
        kw = {}
        if rng.random() < 0.3:
            fn = "interpolate" if name[0] == "z" else "interpolate_geolocation_cartesian", fn[1]
            kw = dict(coarse_resolution=coarse, fine_resolution=fine, **(dict(coarse_scan_width=width) if name[0] == "z" else {}))
        arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, int(rng.integers(1, 4)), width)][:3 if name[0] == "z" else 2]
        if with_xarray and rng.random() < 0.5:
            c.seen("DataArrays of numpy arrays")
            arrs = [xr.DataArray(a, dims=("y", "x")) for a in arrs]
        return [("get", fn[1], fn[0], arrs, kw)]
    if name == "multilinear":
        d = int(rng.integers(1, 5))
        orders = rng.integers(2, 6, d)
        values = rng.normal(size=(int(rng.integers(1, 3)), int(np.prod(orders)))).astype(dtype)
        pts = rng.uniform(-3, 3, (d, int(rng.integers(2, 60)))).astype(dtype)
        return [("get", "geotiepoints.multilinear", "MultilinearInterpolator",
                 (rng.uniform(-2, 0, d), rng.uniform(1, 2, d), orders, values), dict(dtype=dtype)), ("do", c.pick(["interpolate", None]), (pts,), {}),
                ("see", "grid")]
    geo = list(gen.wiggly_positions(rng, (n, m), 10.0))
    data = [rng.normal(size=(n, m)).astype(dtype) for _ in range(int(rng.integers(1, 4)))]
    fine = c.pick([(np.sort(rng.uniform(rows[0], rows[-1], 12)), np.sort(rng.uniform(cols[0], cols[-1], 11))),
                   (slice(2, n * 5 - 5, 2), slice(1, m * 4 - 4))] if name.startswith("Single") else
                  [(np.sort(rng.uniform(rows[0], rows[-1], 12)), np.sort(rng.uniform(cols[0], cols[-1], 11)))])
    if name in ("SingleGridInterpolator", "SingleSplineInterpolator", "MultipleGridInterpolator", "MultipleSplineInterpolator"):
        if name.startswith("Single"):
            data = data[:1]
        method = ("do", "interpolate", (fine,), {}) if isinstance(fine[0], np.ndarray) else ("do", "interpolate_slices", (fine,), {})
        if name.startswith("Multiple") and rng.random() < 0.5:
            rows, cols = rows - 2, cols - 1
            method = ("do", "interpolate_to_shape", ((n * 5 - 4, m * 4 - 3),), {})
        return [("get", "geotiepoints.interpolator", name, ((rows, cols), *data), {}), method]
    if name in ("GeoGridInterpolator", "GeoSplineInterpolator"):
        if rng.random() < 0.4:
            return [("get", "geotiepoints.geointerpolator", name, ((rows - 2, cols - 1), *geo), {}),
                    ("do", "interpolate_to_shape", ((n * 5 - 4, m * 4 - 3),), {})]
        return [("get", "geotiepoints.geointerpolator", name, ((rows, cols), *geo), {}), ("do", "interpolate", (fine,), {})]
    if name in ("Interpolator", "Interpolator 1d", "GeoInterpolator"):
        hrows = rows.copy() if "1d" in name else np.arange(n * 5.0)
        args = ((tuple(geo) if name[0] == "G" else data), (rows, cols), (hrows, np.arange(m * 4.0)), int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        fill = [("do", "fill_borders", c.pick([("y", "x"), ("x",)]) if "1d" not in name else ("x",), {})]
        return ([("get", "geotiepoints.geointerpolator" if name[0] == "G" else "geotiepoints.interpolator", name.split()[0], args, {})]
                + fill * int(rng.integers(2)) + [("do", "interpolate", (), {})])
    if name == "BasicSatelliteInterpolator":
        r, q = (np.concatenate([[0], np.cumsum(rng.integers(1, 6, k - 1))]) for k in (n, m))
        return [("get", "geotiepoints.basic_interpolator", name, (q, r, *geo), {}), ("do", "interpolate", (), {})]
    if name == "conversion":
        v = gen.R_M * gen.unit(*geo)
        xyz = [np.ascontiguousarray(v[..., i]).astype(dtype) for i in range(3)]
        return [("get", "geotiepoints.geointerpolator", "lonlat2xyz", geo, c.pick([{}, dict(radius=1.0)])),
                ("get", "geotiepoints.geointerpolator", "lonlat2xyz", (float(geo[0][0, 0]), float(geo[1][0, 0])), {}),
                ("get", "geotiepoints.geointerpolator", "xyz2lonlat", xyz, c.pick([{}, dict(thr=0.5), dict(low_lat_z=False)])),
                ("get", "geotiepoints.multilinear", "mlinspace", ([0.0, 1.0], [1.0, 3.0], [3, 2]), {})]
    if name == "generic_modis5kmto1km":
        return [("get", "geotiepoints.interpolator", name, [rng.normal(size=(4, 271)) for _ in range(2)], {})]
    lon, lat, _, _ = legacy.simulate(name, gen.frame(*gen.random_frame(rng)), 2 if name == "metop20kmto1km" else 1)
    kw = dict(cores=2) if name in ("modis1kmto500m", "modis1kmto250m") and rng.random() < 0.3 else {}
    return [("get", "geotiepoints", name, (lon, lat), kw)]


NAMES = ["zenith-angle", "zenith-angle", "lon/lat only", "multilinear", "SingleGridInterpolator", "SingleSplineInterpolator", "MultipleGridInterpolator",
         "MultipleSplineInterpolator", "GeoGridInterpolator", "GeoSplineInterpolator", "Interpolator", "Interpolator 1d", "GeoInterpolator",
         "BasicSatelliteInterpolator", "conversion", "generic_modis5kmto1km", "metop20kmto1km", "modis5kmto1km", "modis1kmto500m", "modis1kmto250m"]


@group(quick=240, thorough=5000)
def numpy_only(c):
    name = NAMES[c.k % len(NAMES)]
    world = sorted(WORLDS)[int(c.rng.integers(len(WORLDS)))]
    p = process(c, world)
    what = plan(c, name, "xarray" not in WORLDS[world])
    c.note(call=name, world=world, steps=str([s[:3] if s[0] == "get" else s[:2] for s in what])[:200])
    want = c.call(name, play, what)
    send(p.stdin, what)
    got = receive(p.stdout)
    if got is None:
        PROCESSES.pop(world)
        raise Violation("%s %s: the process ended" % (name, world))
    c.ensure(got[0] == "ok", "%s %s: %s" % (name, world, got[1]))
    c.ensure(not got[2], "%s %s: imported %s nevertheless" % (name, world, got[2]))
    c.ensure(len(got[1]) == len(want), "%s %s: %d results instead of %d" % (name, world, len(got[1]), len(want)))
    for g, w in zip(got[1], want):
        c.equal(g, w, "%s %s" % (name, world))
    c.seen(world + ": " + name)
    c.seen("results compared with processes lacking packages", len(want))


@group(quick=24, thorough=400)
def lazy_without_dask(c):
    """What does need a missing package says so."""
    world = c.pick([w for w in WORLDS if "dask" in WORLDS[w]])
    p = process(c, world)
    n = int(c.rng.integers(6, 9))
    rows = np.arange(n) * 5.0
    geo = list(gen.wiggly_positions(c.rng, (n, n), 10.0))
    name = c.pick(["SingleGridInterpolator", "MultipleSplineInterpolator", "GeoSplineInterpolator"])
    fine = np.linspace(0, rows[-1], 9)
    what = [("get", "geotiepoints.geointerpolator" if name[0] == "G" else "geotiepoints.interpolator", name,
             ((rows, rows), *(geo[:1] if name[0] == "S" else geo)), {}), ("do", "interpolate", ((fine, fine),), dict(chunks=int(c.rng.integers(2, 9))))]
    c.note(call=name + " lazy", world=world)
    c.call(name + " lazy", play, what)
    send(p.stdin, what)
    got = receive(p.stdout)
    c.ensure(got is not None and got[0] == "error" and got[2], "%s for chunks %s: %s" % (name, world, got and got[0]))
    c.seen("missing package reported")


@group(quick=12, thorough=100)
def imports(c):
    """Every module alone in a fresh process."""
    world = sorted(WORLDS)[c.k % len(WORLDS)]
    first = [str(m) for m in c.rng.permutation(MODULES)[:2]]
    if c.k // len(WORLDS) == 0:
        first = list(MODULES)
    c.note(world=world, modules=str(first))
    c.calls.append("import")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "vlib.plans", WORLDS[world], ",".join(first)], input=b"", capture_output=True, timeout=120)
    c.ensure(p.returncode == 0 and b"ready" in p.stdout, "%s, importing %s: %s %s" % (world, first, p.stdout[-200:], p.stderr[-200:]))
    c.seen("imports " + world)
