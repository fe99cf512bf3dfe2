"""C27: work can be sent to other processes: lazy results and interpolator objects give there what they give here.

Oracle: the bits of what another process (of a pool serving all cases, or a fresh one that imported nothing before)
computes, against what this process computes.
"""
import concurrent.futures
import copy
import multiprocessing
import os
import pickle
import subprocess
import sys

import cloudpickle
import dask
import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints import modisinterpolator, simple_modis_interpolator
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, interp, legacy
from vlib.core import Violation, group

POOL = []
READER = """
import pickle, sys
import cloudpickle, dask
jobs = pickle.load(open(sys.argv[1], "rb"))
out = []
for blob in jobs:
    try:
        out.append(("ok", dask.compute(*pickle.loads(blob), scheduler="synchronous")))
    except Exception as e:
        out.append(("error", "%s: %s" % (type(e).__name__, e)))
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def pool():
    if not POOL:
        POOL.append(concurrent.futures.ProcessPoolExecutor(2, mp_context=multiprocessing.get_context("spawn")))
    return POOL[0]


def modis(c, name):
    """Lazy MODIS interpolation, of dask arrays or DataArrays; returns dask arrays."""
    rng = c.rng
    if name == "zenith-angle":
        coarse, fine, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
    else:
        coarse, fine = c.pick([(1000, 500), (1000, 250), (500, 250)])
        width = int(c.pick([3, 9, 100, 1354]))
    dtype = c.pick([np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    nscans = int(rng.integers(1, 4))
    arrs = [a.astype(dtype) for a in gen.modis_input(rng, coarse, nscans, width)]
    lazy = [da.from_array(a, chunks=(int(c.pick([rps, 3, 2 * rps, rps * nscans])), -1), name=c.pick([None, False])) for a in arrs]
    if rng.random() < 0.4:
        lazy = [xr.DataArray(a, dims=("y", "x")) for a in lazy]
    res = api.angle(c, coarse, fine, *lazy) if name == "zenith-angle" else api.simple(c, coarse, fine, *lazy[:2])
    return [a.data if hasattr(a, "dims") else a for a in res]


CLASSES = {"single grid": SingleGridInterpolator, "single spline": SingleSplineInterpolator, "multiple grid": MultipleGridInterpolator,
           "multiple spline": MultipleSplineInterpolator, "geo grid": GeoGridInterpolator, "geo spline": GeoSplineInterpolator}


def gridded(c, name):
    """An interpolator object and a request on it: (object, fine points, options)."""
    rows, ru = interp.tie_positions(c, int(c.rng.integers(6, 12)), ratio=5)
    cols, cu = interp.tie_positions(c, int(c.rng.integers(6, 12)), ratio=5)
    shape = len(rows), len(cols)
    dtype = c.pick([np.float64, np.float64, np.float32])
    n = 1 if name.startswith("single") else 2 if name.startswith("geo") else int(c.rng.integers(1, 4))
    data = list(gen.wiggly_positions(c.rng, shape, 20.0)) if name.startswith("geo") else [c.rng.normal(size=shape) for _ in range(n)]
    kw = {}
    if "spline" in name:
        kw = c.pick([{}, dict(kx=1, ky=3), dict(kx=2, ky=1), dict(kx=4, ky=5)])
    else:
        kw = c.pick([{}, dict(method="nearest"), dict(method="linear"), dict(bounds_error=False, fill_value=-7.0)])
    it = c.call(CLASSES[name].__name__, CLASSES[name], (rows, cols), *[d.astype(dtype) for d in data], **kw)
    fine = interp.inside(c, rows, ru), interp.inside(c, cols, cu)
    call = dict(method=c.pick(["linear", "nearest"])) if "grid" in name and c.rng.random() < 0.3 else {}
    return it, fine, call


def arrays(res):
    return [res] if hasattr(res, "ndim") else list(res)


def lazy_results(c):
    """A lazy result: dask arrays."""
    name = c.pick(["zenith-angle", "zenith-angle", "lon/lat only", "lon/lat only", "vii data", "vii positions", *CLASSES, *CLASSES])
    if name in ("zenith-angle", "lon/lat only"):
        return name, modis(c, name)
    if name.startswith("vii"):
        ties, factor = int(c.rng.integers(2, 5)), int(c.pick([1, 2, 8]))
        shape = ties * int(c.rng.integers(1, 3)), ties * int(c.rng.integers(1, 3))
        data = [xr.DataArray(da.from_array(a, chunks=int(c.rng.integers(2, 9))), dims=("y", "x"))
                for a in gen.wiggly_positions(c.rng, shape, 8.0)]
        res = (c.call(name, tie_points_interpolation, data, ties, factor) if name == "vii data" else
               c.call(name, tie_points_geo_interpolation, *data, ties, factor))
        return name, [r.data if isinstance(r.data, da.Array) else da.from_array(r.data) for r in res]
    it, fine, call = gridded(c, name)
    chunks = interp.random_chunks(c, (len(fine[0]), len(fine[1])))
    return name, arrays(c.call(name + " lazy", it.interpolate, fine, chunks=chunks, **call))


def objects(c):
    """An interpolator object (often used before) and how to use it in another process: a delayed call."""
    rng = c.rng
    name = c.pick(["multilinear", "multilinear", "Interpolator", "Interpolator 1d", "GeoInterpolator", "basic", "function", "legacy", *CLASSES])
    used = bool(rng.random() < 0.5)
    if name == "multilinear":
        d = int(rng.integers(1, 5))
        orders = rng.integers(2, 7, d)
        dtype = c.pick([np.float64, np.float32])
        it = c.call("MultilinearInterpolator", MultilinearInterpolator, rng.uniform(-2, 0, d), rng.uniform(1, 2, d), orders, dtype=dtype)
        if used:
            it.grid
        it.set_values(rng.normal(size=(int(rng.integers(1, 3)), int(np.prod(orders)))))
        pts = rng.uniform(-3, 3, (d, int(rng.integers(2, 50))))
        if used:
            it.interpolate(pts * 0.5)
        return name + (" used" if used else ""), [delayed_call(it, "interpolate", pts), delayed_attribute(it, "grid"), delayed_call(it, None, pts)]
    if name in ("Interpolator", "Interpolator 1d", "GeoInterpolator"):
        n, m = int(rng.integers(6, 10)), int(rng.integers(6, 10))
        rows, cols = np.arange(n) * 5.0 + 2, np.arange(m) * 4.0 + 1
        data = list(gen.wiggly_positions(rng, (n, m), 10.0)) if name[0] == "G" else [rng.normal(size=(n, m)) for _ in range(2)]
        hrows = rows.copy() if "1d" in name else np.arange(n * 5.0)
        cls = GeoInterpolator if name[0] == "G" else Interpolator
        it = c.call(cls.__name__, cls, data, (rows, cols), (hrows, np.arange(m * 4.0)), int(rng.integers(1, 4)), int(rng.integers(1, 4)),
                    **({} if "1d" in name else dict(chunk_size=c.pick([0, n * 5]))))
        filled = c.pick([(), ("x",), ("y", "x")]) if "1d" not in name else ("x",)
        it.fill_borders(*filled)
        if used:
            it.interpolate()
        res = [delayed_call(it, "interpolate")]
        if not filled:      # filled there; filling changes the object
            res = [dask.delayed(fill_and_interpolate, pure=False, traverse=False)(copy.deepcopy(it))]
        return name + (" used" if used else ""), res
    if name == "basic":
        n, m = int(rng.integers(6, 10)), int(rng.integers(6, 10))
        r, q = (np.concatenate([[0], np.cumsum(rng.integers(1, 6, k - 1))]) for k in (n, m))
        it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, q, r, rng.uniform(-90, 90, (n, m)), rng.uniform(-180, 180, (n, m)))
        if used:
            it.interpolate()
        return name + (" used" if used else ""), [delayed_call(it, "interpolate")]
    if name == "function":
        kind = c.pick(["angle", "simple"])
        if kind == "angle":
            coarse, fine, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
            arrs = gen.modis_input(rng, coarse, 1, width)
            fn, kw = c.pick([(api.ANGLE[coarse, fine], {}), (modisinterpolator.interpolate, dict(coarse_resolution=coarse, fine_resolution=fine, coarse_scan_width=width))])
        else:
            fine = c.pick([500, 250])
            arrs = gen.modis_input(rng, 1000, 1, 50)[:2]
            fn, kw = c.pick([(api.SIMPLE[1000, fine], {}), (simple_modis_interpolator.interpolate_geolocation_cartesian,
                                                           dict(coarse_resolution=1000, fine_resolution=fine))])
        return "function " + kind, [dask.delayed(call_function, pure=False)(fn, *arrs, **kw)]
    if name == "legacy":
        helper = c.pick([n for n in legacy.HELPERS if n != "modis1kmto250m"])
        lon, lat, _, _ = legacy.simulate(helper, gen.frame(*gen.random_frame(rng)), 2 if helper == "metop20kmto1km" else 1)
        return "legacy", [dask.delayed(call_function, pure=False)(legacy.HELPERS[helper][0], lon, lat)]
    it, fine, call = gridded(c, name)
    if used:
        it.interpolate(fine)
    return name + (" used" if used else ""), [delayed_call(it, "interpolate", fine, **call)]


def call_function(fn, *args, **kw):
    return [np.asarray(a) for a in fn(*args, **kw)]


def call_method(it, name, args=(), kw={}):
    res = it(*args, **kw) if name is None else getattr(it, name)(*args, **kw)
    return [np.asarray(a) for a in arrays(res)]


def call_attribute(it, name):
    return np.array(getattr(it, name))


def fill_and_interpolate(it):
    it.fill_borders("y", "x")
    return call_method(it, "interpolate")


def delayed_call(it, name, *args, **kw):
    return dask.delayed(call_method, pure=False, traverse=False)(it, name, args, kw)


def delayed_attribute(it, name):
    return dask.delayed(call_attribute, pure=False, traverse=False)(it, name)


def flat(res):
    """All arrays of nested results."""
    if isinstance(res, np.ndarray):
        return [res]
    return [a for r in res for a in flat(r)]


def some_jobs(c, n):
    """Lazy things of random kinds, with their labels and expected values.

    What is sent is serialised before anything is computed here, so that computing cannot provide what was forgotten."""
    jobs = []
    for _ in range(n):
        lazy = c.rng.random() < 0.6
        label, coll = lazy_results(c) if lazy else objects(c)
        label = ("lazy " if lazy else "object ") + label
        c.seen(("lazy result: " if lazy else "sent object: ") + label.split(" ", 1)[1])
        try:
            blob = cloudpickle.dumps(coll)
        except Exception as e:
            raise Violation("%s cannot be sent to another process: %s: %s" % (label, type(e).__name__, str(e)[:300])) from e
        jobs.append((label, coll, blob))
    return jobs


def compare(c, label, got, want, where):
    got, want = flat(got), flat(want)
    c.ensure(len(got) == len(want), "%s computed in %s: %d arrays instead of %d" % (label, where, len(got), len(want)))
    for g, w in zip(got, want):
        c.equal(g, w, "%s computed in %s" % (label, where))


@group(quick=64, thorough=1500)
def worker_processes(c):
    """dask's processes scheduler."""
    jobs = some_jobs(c, int(c.rng.integers(1, 5)))
    c.note(jobs=str([j[0] for j in jobs]))
    where = "the worker processes of dask"
    # (dask confuses the order of arrays and delayed calls computed together)
    todo = [[j for j in jobs if j[0].startswith(kind)] for kind in ("lazy", "object")] if c.rng.random() < 0.5 else [[j] for j in jobs]
    for part in filter(None, todo):
        try:
            got = dask.compute(*[j[1] for j in part], scheduler="processes", pool=pool(), chunksize=1,
                               optimize_graph=bool(c.rng.random() < 0.7))
        except Exception as e:
            raise Violation("%s cannot be computed in %s: %s: %s" % ([j[0] for j in part], where, type(e).__name__, str(e)[:300])) from e
        for (label, coll, _), g in zip(part, got):
            compare(c, label, g, dask.compute(*coll, scheduler="synchronous"), where)
    c.seen("results of worker processes compared", len(jobs))


@group(quick=24, thorough=300)
def fresh_process(c):
    """A process in which nothing was imported or done before."""
    jobs = some_jobs(c, int(c.rng.integers(6, 16)))
    c.note(jobs=str([j[0] for j in jobs]))
    src, dst = os.path.abspath("jobs-%d" % c.k), os.path.abspath("answers-%d" % c.k)
    order = c.rng.permutation(len(jobs))
    with open(src, "wb") as f:
        pickle.dump([jobs[i][2] for i in order], f)
    try:
        p = subprocess.run([sys.executable, "-c", READER, src, dst], capture_output=True, timeout=300)
        if p.returncode:
            raise Violation("a process computing %s ended with %s: %s" % ([j[0] for j in jobs], p.returncode, p.stderr[-500:]))
        with open(dst, "rb") as f:
            answers = pickle.load(f)
    finally:
        for name in (src, dst):
            if os.path.exists(name):
                os.unlink(name)
    for i, (status, got) in zip(order, answers):
        label, coll, _ = jobs[i]
        c.ensure(status == "ok", "%s cannot be computed in another process: %s" % (label, got))
        compare(c, label, got, dask.compute(*coll, scheduler="synchronous"), "a fresh process")
    c.seen("results of fresh processes compared", len(jobs))
