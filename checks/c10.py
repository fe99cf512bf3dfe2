"""C10: array container and chunking never change MODIS results."""
import threading

import dask
import dask.array as da
import numpy as np
import xarray as xr

from vlib import api, gen
from vlib.core import group, Violation

CONFIGS = [("angle",) + cfg for cfg in api.ANGLE_CONFIGS] + [("simple", 1000, 250, 0), ("simple", 1000, 500, 0)] * 3 + [
    ("simple", 500, 250, 0)]


class Source:
    """An array-like that counts how often it is read."""

    def __init__(self, arr, counter):
        self.arr, self.counter = arr, counter
        self.shape, self.dtype, self.ndim = arr.shape, arr.dtype, arr.ndim

    def __getitem__(self, item):
        with self.counter["lock"]:
            self.counter["reads"] += 1
        return self.arr[item]


def split(rng, total, parts):
    """Random chunk sizes adding up to *total*."""
    parts = min(parts, total)
    cuts = np.sort(rng.choice(np.arange(1, total), parts - 1, replace=False)) if parts > 1 else []
    return tuple(int(n) for n in np.diff(np.concatenate([[0], cuts, [total]])))


def random_chunks(c, shape, rps):
    rows, cols = shape
    nscans = rows // rps
    how = c.pick(["one", "scans", "random", "tiny first", "single rows", "half scans", "one and a half", "odd", "rest"])
    if how == "one":
        r = (rows,)
    elif how == "scans":
        r = tuple(n * rps for n in split(c.rng, nscans, int(c.rng.integers(1, nscans + 1))))
    elif how == "random":
        r = split(c.rng, rows, int(c.rng.integers(1, 6)))
    elif how == "tiny first":
        r = (1, rows - 1) if rows > 1 else (rows,)
    elif how == "single rows":
        r = (1,) * rows
    elif how == "half scans":
        r = (rps // 2,) * (rows // (rps // 2))
    elif how == "one and a half":
        step = rps + rps // 2
        r = (step,) * (rows // step) + ((rows % step,) if rows % step else ())
    elif how == "odd":
        step = int(c.rng.integers(1, rows + 1))
        r = (step,) * (rows // step) + ((rows % step,) if rows % step else ())
    else:
        r = (rows - 1, 1) if rows > 1 else (rows,)
    ccase = int(c.rng.integers(0, 4))
    if ccase == 0:
        q = (cols,)
    elif ccase == 1:
        q = split(c.rng, cols, 2)
    elif ccase == 2:
        q = split(c.rng, cols, int(c.rng.integers(1, 6)))
    else:
        q = (cols // 2, cols - cols // 2) if cols > 1 else (cols,)
    return (r, q)


def setup(c, maxscans=6):
    kind, coarse, fine, width = CONFIGS[int(c.rng.integers(len(CONFIGS)))]
    width = width or int(c.pick([2, 3, 7, 50, 200, 1354]))
    dtype = c.pick([np.float64, np.float32])
    nscans = int(c.rng.integers(1, maxscans + 1)) if fine >= 500 or width < 1000 else int(c.rng.integers(1, 4))
    arrs = [a.astype(dtype) for a in gen.modis_input(c.rng, coarse, nscans, width)]
    if kind == "simple":
        arrs = arrs[:2]
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans)

    def run(*a):
        return api.angle(c, coarse, fine, *a) if kind == "angle" else api.simple(c, coarse, fine, *a)
    shape = api.fine_shape(coarse, fine, arrs[0].shape, kind)
    return run, arrs, dtype, api.rows_per_scan(coarse), shape


def same(c, got, want, dtype, what):
    for g, w, name in zip(got, want, ("longitude", "latitude")):
        if np.asarray(g).dtype != np.asarray(w).dtype:
            raise Violation("%s: dtype of the %s %s instead of %s" % (what, name, np.asarray(g).dtype, np.asarray(w).dtype))
        c.ensure(np.asarray(g).shape == np.asarray(w).shape,
                 "%s: shape of the %s %s instead of %s" % (what, name, np.asarray(g).shape, np.asarray(w).shape))
    c.within(gen.max_dist(got, want), gen.rounding_m(dtype), "%s: metres from the numpy result" % what)


def check_declared(c, res, dtype, shape, what):
    c.ensure(isinstance(res, (tuple, list)) and len(res) == 2, "%s: %d results instead of 2" % (what, len(res)))
    for a in res:
        c.ensure(a.shape == shape, "%s: declared shape %s instead of %s" % (what, a.shape, shape))
        c.ensure(a.dtype == np.dtype(dtype), "%s: declared dtype %s instead of %s" % (what, a.dtype, np.dtype(dtype)))


def check_blocks(c, arr, what):
    """Every block has the size it was declared with."""
    blocks = dask.compute(*arr.to_delayed().ravel().tolist())
    sizes = [(r, q) for r in arr.chunks[0] for q in arr.chunks[1]]
    for b, size in zip(blocks, sizes):
        c.ensure(b.shape == size and b.dtype == arr.dtype,
                 "%s: a block of %s %s was declared as %s %s" % (what, b.shape, b.dtype, size, arr.dtype))
        c.seen("blocks compared with their declaration")


@group(quick=180, thorough=3000)
def dask_arrays(c):
    run, arrs, dtype, rps, shape = setup(c)
    want = run(*arrs)
    counter = dict(reads=0, lock=threading.Lock())
    chunks = random_chunks(c, arrs[0].shape, rps)
    differing = c.rng.random() < 0.35
    lazy = []
    for a in arrs:
        ch = random_chunks(c, a.shape, rps) if differing else chunks
        lazy.append(da.from_array(Source(a, counter), chunks=ch, asarray=True, meta=np.empty((0, 0), dtype=a.dtype)))
    c.note(chunks=str([x.chunks for x in lazy])[:300])
    c.fp.append(str([x.chunks for x in lazy]))
    res = run(*lazy)
    c.ensure(all(isinstance(a, da.Array) for a in res), "dask input gave %s" % [type(a).__name__ for a in res])
    c.ensure(counter["reads"] == 0, "%d blocks were read before the result was computed" % counter["reads"])
    check_declared(c, res, dtype, shape, "dask")
    how = c.pick(["joint", "separate", "parts", "threads"])
    c.note(computed=how)
    if how == "joint":
        got = dask.compute(*res)
    elif how == "threads":
        got = dask.compute(*res, scheduler="threads", num_workers=4)
    elif how == "separate":
        got = tuple(a.compute() for a in res)
    else:
        r0, q0 = int(c.rng.integers(0, shape[0])), int(c.rng.integers(0, shape[1]))
        r1, q1 = int(c.rng.integers(r0, shape[0])) + 1, int(c.rng.integers(q0, shape[1])) + 1
        sel = (slice(r0, r1), slice(q0, q1))
        got = dask.compute(res[0][sel], res[1][sel])
        want = tuple(w[sel] for w in want)
    c.ensure(all(type(g) is np.ndarray for g in got), "computed to %s" % [type(g).__name__ for g in got])
    same(c, got, want, dtype, "dask")
    if c.rng.random() < 0.4:
        check_blocks(c, res[int(c.rng.integers(2))], "dask")
    c.seen("dask results compared")


@group(quick=120, thorough=2000)
def data_arrays(c):
    run, arrs, dtype, rps, shape = setup(c)
    want = run(*arrs)
    dims = c.pick([("y", "x"), ("y", "x"), ("rows", "cols"), ("x", "y"), ("along", "across")])
    lazy = c.rng.random() < 0.6
    counter = dict(reads=0, lock=threading.Lock())
    das = []
    for a in arrs:
        data = a
        if lazy:
            data = da.from_array(Source(a, counter), chunks=random_chunks(c, a.shape, rps), asarray=True,
                                 meta=np.empty((0, 0), dtype=a.dtype))
        kw = {}
        if c.rng.random() < 0.3:
            kw = dict(attrs={"units": "degrees"}, name="thing")
        if c.rng.random() < 0.3:
            kw["coords"] = {dims[0]: np.arange(a.shape[0]) * 3.0}
        das.append(xr.DataArray(data, dims=dims, **kw))
    c.note(dims=list(dims), lazy=bool(lazy), chunks=str([getattr(x.data, "chunks", None) for x in das])[:300])
    c.fp.append(str([getattr(x.data, "chunks", None) for x in das]))
    res = run(*das)
    c.ensure(len(res) == 2 and all(isinstance(a, xr.DataArray) for a in res),
             "DataArray input gave %s" % [type(a).__name__ for a in res])
    c.ensure(all(a.dims == dims for a in res), "dimensions %s instead of %s" % ([a.dims for a in res], dims))
    check_declared(c, res, dtype, shape, "DataArray")
    if lazy:
        c.ensure(counter["reads"] == 0, "%d blocks were read before the result was computed" % counter["reads"])
        c.ensure(all(isinstance(a.data, da.Array) for a in res),
                 "dask-backed DataArrays gave DataArrays of %s" % [type(a.data).__name__ for a in res])
    else:
        c.ensure(all(type(a.data) is np.ndarray for a in res),
                 "numpy-backed DataArrays gave DataArrays of %s" % [type(a.data).__name__ for a in res])
    got = dask.compute(*[a.data for a in res]) if lazy else tuple(a.values for a in res)
    same(c, got, want, dtype, "DataArray (%s)" % ("dask" if lazy else "numpy"))
    c.seen("DataArray results compared")


@group(quick=60, thorough=1000)
def joint_computations(c):
    """Lazy results of different inputs, functions and resolutions computed in one go stay apart."""
    todo, wants, dtypes = [], [], []
    base = None
    for n in range(int(c.rng.integers(2, 5))):
        run, arrs, dtype, rps, shape = setup(c, maxscans=2)
        if base is not None and c.rng.random() < 0.5 and base[0].shape == arrs[0].shape and base[0].dtype == arrs[0].dtype:
            arrs = (list(base) + arrs[2:])[:len(arrs)]
        base = arrs[:2]
        wants.append(run(*arrs))
        dtypes.append(arrs[0].dtype)
        todo.append(run(*[da.from_array(a, chunks=random_chunks(c, a.shape, rps)) for a in arrs]))
    # the same input to other resolutions
    coarse, fines = 1000, (250, 500)
    arrs = [a.astype(np.float64) for a in gen.modis_input(c.rng, coarse, 1, 1354)]
    lazy = [da.from_array(a, chunks=(5, 700)) for a in arrs]
    for fine in fines:
        wants.append(api.angle(c, coarse, fine, *arrs))
        todo.append(api.angle(c, coarse, fine, *lazy))
        wants.append(api.simple(c, coarse, fine, *arrs[:2]))
        todo.append(api.simple(c, coarse, fine, *lazy[:2]))
        dtypes += [np.float64] * 2
    c.note(results=len(todo))
    got = dask.compute(*todo)
    for g, w, dt in zip(got, wants, dtypes):
        same(c, g, w, dt, "computed jointly")
        c.seen("jointly computed results compared")


@group(quick=32, thorough=400)
def many_chunks(c):
    """Many scans in many chunks along both axes, chunked the ways dask offers."""
    kind, coarse, fine, width = c.pick([("simple", 1000, 250, 0), ("simple", 1000, 500, 0), ("simple", 500, 250, 0), ("angle", 5000, 1000, 271)])
    width = width or int(c.pick([3, 20, 40]))
    nscans = int(c.rng.integers(11, 60))
    dtype = c.pick([np.float64, np.float32])
    rps = api.rows_per_scan(coarse)
    arrs = [a.astype(dtype) for a in gen.modis_input(c.rng, coarse, nscans, width)]
    arrs = arrs if kind == "angle" else arrs[:2]

    def run(*a):
        return api.angle(c, coarse, fine, *a) if kind == "angle" else api.simple(c, coarse, fine, *a)
    want = run(*arrs)
    how = c.pick(["scans", "scans", "rows", "auto", "whole", "dict", "odd", "half scans"])
    lazy, alike = [], c.rng.random() < 0.6
    for k, a in enumerate(arrs):
        if k == 0 or not alike:
            col, few, scans = int(c.rng.integers(max(width // 14, 1), width + 1)), int(c.rng.integers(1, 5)), int(c.rng.integers(1, 5))
        chunks = {"scans": (rps, col), "rows": (few, col), "auto": "auto", "whole": -1,
                  "dict": {0: rps * scans, 1: -1}, "odd": (7, col), "half scans": (rps // 2, col)}[how]
        lazy.append(da.from_array(a, chunks=chunks))
    frame = c.rng.random() < 0.3
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans, chunks=how, frames=bool(frame))
    if frame:
        res = run(*[xr.DataArray(a, dims=("y", "x")) for a in lazy])
        res = [a.data for a in res]
    else:
        res = run(*lazy)
    check_declared(c, res, dtype, api.fine_shape(coarse, fine, arrs[0].shape, kind), "many chunks")
    got = dask.compute(*res, scheduler=c.pick(["threads", "sync"]))
    same(c, got, want, dtype, "many chunks")
    c.seen("most chunks of an input, rows: %d0 and more" % (len(lazy[0].chunks[0]) // 10))
    c.seen("results of many chunks compared")


@group(quick=40, thorough=600)
def sharing(c):
    """Lazy arrays used in several requests: some arguments the same, others not, computed in one go."""
    kind, coarse, fine, width = CONFIGS[int(c.rng.integers(len(CONFIGS)))]
    width = width or int(c.pick([2, 7, 50]))
    dtype, rps = c.pick([np.float64, np.float32]), api.rows_per_scan(coarse)
    nscans = int(c.rng.integers(1, 3))
    one = [a.astype(dtype) for a in gen.modis_input(c.rng, coarse, nscans, width)]
    two = [a.astype(dtype) for a in gen.modis_input(c.rng, coarse, nscans, width)]
    k = 3 if kind == "angle" else 2
    chunks = random_chunks(c, one[0].shape, rps)
    named = c.rng.random() < 0.5
    lazy = [[da.from_array(a, chunks=chunks, **({} if named else dict(name=False))) for a in arrs] for arrs in (one, two)]
    frames = c.rng.random() < 0.3
    which = [tuple(int(v) for v in c.rng.integers(0, 2, k)) for _ in range(2)] + [(0,) * k, (0,) * (k - 1) + (1,), (1,) + (0,) * (k - 1)]
    if k == 3 and c.rng.random() < 0.5:
        which.append((0, 1, 0))
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans, chunks=str(chunks)[:100], which=str(which), frames=bool(frames))

    def run(*a):
        return api.angle(c, coarse, fine, *a) if kind == "angle" else api.simple(c, coarse, fine, *a)
    todo, wants = [], []
    for w in which:
        given = [lazy[w[n]][n] for n in range(k)]
        if frames:
            given = [xr.DataArray(a, dims=("y", "x")) for a in given]
        todo.append([getattr(r, "data", r) if frames else r for r in run(*given)])
        wants.append(run(*[(one, two)[w[n]][n] for n in range(k)]))
    for g, w in zip(dask.compute(*todo), wants):
        same(c, g, w, dtype, "requests sharing arguments")
        c.seen("requests sharing arguments")
