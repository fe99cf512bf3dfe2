"""C16: concurrent calls do not disturb one another.

Oracles: the bits of every result against those of the call made alone; ThreadSanitizer in the "tsan" build.
"""
import sys
import threading
import time

import dask
import dask.array as da
import numpy as np

import geotiepoints
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator, lonlat2xyz, xyz2lonlat
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.multilinear_cython import multilinear_interpolation
from vlib import alike, api, gen, subjects
from vlib.core import group

HOME = geotiepoints.__path__[0]
SHORT = ("zenith-angle", "lon/lat only", "multilinear", "multilinear", "grid", "spline", "multiple grid", "multiple spline", "geo grid",
         "geo spline", "Interpolator", "Interpolator 1d", "Interpolator borders", "GeoInterpolator", "vii data", "vii positions", "basic", "lonlat2xyz",
         "xyz2lonlat", "metop20kmto1km", "generic_modis5kmto1km")


def kind(label):
    return label.split(" 1000")[0].split(" 5000")[0].split(" 500m")[0]


def pauser(seed, pauses):
    """A trace function that sleeps before some lines of the library, so that other threads run in between."""
    rng = np.random.default_rng(seed)
    often, budget = rng.choice([0.02, 0.2, 0.9]), [60]

    def local(frame, event, arg):
        if event == "line" and budget[0] and rng.random() < often:
            budget[0] -= 1
            time.sleep(rng.uniform(0, 4e-4))
            pauses.append(frame.f_lineno)
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(HOME) else None
    return enter


def together(c, jobs, repeat=1):
    """Start all jobs at once in threads; returns their results (list of lists, one per repetition)."""
    barrier = threading.Barrier(len(jobs))
    out, errors, spans, pauses = [[] for _ in jobs], [], [], []
    delays = c.rng.uniform(0, 2e-3, len(jobs)) if c.rng.random() < 0.5 else np.zeros(len(jobs))
    seeds = c.rng.integers(0, 2 ** 31, len(jobs)) if c.rng.random() < 0.5 else None

    def go(n):
        try:
            barrier.wait(60)
            time.sleep(delays[n])
            if seeds is not None:
                sys.settrace(pauser(seeds[n], pauses))
            for _ in range(repeat):
                t0 = time.perf_counter()
                out[n].append(jobs[n]())
                spans.append((t0, time.perf_counter()))
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if c.rng.random() < 0.8 else old)
    try:
        threads = [threading.Thread(target=go, args=(n,)) for n in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    spans.sort()
    if pauses:
        c.seen("pauses between lines of the library", len(pauses))
        c.seen("jobs paused between lines", len(jobs))
    c.seen("calls made concurrently", len(spans))
    c.seen("calls overlapping another one", sum(1 for a, b in zip(spans, spans[1:]) if b[0] < a[1]))
    return out


def compare(c, got, want, what):
    for rep in got:
        c.ensure(len(rep) == len(want), "%s: %d results instead of %d" % (what, len(rep), len(want)))
        for g, w in zip(rep, want):
            c.equal(g, w, what)


def copies(res):
    return [np.array(np.asarray(r)) for r in res]


@group(quick=120, thorough=3000)
def same_inputs(c):
    """One entry point called by several threads that share the input arrays."""
    label, arrs, run = subjects.subject(c, SHORT[c.k % len(SHORT)])
    n = int(c.rng.integers(2, 9))
    c.note(subject=label, threads=n, dtypes=str([a.dtype.name for a in arrs]))
    for a in arrs:
        a.flags.writeable = bool(c.rng.random() < 0.7)
    want = copies(run(arrs))
    got = together(c, [lambda: copies(run(arrs))] * n, repeat=int(c.rng.integers(1, 4)))
    for t, g in enumerate(got):
        compare(c, g, want, "%s called by %d threads: thread %d" % (kind(label), n, t))
    c.seen("shared inputs: " + kind(label))


@group(quick=100, thorough=3000)
def different_inputs(c):
    """Several threads with their own inputs, of the same entry point or of different ones."""
    n = int(c.rng.integers(2, 9))
    mixed = c.rng.random() < 0.5
    subs = [subjects.subject(c, c.pick(SHORT) if mixed else SHORT[c.k % len(SHORT)]) for _ in range(n)]
    c.note(subjects=str([s[0] for s in subs]))
    want = [copies(run(arrs)) for _, arrs, run in subs]
    got = together(c, [lambda r=run, a=arrs: copies(r(a)) for _, arrs, run in subs], repeat=int(c.rng.integers(1, 4)))
    for t, (g, w) in enumerate(zip(got, want)):
        compare(c, g, w, "%s beside %s" % (subs[t][0], sorted({s[0] for s in subs})))
    c.seen("own inputs: " + ("different entry points" if mixed else kind(subs[0][0])))


@group(quick=60, thorough=1500)
def requests_alike(c):
    """Several threads with requests that have much in common: what is remembered of one must not be given to another."""
    name = alike.NAMES[c.k % len(alike.NAMES)]
    todo = alike.family(c, name, n=int(c.rng.integers(2, 7)))
    c.note(subject=name, threads=len(todo))
    want = [copies(run(arrs)) for _, arrs, run in todo]
    got = together(c, [lambda r=run, a=arrs: copies(r(a)) for _, arrs, run in todo], repeat=int(c.rng.integers(2, 6)))
    for t, (g, w) in enumerate(zip(got, want)):
        compare(c, g, w, "%s beside requests alike: thread %d" % (name, t))
    c.seen("requests alike: " + name)


def shared_object(c, name):
    """An interpolator object and random requests on it."""
    rng = c.rng
    n, m = int(rng.integers(6, 30)), int(rng.integers(6, 30))
    rows, cols = np.arange(n) * 5.0 + 2, np.arange(m) * 4.0 + 1
    dtype = c.pick([np.float64, np.float32])
    if name == "multilinear":
        d = int(rng.integers(1, 5))
        orders = np.array(rng.integers(2, 8, d))
        it = MultilinearInterpolator(rng.uniform(-2, 0, d), rng.uniform(1, 2, d), orders,
                                     rng.normal(size=(int(rng.integers(1, 4)), int(np.prod(orders)))), dtype=dtype)

        def request():
            pts = rng.uniform(-3, 3, (d, int(rng.integers(100, 20000))))
            how = rng.integers(0, 3)
            if how == 0:
                return lambda: [it.interpolate(pts), it.grid]
            return lambda: [it(pts)]
        return it, request
    if name in WHOLE:
        it = whole_object(c, name, n, m)
        return it, lambda: lambda: [np.asarray(r) for r in it.interpolate()]
    k = 1 if name.startswith("single") else 2
    data = list(gen.wiggly_positions(rng, (n, m), 10.0)) if name.startswith("geo") else [rng.normal(size=(n, m)) for _ in range(k)]
    data = [v.astype(dtype) for v in data]
    cls = {"single grid": SingleGridInterpolator, "single spline": SingleSplineInterpolator, "multiple grid": MultipleGridInterpolator,
           "multiple spline": MultipleSplineInterpolator, "geo grid": GeoGridInterpolator, "geo spline": GeoSplineInterpolator}[name]
    orders = dict(kx=int(rng.integers(1, 6)), ky=int(rng.integers(1, 6))) if "spline" in name and rng.random() < 0.5 else {}
    it = cls((rows, cols), *data, **orders)

    def request():
        fine = tuple(np.sort(rng.uniform(p[0], p[-1], int(rng.integers(3, 60)))) for p in (rows, cols))
        kw = {}
        if "grid" in name:
            if rng.random() < 0.4:
                kw["method"] = c.pick(["linear", "nearest", "slinear"])
        lazy = rng.random()
        if lazy < 0.3:
            kw["chunks"] = int(rng.integers(2, 40))
        if lazy > 0.9:
            h, w = int(rng.integers(2, n * 5)), int(rng.integers(2, m * 4))
            kw.pop("chunks", None)
            if name.startswith("geo") or "grid" in name:
                return lambda: answers(it.interpolate(fine, **kw), k)
            return lambda: answers(it.interpolate((np.arange(h) * 1.0 + 2, np.arange(w) + 1.0), **kw), k)
        return lambda: answers(it.interpolate(fine, **kw), k)
    return it, request


def answers(res, k):
    return [np.asarray(r) for r in ([res] if k == 1 else res)]


WHOLE = ["Interpolator", "Interpolator 1d", "GeoInterpolator", "GeoInterpolator 1d", "basic"]
OBJECTS = ["multilinear", "single grid", "single spline", "multiple grid", "multiple spline", "geo grid", "geo spline"]


def whole_object(c, name, n, m):
    """Objects with one request only: the whole grid."""
    rng = c.rng
    steps = [np.concatenate([[0], np.cumsum(rng.integers(1, 6, k - 1))]) for k in (n, m)]
    geo = gen.wiggly_positions(rng, (n, m), 10.0)
    if name == "basic":
        return c.call(name, BasicSatelliteInterpolator, steps[1], steps[0], geo[1], geo[0])
    rows, cols = steps
    frows = rows.copy() if name.endswith("1d") else np.sort(rng.uniform(rows[0], rows[-1], int(rng.integers(3, 60))))
    fcols = np.sort(rng.uniform(cols[0], cols[-1], int(rng.integers(3, 60))))
    orders = [int(v) for v in rng.integers(1, 6, 2)]
    if name.startswith("Geo"):
        return c.call(name, GeoInterpolator, tuple(geo), (rows, cols), (frows, fcols), *orders)
    return c.call(name, Interpolator, [rng.normal(size=(n, m)) for _ in range(int(rng.integers(1, 5)))], (rows, cols), (frows, fcols), *orders)


@group(quick=144, thorough=3600)
def shared_objects(c):
    """Threads make different requests on one interpolator object at the same time."""
    name = (OBJECTS + WHOLE)[c.k % (len(OBJECTS) + len(WHOLE))]
    it, request = shared_object(c, name)
    asks = [request() for _ in range(int(c.rng.integers(2, 9)))]
    c.note(object=name, threads=len(asks))
    want = [copies(c.call("shared " + name, ask)) for ask in asks] if c.rng.random() < 0.5 else None
    if want is None and name == "multilinear":
        # nothing was asked before: whatever is computed on first use is computed concurrently
        pass
    got = together(c, [lambda a=ask: copies(a()) for ask in asks], repeat=int(c.rng.integers(1, 5)))
    if want is None:
        want = [copies(c.call("shared " + name, ask)) for ask in asks]
    for t, (g, w) in enumerate(zip(got, want)):
        compare(c, g, w, "request %d of %d on a shared %s" % (t, len(asks), name))
    if name in WHOLE:
        # what one caller does to its results does not reach the others
        mine = together(c, [lambda a=ask: [a()] for ask in asks])
        for t, res in enumerate(mine):
            for a in res[0][0]:
                for u, other in enumerate(mine):
                    c.ensure(u == t or not any(np.shares_memory(a, b) for b in other[0][0]),
                             "%s: threads %d and %d got the same array" % (name, t, u))
    c.seen("shared object: " + name)


@group(quick=40, thorough=1500)
def first_use(c):
    """Several threads are the first to use an object: whatever is made on first use is made once, or alike."""
    n = int(c.rng.integers(3, 9))
    if c.k % 4:
        d = int(c.rng.integers(1, 5))
        size = int(10 ** c.rng.uniform(2, 5.3))
        orders = np.maximum(2, (size ** (1 / d) * c.rng.uniform(0.7, 1.4, d)).astype(int))
        lo, hi = c.rng.uniform(-2, 0, d), c.rng.uniform(1, 2, d)
        dtype = c.pick([np.float64, np.float32])
        values = c.rng.normal(size=(1, int(np.prod(orders)))) if c.rng.random() < 0.5 else None
        pts = c.rng.uniform(-2, 3, (d, 200))
        c.note(object="multilinear", threads=n, orders=str(orders.tolist()))

        def make():
            return c.call("MultilinearInterpolator", MultilinearInterpolator, lo, hi, orders, values, dtype=dtype)

        def use(it):
            return [np.array(it.grid)] + ([np.array(it(pts))] if values is not None else [])
    else:
        name = OBJECTS[1 + int(c.rng.integers(len(OBJECTS) - 1))]
        rows, cols = np.arange(30) * 5.0, np.arange(40) * 4.0
        k = 1 if name.startswith("single") else 2
        data = gen.wiggly_positions(c.rng, (30, 40), 10.0)[:k]
        cls = {"single grid": SingleGridInterpolator, "single spline": SingleSplineInterpolator, "multiple grid": MultipleGridInterpolator,
               "multiple spline": MultipleSplineInterpolator, "geo grid": GeoGridInterpolator, "geo spline": GeoSplineInterpolator}[name]
        fine = np.linspace(0, 145, 100), np.linspace(0, 156, 90)
        kw = dict(chunks=int(c.rng.integers(20, 60))) if c.rng.random() < 0.4 else {}
        c.note(object=name, threads=n)

        def make():
            return c.call(name, cls, (rows, cols), *data)

        def use(it):
            return copies(answers(it.interpolate(fine, **kw), k))
    want = use(make())
    for rep in range(4):
        it = make()
        barrier = threading.Barrier(n)

        def first():
            barrier.wait(60)
            return use(it)
        for t, g in enumerate(together(c, [first] * n)):
            compare(c, g, want, "first use of one object by %d threads: thread %d" % (n, t))
    c.seen("objects first used by several threads", 4)


@group(quick=40, thorough=800)
def schedulers(c):
    """dask graphs computed with threads, by several threads, and synchronously."""
    name = c.pick(["zenith-angle", "lon/lat only", "grid", "spline", "geo grid", "geo spline", "multiple grid"])
    rng = c.rng
    if name in ("zenith-angle", "lon/lat only"):
        if name == "zenith-angle":
            coarse, fine, width = api.ANGLE_CONFIGS[int(rng.integers(len(api.ANGLE_CONFIGS)))]
        else:
            coarse, fine, width = 1000, int(c.pick([250, 500])), int(c.pick([9, 1354]))
        nscans = int(rng.integers(3, 9))
        arrs = gen.modis_input(rng, coarse, nscans, width)
        rps = api.rows_per_scan(coarse)
        lazy = [da.from_array(a, chunks=(rps * int(rng.integers(1, 3)), -1), name=False) for a in arrs]
        res = api.angle(c, coarse, fine, *lazy) if name == "zenith-angle" else api.simple(c, coarse, fine, *lazy[:2])
    else:
        cls = {"grid": SingleGridInterpolator, "spline": SingleSplineInterpolator, "geo grid": GeoGridInterpolator,
               "geo spline": GeoSplineInterpolator, "multiple grid": MultipleGridInterpolator}[name]
        rows, cols = np.arange(20) * 5.0, np.arange(30) * 4.0
        k = 1 if name in ("grid", "spline") else 2
        data = gen.wiggly_positions(rng, (20, 30), 10.0)[:k]
        fine = (np.linspace(0, 95, 70), np.linspace(0, 116, 90))
        res = c.call(name, cls((rows, cols), *data).interpolate, fine, chunks=int(rng.integers(7, 40)))
        res = [res] if k == 1 else list(res)
    c.note(subject=name)
    want = dask.compute(*res, scheduler="synchronous")
    got = [dask.compute(*res, scheduler="threads", num_workers=int(rng.integers(2, 9)))]
    got += [g[0] for g in together(c, [lambda: dask.compute(*res, scheduler="threads", num_workers=3)] * 3)]
    for g in got:
        compare(c, [g], want, "%s computed by the threaded scheduler" % name)
    c.seen("schedulers compared")


@group(quick=60, thorough=1500, variants=("tsan",))
def race_detector(c):
    """The compiled code in threads, watched by ThreadSanitizer; results are compared as well."""
    name = c.pick(["zenith-angle", "lon/lat only", "multilinear", "multilinear"])
    n = int(c.rng.integers(2, 5))
    c.note(subject=name, threads=n)
    if name == "multilinear":
        d = c.k % 4 + 1
        orders = np.array(c.rng.integers(2, 8, d))
        it = MultilinearInterpolator(np.zeros(d), np.ones(d), orders, c.rng.normal(size=(2, int(np.prod(orders)))))
        pts = c.rng.uniform(-1, 2, (d, 20000))
        run = lambda: [c.call("multilinear %dd" % d, it.interpolate, pts)]
        jobs = [run] * n
    else:
        subs = [subjects.subject(c, name) for _ in range(2)]
        jobs = [lambda r=subs[i % 2][2], a=subs[i % 2][1]: r(a) for i in range(n)]
    want = [copies(j()) for j in jobs]
    got = together(c, [lambda j=j: copies(j()) for j in jobs])
    for g, w in zip(got, want):
        compare(c, g, w, "%s in %d threads" % (name, n))
    c.seen("watched for data races: " + name)
