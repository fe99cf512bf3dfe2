"""C28: calls leave nothing behind: no data, objects, processes, threads, files or changed settings of the process.

Monitors: numpy's allocations by tracemalloc, the C heap, weak references to arguments and results, instances of the library's
classes, /proc/self, the multiprocessing and threading registries, an audit hook, snapshots of process-wide settings.
"""
import gc
import io
import json
import os
import subprocess
import sys
import tempfile
import threading
import tracemalloc
import warnings
import weakref
from contextlib import redirect_stdout

import dask
import dask.array as da
import numpy as np
import xarray as xr

import geotiepoints
from checks import c18
from geotiepoints import basic_interpolator, geointerpolator, interpolator, multilinear, viiinterpolator
from vlib import cores, gen, subjects
from vlib.core import GROUPS, Inconclusive, Violation, group
from vlib.state import WATCH, changed, heap, instances, numpy_blocks, random_states, resources, settings

GROUPS.clear()          # those of c18, only used for their malformed input
NAMES = list(dict.fromkeys(subjects.NAMES))


class Watched:
    """Nothing may be done to the outside (forks aside, where several processes were asked for), and nothing printed."""

    def __init__(self, c, label, forks=False):
        self.c, self.label, self.forks = c, label, forks

    def __enter__(self):
        WATCH["events"] = []
        WATCH["on"] = True
        self.out = io.StringIO()
        self.redirect = redirect_stdout(self.out)
        self.redirect.__enter__()
        self.random = random_states()

    def __exit__(self, kind, *rest):
        self.redirect.__exit__(kind, *rest)
        WATCH["on"] = False
        if kind is not None:
            return
        drawn = changed(self.random, random_states())
        self.c.ensure(not drawn, "%s changed %s" % (self.label, drawn))
        events = [e for e in WATCH["events"] if not (self.forks and e.startswith(("os.fork", "os.kill")))]      # pools end their workers
        self.c.ensure(not events, "%s: side effects: %s" % (self.label, events[:3]))
        self.c.ensure(not self.out.getvalue(), "%s printed %r" % (self.label, self.out.getvalue()[:80]))
        self.c.seen("calls watched for side effects")


def vary(arrs, n):
    """The same request on other data: the last arrays (data, never positions) scaled a little."""
    out = [a.copy() for a in arrs]
    if out[-1].dtype.kind == "f":
        out[-1] = (out[-1] * (1 - 1e-5 * n)).astype(out[-1].dtype)
    return out


def wrapped(c, arrs, run, name):
    """The run of the subject, on dask arrays or DataArrays now and then where these are accepted."""
    if name not in ("zenith-angle", "lon/lat only") or c.rng.random() < 0.6:
        return run
    how = c.pick(["dask", "DataArray", "lazy DataArray"])
    rows = int(c.pick([1000, 10, 4]))

    def go(a):
        if how != "DataArray":
            a = [da.from_array(v, chunks=(rows, -1)) for v in a]
        if how != "dask":
            a = [xr.DataArray(v, dims=("y", "x")) for v in a]
        return [np.asarray(v) for v in dask.compute(*run(a), scheduler="synchronous")]
    return go


class Unusual:
    """Settings that code is unlikely to set itself: were they the usual ones, setting them again would change nothing."""

    def __init__(self, c):
        kinds = ["warn", "call", "ignore"]
        self.errors = np.errstate(**{k: kinds[int(c.rng.integers(3))] for k in ("divide", "over", "under", "invalid")}, call=lambda *a: None)
        self.filters = c.pick(["default", "always", "once", "ignore"])
        self.options = dict(precision=int(c.rng.integers(3, 12)), linewidth=int(c.rng.integers(60, 90)))

    def __enter__(self):
        self.caught = warnings.catch_warnings()
        self.caught.__enter__()
        warnings.showwarning = lambda *a, **kw: None        # a record would keep what the warning is about
        warnings.simplefilter(self.filters)
        warnings.filterwarnings("ignore", message="nothing like this")
        self.errors.__enter__()
        self.printing = np.printoptions(**self.options)
        self.printing.__enter__()

    def __exit__(self, *exc):
        self.printing.__exit__(*exc)
        self.errors.__exit__(*exc)
        self.caught.__exit__(*exc)


def unusual(fn):
    def case(c):
        with Unusual(c):
            fn(c)
    case.__name__ = fn.__name__
    return case


@group(quick=108, thorough=2600)
@unusual
def leaks(c):
    name = NAMES[c.k % len(NAMES)]
    label, arrs, run = subjects.subject(c, name)
    run = wrapped(c, arrs, run, name)
    c.note(subject=label, shapes=str([a.shape for a in arrs]), dtypes=str([a.dtype.name for a in arrs]))
    distinct = bool(c.rng.random() < 0.7)
    calls = 6
    gc.collect()
    state, held = settings(), resources()

    def once(n, refs):
        given = vary(arrs, n if distinct else 0)
        with Watched(c, label):
            res = run(given)
        for a in given:
            refs.append(("an argument", weakref.ref(a)))
        for r in res:
            refs.append(("a result", weakref.ref(r)))
        return sum(a.nbytes for a in given), max(r.nbytes for r in res)
    tracemalloc.start(1)
    try:
        for n in range(3):
            size = once(-n, [])
        # what the recording of calls itself keeps is small python objects, no arrays
        gc.collect()
        before, instances_before, heap_before = numpy_blocks(), instances(), heap()
        refs = []
        for n in range(calls):
            once(n + 1, refs)
        gc.collect()
        after, instances_after, heap_after = numpy_blocks(), instances(), heap()
    finally:
        tracemalloc.stop()
    kept = [what for what, r in refs if r() is not None]
    c.ensure(not kept, "%s: %d of %d arguments and results (first: %s) are still referred to after the caller dropped them"
             % (label, len(kept), len(refs), kept[:1]))
    c.ensure(after[0] - before[0] < calls, "%s: %d more numpy arrays (%d bytes) in memory after %d calls"
             % (label, after[0] - before[0], after[1] - before[1], calls))
    c.within([max(0, after[1] - before[1]) / calls], max(64, 0.1 * size[1]), "bytes of numpy arrays kept per call")
    c.ensure(instances_after - instances_before < calls, "%s: %d more objects of the library after %d calls"
             % (label, instances_after - instances_before, calls))
    if size[1] > 200000:
        c.within([max(0, heap_after - heap_before) / calls / size[1]], 0.3, "heap kept per call / size of a result")
        c.seen("calls with large results")
    c.seen("arguments and results that had to be freed", len(refs))
    c.seen("leaks: " + name)
    same_afterwards(c, label, state, held)


def same_afterwards(c, label, state, held):
    now = settings()
    diff = changed(state, now)
    c.ensure(not diff, "%s changed settings of the process: %s" % (label, ["%s: %s -> %s" % (d, state[d][:80], now[d][:80]) for d in diff]))
    gc.collect()
    now = resources()
    diff = changed(held, now)
    c.ensure(not diff, "%s left behind: %s" % (label, ["%s: %s -> %s" % (d, str(held[d])[-120:], str(now[d])[-120:]) for d in diff]))
    c.seen("settings compared")


@group(quick=54, thorough=1300)
def one_object(c):
    """Many requests to one object: it keeps what it was made from, not every request."""
    name = c.pick([n for n in NAMES if "grid" in n or "spline" in n] + ["multilinear", "multilinear", "Interpolator", "GeoInterpolator", "basic"])
    rng = c.rng
    n, m = int(rng.integers(6, 10)), int(rng.integers(6, 10))
    rows, cols = np.arange(n) * 5.0, np.arange(m) * 4.0
    kinds = {"grid": interpolator.SingleGridInterpolator, "spline": interpolator.SingleSplineInterpolator,
             "multiple grid": interpolator.MultipleGridInterpolator,
             "multiple spline": interpolator.MultipleSplineInterpolator,
             "geo grid": geointerpolator.GeoGridInterpolator, "geo spline": geointerpolator.GeoSplineInterpolator}
    data = list(gen.wiggly_positions(rng, (n, m), 20.0))
    same = bool(rng.random() < 0.3)
    if name in kinds:
        it = c.call(name, kinds[name], (rows, cols), *(data[:1] if " " not in name else data))
        lazy = rng.random() < 0.3

        def ask(k):
            fine = np.linspace(0, rows[-1], 17 + (0 if same else k)), np.linspace(0, cols[-1], 13)
            res = c.call(name + " interpolate", it.interpolate, fine, **(dict(chunks=7) if lazy else {}))
            return [np.asarray(r) for r in ([res] if hasattr(res, "ndim") else res)] + list(fine)
    elif name == "multilinear":
        it = c.call(name, multilinear.MultilinearInterpolator, [0, 0], [1, 2], [n, m], rng.normal(size=(2, n * m)))

        def ask(k):
            pts = rng.uniform(0, 2, (2, 40 + (0 if same else k)))
            if k % 3 == 0:
                it.set_values(rng.normal(size=(2, n * m)))
            return [c.call("multilinear interpolate", it.interpolate, pts), pts]
    elif name == "basic":
        it = c.call(name, basic_interpolator.BasicSatelliteInterpolator, np.arange(m) * 4, np.arange(n) * 5, *data)

        def ask(k):
            return [np.asarray(v) for v in c.call("basic interpolate", it.interpolate)]
    else:
        cls = getattr(interpolator, name, None) or getattr(geointerpolator, name)
        it = c.call(name, cls, data, (rows, cols), (np.arange(n * 5.0), np.arange(m * 4.0)), 1, 3)

        def ask(k):
            return list(c.call(name + " interpolate", it.interpolate))
    c.note(object=name, same_requests=same)
    calls = 12
    tracemalloc.start(1)
    try:
        for k in range(3):
            ask(k)
        gc.collect()
        before = numpy_blocks()
        for k in range(calls):
            size = sum(a.nbytes for a in ask(k + 3))
        gc.collect()
        after = numpy_blocks()
    finally:
        tracemalloc.stop()
    c.ensure(after[0] - before[0] < calls, "%s: one object keeps %d more arrays (%d bytes) after %d more requests (of %d bytes)"
             % (name, after[0] - before[0], after[1] - before[1], calls, size))
    ref = weakref.ref(it)
    del it, ask
    gc.collect()
    c.ensure(ref() is None, "%s: the object is still referred to after the caller dropped it" % name)
    c.seen("objects asked many times")


KINDS = ["grid", "spline", "geo grid", "geo spline", "lazy grid", "lazy spline", "lazy geo grid", "lazy modis", "vii", "GeoInterpolator", "basic", "multilinear"]


@group(quick=24, thorough=300, timeout=120)
def ever_different(c):
    """Many requests, each for something else: what they were is not remembered."""
    kind = KINDS[c.k % len(KINDS)]
    rng = c.rng
    rows, cols = np.arange(6) * 100.0, np.arange(5) * 100.0
    lon, lat = gen.wiggly_positions(rng, (6, 5), 20.0)
    lazy = kind.startswith("lazy")
    kw = dict(chunks=int(c.pick([8, 10, 12]))) if lazy else {}
    anew = bool(rng.random() < 0.5)
    classes = {"grid": (interpolator.SingleGridInterpolator, 1), "spline": (interpolator.SingleSplineInterpolator, 1),
               "geo grid": (geointerpolator.GeoGridInterpolator, 2), "geo spline": (geointerpolator.GeoSplineInterpolator, 2)}
    plain = kind[5:] if lazy else kind
    if plain in classes:
        cls, n = classes[plain]
        kept = cls((rows, cols), *(lon, lat)[:n])

        def ask(k):
            it = cls((rows, cols), *(lon + 1e-3 * k, lat)[:n]) if anew else kept
            res = it.interpolate((np.linspace(0, 500, 100 + k), np.linspace(0, 400, 80)), **kw)
            dask.compute(res, scheduler="synchronous")
    elif kind == "lazy modis":
        def ask(k):
            a = da.from_array(rng.normal(size=(20, 10 + k)), chunks=(10, -1))
            dask.compute(geotiepoints.simple_modis_interpolator.modis_1km_to_500m(a, a), scheduler="synchronous")
    elif kind == "vii":
        def ask(k):
            a = xr.DataArray(rng.normal(size=(4, 6 + k)), dims=("y", "x"))
            viiinterpolator.tie_points_geo_interpolation(a, a, 2, 4)
    elif kind == "GeoInterpolator":
        def ask(k):
            it = geointerpolator.GeoInterpolator((lon, lat), (rows + 1, cols + 1), (np.arange(504 + k), np.arange(403.0)), 1, 1)
            it.fill_borders("y", "x")
            it.interpolate()
    elif kind == "basic":
        def ask(k):
            basic_interpolator.BasicSatelliteInterpolator([0, 1 + k % 9, 10 + k], [0, 4 + k], lat[:2, :3], lon[:2, :3]).interpolate()
    else:
        def ask(k):
            it = multilinear.MultilinearInterpolator([0, 0], [1, 1], [5, 6 + k], rng.normal(size=(1, 5 * (6 + k))))
            it.interpolate(rng.uniform(size=(2, 10 + k)))
            it.grid
    calls = 60
    for k in range(20):
        ask(k)
    gc.collect()
    before = sys.getallocatedblocks(), len(gc.get_objects())
    for k in range(20, 20 + calls):
        ask(k)
    gc.collect()
    after = sys.getallocatedblocks(), len(gc.get_objects())
    c.calls.append(kind)
    c.note(kind=kind, anew=anew)
    # dask and xarray remember some of what they did, up to a limit
    others = 100 if lazy or kind == "vii" else 6
    c.within([max(0, after[0] - before[0]) / calls], others, "%s: blocks of memory kept per request" % kind)
    c.within([max(0, after[1] - before[1]) / calls], others / 3, "%s: objects kept per request" % kind)
    c.seen("ever different requests: " + kind)


@group(quick=90, thorough=1500)
@unusual
def failing(c):
    """Rejected input leaves nothing behind either."""
    which = c.pick(["modis", "modis_resolutions", "multilinear", "vii", "grids", "helpers"])
    gc.collect()
    state, held = settings(), resources()
    fn = getattr(c18, which)
    refs, plain = [], c.attempt

    def attempt(label, go, *args, **kw):
        with Watched(c, label, forks=label.startswith("modis1km")):
            return plain(label, go, *args, **kw)
    c.attempt = attempt
    try:
        fn(c)
    except Violation as e:
        if "no exception" not in str(e):      # whether it is rejected is decided elsewhere
            raise
    finally:
        del c.attempt
    same_afterwards(c, "rejected input (%s)" % which, state, held)
    c.seen("rejected input leaving nothing behind")


@group(quick=16, thorough=200)
@unusual
def processes(c):
    """Interpolation on several cores, also when it fails there: no process, thread or descriptor survives."""
    name = c.pick(["modis1kmto500m", "modis1kmto250m"])
    fn = getattr(geotiepoints, name)
    lon, lat, _ = gen.modis_input(c.rng, 1000, int(c.rng.integers(1, 4)), 1354)
    number = int(c.rng.integers(2, 6))
    broken = c.pick([None, None, "width", "rows", "dimensions"])
    c.note(helper=name, cores=number, malformed=broken)
    gc.collect()
    state, held = settings(), resources()
    if broken is None:
        with Watched(c, name, forks=True):
            c.call(name + " on several cores", fn, lon, lat, cores=number)
    else:
        lon, lat = {"width": (lon[:, :700], lat[:, :700]), "rows": (lon[:7], lat), "dimensions": (lon.ravel(), lat.ravel())}[broken]
        with Watched(c, name, forks=True):
            try:
                fn(lon, lat, cores=number)
            except Exception as error:      # noqa: BLE001
                # nothing is left while the caller still looks at what was raised, with its traceback
                left = [p for p in resources()["child processes"] if p not in held["child processes"]]
                c.ensure(not left, "%s on %d cores (%s) raised %r and left processes behind: %s" % (name, number, broken, error, left))
                c.seen("nothing left while an exception is handled")
    gc.collect()
    # pools dropped in the middle of an exception end asynchronously
    for _ in range(100):
        if not changed(held, resources()):
            break
        threading.Event().wait(0.05)
    same_afterwards(c, "%s on %d cores (%s)" % (name, number, broken or "valid"), state, held)
    c.seen("several cores leaving nothing behind: " + ("valid" if broken is None else "rejected"))


@group(quick=4, thorough=40, timeout=300)
def start_methods(c):
    """In programs that have processes started in another way."""
    method = ["spawn", "forkserver"][c.k % 2]
    lon, lat, _ = gen.modis_input(c.rng, 1000, 2, 1354)
    jobs = [(c.pick(["modis1kmto500m", "modis1kmto250m"]), lon, lat[:, :700] if c.k % 4 > 1 else lat, 2)]
    c.note(method=method, jobs=str([(j[0], j[2].shape) for j in jobs]))
    answer = cores.run(method, jobs, False)
    if answer is None:
        raise Inconclusive("no answer within 200 s")
    (result,), left, diff = answer
    c.calls.append(jobs[0][0])
    c.ensure(not diff, "calls on several cores (%s) changed %s" % (method, diff))
    c.ensure(not left, "calls on several cores (%s) left %d processes" % (method, left))
    c.seen("settings compared with processes started by " + method)


BRIEF = ["lonlat2xyz", "xyz2lonlat", "grid", "spline", "multiple grid", "geo grid", "geo spline", "multilinear", "zenith-angle", "lon/lat only",
         "Interpolator", "GeoInterpolator", "vii positions", "vii data", "basic"]
FOREIGN = {"on": False, "who": []}
ENTER = warnings.catch_warnings.__enter__


def entering(self):
    if FOREIGN["on"]:
        FOREIGN["who"].append(sys._getframe(1).f_globals.get("__name__", ""))
    return ENTER(self)


warnings.catch_warnings.__enter__ = entering


@group(quick=24, thorough=400, timeout=120)
def threads(c):
    """Calls in several threads at once: settings saved and put back by each would end up as another thread left them."""
    names = [c.pick(BRIEF) for _ in range(2)]
    names[0] = BRIEF[c.k % len(BRIEF)]
    subs = [subjects.subject(c, name) for name in names]
    slow = any(n in ("zenith-angle", "lon/lat only", "basic", "vii positions", "vii data") for n in names)
    n, calls = 6, 25 if slow else 120
    with Unusual(c):
        for _, arrs, run in subs:
            run(arrs)
        gc.collect()
        state, held = settings(), resources()
        errors, gate, interval = [], threading.Barrier(n), sys.getswitchinterval()

        def work(k):
            label, arrs, run = subs[k % 2]
            gate.wait()
            try:
                with np.errstate(all="ignore"):
                    for _ in range(calls):
                        run(arrs)
            except Exception as e:      # noqa: BLE001
                errors.append("%s: %r" % (label, e))
        workers = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        FOREIGN["on"], FOREIGN["who"] = True, []
        sys.setswitchinterval(1e-6)
        try:
            for w in workers:
                w.start()
            for w in workers:
                w.join()
        finally:
            sys.setswitchinterval(interval)
            FOREIGN["on"] = False
        c.note(subjects=str([s[0] for s in subs]), threads=n, calls=calls)
        c.ensure(not errors, "in a thread: %s" % errors[:1])
        others = sorted({w for w in FOREIGN["who"] if not w.startswith("geotiepoints")})
        if others:
            c.seen("settings changed by other libraries in threads: not judged")
            return
        same_afterwards(c, "%s in %d threads" % (" and ".join(s[0] for s in subs), n), state, held)
        c.seen("settings compared after threads")
        c.seen("calls in threads", n * calls)


IMPORTER = """
import json, os, sys
what = json.loads(sys.argv[1])
sys.path.insert(0, what["verif"])
for m in what["first"]:
    __import__(m)
from vlib import state
import warnings
if what["filter"]:
    warnings.simplefilter(what["filter"])
before, held = state.settings(), state.resources()
state.WATCH["on"] = True
for m in what["modules"]:
    __import__(m)
state.WATCH["on"] = False
after, now = state.settings(), state.resources()
diff = ["%s: %s -> %s" % (k, before[k][:90], after[k][:90]) for k in state.changed(before, after)]
diff += ["%s: %s -> %s" % (k, str(held[k])[-90:], str(now[k])[-90:]) for k in state.changed(held, now)]
with open(what["out"], "w") as f:
    json.dump([diff, state.WATCH["events"]], f)
"""

MODULES = ["geotiepoints", "geotiepoints.interpolator", "geotiepoints.geointerpolator", "geotiepoints.multilinear",
           "geotiepoints.multilinear_cython", "geotiepoints.basic_interpolator", "geotiepoints.modisinterpolator",
           "geotiepoints.simple_modis_interpolator", "geotiepoints.viiinterpolator", "geotiepoints._modis_interpolator",
           "geotiepoints._simple_modis_interpolator", "geotiepoints._modis_utils", "geotiepoints.version"]
# what the library imports, and what that imports late: not ours to judge
FIRST = ["numpy", "scipy.interpolate", "scipy.spatial", "scipy.ndimage", "pandas", "xarray", "dask.array", "pyproj", "pyresample.geometry",
         "multiprocessing.pool", "warnings", "functools"]


@group(quick=14, thorough=150, timeout=200)
def imports(c):
    """Importing the modules in any order changes nothing for anybody else and prints nothing."""
    modules = [str(m) for m in c.rng.permutation(MODULES)[:int(c.pick([1, 3, len(MODULES)]))]]
    if c.k == 0:
        modules = list(MODULES)
    out = os.path.join(tempfile.gettempdir(), "imports-%d-%d.json" % (os.getpid(), c.k))
    what = dict(verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), first=FIRST, modules=modules, out=out,
                filter=c.pick(["", "always", "ignore"]) if c.k else "")
    c.note(modules=str(modules), filter=what["filter"])
    c.calls.append("import")
    try:
        res = subprocess.run([sys.executable, "-c", IMPORTER, json.dumps(what)], capture_output=True, text=True, timeout=180)
        c.ensure(res.returncode == 0, "importing %s failed: %s" % (modules, res.stderr[-300:]))
        diff, events = json.load(open(out))
    finally:
        if os.path.exists(out):
            os.remove(out)
    c.ensure(not diff, "importing %s changed %s" % (modules, diff))
    events = [e for e in events if not e.startswith("subprocess.Popen ('git'")]       # versioneer, in a checkout
    c.ensure(not events, "importing %s had side effects: %s" % (modules, events[:3]))
    c.ensure(not res.stdout, "importing %s printed %r" % (modules, res.stdout[:80]))
    c.seen("imports in fresh processes")
