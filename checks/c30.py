"""C30: calls that fail or are interrupted have no effect on arguments, objects or later calls.

Faults: malformed requests between valid ones; exceptions (KeyboardInterrupt, MemoryError) raised at any line of the library's
Python code (trace function) or by any allocation (numpy's functions replaced); oracles: fresh objects, the bytes and flags of the
arguments, the settings of the process.
"""
import sys
import warnings

import dask
import dask.array as da
import numpy as np
import xarray as xr

import geotiepoints
from checks import c18
from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator, SingleGridInterpolator,
                                       SingleSplineInterpolator)
from geotiepoints.multilinear import MultilinearInterpolator
from vlib import gen, subjects
from vlib.core import GROUPS, Violation, group
from vlib.state import changed, settings

GROUPS.clear()          # those of c18, only used for their malformed input
HOME = geotiepoints.__path__[0]
OWN = (HOME, __file__[:__file__.rindex("checks")])


# -- the arguments

def arrays_in(o, found):
    if isinstance(o, np.ndarray):
        found.append(o)
    elif hasattr(o, "dims") and hasattr(o, "data") and isinstance(o.data, np.ndarray):
        found.append(o.data)
    elif isinstance(o, (list, tuple)):
        for i in o:
            arrays_in(i, found)
    return found


class Untouched:
    """The arrays among the arguments keep their bytes, flags, shapes and types."""

    def __init__(self, c, label, *args):
        self.c, self.label, self.arrays = c, label, arrays_in(args, [])

    def look(self):
        return [(a.tobytes() if a.dtype != object else repr(a), a.flags.writeable, a.shape, a.strides, a.dtype.str) for a in self.arrays]

    def __enter__(self):
        self.before = self.look()

    def __exit__(self, *exc):
        for n, (b, a) in enumerate(zip(self.before, self.look())):
            self.c.ensure(a == b, "%s: argument %d of a call that failed changed (%s)"
                          % (self.label, n, "its values" if a[0] != b[0] else "%s -> %s" % (b[1:], a[1:])))
        self.c.seen("arguments of failed calls compared", len(self.arrays))


# -- faults

class Interrupted(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


def at_line(fn, at, exc):
    """Runs fn, raising *exc* before the *at*-th line of the library's code (0: never): (lines, result or None, failed)."""
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == at:
                raise exc("injected")
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(HOME) else None
    sys.settrace(enter)
    try:
        return count[0], fn(), False
    except (Interrupted, NoMemory):
        return count[0], None, True
    finally:
        sys.settrace(None)
        at_line.lines = count[0]


ALLOCATING = ["empty", "zeros", "empty_like", "zeros_like", "ones", "full", "concatenate", "hstack", "vstack", "stack", "array", "asarray",
              "repeat", "require", "arange", "meshgrid", "linspace", "atleast_2d", "ascontiguousarray"]


def at_allocation(fn, at, exc):
    """The same for the calls of numpy's functions from the library (compiled or not)."""
    count = [0]
    plain = {n: getattr(np, n) for n in ALLOCATING}

    def faulty(f):
        def g(*args, **kw):
            where = sys._getframe(1).f_code.co_filename
            if where.startswith(HOME) or where.endswith(("dask/core.py", "dask/_task_spec.py", "dask/utils.py")) or where == __file__ or where.endswith(("core.py", "subjects.py", "api.py")):
                count[0] += 1
                if count[0] == at:
                    raise exc("injected")
            return f(*args, **kw)
        return g
    for n, f in plain.items():
        setattr(np, n, faulty(f))
    try:
        return count[0], fn(), False
    except (Interrupted, NoMemory):
        return count[0], None, True
    except Exception:
        if not 0 < at <= count[0]:
            raise
        return count[0], None, True         # passed on as an error of another kind, by dask or the record of the call
    finally:
        for n, f in plain.items():
            setattr(np, n, f)
        at_allocation.lines = count[0]


# -- objects

KLASSES = {"single grid": SingleGridInterpolator, "single spline": SingleSplineInterpolator, "multiple grid": MultipleGridInterpolator,
           "multiple spline": MultipleSplineInterpolator, "geo grid": GeoGridInterpolator, "geo spline": GeoSplineInterpolator}
OBJECTS = list(KLASSES) + ["multilinear", "multilinear", "Interpolator", "Interpolator 1d", "GeoInterpolator", "basic"]


def listed(res):
    return [np.asarray(r) for r in ([res] if hasattr(res, "ndim") else res)]


def thing(c, name):
    """How to make an object, valid requests and malformed ones (functions of the object) and the arrays it is made from."""
    rng = c.rng
    n, m = int(rng.integers(6, 10)), int(rng.integers(6, 10))
    rows, cols = np.arange(n) * 5.0 + 2, np.arange(m) * 4.0 + 1
    geo = list(gen.wiggly_positions(rng, (n, m), 20.0))
    data = [rng.normal(size=(n, m)) for _ in range(int(rng.integers(2, 4)))]
    if name in KLASSES:
        given = geo if name.startswith("geo") else data[:1] if name.startswith("single") else data
        kw = {} if "spline" in name else c.pick([{}, dict(method="nearest")])
        fines = [(np.sort(rng.uniform(rows[0], rows[-1], k)), np.sort(rng.uniform(cols[0], cols[-1], 9))) for k in (7, 12)]
        far = fines[0][0] + 1000, fines[0][1]

        def ask(fine, **kw):
            return lambda it: listed(it.interpolate(fine, **kw))
        good = [ask(fines[0]), ask(fines[1]), ask(fines[0], chunks=4), ask(fines[1], chunks=((5, 7), (9,)))]
        if "grid" in name:
            good += [ask(fines[0], method="nearest"), ask(fines[1], method="linear"), ask(fines[1], method="nearest", chunks=5)]
        bad = [ask((fines[0][0],)), ask((fines[0][0], "x")), ask(None), ask(fines[0], chunks=((3,), (9,))), ask(fines[0], chunks="nonsense"),
               ask(fines[0], no_such_option=3), ask(fines[1], chunks=5, no_such_option=3), ask(([None] * 3, fines[0][1])),
               lambda it: it.interpolate_to_shape((5,)), lambda it: it.interpolate(), lambda it: it.interpolate_slices((slice(0, None), 3))]
        if "grid" in name:
            bad += [ask(far, method=m, **kw) for m in ("nearest", "linear") for kw in ({}, dict(chunks=4))]
            bad += [ask(far), ask(far, chunks=3), ask(fines[0], method="no such method"), ask((fines[0][0], fines[0][1] - 500), chunks=6)]
        else:
            bad += [ask((fines[0][0][::-1], fines[0][1])), ask((fines[0][0][::-1], fines[0][1]), chunks=3)]
        return lambda: KLASSES[name]((rows, cols), *given, **kw), good, bad, [rows, cols, given, fines]
    if name == "multilinear":
        d = int(rng.integers(1, 4))
        orders = [int(v) for v in rng.integers(2, 6, d)]
        size = int(np.prod(orders))
        lo, hi = rng.uniform(-2, 0, d), rng.uniform(1, 2, d)
        values = [rng.normal(size=(k, size)) for k in (1, 2)]
        pts = [rng.uniform(-3, 3, (d, k)) for k in (4, 30)]

        def points(p):
            return lambda it: [it.interpolate(p)]

        def wrong_values(v):
            def go(it):
                # what replaces the values and is rejected only when interpolating, is replaced again
                keep = it.values
                try:
                    it.set_values(v)
                except Exception:
                    return it.interpolate(None)
                try:
                    it.interpolate(pts[0])
                finally:
                    it.set_values(keep)
            return go

        def new_values(v):
            def go(it):
                it.set_values(v)
                res = [it.interpolate(pts[0])]
                it.set_values(values[0])
                return res
            go.restore = lambda it: it.set_values(values[0])
            return go
        good = [points(pts[0]), points(pts[1]), lambda it: [np.array(it.grid)], new_values(values[1])]
        bad = [points(np.zeros((d + 1, 3))), points(np.zeros(d)), points("abc"), points(None), points(np.zeros((d, 2), complex) + 1j),
               lambda it: it(), lambda it: it.set_values(), lambda it: it.set_values("abc"), lambda it: it.set_values([["a"] * size]),
               lambda it: it.set_values([[1, 2], [3]]), wrong_values(np.zeros((1, size + 1))), wrong_values(np.zeros(size)),
               wrong_values(np.zeros((1, 1, size)))]
        return lambda: MultilinearInterpolator(lo, hi, orders, values[0]), good, bad, [lo, hi, values, pts]
    if name == "basic":
        r, q = (np.concatenate([[0], np.cumsum(rng.integers(1, 6, k - 1))]) for k in (n, m))
        return (lambda: BasicSatelliteInterpolator(q, r, *geo), [lambda it: listed(it.interpolate())],
                [lambda it: it.interpolate(3), lambda it: it.interpolate(rows=3)], [r, q, geo])
    is_geo, filled = name == "GeoInterpolator", c.pick([(), ("y", "x"), ("x",)])
    hrows = rows.copy() if "1d" in name else np.arange(n * 5.0)
    if "1d" in name and filled:
        filled = ("x",)
    klass, given = (GeoInterpolator, tuple(geo)) if is_geo else (Interpolator, data)
    kx, ky = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    hcols = np.arange(m * 4.0)

    def build():
        it = klass(given, (rows, cols), (hrows, hcols), kx, ky, **({} if "1d" in name else dict(chunk_size=n * 5)))
        it.fill_borders(*filled)
        return it
    bad = [lambda it: it.fill_borders("y", "no such border"), lambda it: it.fill_borders("x", "z"), lambda it: it.fill_borders(None),
           lambda it: it.fill_borders("yx"), lambda it: it.fill_borders("x", ""), lambda it: it.interpolate(3), lambda it: it.interpolate(rows=2)]
    return build, [lambda it: listed(it.interpolate())], bad, [rows, cols, hrows, hcols, list(given)]


def same(c, got, want, what):
    c.ensure(len(got) == len(want), "%s: %d results instead of %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        c.ensure(g.shape == w.shape and g.dtype == w.dtype, "%s: %s%s instead of %s%s" % (what, g.dtype, g.shape, w.dtype, w.shape))
        c.close(g, w, 1e-12 * (np.nanmax(np.abs(w)) if np.isfinite(w).any() else 1), what)


def outcome(fn, *args):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args), None
    except Exception as e:
        return None, e


@group(quick=180, thorough=4000)
def rejected_requests(c):
    """Malformed requests between valid ones."""
    name = OBJECTS[c.k % len(OBJECTS)]
    make, good, bad, inputs = thing(c, name)
    c.note(object=name, requests=[len(good), len(bad)], inputs=inputs)
    it = c.call(name, make)
    returned, state = [], settings()
    for n in range(10):
        k = int(c.rng.integers(len(good)))
        with Untouched(c, name, inputs):
            if c.rng.random() < 0.6:
                req = bad[int(c.rng.integers(len(bad)))]
                _, exc = outcome(req, it)
                c.calls.append(name + " malformed request")
                c.seen("malformed requests rejected" if exc is not None else "malformed requests tolerated")
                if exc is None:         # filled borders and the like are another request: not judged here
                    it = make()
                continue
            got = c.call(name + " request", good[k], it)
        want = c.call(name + " request of a fresh object", good[k], make())
        same(c, got, want, "%s after %d requests, some rejected" % (name, n))
        returned.append((got, [g.copy() for g in got]))
    k = int(c.rng.integers(len(good)))
    same(c, c.call(name + " request", good[k], it), c.call(name + " request of a fresh object", good[k], make()), name + " in the end")
    for got, copies in returned:
        for g, w in zip(got, copies):
            c.equal(g, w, name + ": a result returned before a rejected request")
    diff = changed(state, settings())
    c.ensure(not diff, "%s: settings changed by rejected requests: %s" % (name, diff))
    c.seen("object: " + name)


@group(quick=180, thorough=5000)
def interrupted_objects(c):
    """Requests interrupted anywhere, and objects whose first request was."""
    name = OBJECTS[c.k % len(OBJECTS)]
    make, good, bad, inputs = thing(c, name)
    c.note(object=name, inputs=inputs)
    want = [c.call(name + " request of a fresh object", g, make()) for g in good]
    it = c.call(name, make)
    state, used = settings(), bool(c.rng.random() < 0.5)
    if used:
        good[int(c.rng.integers(len(good)))](it)
    for _ in range(6):
        k = int(c.rng.integers(len(good)))
        inject = c.pick([at_line, at_line, at_allocation])
        inject(lambda: good[k](make()), 0, Interrupted)
        if not inject.lines:
            continue
        at, exc = int(c.rng.integers(1, inject.lines + 1)), c.pick([Interrupted, NoMemory])
        with Untouched(c, name, inputs):
            _, got, failed = inject(lambda: good[k](it), at, exc)
        c.seen("interrupted at a line" if failed and inject is at_line else "interrupted by an allocation" if failed else "not interrupted")
        c.calls.append(name + " interrupted")
        getattr(good[k], "restore", lambda it: None)(it)
        for n in c.rng.permutation(len(good))[:2]:
            same(c, c.call(name + " request", good[n], it), want[n],
                 "%s after request %d was interrupted at %s %d of %d by %s" % (name, k, inject.__name__[3:], at, inject.lines, exc.__name__))
    diff = changed(state, settings())
    c.ensure(not diff, "%s: settings changed by interrupted requests: %s" % (name, diff))
    c.seen("interrupted object: " + name)


@group(quick=120, thorough=3000)
def interrupted_functions(c):
    """Functions interrupted anywhere: their arguments keep their values, the next call is not affected."""
    label, arrs, run = subjects.subject(c)
    name = subjects.NAMES[c.k % len(subjects.NAMES)]
    lazy = name in ("zenith-angle", "lon/lat only") and c.rng.random() < 0.5

    def go(a):
        if not lazy:
            return [np.asarray(v) for v in run(a)]
        return [np.asarray(v) for v in dask.compute(*run([xr.DataArray(da.from_array(v, chunks=(5, -1)), dims=("y", "x")) for v in a]))]
    c.note(subject=label, shapes=str([a.shape for a in arrs]), lazy=lazy)
    want, state = go([a.copy() for a in arrs]), settings()
    for _ in range(4):
        inject = c.pick([at_line, at_allocation, at_allocation])
        inject(lambda: go([a.copy() for a in arrs]), 0, Interrupted)
        if not inject.lines:
            inject = at_allocation if inject is at_line else at_line
            inject(lambda: go([a.copy() for a in arrs]), 0, Interrupted)
            if not inject.lines:
                break
        at, exc = int(c.rng.integers(1, inject.lines + 1)), c.pick([Interrupted, NoMemory])
        given = [a.copy() for a in arrs]
        with Untouched(c, label, given):
            try:
                _, got, failed = inject(lambda: go(given), at, exc)
            except Violation as e:      # the record of the call
                if not isinstance(e.__cause__, (Interrupted, NoMemory)):
                    raise
                failed = True
        c.seen("interrupted at a line" if failed and inject is at_line else "interrupted by an allocation" if failed else "not interrupted")
        res = go(given)
        c.ensure(len(res) == len(want), "%s: %d results instead of %d" % (label, len(res), len(want)))
        for g, w in zip(res, want):
            c.equal(g, w, "%s after a call was interrupted at %s %d of %d by %s" % (label, inject.__name__[3:], at, inject.lines, exc.__name__))
    diff = changed(state, settings())
    c.ensure(not diff, "%s: settings changed by interrupted calls: %s" % (label, diff))
    c.seen("interrupted function: " + name)


@group(quick=120, thorough=3000)
def rejected_input(c):
    """Malformed input is not modified by being rejected."""
    fn = getattr(c18, c.pick(["modis", "modis", "vii", "vii", "modis_resolutions", "helpers"]))
    plain = c18.rejected

    def rejected(c, label, why, call, *args, **kw):
        with Untouched(c, "%s (%s)" % (label, why), args):
            plain(c, label, why, call, *args, **kw)
    c18.rejected = rejected
    try:
        fn(c)
    except Violation as e:
        if "no exception" not in str(e):          # whether it is rejected is decided elsewhere
            raise
    finally:
        c18.rejected = plain
    c.seen("rejected input compared")
