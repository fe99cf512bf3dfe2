"""C24: interpolator objects can be reused without side effects."""
import dask
import numpy as np

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.geointerpolator import GeoGridInterpolator, GeoInterpolator, GeoSplineInterpolator
from geotiepoints.interpolator import Interpolator
from geotiepoints.multilinear import MultilinearInterpolator
from vlib import gen, interp
from vlib.core import group


class Memory:
    """Every array returned so far with a copy: none may change later."""

    def __init__(self, c):
        self.c, self.kept, self.containers = c, [], []

    def keep_container(self, result, label):
        """A returned list or tuple: its elements stay as well."""
        if isinstance(result, (list, tuple)):
            self.containers.append((result, [np.array(a) for a in result], label))

    def keep(self, arrays, label):
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.kept.append((a, a.copy(), label))

    def check(self):
        for a, b, label in self.kept:
            self.c.equal(a, b, "an array returned earlier (%s) changed" % label)
        for res, copies, label in self.containers:
            self.c.ensure(len(res) == len(copies), "a list returned earlier (%s) changed its length" % label)
            for a, b in zip(res, copies):
                self.c.equal(np.asarray(a), b, "the elements of a list returned earlier (%s) changed" % label)
        self.c.seen("returned arrays watched", len(self.kept))
        self.c.seen("returned lists watched", len(self.containers))


def same(c, got, want, what):
    c.ensure(len(got) == len(want), "%s: %d results instead of %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        c.ensure(g.dtype == w.dtype, "%s: dtype %s instead of %s" % (what, g.dtype, w.dtype))
        scale = np.nanmax(np.abs(w)) if w.size and not np.isnan(w).all() else 1.0
        c.close(g, w, 1e-12 * scale, what)


def alike(c, p):
    """As many positions with the same first and last one, others in between (or in another order)."""
    q = np.array(p)
    how = c.pick(["mirrored", "one moved", "drawn again"])
    if len(q) > 2:
        if how == "mirrored":
            q[1:-1] = np.clip((p[0] + p[-1]) - p[-2:0:-1], min(p[0], p[-1]), max(p[0], p[-1]))
        elif how == "one moved":
            k = int(c.rng.integers(1, len(q) - 1))
            q[k] = (q[k - 1] + q[k]) / 2
        else:
            q[1:-1] = np.sort(c.rng.uniform(min(p[0], p[-1]), max(p[0], p[-1]), len(q) - 2))
    return q


@group(quick=120, thorough=2500)
def grid_and_spline(c):
    """A random history on two objects against fresh objects."""
    kind, flavour = c.pick(["grid", "spline"]), c.pick(["single", "multiple", "geo"])
    rows, ru = interp.tie_positions(c, int(c.rng.integers(5, 10)))
    cols, cu = interp.tie_positions(c, int(c.rng.integers(5, 10)))
    shape = (len(rows), len(cols))

    def build(data, kw):
        if flavour == "geo":
            return c.call("Geo" + kind.title(), GeoGridInterpolator if kind == "grid" else GeoSplineInterpolator, (rows, cols), *data, **kw)
        if flavour == "single":
            return interp.single(c, kind, (rows, cols), data[0], **kw)
        return interp.multiple(c, kind, (rows, cols), *data, **kw)
    specs = []
    for _ in range(2):
        data = list(gen.wiggly_positions(c.rng, shape, 10.0)) if flavour == "geo" else [c.rng.normal(size=shape) for _ in range(2)]
        kw = c.pick([{}, dict(bounds_error=False, fill_value=None), dict(method="nearest")]) if kind == "grid" else c.pick([{}, dict(kx=1, ky=2)])
        specs.append((data, kw))
    objects = [build([np.array(d) for d in data], kw) for data, kw in specs]
    memory, pending, asked = Memory(c), [], []

    def ask(it, fine, kw):
        res = c.call("%s %s" % (flavour, kind), it.interpolate, fine, **kw)
        return [res] if flavour == "single" else list(res)
    steps = int(c.rng.integers(4, 12)) * (6 if c.rng.random() < 0.08 else 1)
    for step in range(steps):
        w = int(c.rng.integers(2))
        how = c.rng.random()
        if asked and how < 0.35:
            fine, kw = asked[int(c.rng.integers(len(asked)))]      # the same request again
        elif asked and how < 0.6:
            fine, kw = asked[-1]
            if how < 0.5 or any("chunks" in k for _, k in asked):
                fine = tuple(alike(c, f) if c.rng.random() < 0.7 else f for f in fine)
                c.seen("requests like the one before")
            else:
                # the caller's own arrays, with other positions in them by now
                for f in fine:
                    f[...] = alike(c, f)
                c.seen("requests with the arrays of the one before, changed")
            asked.append((fine, kw))
        else:
            fine = interp.inside(c, rows, ru), interp.inside(c, cols, cu)
            if c.rng.random() < 0.2:
                fine = rows.copy(), cols.copy()
                c.seen("requests for the tie points themselves")
            kw = {}
            if c.rng.random() < 0.4:
                kw["chunks"] = interp.random_chunks(c, (len(fine[0]), len(fine[1])))
            if kind == "grid" and c.rng.random() < 0.3:
                kw["method"] = c.pick(["linear", "nearest", "slinear"])
            if kind == "spline" and c.rng.random() < 0.2 and flavour != "geo":
                kw["dy"] = 1
            asked.append((fine, kw))
        got = ask(objects[w], fine, kw)
        want = ask(build(*specs[w]), fine, kw)
        if "chunks" in kw:
            if c.rng.random() < 0.5:
                pending.append((got, [np.asarray(a) for a in want]))     # computed at the end
                continue
            got, want = list(dask.compute(*got)), list(dask.compute(*want))
        memory.keep(got, "%s %s" % (flavour, kind))
        same(c, got, want, "%s %s after %d requests" % (flavour, kind, step))
        if c.rng.random() < 0.2:
            for a in got:
                a[...] = 1e30                   # the caller may do with results what he likes
                memory.kept = [k for k in memory.kept if k[0] is not a]
    for got, want in pending:
        same(c, list(dask.compute(*got)), want, "lazy %s %s computed later" % (flavour, kind))
        c.seen("lazy results computed later")
    memory.check()
    c.note(kind=kind, flavour=flavour, steps=steps)
    c.seen("steps", steps)


@group(quick=120, thorough=2500)
def generic_spline(c):
    geo = c.rng.random() < 0.4
    m, nchunks, step = int(c.rng.integers(2, 5)), int(c.rng.integers(1, 4)), int(c.pick([2, 5]))
    rows, cols = np.arange(m * nchunks) * step + int(c.rng.integers(0, step)), np.arange(int(c.rng.integers(4, 8))) * 5 + 2
    fine = np.arange(step * m * nchunks), np.arange(5 * len(cols))
    if c.rng.random() < 0.3:
        fine = rows.copy(), fine[1]
    chunk = len(fine[0]) // nchunks
    data = [tuple(gen.wiggly_positions(c.rng, (len(rows), len(cols)), 5.0)) if geo else [c.rng.normal(size=(len(rows), len(cols))) for _ in range(2)]
            for _ in range(2)]
    ky = int(c.pick([1, 3]))
    if not geo and c.rng.random() < 0.5:
        data[1] = data[0]                 # the very same list of arrays
    lists = [(d, list(d), [np.array(a) for a in d]) for d in data]
    # twice the same number of tie rows per chunk is needed for filling again
    firsts = [fine[0][k * chunk] in rows for k in range(nchunks)]
    again_ok = nchunks == 1 or all(firsts) or not any(firsts)

    def build(w):
        return c.call("GeoInterpolator" if geo else "Interpolator", GeoInterpolator if geo else Interpolator, data[w], (rows, cols), fine, 1, ky, chunk_size=chunk)
    objects, filled = [build(0), build(1)], [[], []]
    memory = Memory(c)
    steps = int(c.rng.integers(3, 9))
    for n in range(steps):
        w = int(c.rng.integers(2))
        if c.rng.random() < 0.35:
            dims = c.pick([("y", "x"), ("x", "y"), ("x",), ("y",)])
            if "y" not in dims or not any("y" in f for f in filled[w]) or again_ok:
                c.call("fill_borders", objects[w].fill_borders, *dims)
                filled[w].append(dims)
                continue
        got = c.call("interpolate", objects[w].interpolate)
        memory.keep_container(got, "generic spline")
        fresh = build(w)
        dims = sorted({d for f in filled[w] for d in f})      # filling again changes nothing
        if dims:
            fresh.fill_borders(*dims)
        want = fresh.interpolate()
        memory.keep(got, "generic spline")
        if geo:
            c.within(gen.dist_m(*got, *want), 1e-3, "geo interpolator: metres after %d steps" % n)
        else:
            same_loose(c, got, want, "generic spline after %d steps, borders %s" % (n, filled[w]))
        c.seen("histories with borders filled repeatedly", int(len(filled[w]) > 1))
    memory.check()
    for d, elements, copies in lists:
        c.ensure(len(d) == len(elements) and all(a is b for a, b in zip(d, elements)), "the list of arrays given was changed")
        for a, b in zip(d, copies):
            c.equal(a, b, "an array given was changed")
    c.note(geo=bool(geo), steps=steps, fills=str(filled))


def same_loose(c, got, want, what):
    c.ensure(len(got) == len(want), "%s: %d results" % (what, len(got)))
    for g, w in zip(got, want):
        c.close(g, w, 1e-10 * (1 + np.abs(w).max()), what)


@group(quick=120, thorough=2500)
def multilinear(c):
    d = int(c.rng.integers(1, 5))
    orders = [int(v) for v in c.rng.integers(2, 6, d)]
    size = int(np.prod(orders))
    dtype = c.pick([np.float64, np.float32])
    # two grids of the same and of different size
    bounds = [(c.rng.uniform(-2, 0, d), c.rng.uniform(1, 3, d)) for _ in range(2)]
    values = [c.rng.normal(size=(int(c.rng.integers(1, 4)), size)).astype(dtype) for _ in range(2)]
    objects = [c.call("MultilinearInterpolator", MultilinearInterpolator, *bounds[w], orders, values[w] if c.rng.random() < 0.5 else None, dtype=dtype) for w in range(2)]
    for w in range(2):
        c.call("set_values", objects[w].set_values, values[w])
    memory = Memory(c)
    eps = np.finfo(dtype).eps
    s = None
    for n in range(int(c.rng.integers(4, 12)) * (6 if c.rng.random() < 0.08 else 1)):
        w = int(c.rng.integers(2))
        what = c.rng.random()
        if what < 0.3:
            values[w] = c.rng.normal(size=(int(c.rng.integers(1, 4)), size)).astype(dtype) * 10.0 ** c.rng.integers(-2, 3)
            c.call("set_values", objects[w].set_values, values[w])
            continue
        if what < 0.45:
            grid = objects[w].grid
            axes = [np.linspace(a, b, o) for a, b, o in zip(*bounds[w], orders)]
            want = np.stack([g.ravel() for g in np.meshgrid(*axes, indexing="ij")])
            c.ensure(grid.dtype == dtype, "grid: dtype %s" % grid.dtype)
            c.close(grid, want, 8 * eps * 3, "grid")
            c.seen("grids of reused objects")
            memory.keep([grid], "grid")
            continue
        if s is not None and what < 0.65:
            how = c.pick(["shuffled", "mirrored", "one moved", "changed in place"])
            s = s if how == "changed in place" else s.copy()
            if how == "mirrored":
                s = np.ascontiguousarray(s[:, ::-1])
            elif how == "shuffled":
                s = np.ascontiguousarray(c.rng.permutation(s, axis=1))
            else:
                s[int(c.rng.integers(d)), int(c.rng.integers(s.shape[1]))] = c.rng.uniform(-1, 2)
            c.seen("points %s" % how)
        else:
            s = c.rng.uniform(-3, 4, (d, int(c.rng.integers(1, 40)))).astype(dtype)
        kept = s.copy()
        got = c.call("multilinear interpolate", objects[w].interpolate, s)
        want = MultilinearInterpolator(*bounds[w], orders, values[w].copy(), dtype=dtype).interpolate(kept)
        c.close(got, want, 1e3 * eps * np.abs(values[w]).max() * 10.0 ** d, "multilinear after %d steps" % n)
        memory.keep([got], "multilinear")
    memory.check()
    c.note(orders=str(orders), dtype=dtype.__name__)


@group(quick=24, thorough=400)
def basic(c):
    rows, cols = (np.concatenate([[0], np.cumsum(c.rng.integers(1, 9, int(c.rng.integers(2, 7))))]) for _ in range(2))
    made = []
    for _ in range(2):
        lat, lon = c.rng.uniform(-90, 90, (len(rows), len(cols))), c.rng.uniform(-180, 180, (len(rows), len(cols)))
        made.append((c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, cols, rows, lat, lon), lat, lon))
    memory, first = Memory(c), {}
    for n in range(6):
        w = int(c.rng.integers(2))
        got = c.call("basic interpolate", made[w][0].interpolate)
        memory.keep_container(got, "pandas-based")
        got = [np.asarray(a) for a in got]
        memory.keep(got, "pandas-based")
        for a, tie in zip(got, made[w][1:]):
            c.close(a[np.ix_(rows, cols)], tie, 1e-10, "pandas-based interpolator after %d requests" % n)
        if w in first:
            same(c, got, first[w], "pandas-based interpolator again")
        first[w] = [a.copy() for a in got]
    memory.check()
