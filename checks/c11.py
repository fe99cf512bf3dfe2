"""C11: lazy grid and spline interpolation equals eager interpolation."""
import dask
import dask.array as da
import numpy as np

from geotiepoints.geointerpolator import GeoGridInterpolator, GeoSplineInterpolator
from vlib import gen, interp
from vlib.core import group


class Thing:
    """One interpolator (single, multiple or geographical) with its tie grid and how to ask it."""

    def __init__(self, c, kind=None, flavour=None, ties=None, like=None):
        self.c = c
        self.kind = kind or c.pick(["grid", "spline"])
        self.flavour = flavour or c.pick(["single", "multiple", "geo"])
        if ties is None:
            self.rows, self.ru = interp.tie_positions(c, interp.count(c, 5, 12), ratio=5)
            self.cols, self.cu = interp.tie_positions(c, interp.count(c, 5, 12), ratio=5)
        else:
            self.rows, self.ru, self.cols, self.cu = ties
        self.ties = (self.rows, self.ru, self.cols, self.cu)
        shape = (len(self.rows), len(self.cols))
        self.dtype = like.dtype if like else c.pick([np.float64, np.float64, np.float32])
        self.kw = {}
        if self.kind == "spline":
            if c.rng.random() < 0.6:
                self.kw = dict(kx=int(c.rng.integers(1, 5)), ky=int(c.rng.integers(1, 5)))
        else:
            self.kw = c.pick([{}, {}, dict(method="linear"), dict(method="nearest"),
                              dict(bounds_error=False, fill_value=None), dict(bounds_error=False, fill_value=-7.0),
                              dict(bounds_error=False)])
        if self.flavour == "geo":
            lon, lat = gen.wiggly_positions(c.rng, shape, 20.0)
            self.data = like.data if like else [lon.astype(self.dtype), lat.astype(self.dtype)]
            cls = GeoGridInterpolator if self.kind == "grid" else GeoSplineInterpolator
            self.it = c.call(cls.__mro__[1].__name__ + " (geo)", cls, (self.rows, self.cols), *self.data, **self.kw)
        else:
            n = 1 if self.flavour == "single" else int(c.rng.integers(1, 4))
            self.data = [(c.rng.normal(size=shape) * 10.0 ** c.rng.integers(-2, 4)).astype(self.dtype) for _ in range(n)]
            if self.flavour == "single" and c.rng.random() < 0.1:
                self.data = [np.rint(self.data[0] * 100).astype(np.int32)]
            if like:        # the very same values, another interpolator or other options
                self.data = like.data
            make = interp.single if self.flavour == "single" else interp.multiple
            self.it = make(c, self.kind, (self.rows, self.cols), *self.data, **self.kw)
        self.outside = self.kind == "grid" and "bounds_error" in self.kw

    def request(self):
        """(fine points, call options)"""
        c = self.c
        order = c.pick(["ascending", "ascending", "random", "descending"]) if self.kind == "grid" else "ascending"
        out = []
        for p, u in ((self.rows, self.ru), (self.cols, self.cu)):
            if np.asarray(p).dtype.kind == "i" and c.rng.random() < 0.4:
                a, b = np.sort(c.rng.integers(p[0], p[-1] + 1, 2))
                q = np.arange(a, b + 1)
            else:
                q = interp.inside(c, p, u, n=int(c.rng.integers(1, 40)))
            if self.outside and c.rng.random() < 0.6:
                q = np.sort(np.concatenate([q, q[0] - c.rng.uniform(0, 3, 2) * u, q[-1] + c.rng.uniform(0, 3, 2) * u]))
            if order == "random":
                q = c.rng.permutation(q)
            elif order == "descending":
                q = q[::-1]
            out.append(q if c.rng.random() < 0.9 else q.tolist())
        call = {}
        if self.kind == "spline" and c.rng.random() < 0.2 and self.flavour != "geo":
            k = min(self.kw.get("kx", 3), self.kw.get("ky", 3))
            call = dict(dx=1) if c.rng.random() < 0.5 else dict(dy=1)
            if k < 2:
                call = {}
        elif self.kind == "grid" and c.rng.random() < 0.3:
            call = dict(method=c.pick(["linear", "nearest"]))
        return tuple(out), call, order

    def ask(self, fine, **kw):
        label = "%s %s %s" % (self.flavour, self.kind, "lazy" if "chunks" in kw else "eager")
        res = self.c.call(label, self.it.interpolate, fine, **kw)
        if self.flavour == "single":
            return [res]
        if self.flavour == "multiple":
            return self.c.call(label + " (drawn)", list, res)
        return list(res)

    def scale(self):
        return 360.0 if self.flavour == "geo" else max(float(np.abs(d).max()) for d in self.data)


def check(c, thing, fine, call, chunks, lazy, eager):
    shape = (len(fine[0]), len(fine[1]))
    want_chunks = da.core.normalize_chunks(chunks, shape, dtype=thing.data[0].dtype)
    c.ensure(len(lazy) == len(eager), "%d lazy and %d eager results" % (len(lazy), len(eager)))
    for lz, eg in zip(lazy, eager):
        c.ensure(isinstance(lz, da.Array), "a lazy result is a %s" % type(lz).__name__)
        c.ensure(lz.shape == shape and lz.chunks == want_chunks,
                 "declared shape %s chunks %s instead of %s %s" % (lz.shape, lz.chunks, shape, want_chunks))
        c.ensure(lz.dtype == np.asarray(eg).dtype, "declared dtype %s, eager %s" % (lz.dtype, np.asarray(eg).dtype))


TOL = {4: 3e-5, 8: 1e-10}


def same(c, thing, got, want, what):
    for g, w in zip(got, want):
        w = np.asarray(w)
        c.ensure(type(g) is np.ndarray and g.dtype == w.dtype, "%s: computed %s %s instead of %s" % (what, type(g).__name__, getattr(g, "dtype", None), w.dtype))
    tol = TOL[np.dtype(thing.dtype).itemsize]
    if thing.flavour == "geo":
        c.ensure(got[0].shape == want[0].shape, "%s: shape %s instead of %s" % (what, got[0].shape, want[0].shape))
        c.within(gen.max_dist(got, [np.asarray(w) for w in want]), gen.rounding_m(thing.dtype) * 2, what + ": metres (%s)" % np.dtype(thing.dtype))
    else:
        for g, w in zip(got, want):
            c.close(g, w, tol * max(np.nanmax(np.abs(np.asarray(w, float)), initial=0), thing.scale()), what)


@group(quick=400, thorough=8000)
def lazy_equals_eager(c):
    t = Thing(c)
    fine, call, order = t.request()
    eager = t.ask(fine, **call)
    shape = (len(fine[0]), len(fine[1]))
    chunks = interp.random_chunks(c, shape) if c.rng.random() < 0.9 else "auto"
    c.note(kind=t.kind, flavour=t.flavour, dtype=np.dtype(t.data[0].dtype).name, options=str(t.kw), call=str(call), order=order, chunks=str(chunks)[:200])
    lazy = t.ask(fine, chunks=chunks, **call)
    check(c, t, fine, call, chunks, lazy, eager)
    how = c.pick(["joint", "separate", "slices", "threads", "blocks"])
    if how == "joint":
        got = list(dask.compute(*lazy))
    elif how == "threads":
        got = list(dask.compute(*lazy, scheduler="threads", num_workers=4))
    elif how == "separate":
        got = [a.compute() for a in lazy]
    elif how == "blocks":
        for a in lazy:
            for i in np.ndindex(a.numblocks):
                b = a.blocks[i]
                c.ensure(b.compute().shape == tuple(ch[k] for ch, k in zip(a.chunks, i)), "a block differs from its declared size")
        got = [a.compute() for a in lazy]
    else:
        sel = tuple(slice(int(a), int(b) + 1, int(c.pick([1, 1, 2]))) for a, b in (np.sort(c.rng.integers(0, s, 2)) for s in shape))
        got = list(dask.compute(*[a[sel] for a in lazy]))
        eager = [np.asarray(e)[sel] for e in eager]
    same(c, t, got, eager, "lazy against eager")
    c.seen("order " + order)


@group(quick=150, thorough=2500)
def to_shape(c):
    """interpolate_to_shape, eager and lazy."""
    rows, cols = (np.concatenate([[0], np.cumsum(c.rng.integers(1, 6, int(c.rng.integers(4, 9))))]) for _ in range(2))
    t = Thing(c, flavour=c.pick(["multiple", "geo"]), ties=(rows, 1.0, cols, 1.0))
    shape = int(c.rng.integers(1, rows[-1] + 2)), int(c.rng.integers(1, cols[-1] + 2))
    chunks = interp.random_chunks(c, shape)
    c.note(shape=list(shape), flavour=t.flavour, kind=t.kind, chunks=str(chunks))
    want = t.ask((np.arange(shape[0]), np.arange(shape[1])))
    eager = list(c.call("interpolate_to_shape", t.it.interpolate_to_shape, shape))
    lazy = list(c.call("interpolate_to_shape", t.it.interpolate_to_shape, shape, chunks=chunks))
    check(c, t, (range(shape[0]), range(shape[1])), {}, chunks, lazy, want)
    same(c, t, eager, want, "interpolate_to_shape")
    same(c, t, list(dask.compute(*lazy)), want, "lazy interpolate_to_shape")


@group(quick=120, thorough=2500)
def distinct_results(c):
    """Results of interpolators, data, options and positions that differ slightly are computed together."""
    first = Thing(c)
    things = [first]
    for _ in range(int(c.rng.integers(1, 4))):
        kind = c.pick([first.kind, first.kind, "grid", "spline"])
        if c.rng.random() < 0.6:
            things.append(Thing(c, kind=kind, flavour=first.flavour, ties=first.ties, like=first))
            c.seen("same values, another interpolator or options" if (kind, str(things[-1].kw)) != (first.kind, str(first.kw))
                   else "same values and options twice")
        else:
            things.append(Thing(c, kind=kind, flavour=c.pick(["single", "multiple", "geo"]), ties=first.ties))
    fine, _, _ = first.request()
    fine = tuple(np.clip(np.sort(f), float(p[0]), float(p[-1])) for f, p in zip(fine, (first.rows, first.cols)))
    chunks = interp.random_chunks(c, (len(fine[0]), len(fine[1])))
    lazy, want, who = [], [], []
    for t in things:
        _, call, _ = t.request()
        for f in (fine, tuple(np.clip(x + u * 1e-3, float(p[0]), float(p[-1])) for x, u, p in
                              zip(fine, (first.ru, first.cu), (first.rows, first.cols)))):
            for options in ([{}, call] if call else [{}]):
                lazy.append(t.ask(f, chunks=chunks, **options))
                want.append(t.ask(f, **options))
                who.append(t)
    c.note(things=len(things), results=len(lazy))
    for t, got, w in zip(who, dask.compute(*lazy), want):
        same(c, t, list(got), w, "computed together")
        c.seen("results computed together")
    # parts glued together
    flat = [a for l in lazy for a in l]
    wflat = [np.asarray(a) for l in want for a in l]
    glued = da.concatenate([a.astype(float) for a in flat], axis=0).compute()
    w = np.concatenate([a.astype(float) for a in wflat], axis=0)
    scale = max(t.scale() for t in things)
    lon = np.concatenate([np.full(len(fine[0]), t.flavour == "geo") for t, l in zip(who, lazy) for _ in l])
    c.close(glued[~lon], w[~lon], 3e-5 * scale, "glued results")


def nearly(c, a):
    """The same data but for a little: the last, first or middle value, the second half, two values exchanged, nothing."""
    b = np.array(a)
    flat = b.reshape(-1)
    how = c.pick(["last", "first", "middle", "second half", "exchanged", "sign of one", "reversed", "missing"])
    if how == "second half":
        flat[flat.size // 2:] = c.rng.permutation(flat[flat.size // 2:])
    elif how == "exchanged":
        flat[[1, -2]] = flat[[-2, 1]]
    elif how == "reversed":
        flat[:] = flat[::-1].copy()
    else:
        i = {"last": -1, "first": 0}.get(how, int(c.rng.integers(flat.size)))
        flat[i] = -flat[i] if how == "sign of one" else np.nan if how == "missing" and b.dtype.kind == "f" else np.median(flat) * 0.5 + 1
    return b, how


@group(quick=100, thorough=2000)
def alike_results(c):
    """Interpolators of data that is nearly the same, and requests nearly the same, computed together."""
    n, m = int(c.pick([5, 6, 12, 40, 25])), int(c.pick([5, 7, 15, 60, 31]))
    rows, ru = interp.tie_positions(c, n)
    cols, cu = interp.tie_positions(c, m)
    kind = c.pick(["grid", "spline"])
    dtype = c.pick([np.float64, np.float32])
    base = c.rng.normal(size=(n, m)).astype(dtype)
    fine = [np.sort(interp.inside(c, p, u, n=int(c.pick([3, 8, 70])))) for p, u in ((rows, ru), (cols, cu))]
    others, axis = [fine], int(c.rng.integers(2))
    for _ in range(2):      # as long, from and to the same positions
        f = [np.array(p, dtype=float) for p in fine]
        how = c.pick(["last but one", "between", "one axis", "second half"])
        q = f[axis]
        if len(q) < 3:
            continue
        if how == "last but one":
            q[-2] = q[-3]
        elif how == "second half":
            h = len(q) // 2
            q[h:-1] = q[h] + (q[-1] - q[h]) * c.rng.uniform(0, 1) * np.linspace(0, 1, len(q) - h)[:-1]
        else:
            q[1:-1] = np.sort(c.rng.uniform(q[0], q[-1], len(q) - 2))
        others.append([np.sort(v) for v in f])
    flavour = c.pick(["single", "single", "multiple"])
    things = [(base, "itself")] + [nearly(c, base) for _ in range(3)]
    c.note(kind=kind, flavour=flavour, shape=str((n, m)), dtype=np.dtype(dtype).name, alike=str([how for _, how in things]))
    chunks = interp.random_chunks(c, (len(fine[0]), len(fine[1])))
    lazy, want = [], []
    for data, _ in things:
        if kind == "spline" and not np.isfinite(data).all():
            continue
        it = (interp.single if flavour == "single" else interp.multiple)(c, kind, (rows, cols), data, *([data * 2] if flavour != "single" else []))
        for f in others:
            res = [c.call("%s %s %s" % (flavour, kind, how), it.interpolate, tuple(f), **kw) for how, kw in (("lazy", dict(chunks=chunks)), ("eager", {}))]
            lazy += list(res[0]) if flavour != "single" else res[:1]
            want += list(res[1]) if flavour != "single" else res[1:]
    tol = TOL[np.dtype(dtype).itemsize] * 10
    for g, w in zip(dask.compute(*lazy), want):
        c.close(g, w, tol * max(1.0, np.nanmax(np.abs(w), initial=0)), "nearly the same results computed together")
        c.seen("nearly the same results computed together")
