"""C23: datasets interpolated together do not influence each other."""
import dask
import numpy as np
import xarray as xr

from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_interpolation
from vlib import interp, legacy
from vlib.core import group


def some_data(c, n, shape, missing=False):
    out = []
    if 1 < n and np.prod(shape) < 500 and c.rng.random() < 0.06:
        n = int(c.rng.integers(9, 26))
        c.seen("many arrays at once")
    for _ in range(n):
        kind = c.pick(["noise", "big", "tiny", "constant", "same", "zero", "mirrored", "shuffled", "negative", "changed once"]
                      + ["missing"] * 3 * missing)
        d = c.rng.normal(size=shape)
        if kind == "big":
            d = d * 1e12
        elif kind == "tiny":
            d = d * 1e-12
        elif kind == "constant":
            d = np.full(shape, c.rng.normal())
        elif kind == "same" and out:
            d = out[int(c.rng.integers(len(out)))].copy()
        elif kind in ("mirrored", "shuffled", "negative", "changed once") and out:
            # alike in everything but the order, the sign or one value
            d = out[int(c.rng.integers(len(out)))]
            d = (d[::-1].copy() if kind == "mirrored" else -d if kind == "negative" else
                 c.rng.permutation(d.ravel()).reshape(shape) if kind == "shuffled" else d.copy())
            if kind == "changed once":
                d.flat[int(c.rng.integers(d.size))] += 1.0
            c.seen("arrays alike")
        elif kind == "missing":
            d[c.rng.random(shape) < 0.2] = np.nan
        elif kind == "zero":
            d = np.zeros(shape)
        out.append(d)
    if c.rng.random() < 0.25:
        # different views of one buffer, some of which start at the same place
        buf = c.rng.normal(size=tuple(2 * k for k in shape))
        ax = range(len(shape))
        first = tuple(slice(k) for k in shape)
        views = [buf[first], buf[tuple(slice(None, None, 2) for _ in ax)], buf[tuple(slice(None, None, 2) if i == 0 else first[i] for i in ax)],
                 buf[tuple(slice(None, None, 2) if i else first[i] for i in ax)], buf.T[first] if buf.T[first].shape == shape else buf[first],
                 buf[tuple(slice(k, None) for k in shape)], buf[tuple(slice(k - 1, None, -1) for k in shape)],
                 np.broadcast_to(buf[first][:1], shape)]
        for i in range(len(out)):
            out[i] = views[int(c.rng.integers(len(views)))]
        if len(out) > 1:
            c.seen("views of one buffer")
    return out


def spoiled(c, data, j, nan):
    """The same with array *j* corrupted or masked."""
    other = [d.copy() for d in data]
    if nan:
        other[j][c.rng.random(other[j].shape) < c.pick([0.1, 1.0])] = np.nan
        other[j].flat[int(c.rng.integers(other[j].size))] = np.nan
    else:
        other[j] = c.rng.normal(size=other[j].shape) * 1e9
    return other


def same(c, got, want, what):
    c.ensure(len(got) == len(want), "%s: %d results instead of %d" % (what, len(got), len(want)))
    for n, (g, w) in enumerate(zip(got, want)):
        scale = np.nanmax(np.abs(w)) if np.size(w) and not np.isnan(w).all() else 1.0
        c.close(g, w, 1e-11 * scale, "%s: result" % what)


def judge(c, run, data, what, nan=True):
    together = run(data)
    alone = [run([d])[0] for d in data]
    same(c, together, alone, what + ", together and alone")
    if len(data) > 1:
        perm = c.rng.permutation(len(data))
        same(c, run([data[i] for i in perm]), [alone[i] for i in perm], what + ", in another order")
        j = int(c.rng.integers(len(data)))
        after = run(spoiled(c, data, j, nan and c.rng.random() < 0.6))
        keep = [i for i in range(len(data)) if i != j]
        same(c, [after[i] for i in keep], [alone[i] for i in keep], what + ", beside a changed one")
        c.seen("compared beside a changed array")


def beside_missing(c, run, data, what):
    """Interpolators that may refuse missing values: if they do not, the other arrays are as before."""
    j = int(c.rng.integers(len(data)))
    masked = [d.copy() for d in data]
    masked[j][c.rng.random(masked[j].shape) < c.pick([0.1, 1.0])] = np.nan
    masked[j].flat[int(c.rng.integers(masked[j].size))] = np.nan
    after, error = c.attempt(what, run, masked)
    if error is not None:
        c.seen("missing values refused")
        return
    c.ensure(len(after) == len(data), "%s: %d results instead of %d" % (what, len(after), len(data)))
    keep = [i for i in range(len(data)) if i != j]
    same(c, [after[i] for i in keep], [run([data[i]])[0] for i in keep], what + ", beside one with missing values")
    c.seen("compared beside an array with missing values")


@group(quick=200, thorough=4000)
def generic_spline(c):
    kx, ky = int(c.rng.integers(1, 4)), int(c.rng.integers(1, 4))
    rows, ru = interp.tie_positions(c, int(c.rng.integers(kx + 1, 10)), ratio=4)
    cols, cu = interp.tie_positions(c, int(c.rng.integers(ky + 1, 10)), ratio=4)
    same_rows = c.rng.random() < 0.4
    fine = rows.copy() if same_rows else interp.inside(c, rows, ru), interp.inside(c, cols, cu)
    data = some_data(c, int(c.rng.integers(1, 5)), (len(rows), len(cols)))
    c.note(arrays=len(data), kx=kx, ky=ky, same_rows=bool(same_rows))

    def run(d):
        it = interp.generic(c, list(d) if len(d) > 1 or c.rng.random() < 0.5 else d[0], (rows, cols), fine, kx, ky)
        return [np.array(a) for a in c.call("Interpolator.interpolate", it.interpolate)]
    judge(c, run, data, "generic spline", nan=False)
    if len(data) > 1:
        beside_missing(c, run, data, "generic spline")


@group(quick=60, thorough=1200)
def with_borders(c):
    m, n = int(c.rng.integers(2, 6)), int(c.rng.integers(4, 8))
    nchunks = int(c.rng.integers(1, 4))
    rows, cols = np.arange(m * nchunks) * 5 + 2, np.arange(n) * 5 + 2
    fine = np.arange(5 * m * nchunks), np.arange(5 * n)
    data = some_data(c, int(c.rng.integers(2, 5)), (len(rows), n))
    ky = int(c.pick([1, 3]))

    def run(d):
        it = interp.generic(c, list(d), (rows, cols), fine, 1, ky, 5 * m)
        c.call("fill_borders", it.fill_borders, "y", "x")
        return [np.array(a) for a in c.call("Interpolator.interpolate", it.interpolate)]
    judge(c, run, data, "generic spline with borders", nan=False)
    beside_missing(c, run, data, "generic spline with borders")


@group(quick=200, thorough=4000)
def multiple(c):
    kind = c.pick(["grid", "spline"])
    rows, ru = interp.tie_positions(c, int(c.rng.integers(5, 10)))
    cols, cu = interp.tie_positions(c, int(c.rng.integers(5, 10)))
    fine = interp.inside(c, rows, ru), interp.inside(c, cols, cu)
    data = some_data(c, int(c.rng.integers(1, 5)), (len(rows), len(cols)), missing=kind == "grid")
    lazy = c.rng.random() < 0.4
    chunks = interp.random_chunks(c, (len(fine[0]), len(fine[1])))
    kw = c.pick([{}, dict(method="nearest"), dict(bounds_error=False)]) if kind == "grid" else c.pick([{}, dict(kx=1, ky=2)])
    c.note(kind=kind, arrays=len(data), lazy=bool(lazy), options=str(kw))

    def run(d):
        it = interp.multiple(c, kind, (rows, cols), *d, **kw)
        res = list(c.call("multiple %s" % kind, it.interpolate, fine, **(dict(chunks=chunks) if lazy else {})))
        return list(dask.compute(*res)) if lazy else res
    judge(c, run, data, "multiple " + kind, nan=kind == "grid")


@group(quick=150, thorough=3000)
def multilinear(c):
    d = int(c.rng.integers(1, 5))
    orders = [int(v) for v in c.rng.integers(2, 7, d)]
    s = c.rng.uniform(-0.3, 1.3, (d, int(c.rng.integers(1, 60))))
    data = some_data(c, int(c.rng.integers(1, 6)), (int(np.prod(orders)),))
    c.note(orders=str(orders), functions=len(data))

    def run(v):
        it = c.call("MultilinearInterpolator", MultilinearInterpolator, [0.0] * d, [1.0] * d, orders, np.array(v))
        return list(c.call("multilinear interpolate", it.interpolate, s))
    judge(c, run, data, "multilinear")


@group(quick=150, thorough=3000)
def vii(c):
    ties, nscans, factor, act = int(c.rng.integers(2, 7)), int(c.rng.integers(1, 4)), int(c.pick([1, 2, 4, 8])), int(c.rng.integers(2, 9))
    data = some_data(c, int(c.rng.integers(1, 5)), (ties * nscans, act), missing=True)
    c.note(ties=ties, scans=nscans, factor=factor, arrays=len(data))

    def run(d):
        res = c.call("vii data", tie_points_interpolation, [xr.DataArray(a, dims=("y", "x"), name=c.pick([None, "a"])) for a in d], ties, factor)
        return [r.values for r in res]
    judge(c, run, data, "vii")


@group(quick=16, thorough=200)
def generic_modis(c):
    data = some_data(c, int(c.rng.integers(2, 4)), (2 * int(c.rng.integers(1, 3)), 271))
    judge(c, lambda d: [np.array(a) for a in c.call("generic_modis5kmto1km", legacy.generic, *d)], data, "generic_modis5kmto1km", nan=False)
