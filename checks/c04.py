"""C04: spline and grid interpolation is exact up to its order."""
import numpy as np

from vlib import interp, refs
from vlib.core import group


def normal(p, q):
    """Positions scaled to [-1, 1]."""
    mid, half = (float(p[0]) + float(p[-1])) / 2, (float(p[-1]) - float(p[0])) / 2
    return (np.asarray(p, dtype=float) - mid) / half, (np.asarray(q, dtype=float) - mid) / half


def poly(coef, r, q):
    return np.polynomial.polynomial.polygrid2d(r, q, coef)


def anyhow(c, q):
    """The positions backwards, in any order, or with repetitions."""
    c.seen("positions in no order")
    how = c.pick(["backwards", "any order", "repeated", "as they are"])
    return {"backwards": q[::-1], "any order": c.rng.permutation(q), "repeated": c.rng.choice(q, len(q)), "as they are": q}[how]


def lebesgue(k):
    return {1: 1, 2: 30, 3: 30, 4: 3000, 5: 10000}[k]


@group(quick=700, thorough=15000)
def polynomials(c):
    kind = c.pick(["generic", "generic", "single spline", "multiple spline"])
    kx, ky = int(c.rng.integers(1, 6)), int(c.rng.integers(1, 6))
    rows, ru = interp.tie_positions(c, int(c.rng.integers(kx + 1, kx + 9)), ratio=4)
    cols, cu = interp.tie_positions(c, int(c.rng.integers(ky + 1, ky + 9)), ratio=4)
    same = kind == "generic" and c.rng.random() < 0.25
    frows = rows.copy() if same else interp.inside(c, rows, ru)
    fcols = interp.inside(c, cols, cu)
    dtype = np.float64
    if kind != "generic" and c.rng.random() < 0.2:
        dtype = np.float32
    elif c.rng.random() < 0.15:
        dtype = np.int64
    deg = int(c.rng.integers(0, kx + 1)), int(c.rng.integers(0, ky + 1))
    if c.rng.random() < 0.6:
        deg = kx, ky
    coef = c.rng.normal(size=(deg[0] + 1, deg[1] + 1))
    nr, nfr = normal(rows, frows)
    nc, nfc = normal(cols, fcols)
    tie, want = poly(coef, nr, nc), poly(coef, nfr, nfc)
    if dtype is np.int64:          # an integer-valued polynomial: of the index, regular positions
        rows, cols = np.arange(len(rows)) * 2, np.arange(len(cols)) * 3
        frows = rows.copy() if same else np.sort(c.rng.uniform(rows[0], rows[-1], 9))
        fcols = np.sort(c.rng.uniform(cols[0], cols[-1], 9))
        coef = c.rng.integers(-3, 4, (min(deg[0], 2) + 1, min(deg[1], 2) + 1))
        tie, want = poly(coef, rows, cols), poly(coef, frows.astype(float), fcols)
        tie = np.rint(tie).astype(np.int64)
        if kind != "generic":      # results have the type of the data there
            tie = tie.astype(np.float64)
    else:
        tie = tie.astype(dtype)
    c.note(kind=kind, kx=kx, ky=ky, degrees=list(deg), units=[ru, cu], ties=[len(rows), len(cols)], same_rows=bool(same), dtype=tie.dtype.name)
    if kind == "generic":
        it = interp.generic(c, [tie], (rows, cols), (frows, fcols), kx, ky)
        got, = c.call("Interpolator.interpolate", it.interpolate)
    elif kind == "single spline":
        it = interp.single(c, "spline", (rows, cols), tie, kx=kx, ky=ky)
        got = c.call("SingleSpline.interpolate", it.interpolate, (frows, fcols))
    else:
        it = interp.multiple(c, "spline", (rows, cols), tie, kx=kx, ky=ky)
        got, = c.call("MultipleSpline.interpolate", it.interpolate, (frows, fcols))
    got = np.asarray(got)
    c.ensure(got.shape == want.shape, "shape %s instead of %s" % (got.shape, want.shape))
    eps = np.finfo(np.float32).eps if tie.dtype == np.float32 else np.finfo(np.float64).eps
    c.within(np.abs(got - want), 40 * eps * lebesgue(kx) * lebesgue(ky) * max(np.abs(tie).max(), np.abs(want).max(), 1e-3), "polynomials of order up to (%d, %d)" % (kx, ky))
    if same:
        c.seen("requested rows equal to the tie rows")


@group(quick=400, thorough=8000)
def piecewise_bilinear(c):
    kind = c.pick(["generic", "single grid", "multiple grid", "single spline", "multiple spline"])
    rows, ru = interp.tie_positions(c, interp.count(c, 2, 12), ratio=20)
    cols, cu = interp.tie_positions(c, interp.count(c, 2, 12), ratio=20)
    far = c.rng.random() < 0.2
    if far:     # times, distances from somewhere else
        rows = rows + float(c.pick([1e4, -1e6, 1.6e9])) * ru
        cols = cols + float(c.pick([0, 1e4, 1e6])) * cu
        rows, cols = rows[np.append(True, np.diff(rows) > 0)], cols[np.append(True, np.diff(cols) > 0)]
    same = c.rng.random() < 0.2
    frows = rows.copy() if same else interp.inside(c, rows, ru)
    if not same and c.rng.random() < 0.3:       # as many as tie rows, close to them or elsewhere
        t = c.pick([1.0, 0.3, 1e-3]) * c.rng.uniform(0, 1, len(rows))
        frows = np.clip(rows + t * np.append(np.diff(rows), 0), rows[0], rows[-1])
        c.seen("as many requested rows as tie rows, at other positions")
    fcols = interp.inside(c, cols, cu)
    if kind.endswith("grid") and c.rng.random() < 0.4:     # positions need no order there
        frows, fcols = anyhow(c, frows), anyhow(c, fcols)
    scale = 10.0 ** c.rng.integers(-3, 6)
    dtype = c.pick([np.float64, np.float64, np.float32]) if kind != "generic" else np.float64
    tie = (c.rng.normal(size=(len(rows), len(cols))) * scale).astype(dtype)
    want = refs.bilinear(rows, cols, tie, frows, fcols)
    c.note(kind=kind, units=[ru, cu], ties=[len(rows), len(cols)], same_rows=bool(same), dtype=dtype.__name__, far=far)
    if kind == "generic":
        it = interp.generic(c, tie, (rows, cols), (frows, fcols), 1, 1)
        got, = c.call("Interpolator.interpolate", it.interpolate)
    elif kind.endswith("grid"):
        kw = c.pick([{}, {}, dict(method="linear")])
        ckw = c.pick([{}, {}, dict(method="linear")])
        if kind.startswith("single"):
            got = c.call("SingleGrid.interpolate", interp.single(c, "grid", (rows, cols), tie, **kw).interpolate, (frows, fcols), **ckw)
        else:
            got, = c.call("MultipleGrid.interpolate", interp.multiple(c, "grid", (rows, cols), tie, **kw).interpolate, (frows, fcols), **ckw)
    else:
        if kind.startswith("single"):
            got = c.call("SingleSpline.interpolate", interp.single(c, "spline", (rows, cols), tie, kx=1, ky=1).interpolate, (frows, fcols))
        else:
            got, = c.call("MultipleSpline.interpolate", interp.multiple(c, "spline", (rows, cols), tie, kx=1, ky=1).interpolate, (frows, fcols))
    got = np.asarray(got)
    c.ensure(got.shape == want.shape, "shape %s instead of %s" % (got.shape, want.shape))
    reach = 1 + max(np.abs(p).max() / np.diff(p).min() for p in (rows * 1.0, cols * 1.0))
    if far:
        c.seen("positions far from zero")
    c.within(np.abs(got - want), (60 * np.finfo(dtype).eps + 60 * reach * np.finfo(np.float64).eps) * np.abs(tie).max(), "piecewise bilinear fields (%s)" % dtype.__name__)


@group(quick=200, thorough=4000)
def nearest(c):
    rows, ru = interp.tie_positions(c, interp.count(c, 2, 10), ratio=9)
    cols, cu = interp.tie_positions(c, interp.count(c, 2, 10), ratio=9)
    frows, fcols = interp.inside(c, rows, ru), interp.inside(c, cols, cu)
    if c.rng.random() < 0.4:
        frows, fcols = anyhow(c, frows), anyhow(c, fcols)
    tie = c.rng.permutation(len(rows) * len(cols)).reshape(len(rows), len(cols)).astype(c.pick([np.float64, np.float32, np.int32]))
    c.note(units=[ru, cu], ties=[len(rows), len(cols)], dtype=tie.dtype.name)
    how = c.pick(["init", "call"])
    lazy = dict(chunks=5) if c.rng.random() < 0.3 else {}
    it = interp.single(c, "grid", (rows, cols), tie, **(dict(method="nearest") if how == "init" else {}))
    got = np.asarray(c.call("SingleGrid.interpolate", it.interpolate, (frows, fcols), **lazy, **(dict(method="nearest") if how == "call" else {})))

    def closest(p, q):
        d = np.abs(np.asarray(q, dtype=float)[:, None] - np.asarray(p, dtype=float)[None, :])
        order = np.sort(d, axis=1)
        return np.argmin(d, axis=1), order[:, 1] - order[:, 0] > 1e-9 * np.abs(np.diff(p)).max()
    i, oki = closest(rows, frows)
    j, okj = closest(cols, fcols)
    m = oki[:, None] & okj[None, :]
    want = tie[np.ix_(i, j)]
    c.ensure(got.shape == want.shape, "shape %s instead of %s" % (got.shape, want.shape))
    c.ensure(bool((got[m] == want[m]).all()), "nearest: %s" % np.argwhere((got != want) & m)[:3].tolist())
    c.seen("nearest values compared", int(m.sum()))


@group(quick=30, thorough=500)
def long_requests(c):
    """Thousands of rows or columns, or some hundred thousand positions, requested at once."""
    kind = c.pick(["generic", "single grid", "multiple grid", "single spline", "multiple spline"])
    rows, ru = interp.tie_positions(c, int(c.rng.integers(2, 9)), ratio=9)
    cols, cu = interp.tie_positions(c, int(c.rng.integers(2, 9)), ratio=9)
    n = int(c.pick([1025, 2049, 4097, 5000, 9001, 20000, 33000, 66000])) + int(c.rng.integers(0, 3))
    shape = c.pick([(n, int(c.rng.integers(1, 4))), (int(c.rng.integers(1, 4)), n), (int(c.rng.integers(400, 700)), int(c.rng.integers(400, 700)))])
    fine = [np.sort(c.rng.uniform(float(p[0]), float(p[-1]), k)) for p, k in zip((rows, cols), shape)]
    tie = c.rng.normal(size=(len(rows), len(cols)))
    c.note(kind=kind, shape=str(shape), units=[ru, cu])
    if kind == "generic":
        got, = c.call("Interpolator.interpolate", interp.generic(c, tie, (rows, cols), tuple(fine), 1, 1).interpolate)
    else:
        kw = {} if kind.endswith("grid") else dict(kx=1, ky=1)
        make = interp.single if kind.startswith("single") else interp.multiple
        got = c.call(kind, make(c, kind.split()[1], (rows, cols), tie, **kw).interpolate, tuple(fine))
        got = got if kind.startswith("single") else list(got)[0]
    want = refs.bilinear(rows, cols, tie, *fine)
    c.ensure(np.shape(got) == want.shape, "shape %s instead of %s" % (np.shape(got), want.shape))
    reach = 1 + max(np.abs(p).max() / np.diff(p).min() for p in (rows * 1.0, cols * 1.0))
    c.within(np.abs(got - want), 120 * reach * np.finfo(np.float64).eps * np.abs(tie).max(), "long requests")
    c.seen("long requests")
