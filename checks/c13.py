"""C13: multilinear interpolation equals its definition everywhere."""
import numpy as np

from geotiepoints.multilinear import MultilinearInterpolator, mlinspace
from vlib import refs
from vlib.core import group


def make_grid(c, d, maxtotal):
    while True:
        orders = [int(c.rng.choice([2, 2, 3, 4, 5, 7, 11, int(c.rng.integers(2, 40))])) for _ in range(d)]
        if np.prod(orders) <= maxtotal:
            break
    smin = c.rng.uniform(-1, 1, d) * 10.0 ** c.rng.integers(-3, 4, d)
    width = c.rng.uniform(0.1, 2, d) * 10.0 ** c.rng.integers(-3, 4, d)
    sign = np.where(c.rng.random(d) < 0.15, -1, 1)
    return smin, smin + sign * width, orders


def make_points(c, smin, smax, orders, n, far):
    d = len(orders)
    u = c.rng.uniform(0, 1, (d, n))
    for i in range(d):
        kind = c.rng.integers(0, 6, n)
        nodes = c.rng.integers(0, orders[i], n) / (orders[i] - 1)
        u[i] = np.where(kind == 0, nodes, u[i])                                   # on grid lines
        u[i] = np.where(kind == 1, c.rng.uniform(-0.6, 1.6, n), u[i])             # a bit outside
        u[i] = np.where((kind == 2) & (c.rng.random(n) < 0.3), c.rng.choice([0.0, 1.0], n), u[i])
        if far:
            big = c.rng.uniform(-1, 1, n) * 10.0 ** c.rng.integers(0, far, n)
            u[i] = np.where((kind == 3) & (c.rng.random(n) < 0.4), big, u[i])
    return smin[:, None] + u * (smax - smin)[:, None]


def oracle(c, smin, smax, orders, values, s, got, dtype, what):
    eps = np.finfo(dtype).eps
    dt = lambda a: np.asarray(a, dtype=dtype).astype(np.float64)
    smin, smax, values, s = dt(smin), dt(smax), dt(values), dt(s)
    want, lam = refs.multilinear(smin, smax, orders, values, s)
    # rounding of the normalised coordinate, in units of cells, then of the sum
    width = np.abs(smax - smin)
    cells = (np.asarray(orders) - 1.0)
    u = np.abs(s - smin[:, None]) / width[:, None] * cells[:, None]
    du = eps * (4 * u + 4 * (np.abs(s) + np.abs(smin)[:, None]) / width[:, None] * cells[:, None] + 4)
    amp = np.prod(1 + 2 * np.abs(lam) + 2 * du, axis=0)
    per = (du / (1 + 2 * np.abs(lam))).sum(axis=0) * 2
    scale = np.abs(values).max(axis=1)[:, None]
    tol = scale * amp * (4 * per + 40 * eps) + np.finfo(dtype).tiny * 100
    c.ensure(got.shape == want.shape, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    c.ensure(got.dtype == np.dtype(dtype), "%s: dtype %s instead of %s" % (what, got.dtype, np.dtype(dtype)))
    err = np.abs(got.astype(np.float64) - want)
    c.within(err / tol, 1.0, what + " (relative to the rounding bound)")


def case(c, d):
    dtype = [np.float64, np.float32][int(c.rng.integers(2))]
    smin, smax, orders = make_grid(c, d, 20000)
    nf = int(c.rng.choice([1, 1, 2, 3, 5]))
    n = int(c.rng.choice([1, 2, 17, 400, 1500]))
    far = int(c.rng.choice([0, 3, 12])) if dtype is np.float64 else int(c.rng.choice([0, 3, 6]))
    values = c.rng.normal(0, 1, (nf, int(np.prod(orders)))) * 10.0 ** c.rng.integers(-2, 5)
    if c.rng.random() < 0.25:
        values = np.round(values)
    s = make_points(c, smin, smax, orders, n, far)
    c.note(d=d, dtype=np.dtype(dtype).name, orders=orders, functions=nf, points=n, far=far,
           smin=smin.tolist(), smax=smax.tolist())
    listy = c.rng.random() < 0.3
    args = (smin.tolist(), smax.tolist(), orders) if listy else (smin, smax, np.array(orders))
    if c.rng.random() < 0.5:
        m = c.call("MultilinearInterpolator", MultilinearInterpolator, *args, dtype=dtype)
        c.call("set_values", m.set_values, values)
    else:
        m = c.call("MultilinearInterpolator", MultilinearInterpolator, *args, values=values, dtype=dtype)
    got = c.call("multilinear %dd" % d, m if c.rng.random() < 0.5 else m.interpolate, s)
    oracle(c, smin, smax, orders, values, s, got, dtype, "%dd %s" % (d, np.dtype(dtype).name))
    c.seen("points evaluated", n * nf)
    outside = ((s < np.minimum(smin, smax)[:, None]) | (s > np.maximum(smin, smax)[:, None])).any(axis=0)
    c.seen("points outside the grid", int(outside.sum()))


@group(quick=1200, thorough=30000)
def one_dimension(c):
    case(c, 1)


@group(quick=1200, thorough=20000)
def two_dimensions(c):
    case(c, 2)


@group(quick=1200, thorough=20000)
def three_dimensions(c):
    case(c, 3)


@group(quick=1200, thorough=20000)
def four_dimensions(c):
    case(c, 4)


@group(quick=400, thorough=4000)
def corners(c):
    """Every corner term on its own: unit impulses on a grid, at the grid nodes, cell centres and outside."""
    d = 1 + c.k % 4
    dtype = [np.float64, np.float32][(c.k // 4) % 2]
    orders = [int(o) for o in c.rng.integers(2, 4, d)]
    total = int(np.prod(orders))
    values = np.eye(total)
    smin, smax = np.zeros(d), np.array(orders) - 1.0
    base = np.stack([g.ravel() for g in np.meshgrid(*[np.arange(o) for o in orders], indexing="ij")]).astype(float)
    s = np.concatenate([base, base + 0.5, base - 1.25, base + c.rng.uniform(-2, 2, base.shape)], axis=1)
    m = c.call("MultilinearInterpolator", MultilinearInterpolator, smin, smax, orders, values, dtype=dtype)
    got = c.call("multilinear %dd" % d, m, s)
    c.note(d=d, orders=orders, dtype=np.dtype(dtype).name)
    oracle(c, smin, smax, orders, values, s, got, dtype, "impulses %dd" % d)
    c.equal(np.asarray(got[:, :total], dtype=np.float64), values, "impulses at the grid nodes")


@group(quick=300, thorough=3000)
def enumerated_grid(c):
    d = int(c.rng.integers(1, 5))
    smin, smax, orders = make_grid(c, d, 3000)
    c.note(d=d, orders=orders)
    m = c.call("MultilinearInterpolator", MultilinearInterpolator, smin, smax, orders)
    grid = c.call("grid", lambda: m.grid)
    want = np.stack([g.ravel() for g in np.meshgrid(
        *[smin[i] + (smax[i] - smin[i]) * np.arange(orders[i]) / (orders[i] - 1) for i in range(d)], indexing="ij")])
    tol = 1e-12 * (np.abs(smin) + np.abs(smax)).max()
    c.close(grid, want, tol, "enumerated grid")
    # values given in the order of the grid are found again at the grid points
    fun = lambda x: np.vstack([np.cos(x / np.abs(smax - smin)[:, None]).sum(axis=0), x.sum(axis=0)])
    c.call("set_values", m.set_values, fun(want))
    c.close(c.call("multilinear at grid", m, want), fun(want),
            1e-10 * (np.abs(fun(want)).max() + 1), "values at the enumerated grid points")
    c.close(c.call("mlinspace", mlinspace, smin, smax, orders), want, tol, "mlinspace")


@group(quick=16, thorough=200)
def large(c):
    """Grids and requests beyond 16-bit counts."""
    d = 1 + c.k % 4
    dtype = [np.float64, np.float32][(c.k // 4) % 2]
    if c.k // 8 % 2:
        orders, n = {1: [70001], 2: [301, 257], 3: [43, 41, 40], 4: [17, 16, 18, 17]}[d], 3000
    else:
        orders, n = [int(o) for o in c.rng.integers(2, 9, d)], int(10 ** c.rng.uniform(4.8, 5.2 + 0.2 * (5 - d)))
    smin = c.rng.uniform(-2, 2, d)
    smax = smin + c.rng.uniform(0.5, 3, d)
    values = c.rng.normal(0, 1, (int(c.rng.integers(1, 4)), int(np.prod(orders))))
    s = make_points(c, smin, smax, orders, n, 0)
    c.note(d=d, dtype=np.dtype(dtype).name, orders=orders, points=n)
    m = c.call("MultilinearInterpolator", MultilinearInterpolator, smin, smax, orders, values, dtype=dtype)
    got = c.call("multilinear %dd" % d, m, s)
    oracle(c, smin, smax, orders, values, s, got, dtype, "large %dd %s" % (d, np.dtype(dtype).name))
    c.seen("large multilinear requests")
