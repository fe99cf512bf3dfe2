"""Making the grid and spline interpolators in every flavour."""
import numpy as np

from geotiepoints.interpolator import (Interpolator, MultipleGridInterpolator, MultipleSplineInterpolator,
                                       SingleGridInterpolator, SingleSplineInterpolator)


def tie_positions(c, n, low=1, ratio=8):
    """Strictly increasing positions: integer or not, any unit."""
    kind = c.pick(["regular", "irregular", "irregular", "jitter"])
    if kind == "regular":
        p = np.arange(n) * float(c.rng.integers(1, ratio + 1))
    elif kind == "irregular":
        p = np.concatenate([[0], np.cumsum(c.rng.integers(1, ratio + 1, n - 1))]).astype(float)
    else:
        p = np.arange(n) + c.rng.uniform(-0.3, 0.3, n)
    p = p + float(c.pick([0.0, 0.0, 2.0, -5.0, 0.5]))
    unit = float(c.pick([1.0, 1.0, 1.0, 0.2, 1e-3, 1e3, 1e-6, 1e6]))
    if unit == 1.0 and np.all(p == np.floor(p)) and c.rng.random() < 0.5:
        return p.astype(int), unit
    return p * unit, unit


def count(c, low, high):
    """How many tie positions: mostly few, sometimes many."""
    if c.rng.random() < 0.04:
        return int(c.rng.integers(high, 90))
    return int(c.rng.integers(low, high))


def inside(c, p, unit, with_ties=True, sort=True, n=None):
    """Requested positions between the first and last of *p*."""
    n = n or count(c, 1, 25) * int(c.pick([1, 1, 1, 1, 1, 1, 1, 9]))
    lo, hi = float(p[0]), float(p[-1])
    kind = c.pick(["random", "grid", "ties and more", "few"])
    if kind == "grid":
        step = unit * float(c.pick([1.0, 0.5, 0.25]))
        q = lo + np.arange(int((hi - lo) / step * (1 + 1e-12)) + 1) * step
        q = q[q <= hi][:200]
    elif kind == "few":
        q = c.rng.uniform(lo, hi, int(c.rng.integers(1, 4)))
    else:
        q = c.rng.uniform(lo, hi, n)
    if with_ties and kind == "ties and more":
        q = np.concatenate([q, np.asarray(p, dtype=float)])
    q = np.clip(q, lo, hi)
    return np.sort(q) if sort else q


def single(c, kind, points, values, **kw):
    cls = SingleGridInterpolator if kind == "grid" else SingleSplineInterpolator
    return c.call("Single%sInterpolator" % kind.title(), cls, points, values, **kw)


def multiple(c, kind, points, *values, **kw):
    cls = MultipleGridInterpolator if kind == "grid" else MultipleSplineInterpolator
    return c.call("Multiple%sInterpolator" % kind.title(), cls, points, *values, **kw)


def generic(c, data, ties, fine, kx=1, ky=1, chunk_size=0):
    it = c.call("Interpolator", Interpolator, data, ties, fine, kx, ky, chunk_size)
    return it


def random_chunks(c, shape):
    kind = c.pick(["one", "int", "pair", "tuple", "tuple", "whole"])
    if kind == "one":
        return -1
    if kind == "int":
        return int(c.rng.integers(1, max(shape) + 1))
    if kind == "pair":
        return tuple(int(c.rng.integers(1, s + 1)) for s in shape)
    if kind == "whole":
        return (-1, int(c.rng.integers(1, shape[1] + 1)))
    out = []
    for s in shape:
        k = int(c.rng.integers(1, min(s, 6) + 1))
        cuts = np.sort(c.rng.choice(np.arange(1, s), k - 1, replace=False)) if k > 1 else []
        out.append(tuple(int(v) for v in np.diff(np.concatenate([[0], cuts, [s]]))))
    return tuple(out)
