"""C19: the pandas-based interpolator is separable linear interpolation."""
import numpy as np

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from vlib import refs
from vlib.core import group


def positions(c, n):
    kind = c.pick(["regular", "irregular", "unit", "dense and sparse", "far apart", "full range"])
    if kind == "full range":
        dtype = c.pick([np.uint8, np.int8])
        top = int(np.iinfo(dtype).max)
        n = min(n, 6)
        c.seen("positions up to the largest of their type")
        return np.sort(np.concatenate([[0, top], c.rng.choice(np.arange(1, top), n - 2, replace=False)])).astype(dtype)
    if kind == "regular":
        p = np.arange(n) * int(c.rng.integers(1, 9))
    elif kind == "unit":
        p = np.arange(n)
    elif kind == "irregular":
        p = np.concatenate([[0], np.cumsum(c.rng.integers(1, 12, n - 1))])
    elif kind == "far apart":
        n = min(n, 4)
        p = np.concatenate([[0], np.cumsum(c.rng.integers(1, c.pick([150, 300, 1200]), n - 1))])
        c.seen("tie points hundreds of pixels apart", int((np.diff(p) > 200).sum()))
    else:
        p = np.concatenate([[0], np.cumsum(np.where(c.rng.random(n - 1) < 0.5, 1, 30))])
    return [int(v) for v in p] if c.rng.random() < 0.2 else p.astype(c.pick([np.int64, np.int64, np.int32, np.uint16]))


@group(quick=4, thorough=60)
def long(c):
    """Tens of thousands of rows or columns."""
    last = int(c.pick([32766, 32767, 32768, 40000, 65534, 65535, 65536, 70000, 131072])) + int(c.rng.integers(0, 3))
    long = np.unique(np.concatenate([[0, last], c.rng.integers(1, last, int(c.rng.integers(0, 5)))]))
    short = np.arange(int(c.rng.integers(2, 4)))
    rows, cols = (long, short) if c.rng.random() < 0.5 else (short, long)
    tie = [c.rng.uniform(-90, 90, (len(rows), len(cols))) for _ in range(2)]
    it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, cols, rows, *tie)
    res = c.call("basic interpolate", it.interpolate)
    c.note(last=last)
    for got, t, name in zip(res, tie, ("latitude", "longitude")):
        want = refs.bilinear(rows, cols, t, np.arange(rows[-1] + 1), np.arange(cols[-1] + 1))
        c.ensure(np.shape(got) == want.shape, "%s: shape %s instead of %s" % (name, np.shape(got), want.shape))
        c.within(np.abs(np.asarray(got) - want), 1e-11, name + " of many pixels")
    c.seen("long axes")


@group(quick=240, thorough=4000)
def separable(c):
    cols, rows = positions(c, int(c.rng.integers(2, 12))), positions(c, int(c.rng.integers(2, 12)))
    shape = (len(rows), len(cols))
    dtype = c.pick([np.float64, np.float64, np.float32, np.int32])
    lat = c.rng.uniform(-90, 90, shape)
    lon = c.rng.uniform(-180, 180, shape)
    if c.rng.random() < 0.4:
        lat, lon = lat * 1e-3 + 10, lon * 1e-3 + 20
    lat, lon = lat.astype(dtype), lon.astype(dtype)
    c.note(shape=list(shape), dtype=dtype.__name__, last=[int(rows[-1]), int(cols[-1])])
    it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, cols, rows, lat, lon)
    res = c.call("basic interpolate", it.interpolate)
    c.ensure(len(res) == 2, "%d results" % len(res))
    frows, fcols = np.arange(int(rows[-1]) + 1), np.arange(int(cols[-1]) + 1)
    eps = np.finfo(dtype).eps if np.issubdtype(dtype, np.floating) else np.finfo(np.float64).eps
    for got, tie, name in zip(res, (lat, lon), ("latitude", "longitude")):
        got = np.asarray(got, dtype=np.float64)
        want = refs.bilinear(rows, cols, tie, frows, fcols)
        c.ensure(got.shape == want.shape, "%s: shape %s instead of %s" % (name, got.shape, want.shape))
        c.within(np.abs(got - want), 20 * eps * np.abs(tie).max() + 1e-300, "%s (%s)" % (name, dtype.__name__))
        c.seen("pixels compared", want.size)
    if c.rng.random() < 0.3:
        again = c.call("basic interpolate", it.interpolate)
        c.close(again[0], res[0], 0.0, "second latitude")
        c.close(again[1], res[1], 0.0, "second longitude")
