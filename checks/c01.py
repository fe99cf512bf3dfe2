"""C01: compiled code stays inside its arrays and performs no undefined operation, for any arguments.

Oracles: AddressSanitizer/UndefinedBehaviorSanitizer in the "asan" build (they end the process), index errors in the
"bounds" build (raised, or reported as unraisable by functions that cannot raise).
"""
import sys

import numpy as np

try:
    import dask
    import dask.array as da
except ImportError:
    da = None
try:
    import xarray as xr
except ImportError:
    xr = None

from geotiepoints import modisinterpolator, simple_modis_interpolator
from geotiepoints.multilinear import MultilinearInterpolator
from vlib import api, gen
from vlib.core import Violation, group

UNRAISABLE = []
sys.unraisablehook = lambda args: UNRAISABLE.append("%s: %s in %r" % (type(args.exc_value).__name__, args.exc_value, args.object))
BOTH = ("asan", "bounds")
HINT = "Out of bounds on buffer access"


def guarded(c, label, fn, *args, **kw):
    """Call with arbitrary arguments; any exception but an index error of the compiled loops is fine."""
    del UNRAISABLE[:]
    res, exc = c.attempt(label, fn, *args, **kw)
    bad = [u for u in UNRAISABLE if "IndexError" in u]
    c.ensure(not bad, "%s: access outside of an array: %s" % (label, bad[:2]))
    e = exc
    while e is not None:
        c.ensure(HINT not in str(e), "%s: access outside of an array: %s" % (label, e))
        e = e.__cause__ or e.__context__
    c.seen("%s: %s" % (label.split(" 1000")[0].split(" 5000")[0], "raised" if exc is not None else "returned"))
    return res, exc


def touch(c, res):
    """Every element of a result is read (in the sanitized build from memory the sanitizer knows)."""
    for r in res if isinstance(res, (tuple, list)) else [res]:
        a = np.asarray(r)
        c.ensure(a.size == 0 or np.isnan(a).sum() >= 0, "readable")


def values(c, shape, scale, dtype=np.float64):
    """Values from tame to absurd."""
    rng = c.rng
    a = rng.uniform(-scale, scale, shape)
    kind = c.pick(["tame", "tame", "nan", "inf", "huge", "tiny", "mixed", "constant", "bits"])
    with np.errstate(all="ignore"):
        if kind == "nan":
            a = np.where(rng.random(shape) < c.pick([0.01, 0.5, 1.0]), np.nan, a)
        elif kind == "inf":
            a = np.where(rng.random(shape) < 0.1, c.pick([np.inf, -np.inf]), a)
        elif kind == "huge":
            a = a * 10.0 ** rng.integers(3, 37)
        elif kind == "tiny":
            a = a * 10.0 ** -rng.integers(3, 300).astype(float)
        elif kind == "mixed":
            pool = np.array([0.0, -0.0, 90, -90, 180, -180, 360, np.nan, np.inf, -np.inf, 1e308, -1e308, 5e-324, 2.0 ** 31, 2.0 ** 63, -2.0 ** 31])
            a = np.where(rng.random(shape) < 0.3, rng.choice(pool, shape), a)
        elif kind == "constant":
            a = np.full(shape, rng.choice([0.0, 90.0, -180.0, np.nan, 1e300]))
        elif kind == "bits":
            a = rng.integers(0, 2 ** 63, shape, dtype=np.int64).view(np.float64) if np.prod(shape) else a
        return a.astype(dtype)


def laid_out(c, a):
    how = c.pick(["C", "C", "C", "F", "strided", "reversed", "unaligned", "readonly"])
    if a.ndim == 0 or a.dtype == object:
        return a
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "unaligned":
        raw = np.zeros(a.nbytes + 9, np.uint8)
        v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


ROWS = [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 18, 19, 20, 21, 22, 30, 39, 40, 41]
COLS = [0, 1, 2, 3, 4, 5, 7, 10, 135, 269, 270, 271, 272, 273, 541, 1353, 1354, 1355, 1356, 2708, 5416]


def modis_args(c, n, coarse, widths):
    """*n* arrays: usually a valid shape, sometimes one deviates, sometimes all are arbitrary."""
    rng = c.rng
    mode = c.pick(["valid", "valid", "one differs", "rows", "cols", "wild"])
    rps = {5000: 2, 1000: 10, 500: 20, 250: 40}.get(coarse, 10)
    shape = [rps * int(rng.integers(1, 4)), int(c.pick(widths))]
    if rng.random() < 0.08 and shape[0] * shape[1] < 10000:
        shape[0] = rps * int(rng.integers(9, 300 if shape[1] < 30 else 30))
    if mode == "rows":
        shape[0] = int(c.pick(ROWS))
    elif mode == "cols":
        shape[1] = int(c.pick(COLS)) if rng.random() < 0.7 else int(rng.integers(0, 1500))
    elif mode == "wild":
        shape = [int(c.pick(ROWS)), int(c.pick(COLS))]
    dtype = c.pick([np.float64, np.float32])
    out = []
    for i in range(n):
        sh = tuple(shape)
        if mode in ("one differs", "wild") and (i == shape[0] % n or mode == "wild" and rng.random() < 0.3):
            sh = c.pick([(shape[0] + int(rng.integers(-3, 4)), shape[1]), (shape[0], shape[1] + int(rng.integers(-3, 4))),
                         (shape[1], shape[0]), (shape[0] // 2, shape[1] * 2), (shape[0],), (1,) + sh, sh + (1,), (), (shape[0] * shape[1],),
                         (0, shape[1]), (shape[0], 0), (rps, shape[1]), (shape[0], shape[1] // 5)])
            sh = tuple(max(s, 0) for s in sh)
        dt = dtype
        if mode == "wild" and rng.random() < 0.2:
            dt = c.pick([np.float32, np.float64, np.float16, np.longdouble, np.int32, np.int64, np.uint8, np.bool_, np.complex128, ">f8", ">f4", object,
                         "M8[s]", "U4"])
        out.append(laid_out(c, values(c, sh, [180, 90, 66][i] * (1.2 if rng.random() < 0.2 else 1)).astype(dt)))
    return mode, out


def boxed(c, arrs):
    how = c.pick(["numpy", "numpy", "dask", "DataArray", "lazy DataArray"])
    if da is None or how == "numpy":
        return "numpy", arrs
    if "Data" in how and xr is None:
        return "numpy", arrs
    try:
        out = arrs
        if how != "DataArray":
            out = [da.from_array(a, chunks=tuple(max(int(c.rng.integers(1, s + 2)), 1) if i == 0 or c.rng.random() < 0.2 else -1
                                                 for i, s in enumerate(a.shape)) if a.ndim else -1, asarray=False, name=False) for a in out]
        if how != "dask":
            out = [xr.DataArray(a) for a in out]
        return how, out
    except Exception:
        return "numpy", arrs


def finish(c, label, res, exc):
    if exc is None:
        if da is not None and any(hasattr(r, "compute") for r in res):
            res, exc = guarded(c, label + " computed", dask.compute, *res)
        if exc is None:
            touch(c, res)


@group(quick=260, thorough=6000, variants=BOTH)
def zenith_angle(c):
    coarse, fine = c.pick(sorted(api.ANGLE))
    mode, arrs = modis_args(c, 3, coarse, [1354] if coarse == 1000 else [270, 271])
    how, arrs = boxed(c, arrs)
    c.note(mode=mode, shapes=str([a.shape for a in arrs]), dtypes=str([str(a.dtype) for a in arrs]), container=how)
    label = api.label("zenith-angle", coarse, fine)
    finish(c, label, *guarded(c, label, api.ANGLE[coarse, fine], *arrs))


@group(quick=80, thorough=2500, variants=BOTH)
def zenith_angle_any_resolution(c):
    coarse = int(c.pick([5000, 1000, 500, 250, 2000, 0, 1]))
    fine = int(c.pick([1000, 500, 250, 5000, 200, 125, 0, 1, 2000]))
    mode, arrs = modis_args(c, 3, coarse, [1354, 271, 270])
    how, arrs = boxed(c, arrs)
    kw = dict(coarse_resolution=coarse, fine_resolution=fine)
    if c.rng.random() < 0.6:
        kw["coarse_scan_width"] = int(c.pick([arrs[0].shape[1] if arrs[0].ndim > 1 else 1, 0, 1, 2, 269, 270, 271, 272, 1354, 2 ** 31 - 1]))
    c.note(mode=mode, shapes=str([a.shape for a in arrs]), container=how, **kw)
    label = api.label("zenith-angle any", coarse, fine)
    finish(c, label, *guarded(c, "zenith-angle any resolution", modisinterpolator.interpolate, *arrs, **kw))


@group(quick=260, thorough=6000, variants=BOTH)
def lonlat_only(c):
    coarse, fine = c.pick([(1000, 500), (1000, 250), (1000, 500), (1000, 250), (500, 250), (500, 125), (5000, 1000), (5000, 500), (250, 125),
                           (1000, 1000), (1000, 200), (1000, 333), (500, 500), (2000, 1000), (1000, 0), (0, 0), (1000, 2000), (1000, 125), (250, 62)])
    mode, arrs = modis_args(c, 2, coarse, [1354, 1354, 271, 1, 2, 3, 4, 5, 50, int(c.rng.integers(2, 1500))])
    how, arrs = boxed(c, arrs)
    c.note(mode=mode, shapes=str([a.shape for a in arrs]), dtypes=str([str(a.dtype) for a in arrs]), container=how, coarse=coarse, fine=fine)
    label = api.label("lon/lat only", coarse, fine)
    fn = simple_modis_interpolator.interpolate_geolocation_cartesian
    finish(c, label, *guarded(c, label, fn, *arrs, coarse_resolution=coarse, fine_resolution=fine))


@group(quick=20, thorough=300, variants=BOTH)
def long_swaths(c):
    if c.rng.random() < 0.5:
        coarse, fine = c.pick([(1000, 500), (1000, 250), (500, 250)])
        shape = ({1000: 10, 500: 20}[coarse] * int(c.rng.integers(30, 200)), int(c.rng.integers(2, 12)))
        arrs = [values(c, shape, s) for s in (180, 90)]
        label = api.label("lon/lat only", coarse, fine)
        res, exc = guarded(c, label, simple_modis_interpolator.interpolate_geolocation_cartesian, *arrs, coarse_resolution=coarse, fine_resolution=fine)
    else:
        coarse, fine, width = api.ANGLE_CONFIGS[int(c.rng.integers(len(api.ANGLE_CONFIGS)))]
        rps = 10 if coarse == 1000 else 2
        shape = (rps * int(c.rng.integers(5, 9)), width)
        arrs = [values(c, shape, s) for s in (180, 90, 66)]
        label = api.label("zenith-angle", coarse, fine)
        res, exc = guarded(c, label, api.ANGLE[coarse, fine], *arrs)
    c.ensure(exc is None, "%s raised %r for whole scans" % (label, exc))
    c.note(shapes=str([a.shape for a in arrs]))
    touch(c, res)


@group(quick=1600, thorough=60000, variants=BOTH)
def multilinear(c):
    """Grids, values and points of any consistency; points anywhere including NaN and infinities."""
    rng = c.rng
    mode = c.pick(["valid", "valid", "inconsistent", "wild"])
    d = int(rng.integers(1, 5)) if mode != "wild" else int(rng.integers(0, 7))
    orders = [int(rng.integers(2, 7)) for _ in range(d)]
    if mode == "wild":
        orders = [int(c.pick([o, o, 0, 1, 2, -1, -3, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 2, 2 ** 62])) for o in orders]
    n_grid = min(int(np.prod([min(max(o, 0), 50) for o in orders])) if orders else 1, 20000)
    n_v, n_s = int(c.pick([1, 1, 2, 3, 0])), int(c.pick([1, 2, 7, 40, 300, 0]))
    dtype = c.pick([np.float64, np.float32])
    smin, smax = values(c, (d,), 3), values(c, (d,), 3)
    if rng.random() < 0.6:
        smin, smax = rng.uniform(-3, 0, d), rng.uniform(0.1, 3, d)
    n_vals, d_s, d_lo, d_hi = n_grid, d, d, d
    if mode != "valid":
        n_vals = int(c.pick([n_grid, n_grid + int(rng.integers(-3, 4)), n_grid // 2, n_grid * 2, 0, 1]))
        d_s = int(c.pick([d, d, d - 1, d + 1, 0, 1]))
        d_lo, d_hi = (int(c.pick([d, d, d, d - 1, d + 1, 0])) for _ in range(2))
    smin, smax = np.resize(smin, max(d_lo, 0)), np.resize(smax, max(d_hi, 0))
    vals = values(c, (n_v, max(n_vals, 0)), 10, dtype)
    pts = values(c, (max(d_s, 0), n_s), c.pick([1, 3, 10, 1e5, 1e10]), dtype)
    if mode == "wild" and rng.random() < 0.2:
        vals = vals.ravel() if rng.random() < 0.5 else vals[None]
    if mode == "wild" and rng.random() < 0.2:
        pts = pts.ravel() if rng.random() < 0.5 else pts.T
    smin, smax, vals, pts = (laid_out(c, a.astype(dtype)) for a in (smin, smax, vals, pts))
    c.note(mode=mode, orders=str(orders), values=str(vals.shape), points=str(pts.shape), dtype=np.dtype(dtype).name)

    def go():
        it = MultilinearInterpolator(smin, smax, orders, vals if rng.random() < 0.8 else None, dtype=dtype)
        if not hasattr(it, "values") or rng.random() < 0.2:
            it.set_values(vals)
        return it.interpolate(pts)
    res, exc = guarded(c, "multilinear %dd" % d, go)
    if mode == "valid":
        if exc is not None:
            raise Violation("multilinear raised %r for consistent arguments" % exc) from exc
    if exc is None:
        touch(c, res)


@group(quick=6, thorough=60, variants=BOTH)
def multilinear_large(c):
    d = int(c.rng.integers(1, 5))
    orders = [int(c.rng.integers(2, int(c.pick([40, 60000 ** (1.0 / d)])) + 2)) for _ in range(d)]
    n = int(np.prod(orders))
    if n > 3e6:
        orders = orders[:2]
        d, n = len(orders), int(np.prod(orders[:2]))
    dtype = c.pick([np.float64, np.float32])
    it = MultilinearInterpolator(np.zeros(d), np.ones(d), orders, c.rng.normal(size=(2, n)).astype(dtype), dtype=dtype)
    pts = c.rng.uniform(-0.2, 1.2, (d, 20000)).astype(dtype)
    pts[:, :2000] = np.round(pts[:, :2000])
    c.note(orders=str(orders))
    res, exc = guarded(c, "multilinear %dd" % d, it.interpolate, pts)
    c.ensure(exc is None, "multilinear raised %r" % exc)
    touch(c, res)
