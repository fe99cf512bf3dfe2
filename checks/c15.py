"""C15: inputs are never modified and memory layout does not matter."""
import dask
import dask.array as da
import numpy as np
import xarray as xr

from geotiepoints.geointerpolator import lonlat2xyz, xyz2lonlat
from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
from vlib import api, gen, subjects
from vlib.core import group

LAYOUTS = ["C", "F", "strided", "reversed", "offset", "unaligned", "read-only", "read-only strided", "transposed view", "broadcastable"]


def laid_out(c, a, how):
    """The same numbers in another place and order of memory; returns (array, owner of the memory)."""
    a = np.asarray(a)
    if how == "F":
        b = np.asfortranarray(a.copy())
        return b, b
    if how in ("strided", "read-only strided"):
        big = np.full([2 * s + 1 for s in a.shape], 7.7e7).astype(a.dtype)
        sl = tuple(slice(1, 2 * s + 1, 2) for s in a.shape)
        big[sl] = a
        v = big[sl]
        if how.startswith("read"):
            big.flags.writeable = False
            v.flags.writeable = False
        return v, big
    if how == "reversed":
        big = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return big[tuple(slice(None, None, -1) for _ in a.shape)], big
    if how == "offset":
        big = np.full([s + 3 for s in a.shape], -8.8e8).astype(a.dtype)
        sl = tuple(slice(2, s + 2) for s in a.shape)
        big[sl] = a
        return big[sl], big
    if how == "unaligned":
        raw = np.empty(a.nbytes + 16, dtype=np.uint8)
        raw[:] = 0xA5
        start = 1 + (-raw.ctypes.data) % a.dtype.itemsize
        v = raw[start:start + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v, raw
    if how == "read-only":
        b = a.copy()
        b.flags.writeable = False
        return b, b
    if how == "transposed view":
        big = np.ascontiguousarray(a.T)
        return big.T, big
    b = a.copy()
    return b, b


def flags(a):
    return (a.flags.writeable, a.flags.c_contiguous, a.flags.f_contiguous, a.flags.aligned, a.strides, a.shape, a.dtype.str,
            a.__array_interface__["data"][0])


def tolerance(arrs, label):
    single = any(a.dtype == np.float32 for a in arrs)
    return 2e-5 if single else 1e-11


def same(c, got, want, arrs, label, what):
    c.ensure(len(got) == len(want), "%s: %d results instead of %d" % (what, len(got), len(want)))
    positions = len(want) == 2 and (label.startswith(("zenith", "lon/lat", "geo", "Geo", "vii pos", "metop", "modis")))
    for g, w in zip(got, want):
        c.ensure(g.dtype == w.dtype and g.shape == w.shape, "%s: %s%s instead of %s%s" % (what, g.dtype, g.shape, w.dtype, w.shape))
    if positions:
        dtype = np.float32 if any(a.dtype == np.float32 for a in arrs) else np.float64
        c.within(gen.max_dist(got, want), 3 * gen.rounding_m(dtype), "%s: metres (%s)" % (what, np.dtype(dtype)))
        return
    for g, w in zip(got, want):
        c.close(g, w, tolerance(arrs, label) * (np.nanmax(np.abs(w), initial=0) + 1e-300), what)


@group(quick=810, thorough=10000)
def layouts(c):
    label, arrs, run = subjects.subject(c)
    want = [np.array(r) for r in run([a.copy() for a in arrs])]
    hows = [c.pick(LAYOUTS) for _ in arrs] if c.rng.random() < 0.5 else [c.pick(LAYOUTS)] * len(arrs)
    pairs = [laid_out(c, a, h) for a, h in zip(arrs, hows)]
    given, owners = [p[0] for p in pairs], [p[1] for p in pairs]
    before = [(o.copy(), flags(g)) for g, o in pairs]
    c.note(subject=label, layouts=str(hows), dtypes=str([a.dtype.name for a in arrs]))
    got = run(given)
    for n, (g, o, (old, fl)) in enumerate(zip(given, owners, before)):
        c.equal(o, old, "%s: memory of argument %d (%s) after the call" % (label, n, hows[n]))
        c.ensure(flags(g) == fl, "%s: flags of argument %d changed from %s to %s" % (label, n, fl, flags(g)))
    for r in got:
        c.ensure(isinstance(r, np.ndarray), "%s: result is a %s" % (label, type(r).__name__))
        for n, o in enumerate(owners):
            c.ensure(not np.shares_memory(r, o), "%s: a result shares memory with argument %d" % (label, n))
    for i, r in enumerate(got):
        for s in got[:i]:
            c.ensure(not np.shares_memory(r, s), "%s: two results share memory" % label)
    same(c, got, want, arrs, label, label.split(" 1000")[0].split(" 5000")[0] + " in another layout")
    # writing to the results reaches nothing
    for r in got:
        if r.flags.writeable:
            r[...] = 4.4e4
    for n, (o, (old, _)) in enumerate(zip(owners, before)):
        c.equal(o, old, "%s: memory of argument %d after the result was overwritten" % (label, n))
    c.seen("subject: " + label.split(" 1000")[0].split(" 5000")[0].split(" 500m")[0])
    for h in hows:
        c.seen("layout: " + h)


@group(quick=270, thorough=4000)
def odd_values(c):
    """Signed angles, missing values and longitudes of any range: answered or refused, the arguments stay."""
    label, arrs, run = subjects.subject(c)
    n = int(c.rng.integers(len(arrs)))
    if label.startswith("zenith") and c.rng.random() < 0.7:
        n = 2
    odd = c.pick(["signed", "signed", "missing", "beyond", "infinite", "all missing"])
    a = np.array(arrs[n])
    where = c.rng.random(a.shape) < c.pick([0.05, 0.5])
    where.flat[int(c.rng.integers(a.size))] = True
    if odd == "signed":
        a[where] *= -1
    elif a.dtype.kind != "f":
        return
    elif odd == "beyond":
        a[where] += c.pick([360, -360, 1000]) if n in (0, 4) else 1
    else:
        a[where | (odd == "all missing")] = np.inf if odd == "infinite" else np.nan
    arrs[n] = a
    pairs = [laid_out(c, a, c.pick(LAYOUTS)) for a in arrs]
    before = [(o.copy(), flags(g)) for g, o in pairs]
    c.note(subject=label, values=odd, argument=n)
    with np.errstate(all="ignore"):
        _, error = c.attempt(label, run, [p[0] for p in pairs])
    for i, ((g, o), (old, fl)) in enumerate(zip(pairs, before)):
        c.equal(o, old, "%s: memory of argument %d after the call with odd values (%s)" % (label, i, odd))
        c.ensure(flags(g) == fl, "%s: flags of argument %d changed from %s to %s" % (label, i, fl, flags(g)))
    c.seen("odd values " + ("refused" if error else "taken"))
    c.seen("odd values: " + odd)


@group(quick=100, thorough=2000)
def containers(c):
    """dask arrays and DataArrays given to the MODIS functions: data, attributes and coordinates stay."""
    kind = c.pick(["zenith-angle", "lon/lat only"])
    label, arrs, run = subjects.subject(c, kind)
    want = [np.array(r) for r in run(arrs)]
    how = c.pick(["dask", "DataArray", "lazy DataArray"])
    pairs = [laid_out(c, a, c.pick(LAYOUTS)) for a in arrs]
    before = [(o.copy(), flags(g)) for g, o in pairs]
    given = [p[0] for p in pairs]
    rps = int(c.pick([1, 2, 10, 7]))
    if how != "DataArray":
        given = [da.from_array(g, chunks=(rps, -1), name=False, asarray=False) for g in given]
    chunks = [getattr(g, "chunks", None) for g in given]
    if how != "dask":
        given = [xr.DataArray(g, dims=("y", "x"), attrs={"n": i}, name="v%d" % i, coords={"y": np.arange(g.shape[0])}) for i, g in enumerate(given)]
    c.note(subject=label, container=how)
    copies = [g.copy(deep=False) if hasattr(g, "dims") else g for g in given]
    res = run(given)
    got = [np.asarray(r) for r in (dask.compute(*res))]
    for n, ((g, o), (old, fl)) in enumerate(zip(pairs, before)):
        c.equal(o, old, "%s: memory of argument %d after the call" % (label, n))
        c.ensure(flags(g) == fl, "%s: flags of argument %d changed" % (label, n))
    for n, (g, k, ch) in enumerate(zip(given, copies, chunks)):
        if hasattr(g, "dims"):
            c.ensure(g.attrs == {"n": n} and g.name == "v%d" % n and g.dims == ("y", "x") and list(g.coords) == ["y"],
                     "%s: attributes of DataArray %d changed" % (label, n))
            g = g.data
        c.ensure(getattr(g, "chunks", None) == ch, "%s: chunks of argument %d changed" % (label, n))
    same(c, got, want, arrs, label, "%s as %s" % (kind, how))
    if how == "DataArray":
        for r in res:
            for n, (g, o) in enumerate(pairs):
                c.ensure(not np.shares_memory(r.values, o), "%s: a result shares memory with argument %d" % (label, n))
    c.seen("container: " + how)


@group(quick=100, thorough=2000)
def kept_objects(c):
    """Objects that are given other values, or used again, leave everything they were ever given alone."""
    from geotiepoints.interpolator import Interpolator
    from geotiepoints.multilinear import MultilinearInterpolator
    given, old, results = [], [], []

    def give(a, how=None):
        how = how or c.pick(["C", "C", "C", "F", "strided", "offset", "read-only"])
        v, owner = laid_out(c, a, how)
        given.append((v, owner))
        old.append((owner.copy(), flags(v)))
        return v

    def watch(arrs):
        for r in arrs:
            r = np.asarray(r)
            results.append((r, r.copy()))

    kind = c.pick(["multilinear", "multilinear", "Interpolator", "cartesian"])
    dtype = c.pick([np.float64, np.float32])
    if kind == "multilinear":
        d = int(c.rng.integers(1, 4))
        orders = c.rng.integers(2, 5, d)
        nv, total = int(c.rng.integers(1, 3)), int(np.prod(orders))
        it = c.call("MultilinearInterpolator", MultilinearInterpolator, give(c.rng.uniform(-2, 0, d).astype(dtype)),
                    give(c.rng.uniform(1, 2, d).astype(dtype)), give(orders), give(c.rng.normal(size=(nv, total)).astype(dtype), "C"), dtype=dtype)
        for _ in range(int(c.rng.integers(2, 6))):
            if c.rng.random() < 0.6:
                n = nv if c.rng.random() < 0.7 else int(c.rng.integers(1, 3))
                c.call("set_values", it.set_values, give(c.rng.normal(size=(n, total)).astype(dtype)))
                c.seen("values given again")
            watch([c.call("multilinear interpolate", it.interpolate, give(c.rng.uniform(-2, 2, (d, int(c.pick([5, 5, 30])))).astype(dtype)))])
    elif kind == "Interpolator":
        n, m = int(c.rng.integers(4, 8)), int(c.rng.integers(4, 8))
        data = [give(c.rng.normal(size=(n, m)).astype(dtype)) for _ in range(int(c.rng.integers(1, 3)))]
        ties = give(np.arange(n) * 3 + 1), give(np.arange(m) * 4 + 2)
        fine = give(np.arange(n * 3)), give(np.arange(m * 4))
        its = [c.call("Interpolator", Interpolator, data, ties, fine, 1, 1) for _ in range(2)]
        for _ in range(int(c.rng.integers(2, 5))):
            it = c.pick(its)
            if c.rng.random() < 0.4:
                c.call("fill_borders", it.fill_borders, *c.pick([("y",), ("x",), ("y", "x")]))
            watch(c.call("Interpolator.interpolate", it.interpolate))
        c.seen("interpolators sharing what they were given")
    else:
        for _ in range(3):
            lon, lat = (a.astype(dtype) for a in gen.wiggly_positions(c.rng, (6, 7), 100.0))
            x = c.call("lonlat2xyz", lonlat2xyz, give(lon), give(lat))
            watch(x)
            watch(c.call("xyz2lonlat", xyz2lonlat, *[give(np.asarray(v)) for v in x]))
    c.note(kind=kind, dtype=np.dtype(dtype).name)
    for n, ((v, owner), (was, fl)) in enumerate(zip(given, old)):
        c.equal(owner, was, "%s: memory of the argument given as number %d" % (kind, n))
        c.ensure(flags(v) == fl, "%s: flags of the argument given as number %d" % (kind, n))
    for n, (r, was) in enumerate(results):
        c.equal(r, was, "%s: result number %d after later calls" % (kind, n))
    c.seen("several calls: " + kind)


@group(quick=100, thorough=2000)
def vii_arrays(c):
    """DataArrays with names, attributes and coordinates given to the VII functions stay as they are."""
    ties, nscans, factor, act = int(c.rng.integers(2, 6)), int(c.rng.integers(1, 4)), int(c.pick([1, 2, 8])), int(c.rng.integers(2, 9))
    shape = ties * nscans, act
    geo = c.rng.random() < 0.6
    data = gen.wiggly_positions(c.rng, shape, float(c.pick([8.0, 300.0]))) if geo else [c.rng.normal(size=shape) for _ in range(int(c.rng.integers(1, 4)))]
    dims = c.pick([("y", "x"), ("num_tie_points_alt", "num_tie_points_act")])
    coords = c.pick([{}, {}, {dims[0]: np.arange(shape[0]) * 10}, {dims[1]: np.arange(act) - 3.5, "time": 7},
                     {"scan": (dims[0], np.arange(shape[0]) // ties)}])
    lazy = bool(c.rng.random() < 0.3)
    given, before = [], []
    for n, a in enumerate(data):
        v, owner = laid_out(c, a, c.pick(LAYOUTS))
        x = da.from_array(v, chunks=3, name=False, asarray=False) if lazy else v
        given.append(xr.DataArray(x, dims=dims, coords=coords, name=c.pick([None, "v%d" % n]), attrs={"n": n}))
        before.append((owner, owner.copy(), given[-1].copy(deep=True)))
    c.note(geo=bool(geo), lazy=lazy, coords=str(list(coords)), dims=str(dims))
    arg = c.pick([list, tuple])(given)
    res = c.call("vii positions", tie_points_geo_interpolation, *given, ties, factor) if geo else \
        c.call("vii data", tie_points_interpolation, arg, ties, factor)
    values = [np.asarray(r) for r in res]
    if not geo:
        c.ensure(len(arg) == len(given) and all(x is y for x, y in zip(arg, given)), "the list of arrays was changed")
    for n, (g, (owner, old, was)) in enumerate(zip(given, before)):
        c.equal(owner, old, "vii: memory of array %d after the call" % n)
        c.ensure(g.identical(was), "vii: array %d after the call: %s instead of %s" % (n, list(g.coords), list(was.coords)))
        c.ensure(getattr(g, "chunks", None) == was.chunks, "vii: chunks of array %d" % n)
        for r in values:
            c.ensure(not np.shares_memory(r, owner), "vii: a result shares memory with array %d" % n)
    for i, r in enumerate(values):
        for s in values[:i]:
            c.ensure(not np.shares_memory(r, s), "vii: two results share memory")
    c.seen("vii arrays with coordinates: " + (", ".join(coords) or "none"))
