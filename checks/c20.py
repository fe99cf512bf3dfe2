"""C20: the fixed-geometry AVHRR and MODIS helpers recover true positions."""
import numpy as np
from scipy.interpolate import make_interp_spline

from vlib import gen, legacy, refs
from vlib.core import group

# metres from the simulated truth: (anywhere, inner columns, median)
TRUTH = {"metop20kmto1km": (6.0, 1.5, 0.05), "modis5kmto1km": (330.0, 16.0, 2.0),
         "modis1kmto500m": (20.0, 1.0, 0.15), "modis1kmto250m": (33.0, 1.5, 0.15)}


@group(quick=64, thorough=1200)
def simulated_instrument(c):
    name = sorted(legacy.HELPERS)[c.k % 4]
    n = int(c.rng.integers(2, 30)) if name.startswith("metop") else int(c.rng.integers(1, 5))
    fr = gen.random_frame(c.rng)
    lon, lat, tlon, tlat = legacy.simulate(name, gen.frame(*fr), n)
    if c.rng.random() < 0.2:
        lon = np.mod(lon, 360)
    c.note(helper=name, n=n, frame=fr)
    glon, glat = c.call(name, legacy.HELPERS[name][0], lon, lat)
    c.ensure(glon.shape == tlon.shape and glat.shape == tlon.shape, "%s: shape %s instead of %s" % (name, glon.shape, tlon.shape))
    err = gen.dist_m(glon, glat, tlon, tlat)
    anywhere, inside, median = TRUTH[name]
    c.within(err, anywhere, name + ": metres from the simulated truth")
    m = 60
    c.within(err[:, m:-m], inside, name + ": metres from the simulated truth, inner columns")
    c.within(np.median(err), median, name + ": median metres from the simulated truth")
    c.seen("pixels compared with the simulated truth", err.size)


def reference_generic(data):
    """Linear extrapolation to the borders of every scan, then linear along rows, cubic spline along columns."""
    ncols = data.shape[1]
    cols = np.arange(ncols) * 5.0 + 2
    left = data[:, :1] + (0 - cols[0]) / 5.0 * (data[:, 1:2] - data[:, :1])
    parts, pos = [data], [cols]
    parts, pos = [left] + parts, [[0.0]] + pos
    if cols[-1] != 1353:
        right = data[:, -1:] + (1353 - cols[-1]) / 5.0 * (data[:, -1:] - data[:, -2:-1])
        parts, pos = parts + [right], pos + [[1353.0]]
    full = make_interp_spline(np.concatenate(pos), np.concatenate(parts, axis=1).T, k=3)(np.arange(1354.0)).T
    t = (np.arange(10.0) - 2)[:, None] / 5
    return np.concatenate([(1 - t) * full[i] + t * full[i + 1] for i in range(0, len(full), 2)])


@group(quick=48, thorough=800)
def generic_data(c):
    n, nscans = int(c.pick([1, 2, 3, 4, 5, 7, 9])), int(c.rng.integers(1, 5))
    kind = c.pick(["linear", "random", "smooth", "integers"])
    rows = np.arange(10) * 1.0
    data, truth = [], []
    for _ in range(n):
        if kind == "linear":
            fine = np.concatenate([c.rng.normal() * 100 + c.rng.normal() * rows[:, None] + c.rng.normal() * np.arange(1354)[None, :]
                                   + c.rng.normal() * 0.1 * rows[:, None] * np.arange(1354)[None, :] for _ in range(nscans)])
        elif kind == "smooth":
            fine = np.concatenate([np.cos(np.arange(1354) / c.rng.uniform(100, 300))[None, :] * (1 + c.rng.normal() * rows[:, None])
                                   + c.rng.normal() * 10 for _ in range(nscans)])
        elif kind == "integers":
            dtype = c.pick([np.uint8, np.uint16, np.int16, np.uint32, np.int32])
            fine = c.rng.integers(0, min(np.iinfo(dtype).max, 10 ** 6), (10 * nscans, 1354), endpoint=True).astype(dtype)
            c.seen("arrays of integers")
        else:
            fine = c.rng.normal(size=(10 * nscans, 1354)) * 10.0 ** c.rng.integers(-3, 5)
        data.append(fine[2::5, 2::5])
        truth.append(fine)
    c.note(kind=kind, arrays=n, scans=nscans)
    res = c.call("generic_modis5kmto1km", legacy.generic, *data)
    c.ensure(len(res) == n, "%d results for %d arrays" % (len(res), n))
    for d, t, r in zip(data, truth, res):
        c.ensure(r.shape == t.shape, "shape %s instead of %s" % (r.shape, t.shape))
        d, t = np.asarray(d, dtype=np.float64), np.asarray(t, dtype=np.float64)
        scale = np.abs(t).max()
        if kind == "linear":
            c.within(np.abs(r - t) / scale, 1e-11, "linear fields, relative")
        elif kind == "smooth":
            curve = (1 / 100.0) ** 2 * 5 ** 2 * (1 + 10 * 3)
            c.within(np.abs(r - t) / scale, 2 * curve, "smooth fields, relative")
        c.within(np.abs(r - reference_generic(d)) / scale, 1e-10, "reference spline, relative")


FINE = {"modis5kmto1km": (5, 10, lambda n: np.arange(2, 5 * n, 5) / 5.0, lambda n: np.arange(5.0 * n) / 5, 2 / 5),
        "modis1kmto500m": (2, 20, lambda n: np.arange(1.0 * n), lambda n: (np.arange(2 * n) - 0.5) / 2, 0),
        "modis1kmto250m": (4, 40, lambda n: np.arange(1.0 * n), lambda n: (np.arange(4 * n) - 1.5) / 4, 0)}


def reference_positions(name, lon, lat):
    """Cartesian coordinates: linear (also beyond the tie points) along track per scan, cubic spline across track."""
    xyz = gen.R_M * gen.unit(lon, lat)
    if name.startswith("metop"):
        return make_interp_spline(legacy.METOP_COLS.astype(float), xyz, k=3, axis=1)(np.arange(2048.0))
    factor, chunk, ties, fine, first = FINE[name]
    cols, fine_cols = np.arange(xyz.shape[1]) + first, np.arange(1354 * factor if factor != 5 else 1354) / factor
    for at, (a, b) in ((fine_cols[0], (0, 1)), (fine_cols[-1], (-1, -2))):
        if at not in (cols[0], cols[-1]):
            border = xyz[:, [a]] + (at - cols[a]) / (cols[b] - cols[a]) * (xyz[:, [b]] - xyz[:, [a]])
            xyz = np.concatenate([border, xyz] if a == 0 else [xyz, border], axis=1)
            cols = np.concatenate([[at], cols] if a == 0 else [cols, [at]])
    full = make_interp_spline(cols, xyz, k=3, axis=1)(fine_cols)
    out, per = [], chunk // factor
    for s in range(0, len(full), per):
        t, y = ties(len(full))[s:s + per], fine(len(full))[s * factor:s * factor + chunk]
        i = np.clip(np.searchsorted(t, y, side="right") - 1, 0, per - 2)
        w = ((y - t[i]) / (t[i + 1] - t[i]))[:, None, None]
        out.append((1 - w) * full[s + i] + w * full[s + i + 1])
    return np.concatenate(out)


@group(quick=40, thorough=600)
def reference_spline(c):
    """The positions are those of linear interpolation along track and a cubic spline across track."""
    name = sorted(legacy.HELPERS)[c.k % 4]
    against_reference(c, name, int(c.rng.integers(2, 30)) if name.startswith("metop") else int(c.rng.integers(1, 4)))


@group(quick=10, thorough=150)
def orbits(c):
    """The same for whole granules and orbits."""
    name = (sorted(legacy.HELPERS) + ["metop20kmto1km"])[c.k % 5]
    most = {"metop20kmto1km": 3000, "modis5kmto1km": 230, "modis1kmto500m": 100, "modis1kmto250m": 30}[name]
    n = int(10 ** c.rng.uniform(np.log10(most / 10), np.log10(most)))
    if c.k % 10 == 2:
        # more fine rows than a half-precision number can count
        name = c.pick(["modis1kmto250m", "modis1kmto250m", "modis1kmto500m"])
        n = int(c.rng.integers(52, 60)) * (1 if name.endswith("250m") else 2)
    against_reference(c, name, n)
    c.seen("lines or scans of long swaths", n)


def against_reference(c, name, n):
    kind = c.pick(["instrument", "wiggly"])
    if kind == "instrument":
        lon, lat = legacy.simulate(name, gen.frame(*gen.random_frame(c.rng)), n)[:2]
    else:
        shape = {"metop20kmto1km": (n, 105), "modis5kmto1km": (2 * n, 271)}.get(name, (10 * n, 1354))
        lon, lat = gen.wiggly_positions(c.rng, shape, 10.0)
    c.note(helper=name, n=n, kind=kind)
    glon, glat = c.call(name, legacy.HELPERS[name][0], lon, lat)
    want = reference_positions(name, lon, lat)
    c.ensure(glon.shape == want.shape[:2] and glat.shape == want.shape[:2], "%s: shape %s instead of %s" % (name, glon.shape, want.shape))
    c.within(refs.position_error(glon, glat, want), 1e-3, "%s: metres from the reference spline" % name)
