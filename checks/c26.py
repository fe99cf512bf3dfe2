"""C26: interpolators are linear in the data and indifferent to unit, origin, direction and order of the axes."""
import numpy as np
import xarray as xr

from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.viiinterpolator import tie_points_interpolation
from vlib import interp, legacy
from vlib.core import group

EPS = np.finfo(np.float64).eps
KINDS = ["generic", "generic", "generic 1d", "generic filled", "generic filled", "single grid", "multiple grid", "single spline",
         "multiple spline", "multilinear", "multilinear", "vii", "basic"]


def growth(k):
    return {1: 1, 2: 30, 3: 30, 4: 3000, 5: 10000}[k]


class Thing:
    """An interpolation of one array on axes that can be moved, mirrored or exchanged: call(data, axes) -> array."""

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.factor = 200.0             # rounding allowed in eps of the largest value
        rng = c.rng
        many = rng.random() < 0.04 and kind not in ("vii", "basic", "generic filled")
        if many:
            c.seen("hundreds of thousands of requested values")
        if kind == "multilinear":
            d = int(rng.integers(1, 5))
            self.orders = [int(n) for n in rng.integers(2, 6, d)]
            self.axes = [(np.array([0.0, float(rng.integers(1, 9))]), rng.uniform(-3, 12, int(10 ** rng.uniform(5, 6) if many else rng.integers(1, 40)))) for _ in range(d)]
            n = len(self.axes[0][1])
            self.axes = [(b, rng.uniform(-3, 12, n)) for b, _ in self.axes]
            self.shape = tuple(self.orders)
            self.factor *= 10 ** d
            return
        self.kx, self.ky = (int(v) for v in rng.integers(1, 6 if kind.startswith("single") else 4, 2))
        if "spline" not in kind and not kind.startswith("generic"):
            self.kx = self.ky = 1
        if kind == "vii":
            self.ties, self.scans, self.step = int(rng.integers(2, 6)), int(rng.integers(1, 4)), int(c.pick([1, 2, 3, 8]))
            self.shape = self.ties * self.scans, int(rng.integers(2, 8))
            return
        if kind == "basic":
            r, q = (np.concatenate([[0], np.cumsum(rng.integers(1, 7, int(rng.integers(1, 7))))]) for _ in range(2))
            self.axes = [(r, None), (q, None)]
            self.shape = len(r), len(q)
            return
        if kind == "generic filled":
            m, self.nchunks = int(rng.integers(max(2, self.kx + 1), 7)), int(rng.integers(1, 4))
            rows, cols = np.arange(m * self.nchunks) * 5.0 + 2, np.arange(int(rng.integers(self.ky + 1, 9))) * 4.0 + 1
            self.axes = [(rows, np.arange(5.0 * m * self.nchunks)), (cols, np.arange(4.0 * len(cols)))]
            self.factor *= 20
        else:
            self.axes = []
            for k in (self.kx, self.ky):
                p = np.concatenate([[0], np.cumsum(rng.integers(1, 5, int(rng.integers(k + 1, k + 9)) - 1))]).astype(float)
                f = np.sort(np.concatenate([rng.uniform(p[0], p[-1], int(rng.integers(300, 900) if many else rng.integers(1, 12))), p[:int(rng.integers(0, 3))]]))
                if rng.random() < 0.3 and not many:      # as many as tie positions
                    f = np.sort(rng.uniform(p[0], p[-1], len(p)))
                self.axes.append((p, f))
            if kind == "generic 1d":
                self.axes[0] = (self.axes[0][0], self.axes[0][0].copy())
        self.shape = tuple(len(a[0]) for a in self.axes)
        self.factor *= growth(self.kx) * growth(self.ky)

    def call(self, data, axes=None, orders=None, swapped=False):
        c, kind = self.c, self.kind
        axes = axes if axes is not None else getattr(self, "axes", None)
        if kind == "multilinear":
            lo, hi = [a[0][0] for a in axes], [a[0][1] for a in axes]
            it = c.call("MultilinearInterpolator", MultilinearInterpolator, lo, hi, list(data.shape), data.reshape(1, -1))
            return c.call("multilinear interpolate", it.interpolate, np.array([a[1] for a in axes]))[0]
        if kind == "vii":
            ties = data.shape[0] if swapped else self.ties
            return c.call("vii data", tie_points_interpolation, [xr.DataArray(data, dims=("y", "x"))], ties, self.step)[0].values
        if kind == "basic":
            it = c.call("BasicSatelliteInterpolator", BasicSatelliteInterpolator, axes[1][0], axes[0][0], data, data * 2)
            lat, lon = c.call("basic interpolate", it.interpolate)
            return np.asarray(lat)
        ties, fine = tuple(a[0] for a in axes), tuple(a[1] for a in axes)
        kx, ky = (self.ky, self.kx) if swapped else (self.kx, self.ky)
        if kind.startswith("generic"):
            chunk = len(fine[0]) // self.nchunks if kind.endswith("filled") and not swapped else 0
            it = interp.generic(c, data, ties, fine, kx, ky, chunk)
            if kind.endswith("filled"):
                c.call("fill_borders", it.fill_borders, *c.pick([("y", "x"), ("x", "y")]))
            return c.call("Interpolator.interpolate", it.interpolate)[0]
        flavour, what = kind.split()
        kw = dict(kx=kx, ky=ky) if what == "spline" else {}
        it = (interp.single if flavour == "single" else interp.multiple)(c, what, ties, data, **kw)
        res = c.call(kind, it.interpolate, fine)
        return res if flavour == "single" else list(res)[0]

    def judge(self, got, want, scale, what, more=1.0):
        self.c.close(np.asarray(got), np.asarray(want), self.factor * more * EPS * max(scale, 1e-300), "%s (%s)" % (what, self.kind))


def thing(c, kinds=KINDS):
    t = Thing(c, kinds[c.k % len(kinds)])
    c.note(kind=t.kind, shape=list(t.shape))
    return t


def reach(t, a):
    """Largest magnitude met on the way: extrapolated values may exceed the data."""
    return float(max(np.abs(a).max(), 1e-300))


@group(quick=400, thorough=8000)
def superposition(c):
    t = thing(c)
    a, b = c.rng.normal(size=t.shape), c.rng.normal(size=t.shape)
    kind = c.pick(["noise", "one value", "ramp", "constant", "constant"])
    if kind == "one value":
        b = np.zeros(t.shape)
        b[tuple(int(c.rng.integers(s)) for s in t.shape)] = 1.0
    elif kind == "ramp":
        b = np.arange(b.size, dtype=float).reshape(t.shape)
    f, g = (float(v) for v in c.rng.normal(size=2) * 10.0 ** c.rng.integers(-4, 7, 2))
    if kind == "constant":
        # small differences of large values
        b = np.ones(t.shape)
        g = f * float(10.0 ** c.rng.uniform(2, 7))
    ra, rb = t.call(a), t.call(b)
    both = t.call(f * a + g * b)
    scale = abs(f) * max(reach(t, a), np.abs(ra).max(initial=0)) + abs(g) * max(reach(t, b), np.abs(rb).max(initial=0))
    t.judge(both, f * ra + g * rb, scale, "sum of two fields")
    t.judge(t.call(-a), -ra, max(reach(t, a), np.abs(ra).max(initial=0)), "negative field")
    # in other units: powers of two change no digit
    unit = float(2.0 ** c.rng.integers(-60, 61))
    t.judge(t.call(a * unit), ra * unit, unit * max(reach(t, a), np.abs(ra).max(initial=0)), "field in other units")
    value = float(c.pick([1.0, -7.5, 1e6, 1e-6, 0.0, float(c.rng.normal())]))
    t.judge(t.call(np.full(t.shape, value)), np.full(np.shape(ra), value), abs(value), "constant field", 2)
    c.seen("superposition: " + t.kind)
    c.seen("second field: " + kind)


MOVABLE = [k for k in KINDS if k not in ("vii", "basic")]


@group(quick=800, thorough=12000)
def moved_axes(c):
    """Other units and origins of the positions, direction reversed."""
    t = thing(c, MOVABLE)
    a = c.rng.normal(size=t.shape)
    extreme = c.pick(["tiny", "huge", "far"]) if c.rng.random() < 0.25 else None
    if extreme == "far":      # positions that stay exact when moved
        t.axes = [(p, np.round(f * 1024) / 1024) for p, f in t.axes]
    want = t.call(a)
    axes, data, out = [], a, want
    hows = []
    size = {"tiny": float(2.0 ** c.rng.integers(-45, -27)), "huge": float(2.0 ** c.rng.integers(28, 45)),
            "far": float(2.0 ** c.rng.integers(12, 25)) * c.pick([-1, 1])}
    for n, (p, f) in enumerate(t.axes):
        how = c.pick(["unit", "origin", "both", "none", "mirrored", "mirrored"])
        s = float(2.0 ** (c.rng.integers(-12, 13) if c.rng.random() < 0.7 else c.rng.integers(-40, 41))) if how in ("unit", "both") else 1.0
        if c.rng.random() < 0.3 and s != 1:
            s = s * float(c.rng.uniform(0.5, 2))
        o = float(c.rng.integers(-200, 200)) if how in ("origin", "both") else 0.0
        if extreme:
            how = extreme
            s, o = (1.0, size["far"]) if extreme == "far" else (size[extreme], 0.0)
        p2, f2 = p * s + o * s, f * s + o * s
        if how == "mirrored":
            data = np.flip(data, n)
            if t.kind == "multilinear":
                p2, f2 = -p[::-1], -f
            else:
                p2, f2 = -p[::-1], -f[::-1]
                out = np.flip(out, n)
        if t.kind != "multilinear":
            f2 = np.clip(f2, p2[0], p2[-1]) if t.kind != "generic filled" else f2
        if t.kind == "generic 1d" and n == 0:
            f2 = p2.copy()
        hows.append(how)
        axes.append((p2, f2))
    c.note(hows=str(hows))
    got = t.call(np.ascontiguousarray(data), axes)
    # positions moved by up to 200 units are known a little less accurately
    t.judge(got, out, max(reach(t, a), np.abs(want).max(initial=0)), "positions moved", 400)
    for h in hows:
        c.seen("axis: " + h)


@group(quick=300, thorough=6000)
def exchanged_axes(c):
    t = thing(c)
    if t.kind == "vii":
        t.scans = 1
        t.shape = t.ties, t.shape[1]
    if t.kind == "generic filled" and t.nchunks != 1:
        t.nchunks = 1
    a = c.rng.normal(size=t.shape)
    want = t.call(a)
    if t.kind == "multilinear":
        perm = [int(i) for i in c.rng.permutation(len(t.axes))]
        got = t.call(np.ascontiguousarray(np.transpose(a, perm)), [t.axes[i] for i in perm])
        t.judge(got, want, max(reach(t, a), np.abs(want).max(initial=0)), "dimensions exchanged")
    elif t.kind == "vii":
        t.judge(t.call(np.ascontiguousarray(a.T), None, swapped=True), want.T, reach(t, a), "axes exchanged")
    else:
        got = t.call(np.ascontiguousarray(a.T), t.axes[::-1], swapped=True)
        t.judge(got, np.asarray(want).T, max(reach(t, a), np.abs(want).max(initial=0)), "axes exchanged")
    c.seen("axes exchanged: " + t.kind)


@group(quick=10, thorough=150)
def generic_modis(c):
    shape = 2 * int(c.rng.integers(1, 4)), 271
    a, b = c.rng.normal(size=shape), c.rng.normal(size=shape)
    f, g = (float(v) for v in c.rng.normal(size=2))
    ra, rb = (np.asarray(v) for v in c.call("generic_modis5kmto1km", legacy.generic, a, b))
    got, = c.call("generic_modis5kmto1km", legacy.generic, f * a + g * b)
    c.close(np.asarray(got), f * ra + g * rb, 1e-11 * (np.abs(ra).max() + np.abs(rb).max()), "sum of two fields (generic_modis5kmto1km)")
    c.note(shape=list(shape))
