"""C09: every MODIS scan is interpolated independently of the others."""
import numpy as np

from vlib import api, gen
from vlib.core import group

CONFIGS = [("angle",) + cfg for cfg in api.ANGLE_CONFIGS] + [("simple", 1000, 250, 0), ("simple", 1000, 500, 0), ("simple", 500, 250, 0),
                                                             ("simple", 500, 125, 0)]


def setup(c):
    kind, coarse, fine, width = CONFIGS[c.k % len(CONFIGS)]
    width = width or int(c.pick([2, 3, 7, 50, 300, 1354]))
    dtype = c.pick([np.float64, np.float32])
    nscans = int(c.rng.integers(2, 7)) if fine >= 500 or width < 1000 else int(c.rng.integers(2, 4))
    lon, lat, satz = (a.astype(dtype) for a in gen.modis_input(c.rng, coarse, nscans, width))
    like_each_other(c, lon, lat, satz, api.rows_per_scan(coarse))
    missing(c, lon, lat, satz)
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans)
    rps = api.rows_per_scan(coarse)

    def run(lon, lat, satz):
        if kind == "angle":
            return api.angle(c, coarse, fine, lon, lat, satz)
        return api.simple(c, coarse, fine, lon, lat)
    return run, lon, lat, satz, rps, nscans, coarse // fine, dtype


def like_each_other(c, lon, lat, satz, rows):
    """Scans that have some of their tie points or angles in common with the scan before (a cache must not be fooled)."""
    nscans = len(lon) // rows
    for n in range(1, nscans):
        if c.rng.random() < 0.5:
            continue
        a, b = slice((n - 1) * rows, n * rows), slice(n * rows, (n + 1) * rows)
        what = c.pick(["angles", "positions", "all", "first row", "last row", "border columns", "all but one"])
        for arr in (lon, lat, satz):
            if arr is satz and what == "positions" or arr is not satz and what == "angles":
                continue
            if what == "first row":
                arr[b.start] = arr[a.start]
            elif what == "last row":
                arr[b.stop - 1] = arr[a.stop - 1]
            elif what == "border columns":
                arr[b, 0], arr[b, -1] = arr[a, 0], arr[a, -1]
            else:
                arr[b] = arr[a]
        if what == "all but one":
            row, col = n * rows + int(c.rng.integers(rows)), int(c.rng.integers(lon.shape[1]))
            lat[row, col] += lat.dtype.type(0.02 if lat[row, col] < 0 else -0.02)
            satz[row, col] = abs(satz[row, col] - 1)
        c.seen("scans sharing with the scan before: " + what)


def missing(c, lon, lat, satz):
    """Missing tie points anywhere: nothing of another scan may stand in for them."""
    if c.rng.random() < 0.65:
        return
    for _ in range(int(c.rng.integers(1, 5))):
        at = int(c.rng.integers(len(lon))), int(c.rng.integers(lon.shape[1]))
        value = c.pick([np.nan, np.nan, np.inf])
        for arr in c.pick([(lon, lat), (lon, lat), (lon,), (lat,), (satz,), (lon, lat, satz)]):
            arr[at] = value
    c.seen("cases with missing tie points")


def scan(arrs, n, rows):
    return [a[n * rows:(n + 1) * rows] for a in arrs]


@group(quick=80, thorough=1500)
def one_at_a_time(c):
    run, lon, lat, satz, rps, nscans, f, dtype = setup(c)
    together = run(lon, lat, satz)
    for n in range(nscans):
        alone = run(*scan((lon, lat, satz), n, rps))
        c.ensure(alone[0].shape[0] == rps * f, "one scan gives %d fine rows instead of %d" % (alone[0].shape[0], rps * f))
        c.within(gen.max_dist(scan(together, n, rps * f), alone), gen.rounding_m(dtype),
                 "%s: metres between a scan alone and in a stack" % dtype.__name__)
        c.seen("scans compared")


@group(quick=80, thorough=1500)
def permuted_and_repeated(c):
    run, lon, lat, satz, rps, nscans, f, dtype = setup(c)
    together = run(lon, lat, satz)
    order = [int(i) for i in c.rng.integers(0, nscans, int(c.rng.integers(2, 7)))]
    pick = lambda a, rows: np.concatenate([a[n * rows:(n + 1) * rows] for n in order])
    again = run(*(pick(a, rps) for a in (lon, lat, satz)))
    want = [pick(a, rps * f) for a in together]
    c.ensure(again[0].shape == want[0].shape, "shape %s instead of %s" % (again[0].shape, want[0].shape))
    c.within(gen.max_dist(again, want), gen.rounding_m(dtype),
             "%s: metres between a scan in two orders of scans" % dtype.__name__)
    c.seen("scans compared", len(order))


@group(quick=120, thorough=2500)
def corrupted_neighbours(c):
    run, lon, lat, satz, rps, nscans, f, dtype = setup(c)
    before = run(lon, lat, satz)
    n = int(c.rng.integers(nscans))
    bad = [a.copy() for a in (lon, lat, satz)]
    how = c.pick(["all NaN", "one NaN", "edge rows NaN", "elsewhere", "infinite", "zenith", "huge"])
    rows = slice(n * rps, (n + 1) * rps)
    if how == "all NaN":
        for a in bad:
            a[rows] = np.nan
    elif how == "one NaN":
        r, col = n * rps + int(c.rng.integers(rps)), int(c.rng.integers(lon.shape[1]))
        for a in bad:
            a[r, col] = np.nan
    elif how == "edge rows NaN":
        for a in bad:
            a[n * rps], a[(n + 1) * rps - 1] = np.nan, np.nan
    elif how == "elsewhere":
        bad[0][rows], bad[1][rows] = (bad[0][rows] + 180) % 360 - 180, -bad[1][rows]
    elif how == "infinite":
        bad[0][rows] = np.inf
    elif how == "zenith":
        bad[2][rows] = 66 - bad[2][rows]
    else:
        bad[0][rows] = 1e30
        bad[1][rows] = -1e30
    c.note(how=how, corrupted=n)
    after = run(*bad)
    for m in range(nscans):
        if m == n:
            continue
        c.within(gen.max_dist(scan(before, m, rps * f), scan(after, m, rps * f)), gen.rounding_m(dtype),
                 "%s: metres moved in a scan when another was corrupted" % dtype.__name__)
        c.seen("untouched scans compared")


@group(quick=32, thorough=400)
def granules(c):
    """Some scans of hundreds: alone, and in another place of the stack."""
    kind, coarse, fine, width = CONFIGS[int(c.pick([i for i, cfg in enumerate(CONFIGS) if cfg[0] == "simple" or cfg[:3] == ("angle", 5000, 1000)]))]
    width = width or int(c.pick([2, 3, 7]))
    dtype = c.pick([np.float64, np.float32])
    nscans = int(c.rng.integers(12, 300)) if width < 10 else int(c.rng.integers(12, 120))
    rps, f = api.rows_per_scan(coarse), coarse // fine
    base = [a.astype(dtype) for a in gen.modis_input(c.rng, coarse, int(c.rng.integers(2, 9)), width)]
    order = c.rng.integers(0, len(base[0]) // rps, nscans)
    arrs = [np.concatenate([a[n * rps:(n + 1) * rps] for n in order]) for a in base]
    missing(c, *arrs)
    c.note(kind=kind, coarse=coarse, fine=fine, width=width, dtype=dtype.__name__, scans=nscans)

    def run(lon, lat, satz):
        if kind == "angle":
            return api.angle(c, coarse, fine, lon, lat, satz)
        return api.simple(c, coarse, fine, lon, lat)
    together = run(*arrs)
    c.ensure(together[0].shape == (nscans * rps * f,) + together[0].shape[1:], "shape %s for %d scans" % (together[0].shape, nscans))
    for n in np.unique(np.concatenate([[0, 1, nscans - 1], c.rng.integers(0, nscans, 12)])):
        alone = run(*scan(arrs, int(n), rps))
        c.within(gen.max_dist(scan(together, int(n), rps * f), alone), gen.rounding_m(dtype),
                 "%s: metres between a scan alone and among many" % dtype.__name__)
        c.seen("scans compared")
    cut = int(c.rng.integers(1, nscans))
    parts = [run(*[a[s] for a in arrs]) for s in (slice(0, cut * rps), slice(cut * rps, None))]
    joined = [np.concatenate([p[i] for p in parts]) for i in range(2)]
    c.within(gen.max_dist(together, joined), gen.rounding_m(dtype), "%s: metres between many scans at once and in two parts" % dtype.__name__)
