"""Workload generators: simulated scanning instruments over a sphere, random tie-point grids.

Everything here is independent of the code under test (it does not import geotiepoints).
"""
import numpy as np

R_KM = 6370.997       # sphere radius used by the library, km
R_M = R_KM * 1000.0
H_KM = 709.0          # satellite altitude assumed by the CVIIRS formulas of the library


def unit(lon, lat):
    lon = np.deg2rad(np.asarray(lon, dtype=np.float64))
    lat = np.deg2rad(np.asarray(lat, dtype=np.float64))
    c = np.cos(lat)
    return np.stack([c * np.cos(lon), c * np.sin(lon), np.sin(lat)], axis=-1)


def to_lonlat(v):
    """Exact inverse (atan2 based), any norm."""
    x, y, z = v[..., 0], v[..., 1], v[..., 2]
    return np.rad2deg(np.arctan2(y, x)), np.rad2deg(np.arctan2(z, np.hypot(x, y)))


def dist_m(lon1, lat1, lon2, lat2, radius=R_M):
    """Great-circle distance in metres, accurate for tiny separations; NaN where any input is NaN."""
    a, b = unit(lon1, lat1), unit(lon2, lat2)
    chord = np.sqrt(((a - b) ** 2).sum(axis=-1))
    return 2 * radius * np.arcsin(np.clip(chord / 2, 0, 1))


def frame(lon0, lat0, heading):
    """Start point and unit heading tangent (heading in degrees clockwise from north)."""
    lo, la, h = np.deg2rad([lon0, lat0, heading])
    p = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    north = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    east = np.array([-np.sin(lo), np.cos(lo), 0.0])
    return p, np.cos(h) * north + np.sin(h) * east


MODIS_DELTA = np.deg2rad(110.0) / 1354.0


def modis_points(start, nscans, rows, cols, scan_km=10.0, row_rad=1.0 / H_KM, delta=MODIS_DELTA,
                 mid_row=4.5, mid_col=676.5):
    """Ground positions seen by a MODIS-like whisk-broom scanner over a sphere.

    *rows*, *cols* are (fractional) 1 km detector row / column numbers within one scan.
    Returns unit vectors (nscans*len(rows), len(cols), 3) and satellite zenith angles (degrees).
    """
    u, v = start
    rows = np.asarray(rows, dtype=np.float64)
    cols = np.asarray(cols, dtype=np.float64)
    alpha = (cols - mid_col) * delta
    beta = (rows - mid_row) * row_rad
    theta = (np.arange(nscans) * scan_km) / R_KM
    p = np.cos(theta)[:, None] * u + np.sin(theta)[:, None] * v          # (S,3)
    t = -np.sin(theta)[:, None] * u + np.cos(theta)[:, None] * v
    c = np.cross(p, t)
    # look direction components in the (p, t, c) frame: (rows, cols)
    dp = -np.cos(beta)[:, None] * np.cos(alpha)[None, :]
    dt = np.sin(beta)[:, None] * np.ones_like(alpha)[None, :]
    dc = np.cos(beta)[:, None] * np.sin(alpha)[None, :]
    a = (R_KM + H_KM) / R_KM
    # |a p + s d| = 1 -> s^2 + 2 a s (p.d) + a^2 - 1 = 0
    b = a * dp
    s = -b - np.sqrt(b * b - (a * a - 1))
    gp, gt, gc = a + s * dp, s * dt, s * dc
    g = (gp[None, ..., None] * p[:, None, None, :] + gt[None, ..., None] * t[:, None, None, :]
         + gc[None, ..., None] * c[:, None, None, :])
    cosz = -(gp * dp + gt * dt + gc * dc)
    satz = np.rad2deg(np.arccos(np.clip(cosz, -1, 1)))
    g = g.reshape(nscans * len(rows), len(cols), 3)
    satz = np.tile(satz, (nscans, 1))
    return g, satz


def modis_case(start, nscans, coarse, fine, width=None):
    """(lon, lat, satz) tie points at *coarse* resolution and true (lon, lat) at *fine* resolution.

    Co-registration as documented for MODIS: first columns aligned across resolutions, rows centred.
    """
    f = 1000 // fine
    fine_rows = (np.arange(10 * f) - (f - 1) / 2.0) / f
    fine_cols = np.arange(1354 * f) / f
    if coarse == 1000:
        rows, cols = np.arange(10), np.arange(1354)
    else:
        rows, cols = np.array([2, 7]), np.arange(2, 1354, 5)[:width or 271]
    g, satz = modis_points(start, nscans, rows, cols)
    lon, lat = to_lonlat(g)
    t, _ = modis_points(start, nscans, fine_rows, fine_cols)
    tlon, tlat = to_lonlat(t)
    return lon, lat, satz, tlon, tlat


# ---------------------------------------------------------------- random cases
SPECIAL_FRAMES = [(180.0, 0.0, 0.0), (179.9, -3.0, 5.0), (-179.99, 40.0, 190.0), (0.0, 89.0, 10.0), (33.0, -89.9, 77.0),
                  (0.0, 0.0, 0.0), (0.0, 90.0, 0.0), (12.0, -90.0, 30.0), (90.0, 0.0, 90.0), (-90.0, 53.0, 350.0),
                  (180.0, 53.13, 180.0), (-60.0, -70.0, 190.0), (10.0, 20.0, 30.0)]


def random_frame(rng, special=0.4):
    """Placement of a swath: often at a seam, a pole or the latitude where the formulas change."""
    if rng.random() < special:
        lon, lat, head = SPECIAL_FRAMES[int(rng.integers(len(SPECIAL_FRAMES)))]
        if rng.random() < 0.5:
            lon, lat = lon + rng.normal(0, 0.3), float(np.clip(lat + rng.normal(0, 0.3), -90, 90))
        if rng.random() < 0.5:
            head = rng.uniform(0, 360)
    else:
        lon, lat, head = rng.uniform(-180, 180), np.rad2deg(np.arcsin(rng.uniform(-1, 1))), rng.uniform(0, 360)
    return float(lon), float(lat), float(head)


def random_zenith(rng, shape, coarse, high=66):
    """Arbitrary zenith angles (degrees, 0..high): realistic, plateaus, zeros, symmetric pairs, noise."""
    rows, cols = shape
    a = (np.arange(cols) - (cols - 1) / 2.0) / (cols / 2.0)
    base = 65.0 * np.abs(a)[None, :] * np.ones((rows, 1)) + rng.uniform(0, 0.5, (rows, 1))
    kind = rng.integers(0, 6)
    if kind == 1:
        base = rng.uniform(0, high, shape)
    elif kind == 2:
        base = np.repeat(rng.uniform(0, high, (rows, cols // 2 + 1)), 2, axis=1)[:, :cols]
    elif kind == 3:
        base = np.where(rng.random(shape) < 0.3, 0.0, base)
    elif kind == 4:
        base = np.abs(base - rng.uniform(0, 60))
    elif kind == 5:
        base = base + rng.normal(0, 0.3, shape)
    return np.clip(base * (high / 66) if high > 66 else base, 0, high)


def wiggly_positions(rng, shape, spacing_km, lonlat0=None):
    """Arbitrary but plausible tie points: a curved, sheared and noisy grid somewhere on the sphere."""
    rows, cols = shape
    u, v = frame(*(lonlat0 or random_frame(rng)))
    w = np.cross(u, v)
    y = np.arange(rows)[:, None] * spacing_km / R_KM
    x = (np.arange(cols)[None, :] - cols / 2.0) * spacing_km / R_KM
    x = x * (1 + 0.3 * np.sin(np.arange(cols) * rng.uniform(0.001, 0.05))[None, :])
    y = y + 0.2 * spacing_km / R_KM * np.sin(x * rng.uniform(1, 50)) + x * rng.uniform(-0.1, 0.1)
    noise = 0.2 * spacing_km / R_KM * rng.uniform(0, 1)
    x = x + rng.normal(0, 1, shape) * noise
    y = y + rng.normal(0, 1, shape) * noise
    # lateral angle x about the track, then y along the track
    p = np.cos(y)[..., None] * u + np.sin(y)[..., None] * v
    g = np.cos(x)[..., None] * p + np.sin(x)[..., None] * w
    return to_lonlat(g)


_OPPOSITE = []


def opposite_meridians():
    """Longitudes L for which the cosines and sines of L and L - 180 cancel exactly in double precision."""
    if not _OPPOSITE:
        for lon in np.arange(1, 720) / 4.0:
            a, b = np.deg2rad(lon), np.deg2rad(lon - 180.0)
            if np.cos(a) + np.cos(b) == 0 and np.sin(a) + np.sin(b) == 0:
                _OPPOSITE.append(float(lon))
    return _OPPOSITE


def symmetric_positions(rng, shape, spacing_km):
    """Swaths that are exactly symmetrical about a meridian or a pole, so that coordinates cancel exactly in between."""
    rows, cols = shape
    step = np.rad2deg(spacing_km / R_KM)
    d = (np.arange(cols) - (cols - 1) / 2.0) * step              # exactly antisymmetrical
    if rng.random() < 0.6:
        lat = rng.uniform(-80, 80) + np.arange(rows) * step
        lon = np.zeros(shape) + np.where(d < 0, 180.0 + d, np.where(d > 0, -180.0 + d, rng.choice([180.0, -180.0])))
        kind = "antimeridian"
        if rng.random() < 0.2:
            lon, kind = np.zeros(shape) + d, "greenwich"
        return lon, np.zeros(shape) + lat[:, None], "symmetrical about " + kind
    ls = rng.choice(opposite_meridians(), rows)
    if rng.random() < 0.5:
        ls[:] = ls[0]
    lon = np.where(d[None, :] < 0, ls[:, None], ls[:, None] - 180.0)
    lat = rng.choice([1.0, -1.0]) * (90.0 - np.abs(d)[None, :] + np.zeros(shape))
    return lon, lat, "symmetrical about a pole"


def modis_input(rng, coarse, nscans, width, kind=None):
    """Tie points of *nscans* scans, every scan at another place of the globe: (lon, lat, satz) float64."""
    rps = {5000: 2, 1000: 10, 500: 20, 250: 40}[coarse]
    parts = []
    for _ in range(nscans):
        shape = (rps, width)
        lon, lat = wiggly_positions(rng, shape, coarse / 1000.0)
        parts.append((lon, lat, random_zenith(rng, shape, coarse)))
    return tuple(np.concatenate([p[i] for p in parts]) for i in range(3))


def max_dist(a, b):
    """Distances of two (lon, lat) results in metres: 0 where both are missing, NaN where only one is."""
    na = np.isnan(a[0]) | np.isnan(a[1])
    nb = np.isnan(b[0]) | np.isnan(b[1])
    d = dist_m(a[0], a[1], b[0], b[1])
    return np.where(na & nb, 0.0, np.where(na != nb, np.nan, d))


def rounding_m(dtype):
    """What rounding in another order of operations may cost on the ground, metres."""
    return 1e-4 if np.dtype(dtype) == np.float64 else 8.0
