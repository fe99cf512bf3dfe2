"""Independent reference implementations (float64, numpy only; nothing imported from geotiepoints)."""
import numpy as np

from vlib.gen import R_M, R_KM, H_KM, unit, dist_m


# ---------------------------------------------------------------- positions
def latitudes(xyz, radius):
    """The latitude of possibly not quite normalised vectors by the three formulas in use: z only, xy only, angle."""
    x, y, z = xyz[..., 0], xyz[..., 1], xyz[..., 2]
    r = np.hypot(x, y)
    with np.errstate(invalid="ignore"):
        return (np.rad2deg(np.arcsin(z / radius)),
                np.sign(z) * (90 - np.rad2deg(np.arcsin(r / radius))),
                np.rad2deg(np.arctan2(z, r)))


def position_error(lon, lat, xyz, radius=R_M):
    """Distance in metres of lon/lat from the cartesian reference *xyz*; NaN where exactly one of them is NaN.

    Interpolated vectors are a little shorter than the radius (chord instead of arc).  Which of the formulas for the
    latitude is used is not part of the contract, hence the best of the three counts.
    """
    lon = np.asarray(lon, dtype=np.float64)
    lat = np.asarray(lat, dtype=np.float64)
    rlon = np.rad2deg(np.arctan2(xyz[..., 1], xyz[..., 0]))
    errs = np.stack([dist_m(lon, lat, rlon, rl, radius) for rl in latitudes(xyz, radius)])
    with np.errstate(invalid="ignore"):
        err = np.fmin(np.fmin(errs[0], errs[1]), errs[2])
    refnan = np.isnan(xyz).any(axis=-1)
    gotnan = np.isnan(lon) & np.isnan(lat)
    return np.where(refnan & gotnan, 0.0, np.where(refnan != (np.isnan(lon) | np.isnan(lat)), np.nan, err))


def sag_m(lon, lat, radius=R_M, axis=None):
    """Largest chord-versus-arc sag between neighbouring tie points (metres)."""
    v = unit(lon, lat)
    worst = 0.0
    for ax in (0, 1):
        if v.shape[ax] < 2 or (axis is not None and ax != axis):
            continue
        d = np.sqrt((np.diff(v, axis=ax) ** 2).sum(-1))
        if np.isnan(d).all():
            continue
        half = np.clip(np.nanmax(d) / 2, 0, 1)
        worst += radius * (1 - np.sqrt(1 - half ** 2))
    return worst


# ---------------------------------------------------------------- zenith-angle MODIS interpolation
def _cviirs_coefficients(za, zb, km):
    za, zb = np.deg2rad(za), np.deg2rad(zb)
    phi_a = np.arcsin(R_KM * np.sin(za) / (R_KM + H_KM))
    phi_b = np.arcsin(R_KM * np.sin(zb) / (R_KM + H_KM))
    th_a, th_b = za - phi_a, zb - phi_b
    phi = (phi_a + phi_b) / 2
    zeta = np.arcsin(np.clip((R_KM + H_KM) * np.sin(phi) / R_KM, -1, 1))
    th = zeta - phi
    den = np.where(th_a == th_b, 2 * th_a, th_a - th_b)
    zero = den == 0
    den = np.where(zero, 1, den)
    exp = 4 * ((th_a + th_b) / 2 - th) / den
    d = ((R_KM + H_KM) / R_KM * np.cos(phi) - np.cos(zeta)) * km / (2 * H_KM)
    e = np.cos(zeta) - np.sqrt(np.cos(zeta) ** 2 - d ** 2)
    ali = 4 * e * np.sin(zeta) / den
    return np.where(zero, 0, exp), np.where(zero, 0, ali), np.where(zero, np.inf, np.abs(th_a - th_b))


def modis_cells(coarse, fine, ncols):
    """Cell number and relative coordinate of every fine row and column of one scan (documented geometry)."""
    f = 1000 // fine
    rows = (np.arange(10 * f) - (f - 1) / 2.0) / f        # in 1 km rows, centred
    cols = np.arange(1354 * f) / f                        # in 1 km columns, first ones aligned
    if coarse == 5000:
        rows, cols = (rows - 2) / 5, (cols - 2) / 5
        nrows = 2
    else:
        nrows = 10
    i = np.clip(np.floor(rows), 0, nrows - 2).astype(int)
    j = np.clip(np.floor(cols), 0, ncols - 2).astype(int)
    return i, rows - i, j, cols - j, nrows


def cviirs_xyz(lon, lat, satz, coarse, fine):
    """Cartesian fine positions according to the CVIIRS formulas, and the conditioning of the cells."""
    lon, lat, satz = (np.asarray(a, dtype=np.float64) for a in (lon, lat, satz))
    i, t, j, s, nrows = modis_cells(coarse, fine, lon.shape[1])
    nscans = lon.shape[0] // nrows
    v = R_M * unit(lon, lat)
    out = np.empty((nscans, len(i), len(j), 3))
    cond = np.empty((nscans, len(i), len(j)))
    t = t[:, None]
    ii, jj = np.ix_(i, j)
    for n in range(nscans):
        vs, zs = v[n * nrows:(n + 1) * nrows], satz[n * nrows:(n + 1) * nrows]
        exp, ali, gap = _cviirs_coefficients(zs[:-1, :-1], zs[:-1, 1:], coarse // 1000)
        ce, ca = exp[ii, jj], ali[ii, jj]
        a_s = s[None, :] + s * (1 - s) * ce + t * (1 - t) * ca
        a_s, at = a_s[..., None], t[..., None]
        top = (1 - a_s) * vs[ii, jj] + a_s * vs[ii, jj + 1]
        bot = (1 - a_s) * vs[ii + 1, jj] + a_s * vs[ii + 1, jj + 1]
        out[n] = (1 - at) * top + at * bot
        cond[n] = gap[ii, jj]
    shape = (nscans * len(i), len(j))
    return out.reshape(shape + (3,)), cond.reshape(shape)


# ---------------------------------------------------------------- lon/lat only MODIS interpolation
def simple_xyz(lon, lat, factor, rows_per_scan=10):
    """Bilinear in cartesian coordinates per scan, linear extrapolation outside the tie points of the scan."""
    lon, lat = np.asarray(lon, dtype=np.float64), np.asarray(lat, dtype=np.float64)
    v = R_M * unit(lon, lat)
    nscans, ncols = lon.shape[0] // rows_per_scan, lon.shape[1]
    rows = np.arange(rows_per_scan * factor) / factor - (factor / 16.0 + 1 / 8.0)
    cols = np.arange(ncols * factor) / factor
    i = np.clip(np.floor(rows), 0, rows_per_scan - 2).astype(int)
    j = np.clip(np.floor(cols), 0, ncols - 2).astype(int)
    t, s = (rows - i)[:, None, None], (cols - j)[None, :, None]
    ii, jj = np.ix_(i, j)
    out = np.empty((nscans, len(i), len(j), 3))
    for n in range(nscans):
        vs = v[n * rows_per_scan:(n + 1) * rows_per_scan]
        out[n] = ((1 - t) * ((1 - s) * vs[ii, jj] + s * vs[ii, jj + 1])
                  + t * ((1 - s) * vs[ii + 1, jj] + s * vs[ii + 1, jj + 1]))
    return out.reshape(nscans * len(i), len(j), 3)


# ---------------------------------------------------------------- tensor-product linear interpolation
def linear_weights(points, x):
    """Left index and weight for linear inter-/extrapolation on increasing *points*."""
    points = np.asarray(points, dtype=np.float64)
    x = np.asarray(x, dtype=np.float64)
    i = np.clip(np.searchsorted(points, x, side="right") - 1, 0, len(points) - 2)
    return i, (x - points[i]) / (points[i + 1] - points[i])


def bilinear(rows, cols, data, frows, fcols):
    data = np.asarray(data, dtype=np.float64)
    i, t = linear_weights(rows, frows)
    j, s = linear_weights(cols, fcols)
    a = data[i] * (1 - t)[:, None] + data[i + 1] * t[:, None]
    return a[:, j] * (1 - s) + a[:, j + 1] * s


def multilinear(smin, smax, orders, values, s):
    """Recursive definition, dimension by dimension; values: (functions, prod(orders)), s: (d, points)."""
    d = len(orders)
    v = np.asarray(values, dtype=np.float64).reshape((-1,) + tuple(int(o) for o in orders))
    s = np.asarray(s, dtype=np.float64)
    smin, smax = np.asarray(smin, dtype=np.float64), np.asarray(smax, dtype=np.float64)
    u = (s - smin[:, None]) / (smax - smin)[:, None] * (np.asarray(orders, dtype=np.float64) - 1)[:, None]
    q = np.clip(np.floor(u), 0, np.asarray(orders)[:, None] - 2).astype(int)
    lam = u - q

    def rec(dim, idx):
        if dim == d:
            return v[(slice(None),) + tuple(idx)]
        return (1 - lam[dim]) * rec(dim + 1, idx + [q[dim]]) + lam[dim] * rec(dim + 1, idx + [q[dim] + 1])
    return rec(0, []), lam


# ---------------------------------------------------------------- VII
def vii_pixels(n_tie_alt, n_tie_act, scan_ties, factor):
    """Positions of the pixel rows and columns in tie-point units."""
    rows = []
    for n in range(n_tie_alt // scan_ties):
        rows.append(n * scan_ties + np.arange((scan_ties - 1) * factor) / factor)
    return np.concatenate(rows), np.arange((n_tie_act - 1) * factor) / factor


def vii(data, scan_ties, factor):
    # in whole pixels: fractions of tie points would be rounded
    rows, cols = (np.rint(p * factor) for p in vii_pixels(data.shape[0], data.shape[1], scan_ties, factor))
    return bilinear(np.arange(data.shape[0]) * factor, np.arange(data.shape[1]) * factor, data, rows, cols)


# ---------------------------------------------------------------- filling of borders
def fill_axis(pos, data, first, last):
    """Extend *data* (axis 0) at *pos* linearly to *first* and *last*; positions already there are kept."""
    pos = np.asarray(pos, dtype=np.float64)
    data = np.asarray(data, dtype=np.float64)
    p, d = [pos], [data]
    if pos[0] != first:
        w = (first - pos[0]) / (pos[1] - pos[0])
        p.insert(0, [first])
        d.insert(0, [(1 - w) * data[0] + w * data[1]])
    if pos[-1] != last:
        w = (last - pos[-2]) / (pos[-1] - pos[-2])
        p.append([last])
        d.append([(1 - w) * data[-2] + w * data[-1]])
    return np.concatenate(p), np.concatenate(d)


def fill_rows(rows, data, hrows, nchunks):
    """Per chunk: *rows* and *hrows* consist of *nchunks* parts of equal length."""
    n, m = len(hrows) // nchunks, len(rows) // nchunks
    parts = [fill_axis(rows[k * m:(k + 1) * m], data[k * m:(k + 1) * m], hrows[k * n], hrows[(k + 1) * n - 1])
             for k in range(nchunks)]
    return np.concatenate([p[0] for p in parts]), np.concatenate([p[1] for p in parts])


def fill_cols(cols, data, hcols):
    p, d = fill_axis(cols, np.asarray(data).T, hcols[0], hcols[-1])
    return p, d.T
