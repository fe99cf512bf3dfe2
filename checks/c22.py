"""C22: border filling extrapolates linearly and adds nothing inside."""
import numpy as np

from geotiepoints.interpolator import Interpolator
from geotiepoints.geointerpolator import GeoInterpolator
from vlib import gen, refs
from vlib.core import group


def integers(c, p):
    """The positions in one of the integer types holding them."""
    dtypes = [t for t in (np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64)
              if np.iinfo(t).min <= p.min() and p.max() <= np.iinfo(t).max]
    dtype = c.pick([np.int64] + dtypes)
    c.seen("positions as %s" % dtype.__name__)
    return p.astype(dtype)


def scene(c, far=False):
    """Fine rows/columns in chunks and tie rows/columns among or between them."""
    nchunks = int(c.pick([1, 1, 2, 3, 5, 7, 1, 2, 3, int(c.rng.integers(8, 40))]))
    m = int(c.rng.integers(2, 9))                        # tie rows per chunk
    unit = float(c.pick([1.0, 1.0, 0.2, 0.25, 1 / 7.0, 10.0, 1e-3, 1e4]))
    if c.rng.random() < 0.5:                            # regular, as for MODIS
        step = int(c.rng.integers(1, 8))
        chunk = m * step
        start = int(c.rng.integers(0, step)) if step > 1 else 0
        inside = start + step * np.arange(m)
        inside = [inside] * nchunks
    else:
        chunk = m + int(c.rng.integers(0, 30))
        inside = [np.sort(c.rng.choice(np.arange(chunk), m, replace=False)) for _ in range(nchunks)]
        if c.rng.random() < 0.3:
            inside = inside[:1] * nchunks
    shift = float(c.pick([0.0, 0.0, 0.5, -0.375, 100.0]))
    origin = float(c.pick([0.0, 0.0, 0.0, 3.0, -7.0] + [1e7, -1e6] * far))
    corigin = float(c.pick([0.0, 0.0, 0.0, 2.0, -5.0] + [1e7, -1e6] * far))
    if far and c.rng.random() < 0.2:
        unit = 1e-12
    hrows = (np.arange(nchunks * chunk) + shift + origin) * unit
    rows = np.concatenate([inside[k] + k * chunk for k in range(nchunks)]) * 1.0
    if c.rng.random() < 0.5 and unit == 1.0 and shift == 0.0:     # integers stay integers
        hrows, rows = np.arange(nchunks * chunk) + int(origin), rows.astype(int) + int(origin)
        hrows, rows = integers(c, hrows), integers(c, rows)
    else:
        rows = (rows + origin) * unit if c.rng.random() < 0.6 else (rows + shift + origin) * unit
    ncols = int(c.rng.integers(2, 12))
    cunit = float(c.pick([1.0, 1.0, 0.2, 5.0, 1e-4] + [1e-10] * far))
    cstep = int(c.rng.integers(1, 6))
    cols = np.arange(ncols) * cstep + int(c.rng.integers(0, cstep))
    if c.rng.random() < 0.4:
        cols = np.sort(c.rng.choice(np.arange(4 * ncols), ncols, replace=False))
    hcols = (np.arange(cols[0] - c.pick([0, 1, 3]), cols[-1] + 1 + c.pick([0, 1, 4])) + corigin) * cunit
    cols = (cols + corigin) * cunit
    if cunit == 1.0 and c.rng.random() < 0.5:
        hcols, cols = integers(c, hcols), integers(c, cols)
    c.note(chunks=nchunks, ties=m, chunk=chunk, unit=unit, shift=shift, columns=ncols, column_unit=cunit, origins=[origin, corigin],
           first_row=float(rows[0]), first_fine_row=float(hrows[0]), last_col=float(cols[-1]), last_fine_col=float(hcols[-1]))
    c.seen("chunks with other tie rows than the first", sum(list(i) != list(inside[0]) for i in inside))
    use = chunk if nchunks > 1 or c.rng.random() < 0.5 else 0
    return rows, cols, hrows, hcols, nchunks, use


def inside_positions(rows, hrows, nchunks):
    """Tie rows must lie within the chunk they belong to (documented use)."""
    n, m = len(hrows) // nchunks, len(rows) // nchunks
    return all(hrows[k * n] <= rows[k * m] and rows[(k + 1) * m - 1] <= hrows[(k + 1) * n - 1] for k in range(nchunks))


def make(c, data, rows, cols, hrows, hcols, chunk, kx=1, ky=1):
    return c.call("Interpolator", Interpolator, data, (rows, cols), (hrows, hcols), kx, ky, chunk_size=chunk)


def tie_tolerance(pos, data, hpos):
    gap = np.diff(np.asarray(pos, dtype=np.float64)).min()
    reach = max(abs(float(p)) for p in (hpos[0], hpos[-1], pos[0], pos[-1])) / gap
    return 1e-13 * (10 + reach) * (1 + reach) * np.abs(np.asarray(data, dtype=np.float64)).max()


@group(quick=400, thorough=8000)
def filled_tie_points(c):
    rows, cols, hrows, hcols, nchunks, chunk = scene(c, far=True)
    n = int(c.rng.integers(1, 4))
    data = [c.rng.normal(size=(len(rows), len(cols))) * 10.0 ** c.rng.integers(-2, 5) for _ in range(n)]
    if c.rng.random() < 0.25:
        dtype = c.pick([np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.int64])
        data = [c.rng.integers(max(np.iinfo(dtype).min, -2 ** 31), min(np.iinfo(dtype).max, 2 ** 32), d.shape, endpoint=True).astype(dtype) for d in data]
        c.note(dtype=dtype.__name__)
        c.seen("arrays of integers", n)
    order = c.pick([("y", "x"), ("x", "y"), ("y",), ("x",)])
    c.note(order=list(order), arrays=n, tie_rows_inside=bool(inside_positions(rows, hrows, nchunks)))
    it = make(c, data, rows, cols, hrows, hcols, chunk)
    c.call("fill_borders", it.fill_borders, *order)
    wrows, wcols, wdata = np.asarray(rows, float), np.asarray(cols, float), [d for d in data]
    if "y" in order:
        filled = [refs.fill_rows(rows, d, hrows, nchunks) for d in wdata]
        wrows, wdata = filled[0][0], [f[1] for f in filled]
    if "x" in order:
        filled = [refs.fill_cols(cols, d, hcols) for d in wdata]
        wcols, wdata = filled[0][0], [f[1] for f in filled]
    grows, gcols = np.asarray(it.row_indices, dtype=np.float64), np.asarray(it.col_indices, dtype=np.float64)
    c.ensure(grows.shape == wrows.shape and (grows == wrows).all(), "tie rows %s instead of %s" % (grows.tolist()[:20], wrows.tolist()[:20]))
    c.ensure(gcols.shape == wcols.shape and (gcols == wcols).all(), "tie columns %s instead of %s" % (gcols.tolist()[:20], wcols.tolist()[:20]))
    c.ensure(len(it.tie_data) == n, "%d arrays instead of %d" % (len(it.tie_data), n))
    for g, w, d in zip(it.tie_data, wdata, data):
        g = np.asarray(g)
        c.ensure(g.shape == w.shape, "shape of the filled data %s instead of %s" % (g.shape, w.shape))
        tol = 4 * tie_tolerance(rows, d, hrows) + 4 * tie_tolerance(cols, w, hcols)
        c.within(np.abs(g - w), tol, "filled tie points")
    c.seen("tie points on the border kept", int(wrows.size == len(rows)) + int(wcols.size == len(cols)))
    before = [np.array(g) for g in it.tie_data]
    if inside_positions(rows, hrows, nchunks) and (nchunks == 1 or len(wrows) % nchunks == 0 and "y" in order
                                                   and equal_chunks(wrows, hrows, nchunks)):
        c.call("fill_borders", it.fill_borders, *order)
        c.ensure(len(it.row_indices) == len(wrows) and len(it.col_indices) == len(wcols), "filling again added tie points")
        for g, b in zip(it.tie_data, before):
            c.close(g, b, 0.0, "filled again")
        c.seen("filled again")


@group(quick=2, thorough=12, timeout=200)
def many_chunks(c):
    """More than a thousand chunks: the products of row numbers exceed 32 bits."""
    m, step = int(c.pick([2, 10, 20])), int(c.pick([4, 8]))
    nchunks = int(np.sqrt(2.0 ** c.pick([31, 32]) / (m * m * step))) + int(c.rng.integers(2, 40))
    chunk = m * step
    hrows = np.arange(nchunks * chunk) * 1.0
    rows = np.arange(nchunks * m) * step + (step - 1) / 2
    cols = np.arange(2) * 3
    d = c.rng.normal(size=(len(rows), 2))
    c.note(chunks=nchunks, ties=m, chunk=chunk, rows=len(rows), fine_rows=len(hrows))
    it = make(c, d, rows, cols, hrows, np.arange(4), chunk)
    c.call("fill_borders", it.fill_borders, "y")
    wrows, want = refs.fill_rows(rows, d, hrows, nchunks)
    grows = np.asarray(it.row_indices, dtype=np.float64)
    c.ensure(grows.shape == wrows.shape and (grows == wrows).all(), "tie rows of %d chunks" % nchunks)
    got = np.asarray(it.tie_data[0])
    c.ensure(got.shape == want.shape, "shape of the filled data %s instead of %s" % (got.shape, want.shape))
    c.within(np.abs(got - want), 1e-9 * np.abs(d).max(), "filled tie points of many chunks")
    c.seen("many chunks", nchunks)


def equal_chunks(rows, hrows, nchunks):
    n = len(hrows) // nchunks
    counts = [np.sum((rows >= hrows[k * n]) & (rows <= hrows[(k + 1) * n - 1])) for k in range(nchunks)]
    return len(set(counts)) == 1


@group(quick=200, thorough=4000)
def order_of_directions(c):
    rows, cols, hrows, hcols, nchunks, chunk = scene(c, far=True)
    d = c.rng.normal(size=(len(rows), len(cols)))
    one, two, three = (make(c, d, rows, cols, hrows, hcols, chunk) for _ in range(3))
    c.call("fill_borders", one.fill_borders, "y", "x")
    c.call("fill_borders", two.fill_borders, "x", "y")
    c.call("fill_borders", three.fill_borders, "x")
    c.call("fill_borders", three.fill_borders, "y")
    tol = 8 * tie_tolerance(rows, one.tie_data[0], hrows) + 8 * tie_tolerance(cols, one.tie_data[0], hcols)
    for other in (two, three):
        c.close(other.row_indices, one.row_indices, 0.0, "tie rows")
        c.close(other.col_indices, one.col_indices, 0.0, "tie columns")
        c.close(other.tie_data[0], one.tie_data[0], tol, "tie points filled in the other order")


@group(quick=200, thorough=4000)
def linear_fields(c):
    """Different linear fields in every chunk are reproduced on the whole grid."""
    rows, cols, hrows, hcols, nchunks, chunk = scene(c)
    if not inside_positions(rows, hrows, nchunks):
        rows = np.concatenate([np.clip(r, h[0], h[-1]) for r, h in zip(np.split(rows, nchunks), np.split(hrows, nchunks))])
        if not (np.diff(rows) > 0).all() or not equal_chunks(rows, hrows, nchunks):
            rows = np.concatenate([h[[0, len(h) // 2] if len(h) > 2 else [0, 1]] for h in np.split(hrows, nchunks)])
        rows = np.asarray(rows)
    if len(rows) + 2 < 4 or len(hcols) < 2:
        return
    n, m = len(hrows) // nchunks, len(rows) // nchunks
    ky = int(c.pick([1, 1, 3])) if len(cols) >= 4 else 1
    span_r = max(abs(float(hrows[-1] - hrows[0])), 1e-30)
    span_c = max(abs(float(hcols[-1] - hcols[0])), 1e-30)
    coef = c.rng.normal(size=(nchunks, 4))

    def field(k, r, q):
        r, q = (r - hrows[0]) / span_r, (q - hcols[0]) / span_c
        a = coef[k]
        return a[0] + a[1] * r[:, None] + a[2] * q[None, :] + a[3] * r[:, None] * q[None, :]
    tie = np.concatenate([field(k, rows[k * m:(k + 1) * m] * 1.0, cols * 1.0) for k in range(nchunks)])
    want = np.concatenate([field(k, hrows[k * n:(k + 1) * n] * 1.0, hcols * 1.0) for k in range(nchunks)])
    it = make(c, tie, rows, cols, hrows, hcols, chunk, 1, ky)
    c.call("fill_borders", it.fill_borders, *c.pick([("y", "x"), ("x", "y")]))
    got = np.asarray(c.call("interpolate after filling", it.interpolate)[0])
    c.note(ky=ky)
    c.ensure(got.shape == want.shape, "shape %s instead of %s" % (got.shape, want.shape))
    amp = span_r / np.diff(rows * 1.0).min() * (1 + span_c / np.diff(cols * 1.0).min())
    c.within(np.abs(got - want), 1e-11 * (1 + amp), "linear fields per chunk")


@group(quick=100, thorough=2000)
def chunks_apart(c):
    """Data of one chunk of rows never influences the rows of another (positions of a scanner as well)."""
    rows, cols, hrows, hcols, nchunks, chunk = scene(c, far=True)
    if nchunks < 2:
        return
    d = c.rng.normal(size=(len(rows), len(cols)))
    m = len(rows) // nchunks
    k = int(c.rng.integers(nchunks))
    e = d.copy()
    e[k * m:(k + 1) * m] = c.rng.normal(size=(m, len(cols))) * 1e6 if c.rng.random() < 0.5 else np.nan
    res = []
    for x in (d, e):
        it = make(c, x, rows, cols, hrows, hcols, chunk)
        c.call("fill_borders", it.fill_borders, "y", "x")
        res.append((np.asarray(it.row_indices), np.asarray(it.tie_data[0])))
    c.close(res[1][0], res[0][0], 0.0, "tie rows")
    n = len(hrows) // nchunks
    wrows = [refs.fill_axis(rows[i * m:(i + 1) * m], d[i * m:(i + 1) * m], hrows[i * n], hrows[(i + 1) * n - 1])[0]
             for i in range(nchunks)]
    owner = np.repeat(np.arange(nchunks), [len(w) for w in wrows])
    c.close(res[1][1][owner != k], res[0][1][owner != k], 0.0, "tie points of the other chunks")
    c.seen("chunks changed without effect on the others")


@group(quick=60, thorough=1000)
def positions(c):
    """Positions are extrapolated in cartesian coordinates."""
    nchunks, shape = int(c.rng.integers(1, 4)), (int(c.rng.integers(2, 5)), int(c.rng.integers(2, 8)))
    parts = [gen.wiggly_positions(c.rng, shape, 5.0) for _ in range(nchunks)]
    lon, lat = (np.concatenate([p[i] for p in parts]) for i in range(2))
    rows, cols = np.arange(len(lon)) * 5 + 2, np.arange(shape[1]) * 5 + 2
    hrows, hcols = np.arange(len(lon) * 5), np.arange(shape[1] * 5)
    it = c.call("GeoInterpolator", GeoInterpolator, (lon, lat), (rows, cols), (hrows, hcols), 1, 1, chunk_size=5 * shape[0])
    c.call("fill_borders", it.fill_borders, "y", "x")
    glon, glat = c.call("interpolate after filling", it.interpolate)
    v = gen.R_M * gen.unit(lon, lat)
    out = []
    for i in range(3):
        r, d = refs.fill_rows(rows, v[..., i], hrows, nchunks)
        q, d = refs.fill_cols(cols, d, hcols)
        out.append(refs.bilinear(r, q, d, hrows, hcols))
    c.within(refs.position_error(glon, glat, np.stack(out, -1)), 1e-2, "metres from the extrapolated positions")
