"""C06: conversion between lon/lat and cartesian coordinates is lossless."""
import numpy as np

from geotiepoints.geointerpolator import EARTH_RADIUS, lonlat2xyz, xyz2lonlat
from vlib import gen
from vlib.core import group

SPECIAL_LON = [0.0, -0.0, 180.0, -180.0, 90.0, -90.0, 360.0, 270.0, 179.99999999, -179.99999999, 1e-12, -1e-12, 540.0, -270.0]
SPECIAL_LAT = [0.0, -0.0, 90.0, -90.0, 89.999999999, -89.999999999, 1e-12, -1e-12, 45.0, -45.0,
               float(np.rad2deg(np.arcsin(0.8))), -float(np.rad2deg(np.arcsin(0.8))), 53.0, 54.0, -53.0, -54.0, 89.9, 60.0]


def positions(c, shape):
    lon = c.rng.uniform(-180, 180, shape)
    lat = np.rad2deg(np.arcsin(c.rng.uniform(-1, 1, shape)))
    kind = c.pick(["plain", "plain", "special", "special", "0..360", "wide", "near poles", "near equator", "near threshold"])
    if kind == "special":
        lon = np.where(c.rng.random(shape) < 0.6, c.rng.choice(SPECIAL_LON, shape), lon)
        lat = np.where(c.rng.random(shape) < 0.6, c.rng.choice(SPECIAL_LAT, shape), lat)
    elif kind == "0..360":
        lon = np.mod(lon, 360)
    elif kind == "wide":
        lon = c.rng.uniform(-1000, 1000, shape)
    elif kind == "near poles":
        lat = c.rng.choice([-1, 1], shape) * (90 - 10.0 ** c.rng.uniform(-13, 1, shape))
    elif kind == "near equator":
        lat = c.rng.choice([-1, 1], shape) * 10.0 ** c.rng.uniform(-14, 1, shape)
    elif kind == "near threshold":
        lat = c.rng.choice([-1, 1], shape) * (np.rad2deg(np.arcsin(0.8)) + c.rng.normal(0, 1e-6, shape))
    return lon, lat, kind


def allowed_rad(lat, eps, low_lat_z, thr):
    """Angle a rounding of *eps* in the normalised coordinates may cost in the latitude."""
    s, co = np.abs(np.sin(np.deg2rad(lat))), np.abs(np.cos(np.deg2rad(lat)))
    by_z = 16 * eps / np.maximum(co, np.sqrt(eps)) + 16 * eps
    by_xy = 16 * eps / np.maximum(s, np.sqrt(eps)) + 16 * eps
    if not low_lat_z:
        return by_xy
    near = np.abs(s - thr) < 1e-6 + 16 * eps
    return np.where(near, np.maximum(by_z, by_xy), np.where(s < thr, by_z, by_xy))


@group(quick=4000, thorough=60000)
def round_trip(c):
    nd = int(c.rng.integers(0, 4))
    shape = tuple(int(n) for n in c.rng.integers(1, 30, nd))
    dtype = c.pick([np.float64, np.float64, np.float64, np.float32])
    lon, lat, kind = positions(c, shape)
    lon, lat = np.asarray(lon, dtype=dtype), np.asarray(lat, dtype=dtype)
    scalar = nd == 0
    if scalar:
        how = c.pick(["python", "numpy", "0d"])
        lon, lat = (float(lon), float(lat)) if how == "python" else (lon[()], lat[()]) if how == "numpy" else (lon, lat)
    radius = c.pick([None, None, 1.0, EARTH_RADIUS, 6378137.0, 6371008.7714, 1e-3, 1e9, float(10 ** c.rng.uniform(-2, 8))])
    low, thr = c.pick([(None, None), (True, 0.8), (False, 0.8), (True, 0.0), (True, 0.5), (True, 0.99), (True, 1.0), (False, 0.3),
                       (True, float(c.rng.uniform(0, 1)))])
    kw = {} if radius is None else dict(radius=radius)
    kw2 = dict(kw)
    if low is not None:
        kw2.update(low_lat_z=low, thr=thr)
    c.note(shape=list(shape), dtype=dtype.__name__, kind=kind, **kw2)
    r = EARTH_RADIUS if radius is None else radius
    x, y, z = (np.asarray(v) for v in c.call("lonlat2xyz", lonlat2xyz, lon, lat, **kw))
    want = gen.unit(lon, lat)
    eps = np.finfo(np.float64 if scalar and how == "python" else dtype).eps
    lonmag = np.maximum(np.abs(np.deg2rad(np.asarray(lon, dtype=np.float64))), 1)
    for v, i, name in ((x, 0, "x"), (y, 1, "y"), (z, 2, "z")):
        c.ensure(v.shape == shape, "shape of %s %s instead of %s" % (name, v.shape, shape))
        c.within(np.abs(v / r - want[..., i]), 6 * eps * lonmag, "%s relative to the radius (%s)" % (name, np.dtype(dtype)))
    glon, glat = (np.asarray(v, dtype=np.float64) for v in c.call("xyz2lonlat", xyz2lonlat, x, y, z, **kw2))
    c.ensure(glon.shape == shape and glat.shape == shape, "shapes %s %s instead of %s" % (glon.shape, glat.shape, shape))
    slack = 0 if np.dtype(dtype) == np.float64 else 2e-5
    c.ensure(bool((np.abs(glon) <= 180 + slack).all() and (np.abs(glat) <= 90 + slack).all()),
             "out of range: %r %r" % (float(np.abs(glon).max()), float(np.abs(glat).max())))
    c.ensure(bool(np.isfinite(glon).all() and np.isfinite(glat).all()), "not finite")
    low, thr = (True, 0.8) if low is None else (low, thr)
    lat64 = np.asarray(lat, dtype=np.float64)
    c.within(np.deg2rad(np.abs(glat - lat64)), allowed_rad(lat64, eps, low, thr), "latitude after the round trip, radians (%s)" % np.dtype(dtype))
    # longitudes modulo 360; meaningless at the poles
    d = np.deg2rad((glon - np.asarray(lon, dtype=np.float64) + 180) % 360 - 180)
    co = np.cos(np.deg2rad(lat64))
    c.within(np.abs(d) * co, 16 * eps * lonmag, "longitude after the round trip, radians on the ground (%s)" % np.dtype(dtype))
    c.seen("positions at a pole", int((np.abs(lat64) == 90).sum()))
    c.seen("positions on the antimeridian", int((np.abs(np.mod(np.asarray(lon, dtype=np.float64), 360) - 180) == 0).sum()))


@group(quick=6, thorough=60)
def large(c):
    """Millions of positions at once are treated like a few of them."""
    shape = c.pick([(int(c.rng.integers(2 ** 15, 2 ** 21)),), (1, int(c.rng.integers(2 ** 15, 2 ** 20))),
                    (int(c.rng.integers(200, 1500)), int(c.rng.integers(200, 1500))), (int(c.rng.integers(2 ** 15, 2 ** 18)), 3)])
    lon, lat, kind = positions(c, shape)
    c.note(shape=list(shape), kind=kind)
    xyz = c.call("lonlat2xyz", lonlat2xyz, lon, lat)
    want = gen.unit(lon, lat) * EARTH_RADIUS
    lonmag = np.maximum(np.abs(np.deg2rad(lon)), 1)
    for i, v in enumerate(xyz):
        c.ensure(v.shape == shape and v.dtype == np.float64, "%s%s instead of float64%s" % (v.dtype, v.shape, shape))
        c.within(np.abs(v - want[..., i]) / EARTH_RADIUS, 6 * np.finfo(float).eps * lonmag, "coordinates of many positions, relative to the radius")
    got = c.call("xyz2lonlat", xyz2lonlat, *xyz)
    few = c.rng.integers(0, np.prod(shape), 500)
    part = c.call("xyz2lonlat", xyz2lonlat, *[v.ravel()[few].copy() for v in xyz])
    for g, p, name in zip(got, part, ("longitudes", "latitudes")):
        c.ensure(g.shape == shape and g.dtype == np.float64, "%s%s instead of float64%s" % (g.dtype, g.shape, shape))
        c.within(np.abs(g.ravel()[few] - p), 1e-11, name + " among many others")
    c.within(gen.dist_m(*got, lon, lat, radius=1.0), 1e-7, "round trip of many positions, radians")
    c.seen("positions among millions", int(np.prod(shape)))


@group(quick=60, thorough=1000)
def axes(c):
    """The documented axes, and cartesian positions that were not made by lonlat2xyz."""
    r = float(10 ** c.rng.uniform(-1, 8))
    for (lon, lat), v in (((0, 0), (1, 0, 0)), ((90, 0), (0, 1, 0)), ((-90, 0), (0, -1, 0)), ((180, 0), (-1, 0, 0)),
                          ((0, 90), (0, 0, 1)), ((0, -90), (0, 0, -1))):
        got = np.array([float(a) for a in c.call("lonlat2xyz", lonlat2xyz, lon, lat, radius=r)])
        c.within(np.abs(got / r - v), 1e-15, "axis of %s" % ((lon, lat),))
        glon, glat = c.call("xyz2lonlat", xyz2lonlat, *[np.float64(a * r) for a in v], radius=r)
        c.within(abs(float(glat) - lat), 1e-9, "latitude of axis %s" % (v,))
        if abs(lat) < 90:
            c.within(abs((float(glon) - lon + 180) % 360 - 180), 1e-12, "longitude of axis %s" % (v,))
    n = int(c.rng.integers(1, 200))
    v = c.rng.normal(size=(n, 3))
    v /= np.sqrt((v ** 2).sum(-1, keepdims=True))
    v *= r
    glon, glat = c.call("xyz2lonlat", xyz2lonlat, v[:, 0], v[:, 1], v[:, 2], radius=r)
    wlon, wlat = gen.to_lonlat(v)
    c.within(gen.dist_m(glon, glat, wlon, wlat, radius=1.0), 1e-7, "position of random vectors, radians")
    back = np.stack(c.call("lonlat2xyz", lonlat2xyz, glon, glat, radius=r), -1)
    c.within(np.abs(back - v) / r, 1e-7, "vectors after the round trip")
    # whole metres as integers are the same positions
    dtype = c.pick([np.int64, np.int32])
    whole = np.rint(v / r * EARTH_RADIUS).astype(dtype)
    low = dict(low_lat_z=bool(c.rng.random() < 0.5))
    got = c.call("xyz2lonlat", xyz2lonlat, whole[:, 0], whole[:, 1], whole[:, 2], **low)
    want = c.call("xyz2lonlat", xyz2lonlat, *whole.T.astype(np.float64), **low)
    for g, w, name in zip(got, want, ("longitude", "latitude")):
        c.within(np.abs(g - w), 1e-9, "%s of integers, degrees" % name)
    c.seen("positions in integers", n)
