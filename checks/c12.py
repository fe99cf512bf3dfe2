"""C12: interpolation on several cores equals interpolation on one, every line once and in order."""
import json
import os
import time

import numpy as np

import geotiepoints
from geotiepoints.geointerpolator import GeoInterpolator
from vlib import gen
from vlib.cores import run
from vlib.core import Inconclusive, group

HELPERS = {"modis1kmto500m": (geotiepoints.modis1kmto500m, 2), "modis1kmto250m": (geotiepoints.modis1kmto250m, 4)}


@group(quick=60, thorough=2000)
def splits(c):
    """All swaths of up to 40 scans of this length, all numbers of cores."""
    scan = int(c.k % 12 + 1 if c.k < 24 else c.rng.integers(1, 200))
    top = 40 if c.k < 40 else int(c.rng.integers(40, 400))
    cpus = list(range(1, 14)) + [int(v) for v in c.rng.integers(14, 500, 3)]
    c.note(scan=scan, scans_up_to=top, cpus=str(cpus))
    c.fp.append(c.k)
    for nscans in (range(0, top) if top <= 40 else [top]):
        for n in cpus:
            got = list(c.call("get_scene_splits", geotiepoints.get_scene_splits, nscans * scan, scan, n))
            ok = all(s % scan == 0 and 0 < s < nscans * scan for s in got) and all(a < b for a, b in zip(got, got[1:]))
            c.ensure(ok, "splits of %d scans of %d lines for %d cores: %s" % (nscans, scan, n, got[:20]))
            parts = np.split(np.arange(nscans * scan), got)
            joined = np.concatenate(parts)
            c.ensure(np.array_equal(joined, np.arange(nscans * scan)) and (nscans == 0 or all(len(p) and len(p) % scan == 0 for p in parts)),
                     "parts of %d scans of %d lines for %d cores: %s" % (nscans, scan, n, [len(p) for p in parts][:20]))
            c.seen("splits checked")


class Delayed:
    """Worker processes (forked) wait before they answer and log when they are done."""

    def __init__(self, c, delays):
        self.delays, self.log = delays, os.path.join(os.environ.get("TMPDIR", "/tmp"), "parts-%d-%d" % (os.getpid(), c.k))

    def __enter__(self):
        self.plain, main, delays, log = GeoInterpolator.interpolate, os.getpid(), self.delays, self.log

        def interpolate(this, *args, **kw):
            res = self.plain(this, *args, **kw)
            if os.getpid() != main:
                key = int(np.abs(np.nan_to_num(np.asarray(res[0])[0, 0])) * 1e6) % len(delays)
                time.sleep(delays[key])
                with open(log, "a") as f:
                    f.write(json.dumps([os.getpid(), int(np.asarray(res[0]).shape[0])]) + "\n")
            return res
        GeoInterpolator.interpolate = interpolate
        return self

    def __exit__(self, *exc):
        GeoInterpolator.interpolate = self.plain
        self.events = []
        if os.path.exists(self.log):
            self.events = [json.loads(line) for line in open(self.log)]
            os.remove(self.log)


@group(quick=72, thorough=1500)
def on_several_cores(c):
    name = sorted(HELPERS)[c.k % 2]
    fn, factor = HELPERS[name]
    nscans = int(c.k // 2 % 9 + 1)
    cores = int(c.rng.integers(2, 10))
    lon, lat, _ = gen.modis_input(c.rng, 1000, nscans, 1354)
    if c.rng.random() < 0.2:
        lon, lat = lon.astype(np.float32), lat.astype(np.float32)
    if c.rng.random() < 0.2:
        lon, lat = np.asfortranarray(lon), np.asfortranarray(lat)
    want = c.call(name, fn, lon, lat)
    delays = c.pick([[0], c.rng.uniform(0, 0.15, 7), [0.2, 0], [0, 0, 0, 0.3]])
    c.note(helper=name, scans=nscans, cores=cores, dtype=str(lon.dtype), delays=str(np.round(delays, 3).tolist()))
    with Delayed(c, delays) as d:
        got = c.call(name + " on several cores", fn, lon, lat, cores=cores)
    for g, w in zip(got, want):
        c.ensure(isinstance(g, np.ndarray) and g.shape == w.shape and g.dtype == w.dtype,
                 "%s on %d cores: %s%s instead of %s%s" % (name, cores, g.dtype, g.shape, w.dtype, w.shape))
    c.ensure(got[0].shape == (nscans * 10 * factor, 1354 * factor), "%s: shape %s" % (name, got[0].shape))
    err = gen.max_dist(got, want)
    c.within(err.max(axis=1), 1e-3, "%s on several cores: metres per line" % name)
    c.seen("scans modulo cores: %s" % ("0" if nscans % cores == 0 else "fewer than cores" if nscans < cores else "some"))
    c.seen("parts computed in worker processes", len(d.events))
    c.seen("worker processes used", len({e[0] for e in d.events}))
    if len({json.dumps(e) for e in d.events}) > 1:
        c.seen("calls with parts in several processes")


@group(quick=6, thorough=60)
def granules(c):
    """More scans and more processes, so that parts have several scans and many parts are unequal."""
    name = sorted(HELPERS)[c.k % 2]
    fn, factor = HELPERS[name]
    nscans, cores = int(c.rng.integers(12, 34)), int(c.rng.integers(2, 17))
    lon, lat, _ = gen.modis_input(c.rng, 1000, nscans, 1354)
    want = c.call(name, fn, lon, lat)
    c.note(helper=name, scans=nscans, cores=cores)
    got = c.call(name + " on several cores", fn, lon, lat, cores=cores)
    for g, w in zip(got, want):
        c.ensure(isinstance(g, np.ndarray) and g.shape == w.shape and g.dtype == w.dtype,
                 "%s on %d cores: %s%s instead of %s%s" % (name, cores, g.dtype, g.shape, w.dtype, w.shape))
    c.within(gen.max_dist(got, want).max(axis=1), 1e-3, "%s on several cores: metres per line" % name)
    c.seen("granules on several cores")


@group(quick=8, thorough=80, timeout=300)
def start_methods(c):
    """In a program of its own, which has processes started in another way, calls following each other or at once in threads."""
    method = ["spawn", "forkserver"][c.k % 2]
    at_once = c.k % 4 > 1
    jobs, wants = [], []
    for _ in range(int(c.rng.integers(2, 4))):
        name = c.pick(sorted(HELPERS))
        nscans, cores = int(c.rng.integers(1, 5)), int(c.rng.integers(2, 4))
        lon, lat, _ = gen.modis_input(c.rng, 1000, nscans, 1354)
        jobs.append((name, lon, lat, cores))
        wants.append(c.call(name, HELPERS[name][0], lon, lat))
    c.note(method=method, at_once=at_once, jobs=str([(j[0], j[1].shape, j[3]) for j in jobs]))
    answer = run(method, jobs, at_once)
    if answer is None:
        raise Inconclusive("no answer within 200 s")
    results = answer[0]
    for (name, lon, lat, cores), want, got in zip(jobs, wants, results):
        c.ensure(not isinstance(got, str), "%s on %d cores (%s%s) raised %s" % (name, cores, method, ", at once" if at_once else "", got))
        for g, w in zip(got, want):
            c.ensure(isinstance(g, np.ndarray) and g.shape == w.shape and g.dtype == w.dtype,
                     "%s on %d cores: %s%s instead of %s%s" % (name, cores, g.dtype, g.shape, w.dtype, w.shape))
        c.within(gen.max_dist(got, want).max(axis=1), 1e-3, "%s on several cores (%s): metres per line" % (name, method))
    c.seen("start method: " + method)
    c.seen("calls on several cores at once" if at_once else "calls on several cores one after the other", len(jobs))
