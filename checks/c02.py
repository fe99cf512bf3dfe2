"""C02: results are fully determined by the arguments.

Every case is played in the worker (twice, with recycled memory dirtied in between) and in three other processes whose
allocator fills new and freed memory with different bytes, which have another history of calls and other hash seeds.
"""
import atexit
import hashlib
import json
import os
import subprocess
import sys

import numpy as np

from geotiepoints.multilinear import MultilinearInterpolator
from vlib import alike, subjects
from vlib.core import Case, Inconclusive, Run, Violation, group

# what malloc fills new memory with is the complement: small positive, about 32, hugely negative numbers
PERTURB = ["192", "191", "1"]
CHILDREN = []


def children():
    if not CHILDREN:
        for n, p in enumerate(PERTURB):
            env = dict(os.environ, MALLOC_PERTURB_=p, PYTHONHASHSEED=str(1000 + n))
            if n == 2:
                env["MALLOC_MMAP_THRESHOLD_"] = "65536"
            CHILDREN.append(subprocess.Popen([sys.executable, "-m", "checks.c02", str(n)] + sys.argv[1:6], env=env, text=True,
                                             stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        atexit.register(lambda: [p.kill() for p in CHILDREN])
    return CHILDREN


def fingerprint(arrs):
    return [[str(a.dtype), list(a.shape), hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=12).hexdigest()] for a in arrs]


def dirty(rng, results):
    """Leave rubbish in the memory that the next call is likely to get."""
    fill = rng.choice([np.nan, -1.0, 45.5, 7e5, 1e300])
    with np.errstate(over="ignore"):
        junk = [np.full(r.shape, fill).astype(r.dtype) for r in results if r.size] * 3
        junk += [np.full(int(n), fill) for n in rng.integers(1, 130, 60)] + [np.full(int(n), fill).astype(np.float32) for n in rng.integers(1, 260, 60)]
        junk += [np.full((int(n), 1354), fill) for n in (10, 20, 40)]
    rng.shuffle(junk)
    del junk


MISSING = ["zenith-angle", "lon/lat only", "multilinear", "grid", "geo grid", "vii data", "vii positions", "basic"]


def kind_of(label):
    return label.split(" 1000")[0].split(" 5000")[0].split(" 500m")[0]


def missing_pattern(c, shape, kind, dense):
    mask = np.zeros(shape, bool)
    if 0 in shape:
        return mask
    if kind == "scattered":
        return c.rng.random(shape) < dense
    if kind == "rows":
        start = int(c.rng.integers(shape[0]))
        mask[start:start + int(c.pick([1, 2, 10, 20]))] = True
    elif kind == "columns":
        start = int(c.rng.integers(shape[1]))
        mask[:, start:start + int(c.pick([1, 2, 10]))] = True
    elif kind == "corners":
        rows = int(c.pick([1, 2, 10, shape[0]]))
        for k in range(0, shape[0], rows):      # of every scan
            last = min(k + rows, shape[0]) - 1
            for i, j in ((k, 0), (k, -1), (last, 0), (last, -1)):
                mask[i, j] = c.rng.random() < 0.7
    elif kind == "block":
        i, j = int(c.rng.integers(shape[0])), int(c.rng.integers(shape[1]))
        mask[i:i + int(c.rng.integers(1, 12)), j:j + int(c.rng.integers(1, 300))] = True
    elif kind == "border":
        mask[0], mask[-1], mask[:, 0], mask[:, -1] = (c.rng.random() < 0.6 for _ in range(4))
    else:
        mask[:] = True
    return mask


def build(c):
    """What is called in this case: label, arrays, run."""
    label, arrs, run = subjects.subject(c)
    if c.rng.random() < 0.5 and kind_of(label) in MISSING:
        kind = c.pick(["scattered", "scattered", "rows", "columns", "corners", "block", "all", "border"])
        common = {}
        for n in range(len(arrs)):
            if arrs[n].ndim == 2 and (c.rng.random() < 0.5 or common):
                shape = arrs[n].shape
                dense = c.pick([0.05, 0.3, 1.0]) if label == "multilinear" else 0.05
                mask = missing_pattern(c, shape, kind, dense)
                if kind != "scattered":
                    mask = common.setdefault(shape, mask)       # the same points are missing in all arrays
                arrs[n] = np.where(mask, arrs[n].dtype.type(np.nan), arrs[n])
                c.seen("arrays with missing values: " + kind_of(label))
    return label, arrs, run


def first_difference(a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "result %d: %s instead of %s" % (n, y, x)
    return "%d results instead of %d" % (len(b), len(a))


@group(quick=270, thorough=6000)
def repeated(c):
    label, arrs, run = build(c)
    c.note(subject=label, dtypes=str([a.dtype.name for a in arrs]), shapes=str([a.shape for a in arrs]))
    first = run([a.copy() for a in arrs])
    want = fingerprint(first)
    given = fingerprint(arrs)
    for _ in range(2):
        dirty(c.rng, first)
        again = run([a.copy() for a in arrs])
        got = fingerprint(again)
        if got != want:
            where = [np.argwhere(~((x == y) | ((x != x) & (y != y))))[:3].tolist() for x, y in zip(first, again) if x.shape == y.shape]
            raise Violation("%s: another result for equal arguments in the same process: %s, first at %s" % (label, first_difference(want, got), where))
        c.compared += sum(r.size for r in again)
    c.informative = True
    procs = children()
    for p in procs:
        p.stdin.write(json.dumps([c.group.name, c.k]) + "\n")
        p.stdin.flush()
    for n, p in enumerate(procs):
        line = p.stdout.readline()
        if not line:
            raise Inconclusive("helper process %d ended" % n)
        rep = json.loads(line)
        if "error" in rep:
            raise Violation("%s: in another process: %s" % (label, rep["error"]))
        if rep["given"] != given:
            raise Inconclusive("helper process generated other arguments")
        c.ensure(rep["got"] == want, "%s: another result for equal arguments in a process whose memory is filled differently (%s): %s"
                 % (label, PERTURB[n], first_difference(want, rep["got"])))
        c.compared += sum(r.size for r in first)
        c.seen("results compared between processes")
    c.seen("subject: " + kind_of(label))


@group(quick=60, thorough=1500)
def relatives(c):
    """Requests that have much in common, in another order in other processes."""
    name = alike.NAMES[c.k % len(alike.NAMES)]
    todo = alike.family(c, name)
    order = [int(n) for n in c.rng.permutation(len(todo))]
    c.note(subject=name, requests=len(todo))
    want, given = [None] * len(todo), [fingerprint(arrs) for _, arrs, _ in todo]
    for n in order:
        _, arrs, run = todo[n]
        want[n] = fingerprint(run([a.copy() for a in arrs]))
    for n in order[::-1]:
        _, arrs, run = todo[n]
        got = fingerprint(run([a.copy() for a in arrs]))
        c.ensure(got == want[n], "%s: another result for equal arguments after requests alike: %s" % (name, first_difference(want[n], got)))
    c.informative = True
    procs = children()
    for p in procs:
        p.stdin.write(json.dumps([c.group.name, c.k]) + "\n")
        p.stdin.flush()
    for k, p in enumerate(procs):
        line = p.stdout.readline()
        if not line:
            raise Inconclusive("helper process %d ended" % k)
        rep = json.loads(line)
        if "error" in rep:
            raise Violation("%s: in another process: %s" % (name, rep["error"]))
        for n in range(len(todo)):
            if rep["given"][n] != given[n]:
                raise Inconclusive("helper process generated other arguments")
            c.ensure(rep["got"][n] == want[n], "%s: another result for equal arguments in a process asked in another order: %s"
                     % (name, first_difference(want[n], rep["got"][n])))
            c.seen("results of requests alike compared between processes")
    c.seen("alike: " + name)


def in_turn(c, hist):
    """The same requests, here in another order."""
    todo = alike.family(c, alike.NAMES[c.k % len(alike.NAMES)])
    got = [None] * len(todo)
    for n in hist.permutation(len(todo)):
        got[n] = fingerprint(todo[n][2]([a.copy() for a in todo[n][1]]))
    return dict(given=[fingerprint(arrs) for _, arrs, _ in todo], got=got)


@group(quick=60, thorough=1500)
def multilinear_outliers(c):
    """Points that are missing, infinite or huge: whatever the result is, it is the same every time."""
    d = int(c.rng.integers(1, 5))
    orders = np.array(c.rng.integers(2, 6, d))
    dtype = c.pick([np.float64, np.float32])
    lo, hi = c.rng.uniform(-2, 0, d).astype(dtype), c.rng.uniform(1, 2, d).astype(dtype)
    values = c.rng.normal(size=(int(c.rng.integers(1, 4)), int(np.prod(orders)))).astype(dtype)
    points = c.rng.uniform(-3, 3, (d, int(c.rng.integers(2, 200)))).astype(dtype)
    special = [np.nan, np.nan, np.inf, -np.inf, 1e30, -1e30]
    for _ in range(int(c.rng.integers(1, 4))):
        points = np.where(c.rng.random(points.shape) < c.pick([0.05, 0.3, 1.0]), dtype(c.pick(special)), points)
    c.note(dimensions=d, dtype=dtype.__name__, missing=int(np.isnan(points).sum()))

    def run():
        it = c.call("MultilinearInterpolator", MultilinearInterpolator, lo, hi, orders, values, dtype=dtype)
        return c.call("multilinear interpolate", it.interpolate, points.copy())
    first = run()
    for _ in range(4):
        dirty(c.rng, [np.zeros(first.shape, dtype)])
        c.equal(run(), first, "multilinear, %dd: another result for equal arguments" % d)
    c.seen("missing or infinite points", int((~np.isfinite(points)).sum()))


@group(quick=40, thorough=600)
def lazily(c):
    """MODIS functions on dask arrays, computed by threads, against the numpy result: every block is written completely."""
    import dask
    import dask.array as da
    label, arrs, run = subjects.subject(c, c.pick(["zenith-angle", "lon/lat only"]))
    c.note(subject=label, shapes=str([a.shape for a in arrs]))
    lazy = [da.from_array(a, chunks=(int(c.pick([1, 2, 10, 13])), -1), name=False) for a in arrs]
    first = fingerprint(dask.compute(*run(lazy)))
    dirty(c.rng, [np.empty((400, 1354 * 4))])
    with dask.config.set(scheduler="threads", num_workers=4):
        second = fingerprint(dask.compute(*run(lazy)))
    c.ensure(first == second, "%s: dask results differ between computations: %s" % (label, first_difference(first, second)))


def serve():
    import random
    from vlib import core
    n, prop, variant, tier, seed, shard = sys.argv[1:7]
    run = Run(prop, variant, tier, int(seed), int(shard), 1, open(os.devnull, "w"))
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    hist = np.random.default_rng([int(seed), int(n)])
    for line in sys.stdin:
        name, k = json.loads(line)
        grp = GROUPS_HERE[name]
        try:
            if name == "relatives":
                rep = in_turn(Case(run, grp, k), hist)
                sys.stdout.write(json.dumps(rep) + "\n")
                sys.stdout.flush()
                continue
            for _ in range(int(hist.integers(0, 2))):        # another history
                other = Case(run, grp, int(hist.integers(0, 10 ** 6)))
                _, arrs, fn = build(other)
                fn(arrs)
            c = Case(run, grp, k)
            _, arrs, fn = build(c)
            rep = dict(given=fingerprint(arrs), got=fingerprint(fn([a.copy() for a in arrs])))
        except Exception as e:
            rep = dict(error="%s: %s" % (type(e).__name__, str(e)[:300]))
        sys.stdout.write(json.dumps(rep) + "\n")
        sys.stdout.flush()


GROUPS_HERE = {}
if __name__ == "__main__":
    from vlib.core import GROUPS
    GROUPS_HERE.update(GROUPS)
    import dask
    dask.config.set(scheduler="synchronous")
    serve()
