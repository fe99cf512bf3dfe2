"""Worker side of the checks: generated cases, recorded calls, oracles and verdicts.

A check module (checks/cXX.py) registers groups of cases:

    @group(quick=40, thorough=400, variants=("opt",))
    def some_group(c):            # one call per case; c is a Case
        ...

A case draws everything it needs from ``c.rng`` (seeded by VERIF_SEED, the group and the case number, so that a case
can be replayed on its own), calls the library through ``c.call`` (which records the call) and compares what came back
with an oracle through ``c.equal``, ``c.close``, ``c.within``, ``c.ensure``.
"""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

GROUPS = {}


class Group:
    def __init__(self, fn, quick, thorough, variants, timeout):
        self.fn, self.quick, self.thorough, self.variants = fn, quick, thorough, variants
        self.name = fn.__name__
        self.crc = zlib.crc32(self.name.encode())


def group(quick, thorough, variants=("opt", "py"), timeout=None):
    def deco(fn):
        GROUPS[fn.__name__] = Group(fn, quick, thorough, variants, timeout)
        return fn
    return deco


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    pass


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(("%s%s" % (o.dtype.str, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif hasattr(o, "dims") and hasattr(o, "coords") and hasattr(o, "dtype"):     # DataArray; .values would compute
            h.update(repr(o.dims).encode())
            feed(o.data)
        elif hasattr(o, "chunks") and hasattr(o, "dask"):
            h.update(repr((o.chunks, o.dtype)).encode())
            h.update(o.name.encode())
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for i in o:
                feed(i)
            h.update(b")")
        elif isinstance(o, dict):
            for k in sorted(o):
                h.update(str(k).encode())
                feed(o[k])
        else:
            h.update(repr(o)[:200].encode())
    for o in objs:
        feed(o)
    return h.hexdigest()


def brief(o):
    if isinstance(o, np.ndarray) or hasattr(o, "dims"):
        return "%s%s %s" % (type(o).__name__, tuple(o.shape), o.dtype)
    if hasattr(o, "chunks"):
        return "dask%s %s chunks=%s" % (tuple(o.shape), o.dtype, o.chunks)
    if isinstance(o, (list, tuple)) and len(o) < 8:
        return [brief(i) for i in o]
    return repr(o)[:120]


class Case:
    def __init__(self, run, grp, k):
        self.run, self.group, self.k = run, grp, k
        self.rng = np.random.default_rng([run.seed, grp.crc, k])
        self.tier = run.tier
        self.variant = run.variant
        self.desc = {}
        self.calls = []
        self.fp = []
        self.compared = 0
        self.informative = False

    # -- describing
    def note(self, **kw):
        self.desc.update({k: brief(v) if not isinstance(v, (int, float, str, bool, type(None))) else v
                          for k, v in kw.items()})
        self.fp.append(repr(sorted(kw.items(), key=lambda x: x[0]))[:400])

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    # -- calling the library
    def call(self, label, fn, *args, **kwargs):
        """Call the library with valid input: an exception is a violation."""
        self.run.events[label] = self.run.events.get(label, 0) + 1
        self.calls.append(label)
        self.fp.append(digest(label, args, kwargs))
        try:
            return fn(*args, **kwargs)
        except Exception as e:
            raise Violation("%s raised %s: %s for valid input (%s)"
                            % (label, type(e).__name__, str(e)[:300],
                               ", ".join(str(brief(a)) for a in args)[:300])) from e

    def attempt(self, label, fn, *args, **kwargs):
        """Call the library with doubtful input: returns (result, None) or (None, exception)."""
        self.run.events[label] = self.run.events.get(label, 0) + 1
        self.calls.append(label)
        self.fp.append(digest(label, args, kwargs))
        try:
            return fn(*args, **kwargs), None
        except Exception as e:
            return None, e

    # -- oracles
    def ensure(self, cond, msg, key=None):
        self.compared += 1
        self.informative = True
        if not cond:
            raise Violation(msg, key)

    def _track(self, what, err, tol):
        m = self.run.margins.setdefault(what, [0.0, tol])
        if err > m[0] or (err == m[0] and tol < m[1]):
            m[0], m[1] = float(err), float(tol)

    def within(self, err, tol, what, where=None, allow_nan=False):
        """*err* is an array of non-negative deviations: all must be <= tol (NaN is a violation)."""
        err = np.atleast_1d(np.asarray(err, dtype=np.float64))
        tol_arr = np.broadcast_to(np.asarray(tol, dtype=np.float64), err.shape)
        self.compared += err.size
        if err.size == 0:
            return
        self.informative = True
        with np.errstate(invalid="ignore"):
            bad = ~(err <= tol_arr)
            if allow_nan:
                bad &= ~np.isnan(err)
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation("%s: deviation %r exceeds %.3g at %s (%d of %d values, worst %r)%s"
                            % (what, float(err[idx]), float(tol_arr[idx]), idx, int(bad.sum()), err.size,
                               float(np.nanmax(err)) if not np.isnan(err).all() else float("nan"),
                               "" if where is None else " " + str(where)))
        ratio = np.nanargmax(err / np.maximum(tol_arr, 1e-300)) if not np.isnan(err).all() else 0
        self._track(what, float(err.flat[ratio]), float(tol_arr.flat[ratio]))

    def close(self, got, want, tol, what):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape))
        same = (got == want) | (np.isnan(got.astype(np.float64)) & np.isnan(want.astype(np.float64)))
        with np.errstate(invalid="ignore"):
            err = np.abs(got.astype(np.float64) - want.astype(np.float64))
        self.within(np.where(same, 0.0, err), tol, what)

    def equal(self, got, want, what):
        """Same shape, dtype and bits (all NaNs alike)."""
        got, want = np.asarray(got), np.asarray(want)
        self.compared += max(got.size, 1)
        self.informative = True
        if got.shape != want.shape or got.dtype != want.dtype:
            raise Violation("%s: %s%s instead of %s%s" % (what, got.dtype, got.shape, want.dtype, want.shape))
        bad = ~((got == want) | ((got != got) & (want != want)))
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation("%s: %r instead of %r at %s (%d of %d values differ)"
                            % (what, got[idx].item(), want[idx].item(), idx, int(bad.sum()), got.size))

    def seen(self, what, n=1):
        self.run.seen[what] = self.run.seen.get(what, 0) + n


class Run:
    def __init__(self, prop, variant, tier, seed, shard, nshards, out):
        self.prop, self.variant, self.tier, self.seed = prop, variant, tier, seed
        self.shard, self.nshards = shard, nshards
        self.out = out
        self.events, self.margins, self.seen = {}, {}, {}
        self.cases = 0
        self.fps = set()
        self.samples = []
        self.compared = 0
        self.by_group = {}

    def emit(self, **kw):
        self.out.write(json.dumps(kw) + "\n")
        self.out.flush()

    def one(self, grp, k, want_trace=False):
        c = Case(self, grp, k)
        np.random.seed((self.seed * 7919 + grp.crc + k) % 2 ** 32)
        random.seed(self.seed * 7919 + grp.crc + k)
        self.emit(ev="begin", group=grp.name, k=k)
        try:
            grp.fn(c)
        except Violation as e:
            tb = "".join(traceback.format_exception(e))[-4000:]
            self.emit(ev="violation", group=grp.name, k=k, msg=str(e), key=e.key, desc=c.desc, calls=c.calls[:20],
                      tb=tb, variant=self.variant)
            return False
        except Inconclusive as e:
            self.emit(ev="inconclusive", group=grp.name, k=k, msg=str(e))
            return True
        except Exception as e:
            # what came back cannot even be evaluated (missing, of another kind or structure); without a call it is our error
            if not c.calls:
                raise
            tb = "".join(traceback.format_exception(e))[-4000:]
            self.emit(ev="violation", group=grp.name, k=k, msg="what %s returned cannot be evaluated: %s: %s"
                      % (c.calls[-1], type(e).__name__, str(e)[:300]), key=None, desc=c.desc, calls=c.calls[:20], tb=tb,
                      variant=self.variant)
            return False
        self.cases += 1
        self.compared += c.compared
        self.by_group[grp.name] = self.by_group.get(grp.name, 0) + 1
        if c.informative and c.compared:
            self.fps.add(digest(grp.name, c.fp))
        if len(self.samples) < 3 and (k == self.shard or self.rng_sample(k)):
            self.samples.append(dict(group=grp.name, case=k, variant=self.variant, calls=sorted(set(c.calls)),
                                     input=c.desc, values_compared=c.compared))
        return True

    def rng_sample(self, k):
        return k % 17 == self.seed % 17


def main():
    prop, variant, tier, seed, shard, nshards, outpath = sys.argv[1:8]
    only = sys.argv[8:]           # optional: group k
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import geotiepoints
    want = os.environ["VERIF_BUILD"]
    if not os.path.realpath(geotiepoints.__file__).startswith(os.path.realpath(want) + os.sep):
        print("wrong geotiepoints: %s" % geotiepoints.__file__, file=sys.stderr)
        return 3
    try:
        import dask
        dask.config.set(scheduler="synchronous")
    except ImportError:
        pass
    importlib.import_module("checks." + prop.lower())
    with open(outpath, "a") as out:
        run = Run(prop, variant, tier, int(seed), int(shard), int(nshards), out)
        t0 = time.time()
        violations = 0
        if only:
            todo = [(GROUPS[only[0]], int(only[1]))]
        else:
            todo = []
            for grp in GROUPS.values():
                if variant not in grp.variants:
                    continue
                todo += [(grp, k) for k in range(grp.quick if tier == "quick" else grp.thorough)]
            todo = todo[run.shard::run.nshards]
            random.Random(run.seed).shuffle(todo)
        for grp, k in todo:
            if not run.one(grp, k):
                violations += 1
                if violations >= 5:
                    break
        run.emit(ev="end", cases=run.cases, events=run.events, margins=run.margins, seen=run.seen,
                 fps=sorted(run.fps), samples=run.samples, compared=run.compared, by_group=run.by_group,
                 wall=time.time() - t0, violations=violations, expected=len(todo))
    return 0


if __name__ == "__main__":
    # the module registering groups must be this one
    sys.modules["vlib.core"] = sys.modules["__main__"]
    sys.exit(main())
