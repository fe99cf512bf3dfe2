"""Launcher: build the variants a check needs, run its cases in worker processes, write the evidence, give the verdict.

usage: run.sh C05 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no verdict (build failed, a worker
did not finish, nothing was observed, or an error in the harness).
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import build as vbuild      # noqa: E402
from vlib.registry import CHECKS      # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")
SAN_PATTERNS = re.compile(r"ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|AddressSanitizer:DEADLYSIGNAL")


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def worker_cmd(prop, variant, tier, seed, shard, nshards, out, only=()):
    return [vbuild.PYTHON, "-m", "vlib.core", prop, variant, tier, str(seed), str(shard), str(nshards), out] + list(only)


def worker_env(variant, bdir, scratch, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=bdir + os.pathsep + VERIF, VERIF_BUILD=bdir, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=scratch, HOME=scratch,
               PROJ_NETWORK="OFF", PYTHONSAFEPATH="1")
    env.update(vbuild.runtime_env(variant))
    env.update(extra or {})
    return env


def run_workers(jobs, limit):
    """jobs: list of (cmd, env, stderr path).  Returns exit codes (None: timed out)."""
    procs = []
    deadline = time.time() + limit
    for cmd, env, err, cwd in jobs:
        f = open(err, "wb")
        procs.append((subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=f, stderr=f,
                                       start_new_session=True), f))
    codes = []
    for p, f in procs:
        try:
            codes.append(p.wait(timeout=max(deadline - time.time(), 0.1)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            codes.append(None)
        f.close()
    return codes


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.prop.upper()
    spec = CHECKS[prop]
    t0 = time.time()
    only = ()
    variants = spec["variants"]
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        a.seed, a.tier = rep["seed"], rep["tier"]
        variants = {rep["variant"]: 1}
        only = (rep["group"], str(rep["k"]))
    scratch = tempfile.mkdtemp(prefix="vrun-")
    try:
        return _run(a, prop, spec, variants, only, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(a, prop, spec, variants, only, scratch, t0):
    problems = []
    builds = {}
    for v in variants:
        try:
            builds[v] = vbuild.pure_python() if v == "py" else vbuild.build(v)
        except vbuild.BuildError as e:
            if v in spec.get("optional", ()):
                problems.append("variant %s could not be built: %s" % (v, str(e)[-300:]))
                continue
            print("ERROR: %s" % e)
            return 2
    limit = spec.get("limit", {}).get(a.tier, 700 if a.tier == "quick" else 7200)
    jobs, meta = [], []
    for v, shards in variants.items():
        if v not in builds:
            continue
        n = 1 if only else shards
        for s in range(n):
            out = os.path.join(scratch, "%s-%d.jsonl" % (v, s))
            err = os.path.join(scratch, "%s-%d.err" % (v, s))
            cwd = os.path.join(scratch, "cwd-%s-%d" % (v, s))
            os.mkdir(cwd)
            jobs.append((worker_cmd(prop, v, a.tier, a.seed, s, n, out, only),
                         worker_env(v, builds[v], cwd, spec.get("env")), err, cwd))
            meta.append((v, s, out, err))
    codes = run_workers(jobs, limit)

    violations, inconclusive = [], list(problems) if not builds else []
    cov = dict(events={}, margins={}, seen={}, by_group={}, compared=0, cases=0)
    fps, samples = set(), []
    for (v, s, out, err), code in zip(meta, codes):
        last, ended = None, False
        if os.path.exists(out):
            for line in open(out):
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if ev["ev"] == "begin":
                    last = ev
                elif ev["ev"] == "violation":
                    violations.append(ev)
                elif ev["ev"] == "inconclusive":
                    inconclusive.append("%s[%d]: %s" % (ev["group"], ev["k"], ev["msg"]))
                elif ev["ev"] == "end":
                    ended = True
                    for name in ("events", "seen", "by_group"):
                        for k, n in ev[name].items():
                            cov[name][k] = cov[name].get(k, 0) + n
                    for k, (e, t) in ev["margins"].items():
                        m = cov["margins"].setdefault(k, [0.0, t])
                        if t and e / t >= (m[0] / m[1] if m[1] else 0):
                            cov["margins"][k] = [e, t]
                    cov["compared"] += ev["compared"]
                    cov["cases"] += ev["cases"]
                    fps.update(v + f for f in ev["fps"])
                    samples += ev["samples"]
                    if ev["cases"] + ev["violations"] < ev["expected"] and not ev["violations"]:
                        inconclusive.append("worker %s-%d: not every case finished" % (v, s))
        with open(err, "rb") as f:
            text = f.read().decode("utf-8", "replace")
        if not ended:
            crash = code is not None and (code in (98, 99) or code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS,
                                                                       -signal.SIGFPE, -signal.SIGILL))
            if crash and last is not None:
                violations.append(dict(group=last["group"], k=last["k"], variant=v, key=None, desc={}, calls=[],
                                       msg="the process crashed (exit %s): %s" % (code, san_summary(text)), tb=text[-6000:]))
            elif last is None and v in spec.get("optional", ()):
                problems.append("variant %s does not start here (exit %s): %s" % (v, code, text[-300:]))
            elif code is None:
                inconclusive.append("worker %s-%d timed out in %s" % (v, s, last))
            else:
                inconclusive.append("worker %s-%d ended with %s: %s" % (v, s, code, text[-3000:]))
        elif v == "tsan" and SAN_PATTERNS.search(text):
            summary = san_summary(text)
            violations.append(dict(group=last["group"], k=last["k"], variant=v, key=None, desc={}, calls=[],
                                   msg="sanitizer report: " + summary, tb=text[:8000]))
    known = known_keys(prop)
    printed = set()
    fresh = []
    for viol in violations:
        if viol.get("key") in known:
            if viol["key"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[viol["key"]]))
                printed.add(viol["key"])
        else:
            fresh.append(viol)
    for viol in fresh[:5]:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s-%s-%s.json" % (prop, viol["variant"], viol["group"], viol["k"], a.seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=a.seed, tier=a.tier, **{k: viol[k] for k in (
                "group", "k", "variant", "msg", "desc", "calls", "tb")}), f, indent=1)
        print("%s %s[%s] (%s): %s %s" % (prop, viol["group"], viol["k"], viol["variant"], viol["msg"][:600],
                                         json.dumps(viol["desc"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    if not a.replay:
        write_evidence(prop, spec, a, cov, fps, samples, problems, len(fresh), time.time() - t0, inconclusive)
    if fresh:
        return 1
    if inconclusive:
        print("INCONCLUSIVE %s:\n%s" % (prop, "\n".join(inconclusive[:5])))
        return 2
    if not cov["cases"] or (not cov["compared"] and not a.replay):
        print("INCONCLUSIVE %s: nothing was observed" % prop)
        return 2
    if not a.replay:
        missing = [m for m in spec.get("must_see", ()) if not cov["events"].get(m) and not cov["seen"].get(m)]
        if missing:
            print("INCONCLUSIVE %s: never reached: %s" % (prop, missing))
            return 2
    print("%s held on %d cases (%d distinct), %d library calls, %d values compared, %.1f s"
          % (prop, cov["cases"], len(fps), sum(cov["events"].values()), cov["compared"], time.time() - t0))
    return 0


def san_summary(text):
    lines = [l for l in text.splitlines() if "SUMMARY" in l or "runtime error" in l or "ERROR: AddressS" in l]
    return " | ".join(lines[:3]) if lines else text[-300:]


def write_evidence(prop, spec, a, cov, fps, samples, problems, nviol, wall, inconclusive):
    def margin(v):
        return {"worst": float("%.3g" % v[0]), "allowed": float("%.3g" % v[1])}
    coverage = dict(
        evaluations=cov["cases"], distinct_nontrivial=len(fps), rule=spec["rule"], samples=samples[:6],
        library_calls=dict(sorted(cov["events"].items())), cases_per_group=dict(sorted(cov["by_group"].items())),
        values_compared=cov["compared"], observed=dict(sorted(cov["seen"].items())),
        worst_deviation_observed={k: margin(v) for k, v in sorted(cov["margins"].items())})
    if problems or inconclusive:
        coverage["not_explored"] = (problems + inconclusive)[:10]
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=spec.get("level", "exploration"), coverage=coverage,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
