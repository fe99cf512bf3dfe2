"""A program that interpolates on several cores, with a given way of starting processes; calls one after the other or in threads at once.

python -m vlib.cores METHOD IN.pickle OUT.pickle
"""
import multiprocessing
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import threading


def run(method, jobs, at_once, patience=200):
    """Results (or what was raised), the number of processes left and settings changed, or None if there is no answer."""
    with tempfile.TemporaryDirectory(prefix="cores-") as d:
        source, target = os.path.join(d, "in"), os.path.join(d, "out")
        with open(source, "wb") as f:
            pickle.dump((jobs, at_once), f)
        p = subprocess.Popen([sys.executable, "-m", "vlib.cores", method, source, target], start_new_session=True)
        try:
            rc = p.wait(patience)
        except subprocess.TimeoutExpired:
            return None
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        if rc != 0:
            return ["the program ended with %d" % rc] * len(jobs), 0, []
        with open(target, "rb") as f:
            return pickle.load(f)


def main(method, source, target):
    import geotiepoints
    from vlib import state
    multiprocessing.set_start_method(method)
    with open(source, "rb") as f:
        jobs, at_once = pickle.load(f)
    results = [None] * len(jobs)

    def work(n):
        name, lon, lat, cores = jobs[n]
        try:
            results[n] = getattr(geotiepoints, name)(lon, lat, cores=cores)
        except BaseException as err:      # told to the one who asked
            results[n] = "%s: %s" % (type(err).__name__, err)

    before = state.settings()
    if at_once:
        threads = [threading.Thread(target=work, args=(n,)) for n in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    else:
        for n in range(len(jobs)):
            work(n)
    diff = ["%s: %s -> %s" % (k, before[k][:80], v[:80]) for k, v in state.settings().items() if v != before[k]]
    left = len(multiprocessing.active_children())
    with open(target, "wb") as f:
        pickle.dump((results, left, diff), f)


if __name__ == "__main__":
    main(*sys.argv[1:])
