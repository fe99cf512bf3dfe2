"""What running code can leave behind in its process: settings, resources, side effects, memory. Imports nothing of the library."""
import ctypes
import decimal
import gc
import locale
import logging
import multiprocessing
import os
import random
import signal
import sys
import threading
import tracemalloc
import warnings

import numpy as np

NUMPY_DOMAIN = 389047


# -- settings of the process

def settings():
    """What code can change for everybody else in the process."""
    tiny64, tiny32 = np.array([5e-324, 2.2e-308]), np.array([1e-45, 1.1e-38], np.float32)
    state = {
        "numpy's error handling": repr(sorted(np.geterr().items())) + repr(np.geterrcall()),
        "numpy's print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": repr(warnings.filters),
        "showwarning": repr(warnings.showwarning),
        "environment variables": repr(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "search path of modules": repr(sys.path),
        "signal handlers": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD,
                                                               signal.SIGFPE, signal.SIGSEGV)]),
        "recursion limit": repr(sys.getrecursionlimit()),
        "switch interval": repr(sys.getswitchinterval()),
        "garbage collection": repr((gc.isenabled(), gc.get_threshold(), gc.get_debug())),
        "tracing": repr((sys.gettrace(), sys.getprofile())),
        "excepthook": repr((sys.excepthook, sys.stdout, sys.stderr)),
        "decimal context": repr(decimal.getcontext().prec),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "umask": umask(),
        "logging": repr((logging.getLogger().level, logging.getLogger().handlers, logging.root.manager.disable)),
        "start method of processes": repr(multiprocessing.get_start_method()),
        "denormal numbers": repr(((tiny64 * 1.0 != 0).all(), (tiny32 * np.float32(1) != 0).all(), (tiny64 / 2)[1] != 0)),
        "rounding": repr((np.float64(1) / 3, (np.float64(2 ** 53) + 1.0), np.float32(1) / np.float32(3))),
    }
    dask = sys.modules.get("dask")
    if dask is not None:
        state["dask's configuration"] = repr(sorted(dask.config.config.items(), key=lambda kv: kv[0]))
    if "pandas" in sys.modules:
        pd = sys.modules["pandas"]
        state["pandas' options"] = repr([pd.get_option(o) for o in ("display.max_rows", "display.precision", "mode.string_storage")])
    if "xarray" in sys.modules:
        state["xarray's options"] = repr(sorted(sys.modules["xarray"].get_options().items()))
    return state


def random_states():
    """Of numpy and python, apart from the settings: libraries draw names of lazy results from them."""
    return {"numpy's random state": repr(np.random.get_state()[1:]) + str(hash(np.random.get_state()[1].tobytes())),
            "random's state": hash(random.getstate())}


def umask():
    try:
        return [line for line in open("/proc/self/status") if line.startswith("Umask")][0]
    except (OSError, IndexError):
        return ""


def resources():
    """Files, processes and threads of this process (the listing's own descriptor left out)."""
    files = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            files.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    children = [p.pid for p in multiprocessing.active_children()]
    with open("/proc/self/task/%d/children" % os.getpid()) as f:
        children += [int(p) for p in f.read().split()]
    return {"open files": sorted(files), "child processes": sorted(set(children)), "threads": sorted(t.name for t in threading.enumerate()),
            "number of threads": native_threads()}


def native_threads():
    return len(os.listdir("/proc/self/task"))


def changed(before, after):
    return [k for k in before if before[k] != after.get(k)]


# -- what is done to the outside while a call runs

WATCH = {"on": False, "events": []}
QUIET = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "os.unsetenv", "os.system", "os.kill", "os.fork", "os.forkpty",
         "os.exec", "os.posix_spawn", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.utime", "subprocess.Popen", "socket.connect",
         "socket.bind", "socket.getaddrinfo", "shutil.rmtree", "shutil.move", "shutil.copyfile", "signal.pthread_kill", "tempfile.mkstemp",
         "tempfile.mkdtemp", "urllib.Request", "webbrowser.open")


def auditor(event, args):
    if not WATCH["on"]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        writing = (isinstance(mode, str) and any(m in mode for m in "wax+")) or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if writing and isinstance(path, (str, bytes)) and "__pycache__" not in os.fsdecode(path) and os.fsdecode(path) != os.devnull:
            WATCH["events"].append("%s opened for writing" % os.fsdecode(path))
    elif event in QUIET:
        WATCH["events"].append("%s %s" % (event, repr(args)[:100]))


sys.addaudithook(auditor)


# -- memory

class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks",
                                               "keepcost")]


try:
    mallinfo2 = ctypes.CDLL(None).mallinfo2
    mallinfo2.restype = Mallinfo2
except (OSError, AttributeError):       # another C library
    mallinfo2 = None


def heap():
    if mallinfo2 is None:
        return 0
    m = mallinfo2()
    return m.uordblks + m.hblkhd


def numpy_blocks():
    """Living data blocks of numpy arrays: number and bytes."""
    snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.DomainFilter(True, NUMPY_DOMAIN)])
    sizes = [t.size for t in snap.traces]
    return len(sizes), sum(sizes)


def instances():
    n = 0
    for o in gc.get_objects():
        module = getattr(type(o), "__module__", None)
        if isinstance(module, str) and module.startswith("geotiepoints"):
            n += 1
    return n
