"""Calls of the library described by data, so that a process in which little is installed can make them.

A plan is a list of steps: ("get", module, name, args, kwargs) calls a function or makes an object; ("do", method, args, kwargs)
calls a method of the last object made (method None: the object itself); ("see", attribute) reads it. The arrays of all steps
but those that make objects are the result. Imports nothing but numpy by itself.
"""
import importlib
import pickle
import struct
import sys

import numpy as np


def arrays(res):
    if res is None:
        return []
    if hasattr(res, "dtype"):
        return [np.asarray(res)]
    if hasattr(res, "to_numpy"):
        return [res.to_numpy()]
    return [np.asarray(r) for r in res]


def play(plan):
    out, it = [], None
    for step in plan:
        if step[0] == "get":
            it = getattr(importlib.import_module(step[1]), step[2])(*step[3], **step[4])
            if isinstance(it, (tuple, list, np.ndarray)) or hasattr(it, "dims"):
                out += arrays(it)
        elif step[0] == "do":
            out += arrays((it if step[1] is None else getattr(it, step[1]))(*step[2], **step[3]))
        else:
            out += arrays(getattr(it, step[1]))
    return out


class Absent:
    """Another finder, without some packages."""

    def __init__(self, finder, names):
        self.finder, self.names = finder, names

    def find_spec(self, name, path=None, target=None):
        return None if name.split(".")[0] in self.names else self.finder.find_spec(name, path, target)

    def __getattr__(self, name):
        return getattr(self.finder, name)


def hide(names):
    sys.meta_path[:] = [Absent(f, names) if hasattr(f, "find_spec") else f for f in sys.meta_path]
    for m in list(sys.modules):
        if m.split(".")[0] in names:
            raise RuntimeError("%s is already imported" % m)


def send(pipe, obj):
    blob = pickle.dumps(obj)
    pipe.write(struct.pack("<q", len(blob)) + blob)
    pipe.flush()


def receive(pipe):
    head = pipe.read(8)
    return pickle.loads(pipe.read(struct.unpack("<q", head)[0])) if len(head) == 8 else None


def serve(names, first):
    """Plays plans in a process where the packages *names* are not installed, after importing the modules *first*."""
    hide(names)
    out, sys.stdout = sys.stdout.buffer, sys.stderr
    np.seterr(all="ignore")
    try:
        for m in first:
            importlib.import_module(m)
        send(out, ("ready", importlib.import_module("geotiepoints").__file__))
    except Exception as e:
        send(out, ("error", "%s: %s" % (type(e).__name__, e)))
        return
    while True:
        plan = receive(sys.stdin.buffer)
        if plan is None:
            return
        try:
            res = ("ok", play(plan), sorted({m.split(".")[0] for m in sys.modules} & set(names)))
        except Exception as e:
            res = ("error", "%s: %s" % (type(e).__name__, e), isinstance(e, ImportError))
        send(out, res)


if __name__ == "__main__":
    serve(sys.argv[1].split(","), sys.argv[2].split(",") if sys.argv[2] else [])
