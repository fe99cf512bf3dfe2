#!/usr/bin/env python3
"""Systematic mutation testing of the checks (a development tool, registered nowhere).

usage: mutate.py list FILE...            number of mutants
       mutate.py tests OUT FILE...       run the unit tests on every mutant, write the survivors to OUT (json lines)
       mutate.py checks SURVIVORS OUT    run the checks on every survivor, write which check noticed it

Works in scratch copies under /tmp; /repo is only read.
"""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tokenize
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, VERIF = "/repo", "/verif"
WORK = os.environ.get("WORK", "/tmp/mutate")
PY = "/opt/venv/bin/python"
SWAPS = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="],
         "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "//": ["/", "*"], "%": ["*"], "**": ["*"],
         "+=": ["-=", "="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "and": ["or"], "or": ["and"], "True": ["False"],
         "False": ["True"], "not": [""], "min": ["max"], "max": ["min"], "sin": ["cos"], "cos": ["sin"],
         "floor": ["ceil"], "any": ["all"], "all": ["any"], "break": ["continue"], "continue": ["break"],
         "float32": ["float64"], "float64": ["float32"], "rows": ["cols"], "cols": ["rows"], "row": ["col"],
         "col": ["row"], "lons": ["lats"], "lats": ["lons"], "lon": ["lat"], "lat": ["lon"]}
NODELETE = ("def", "class", "if", "elif", "else", "for", "while", "try", "except", "finally", "with", "import", "from",
            "cimport", "cdef", "cpdef", "@", "pass", "ctypedef", "ctypedef", "raise", "return", "DEF", "extern")
CHECKS = {
    "__init__.py": "C20 C12 C03 C05 C21 C18 C15 C02",
    "basic_interpolator.py": "C19 C24 C03 C26 C21 C15 C18 C02",
    "geointerpolator.py": "C06 C25 C11 C05 C03 C04 C21 C22 C23 C24 C26 C18 C15 C17 C16 C02",
    "interpolator.py": "C04 C11 C22 C03 C25 C26 C20 C23 C24 C18 C21 C15 C17 C05 C16 C02",
    "modisinterpolator.py": "C07 C25 C10 C21 C18 C05 C15 C17 C09 C16 C02",
    "multilinear.py": "C13 C25 C24 C18 C03 C26 C23 C21 C15 C16 C02 C01",
    "simple_modis_interpolator.py": "C08 C25 C10 C21 C18 C05 C15 C17 C09 C16 C02",
    "viiinterpolator.py": "C14 C05 C25 C26 C03 C23 C21 C18 C15 C02",
    "_modis_interpolator.pyx": "C07 C09 C17 C10 C21 C05 C18 C15 C03 C02 C01 C16 C25",
    "_modis_utils.pyx": "C08 C07 C10 C05 C21 C18 C09 C17 C15 C25 C02 C01 C16",
    "_simple_modis_interpolator.pyx": "C08 C09 C17 C10 C21 C05 C18 C15 C02 C01 C16 C25",
    "multilinear_cython.pyx": "C13 C18 C26 C23 C21 C15 C03 C25 C02 C01 C16",
}


def mutants(name):
    with open(os.path.join(REPO, "geotiepoints", name)) as f:
        text = f.read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line))
    toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    res = []

    def add(a, b, new, what):
        row = text.count("\n", 0, a) + 1
        res.append({"file": name, "line": row, "a": a, "b": b, "new": new, "what": what,
                    "was": lines[row - 1].strip()[:100]})

    def pos(p):
        return starts[p[0] - 1] + p[1]

    first = None
    logical = []
    for t in toks:
        if t.type in (tokenize.INDENT, tokenize.DEDENT, tokenize.NL, tokenize.COMMENT):
            continue
        if t.type == tokenize.NEWLINE:
            if logical:
                res_line(text, logical, pos, add)
            logical = []
            continue
        logical.append(t)
    return text, res


def res_line(text, logical, pos, add):
    head = logical[0].string
    if head in ("import", "from", "cimport", "@", "ctypedef", "class", "def", "cdef", "cpdef", "DEF"):
        has_value = any(t.string == "=" for t in logical) and head == "cdef" and logical[-1].string != ":"
        if not has_value:
            if head in ("def", "cdef", "cpdef", "class", "@", "ctypedef", "import", "from", "cimport"):
                return
        else:
            at = next(i for i, t in enumerate(logical) if t.string == "=")
            ops(logical[at + 1:], pos, add)
            return
    if len(logical) == 1 and logical[0].type == tokenize.STRING:
        return
    if head == "raise":
        a = pos(logical[0].start)
        add(a, pos(logical[-1].end), "pass", "no raise")
        return
    if head in ("if", "elif") and logical[-1].string == ":":
        a, b = pos(logical[1].start), pos(logical[-2].end)
        add(a, b, "True", "condition True")
        add(a, b, "False", "condition False")
    if head not in NODELETE:
        add(pos(logical[0].start), pos(logical[-1].end), "pass", "statement dropped")
    ops(logical, pos, add)


def ops(logical, pos, add):
    prev = None
    for i, t in enumerate(logical):
        a, b = pos(t.start), pos(t.end)
        nxt = logical[i + 1].string if i + 1 < len(logical) else ""
        s = t.string
        if t.type == tokenize.STRING:
            prev = t
            continue
        if t.type == tokenize.NUMBER:
            for new in number(s):
                add(a, b, new, "%s -> %s" % (s, new))
        elif s in SWAPS and not (s in ("*", "**") and (prev is None or prev.string in ("(", ",", "="))):
            if s == "-" and (prev is None or prev.string in ("(", ",", "=", "[", ":", "return", "+", "*", "/", "<", ">",
                                                             "==", "if")):
                add(a, b, "", "unary minus dropped")
            elif t.type == tokenize.NAME and nxt == "=" and s not in ("and", "or", "not", "True", "False"):
                pass
            else:
                for new in SWAPS[s]:
                    add(a, b, new, "%s -> %s" % (s, new or "(nothing)"))
        prev = t


def number(s):
    if re.fullmatch(r"\d+", s):
        n = int(s)
        return [str(n + 1)] + ([str(n - 1)] if n else [])
    if re.fullmatch(r"[\d.]+(e[-+]?\d+)?", s):
        x = float(s)
        return [repr(x * 1.01 if x else 0.01), repr(x * 2 if x else 1.0)]
    return []


def mutated(text, m):
    return text[:m["a"]] + m["new"] + text[m["b"]:]


class Pool:
    def __init__(self, n):
        self.free = Queue()
        for i in range(n):
            d = os.path.join(WORK, "w%d" % i)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            subprocess.check_call(["cp", "-a", REPO, d + "/repo"])
            self.free.put(d)

    def run(self, f, m):
        d = self.free.get()
        try:
            return f(d, m)
        finally:
            self.free.put(d)


def in_copy(d, m, text):
    path = os.path.join(d, "repo", "geotiepoints", m["file"])
    with open(path, "w") as f:
        f.write(mutated(text, m))
    return path


def restore(path, text):
    with open(path, "w") as f:
        f.write(text)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1", CC="gcc", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CFLAGS="-O1")


def unit_tests(d, m, text):
    path = in_copy(d, m, text)
    try:
        if m["file"].endswith(".pyx"):
            if subprocess.call([PY, "setup.py", "build_ext", "--inplace"], cwd=d + "/repo", env=ENV,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600):
                return "no build"
        try:
            rc = subprocess.call([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=100",
                                  "geotiepoints/tests"], cwd=d + "/repo", env=ENV, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, timeout=200)
        except subprocess.TimeoutExpired:
            return "timeout"
        return "survived" if rc == 0 else "killed"
    finally:
        restore(path, text)


def seed_cache(d, m):
    """Builds of the mutated tree made from those of the original tree, recompiling only what changed."""
    code = r"""
import os, shutil, sys, glob
sys.path.insert(0, %r)
from vlib import build
f = %r
files = build._sources()
for variant in ("py", "opt", "asan", "bounds"):
    base = glob.glob(os.path.join(%r, variant + "-*"))[0]
    target = os.path.join(build.CACHE, "%%s-%%s" %% (variant, build._digest(files, variant)))
    shutil.rmtree(target, ignore_errors=True)
    if f.endswith(".pyx") and variant != "py":
        continue
    shutil.copytree(base, target)
    shutil.copyfile(os.path.join(build.REPO, "geotiepoints", f), os.path.join(target, "geotiepoints", f))
""" % (d + "/verif", m["file"], WORK + "/base")
    subprocess.check_call([PY, "-c", code], env=dict(ENV, VERIF_REPO=d + "/repo"))


def run_checks(d, m, text, only=None):
    path = in_copy(d, m, text)
    verif = d + "/verif"
    shutil.rmtree(verif, ignore_errors=True)
    os.makedirs(verif + "/.cache")
    for n in ("run.py", "run.sh", "known_findings.txt"):
        shutil.copy(os.path.join(VERIF, n), verif)
    for n in ("vlib", "checks"):
        shutil.copytree(os.path.join(VERIF, n), os.path.join(verif, n))
    try:
        seed_cache(d, m)
        for c in (only or CHECKS[m["file"]].split()):
            try:
                p = subprocess.run(["bash", verif + "/run.sh", c, "--tier", "quick", "--seed", "1"],
                                   env=dict(os.environ, VERIF_REPO=d + "/repo"), text=True, timeout=900,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                return {"by": c, "rc": "timeout", "out": ""}
            if p.returncode:
                return {"by": c, "rc": p.returncode, "out": p.stdout[:300]}
        return {"by": None}
    finally:
        restore(path, text)


def main(argv):
    what, rest = argv[0], argv[1:]
    if what == "list":
        for n in rest:
            print(n, len(mutants(n)[1]))
            if len(rest) == 1:
                for m in mutants(n)[1]:
                    print(m["line"], m["what"], "|", m["was"])
        return
    os.makedirs(WORK, exist_ok=True)
    if what == "tests":
        out, names = rest[0], rest[1:]
        width = int(os.environ.get("PAR", "8"))
        pool = Pool(width)
        counts = {}
        with open(out, "a") as f, ThreadPoolExecutor(width) as ex:
            for n in names:
                text, ms = mutants(n)
                if os.environ.get("SAMPLE"):
                    ms = [m for i, m in enumerate(ms) if random.Random(i).random() < float(os.environ["SAMPLE"])]
                for m, r in zip(ms, ex.map(lambda m: pool.run(lambda d, m: unit_tests(d, m, text), m), ms)):
                    counts[r] = counts.get(r, 0) + 1
                    if r == "survived":
                        f.write(json.dumps(m) + "\n")
                        f.flush()
                print(n, counts, flush=True)
        return
    if what == "checks":
        src, out = rest[:2]
        width = int(os.environ.get("PAR", "3"))
        ms = [json.loads(line) for line in open(src)]
        if not os.path.isdir(WORK + "/base"):
            os.makedirs(WORK + "/base")
            for v in ("py", "opt", "asan", "bounds"):
                t = subprocess.check_output([PY, "-m", "vlib.build", v], cwd=VERIF, text=True).split()[1]
                shutil.copytree(t, os.path.join(WORK, "base", os.path.basename(t)))
        texts = {n: mutants(n)[0] for n in {m["file"] for m in ms}}
        done = set()
        if os.path.exists(out):
            done = {(m["file"], m["a"], m["b"], m["new"]) for m in map(json.loads, open(out))}
        ms = [m for m in ms if (m["file"], m["a"], m["b"], m["new"]) not in done]
        only = os.environ.get("ONLY")
        pool = Pool(width)
        with open(out, "a") as f, ThreadPoolExecutor(width) as ex:
            def one(m):
                r = pool.run(lambda d, m: run_checks(d, m, texts[m["file"]], only and only.split()), m)
                f.write(json.dumps(dict(m, **r)) + "\n")
                f.flush()
            list(ex.map(one, ms))


main(sys.argv[1:])
