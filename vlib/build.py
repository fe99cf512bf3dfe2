"""Out-of-tree builds of /repo's current working tree, in several variants.

Everything is built in a scratch directory under /verif/.cache (ignored by git), keyed by the content of the
sources, so /repo itself is only read.  Variants:

  py      the Python files only (checks that need no compiled code)
  opt     the project's own build
  asan    AddressSanitizer + UndefinedBehaviorSanitizer
  bounds  the same sources with Cython's bounds checks switched on
  tsan    ThreadSanitizer
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
PYTHON = "/opt/venv/bin/python"
ROOT_FILES = ["setup.py", "setup.cfg", "pyproject.toml", "README.md", "versioneer.py", "LICENSE.txt"]
SOURCE_EXTS = (".py", ".pyx", ".pxd", ".pxi", ".h")

# alignment: x86 loads unaligned elements as they are; what unaligned arrays give is compared by C15
SAN = {
    "asan": ("-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined "
             "-fno-sanitize=alignment -g1 -fno-omit-frame-pointer", "-fsanitize=address,undefined"),
    "tsan": ("-fsanitize=thread -g1 -fno-omit-frame-pointer", "-fsanitize=thread"),
}


class BuildError(Exception):
    """The tree could not be built (an error of the check, not a violation)."""


PURE = ["geotiepoints", "geotiepoints.geointerpolator", "geotiepoints.interpolator", "geotiepoints.viiinterpolator",
        "geotiepoints.basic_interpolator"]


def pure_python():
    """The tree without compiled modules, or the project's own build if its Python modules need those."""
    target = build("py")
    env = dict(os.environ, PYTHONPATH=target, PYTHONDONTWRITEBYTECODE="1", PYTHONSAFEPATH="1")
    if subprocess.call([PYTHON, "-c", "import " + ", ".join(PURE)], env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL):
        return build("opt")
    return target


def _sources():
    files = [f for f in ROOT_FILES if os.path.isfile(os.path.join(REPO, f))]
    for root, dirs, names in os.walk(os.path.join(REPO, "geotiepoints")):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests"))
        for name in sorted(names):
            if name.endswith(SOURCE_EXTS):
                files.append(os.path.relpath(os.path.join(root, name), REPO))
    return files


def _digest(files, variant):
    h = hashlib.sha256()
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    h.update(variant.encode())
    for name in files:
        h.update(name.encode() + b"\0")
        with open(os.path.join(REPO, name), "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _bounds_checked(text):
    text = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", text)
    return re.sub(r"boundscheck\(\s*False\s*\)", "boundscheck(True)", text)


def _prune(keep):
    now = time.time()
    for name in os.listdir(CACHE):
        path = os.path.join(CACHE, name)
        if path != keep and os.path.isdir(path) and now - os.path.getmtime(path) > 3600:
            shutil.rmtree(path, ignore_errors=True)


def build(variant):
    """Build *variant* of the current tree if needed, return the directory to put on sys.path."""
    os.makedirs(CACHE, exist_ok=True)
    files = _sources()
    target = os.path.join(CACHE, "%s-%s" % (variant, _digest(files, variant)))
    with open(os.path.join(CACHE, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(target, ".done")):
            os.utime(target)        # builds in use are not removed
            return target
        _prune(target)
        shutil.rmtree(target, ignore_errors=True)
        os.makedirs(target)
        for name in files:
            dst = os.path.join(target, name)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, name), dst)
            if variant == "bounds" and name.endswith((".pyx", ".pxd")):
                with open(dst) as f:
                    text = f.read()
                with open(dst, "w") as f:
                    f.write(_bounds_checked(text))
        try:
            if variant != "py":
                _compile(target, variant)
        except BaseException:
            shutil.rmtree(target, ignore_errors=True)
            raise
        with open(os.path.join(target, ".done"), "w"):
            pass
    return target


def _compile(target, variant):
    env = dict(os.environ, CC="gcc", PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1")
    for name in ("LD_PRELOAD", "CFLAGS", "LDFLAGS"):
        env.pop(name, None)
    env["CFLAGS"] = "-g0"
    if variant in SAN:
        env["CFLAGS"], env["LDFLAGS"] = SAN[variant]
    # cythonize in parallel processes; the project's own build then finds the C files up to date
    pyx = [os.path.join(root, n) for root, _, names in os.walk(os.path.join(target, "geotiepoints"))
           for n in names if n.endswith(".pyx")]
    procs = [subprocess.Popen([PYTHON, "-m", "cython", "-3", "-X", "freethreading_compatible=True", p], cwd=target,
                              env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for p in pyx]
    for p in procs:
        p.wait()
    with open(os.path.join(target, "build.log"), "w") as log:
        try:
            status = subprocess.call([PYTHON, "setup.py", "build_ext", "--inplace", "-j8"], cwd=target, env=env,
                                     stdout=log, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            raise BuildError("build of variant %s timed out" % variant)
    if status:
        with open(os.path.join(target, "build.log")) as log:
            tail = log.read()[-3000:]
        raise BuildError("build of variant %s failed:\n%s" % (variant, tail))
    shutil.rmtree(os.path.join(target, "build"), ignore_errors=True)


def runtime_env(variant):
    """Extra environment for running Python on *variant*."""
    if variant == "asan":
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        return {"LD_PRELOAD": os.path.realpath(lib), "PYTHONMALLOC": "malloc",
                "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:"
                                "allocator_may_return_null=1:max_allocation_size_mb=8000:detect_stack_use_after_return=0",
                "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}
    if variant == "tsan":
        lib = subprocess.check_output(["gcc", "-print-file-name=libtsan.so"], text=True).strip()
        return {"LD_PRELOAD": os.path.realpath(lib)}
    return {}


if __name__ == "__main__":
    for v in sys.argv[1:] or ["opt"]:
        t0 = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t0))
