"""usage: plant.py DEFS.py [ID...]   Make /verif/seeded/<id>/ from definitions, and confirm each in a scratch copy of /repo.

DEFS.py defines BUGS: list of dict(id, property, file, edits=[(old, new)...], needs, breaks, demo=python source).
An edit may also be (file, old, new).
Confirmed: the demo passes before, the change builds and passes the tests, the demo fails after.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, cwd, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def one(b):
    d = os.path.join(VERIF, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        os.makedirs(os.path.join(tmp, "demo"))
        files = {"demo.py": HEAD + b["demo"].lstrip("\n"), "demo.sh": DEMO_SH,
                 "meta.json": json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n"}
        for n, t in files.items():
            with open(os.path.join(tmp, "demo", n), "w") as f:
                f.write(t)
        rc, out = sh("bash %s/demo/demo.sh" % tmp, repo, 300)
        if rc:
            return "demo fails on the unchanged tree (%s):\n%s" % (rc, out)
        for e in b["edits"]:
            name, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = os.path.join(repo, "geotiepoints", name)
            text = open(p).read()
            if text.count(old) != 1:
                return "%d matches of %r" % (text.count(old), old)
            open(p, "w").write(text.replace(old, new))
        rc, diff = sh("git diff", repo)
        diff = subprocess.run("git diff", cwd=repo, shell=True, capture_output=True, text=True).stdout
        if any(len(e) == 3 and e[0].endswith("pyx") for e in b["edits"]) or b.get("file", "").endswith((".pyx", ".pxd")):
            rc, out = sh("CC=gcc %s setup.py build_ext --inplace -j4" % PY, repo)
            if rc:
                return "does not build:\n" + out
        rc, out = sh("PYTHONDONTWRITEBYTECODE=1 %s -m pytest -q -p no:cacheprovider geotiepoints/tests" % PY, repo)
        if rc:
            return "tests fail:\n" + out[-700:]
        rc, out = sh("bash %s/demo/demo.sh" % tmp, repo, 300)
        if rc == 0:
            return "demo passes with the change: " + out[-500:]
        os.makedirs(d, exist_ok=True)
        for n, t in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        return "ok (demo: %s)" % (out.strip().splitlines() or [""])[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    bugs = [b for b in bugs if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)):
            print(b["id"], "->", r, flush=True)
