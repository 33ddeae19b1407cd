"""Gives the checks a built mmcore that matches /repo's current sources.

/repo itself is used when the extensions in place were built from exactly the current Cython/C sources (content hashes
recorded by the project's build wrapper); otherwise the tree is copied to a scratch folder, the changed extensions are
rebuilt there (incrementally), and the scratch folder is removed when the check ends.  Pure python changes need no build.
"""
import atexit
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("CYVC_REPO", "/repo")
STATE = "build/.vp-state.json"
RUNNING = "build/.vp-running"
GENERATED = b"/* Generated by Cython"
PY = "/opt/venv/bin/python"


def digest(path):
    data = open(path, "rb").read()
    return None if data.startswith(GENERATED) else hashlib.sha256(data).hexdigest()


def hashes(root):
    found = {"build.py": digest(os.path.join(root, "build.py"))}
    for dp, _, names in os.walk(os.path.join(root, "mmcore")):
        for n in names:
            if n.endswith((".pyx", ".pxd", ".h", ".c", ".cpp", ".hpp", ".pxi")):
                p = os.path.join(dp, n)
                h = digest(p)
                if h: found[os.path.relpath(p, root)] = h
    return found


def changed(root):
    """None: the in-place build is current; otherwise the list of changed sources (['*'] for a full rebuild)"""
    new = hashes(root)
    try:
        old = json.load(open(os.path.join(root, STATE)))
    except (OSError, ValueError):
        return ["*"]
    if os.path.exists(os.path.join(root, RUNNING)) or not glob.glob(os.path.join(root, "mmcore/**/*.so"), recursive=True): return ["*"]
    if set(new) != set(old) or new["build.py"] != old["build.py"]: return ["*"]
    diff = [p for p in new if new[p] != old[p]]
    return diff or None


def build_scratch(root, diff, log):
    cache = os.environ.get("CYVC_SCRATCH")
    d = cache or tempfile.mkdtemp(prefix="mmcore-fresh-")
    os.makedirs(d, exist_ok=True)
    if not cache: atexit.register(shutil.rmtree, d, True)
    for n in ("mmcore", "build"):
        if os.path.isdir(os.path.join(d, n)): shutil.rmtree(os.path.join(d, n))
        if os.path.isdir(os.path.join(root, n)): shutil.copytree(os.path.join(root, n), os.path.join(d, n), symlinks=True)
    src = open(os.path.join(root, "build.py")).read().replace('"-O3"', '"-O0", "-g0"')
    open(os.path.join(d, "build.py"), "w").write(src)
    t0 = 1_600_000_000
    for dp, _, names in os.walk(d):
        for n in names:
            p = os.path.join(dp, n)
            gen = n.endswith((".c", ".cpp")) and digest(p) is None
            k = 2 if n.endswith((".so", ".o")) else 1 if gen else 0
            os.utime(p, (t0 + 1000 * k,) * 2)
    allpyx = glob.glob(os.path.join(d, "mmcore/**/*.pyx"), recursive=True)
    if diff == ["*"]:
        shutil.rmtree(os.path.join(d, "build"), True)
        touch = allpyx
    else:
        touch = [os.path.join(d, p) for p in diff]
        for p in diff:
            if p.endswith(".pyx"): continue
            base = os.path.basename(p)
            stem = p[:-4].replace("/", ".").replace(".__init__", "")
            for q in allpyx:
                s = open(q).read()
                if base in s or (p.endswith(".pxd") and (stem in s or stem.rsplit(".", 1)[0] in s or q[:-4] == os.path.join(d, p)[:-4])): touch.append(q)
    for p in touch:
        if os.path.exists(p): os.utime(p)
    env = dict(os.environ, HOME=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    code = ("import os, runpy, sys\nfrom setuptools.command.build_ext import build_ext as b\ni = b.initialize_options\n"
            "def f(self):\n    i(self); self.parallel = os.cpu_count()\nb.initialize_options = f\nsys.argv = ['build.py']\n"
            "runpy.run_path('build.py', run_name='__main__')\n")
    r = subprocess.run([PY, "-c", code], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log.append("scratch build failed: " + r.stdout[-2000:])
        return None
    return d


def ensure(log):
    """-> folder to put first on PYTHONPATH, or None when the sources do not build"""
    diff = changed(REPO)
    if diff is None:
        log.append("real code: in-place build of /repo is current")
        return REPO
    log.append("real code: rebuilt in scratch, changed: " + ", ".join(diff))
    return build_scratch(REPO, diff, log)


if __name__ == "__main__":
    import time
    t = time.time(); L = []
    print(ensure(L), L, time.time() - t)
