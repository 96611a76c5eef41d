"""Private build of the package from the repository's current tree, for replay
and for the run-time contract layer.  Nothing is written into /repo."""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("GEOANA_REPO", "/repo")
_scratch = None
_state = {}


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="geoana-verif-")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def prepare(ext=True):
    """copy /repo/geoana to the scratch directory, build the extensions and put
    it first on sys.path.  Returns dict(ok, ext_ok, log)."""
    if "done" in _state and (_state["ext"] or not ext):
        return _state
    d = scratch()
    dst = os.path.join(d, "geoana")
    if not os.path.exists(dst):
        shutil.copytree(os.path.join(REPO, "geoana"), dst,
                        ignore=shutil.ignore_patterns("__pycache__", "*.so", "build"))
    log = ""
    ext_ok = None
    if ext:
        ext_ok, log = build_ext(dst)
    _state.update(done=True, ext=ext, ext_ok=ext_ok, log=log, dir=d)
    if d not in sys.path:
        sys.path.insert(0, d)
    vs = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(vs) and vs not in sys.path:
        sys.path.append(vs)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(d, "mpl"))
    return _state


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_ext(dst):
    import numpy as np
    ed = os.path.join(dst, "kernels", "_extensions")
    inc = sysconfig.get_paths()["include"]
    suf = sysconfig.get_config_var("EXT_SUFFIX")
    log = ""
    procs = []
    env = dict(os.environ)

    def one(mod, extra):
        cmd = ("%s -m cython -3 --fast-fail %s.pyx %s -o %s_gen.%s && "
               "%s -O1 -fPIC -shared -w -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION -I%s -I%s -I. %s_gen.%s %s -o %s%s") % (
            sys.executable, mod, "--cplus" if extra else "", mod, "cpp" if extra else "c",
            "g++ -std=c++17" if extra else "gcc", inc, np.get_include(), mod, "cpp" if extra else "c", extra, mod, suf)
        return subprocess.Popen(["sh", "-c", cmd], cwd=ed, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    ok = True
    ps = []
    for f in sorted(os.listdir(ed)):
        if f.endswith(".pyx"):
            mod = f[:-4]
            extra = "_rTE.cpp" if mod == "rTE" else ""
            ps.append((mod, one(mod, extra)))
    for mod, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            log += "%s: %s\n" % (mod, out[-2000:])
    return ok, log


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, "geoana"))):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".py", ".pyx", ".cpp", ".h")):
                p = os.path.join(base, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def preload():
    """third-party modules the package imports, once before the workers fork"""
    import importlib
    for m in ("scipy.special", "scipy.constants", "scipy.spatial", "scipy.spatial.transform", "scipy.interpolate", "matplotlib", "matplotlib.pyplot",
              "matplotlib.dates", "libdlf", "utm", "properties", "discretize", "mpmath", "z3"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
