"""Build the native extensions of /repo's current tree and make the real
Python package importable against them.

The build uses the sources of /repo untouched; only the binding layer
(nanobind, not installed here) is replaced by /verif/shim, and the pinned Eigen
by the system's Eigen 3.4.  Products go to /verif/.cache (git-ignored), keyed by
the content of the native sources, the shim and the flags.
"""
from __future__ import annotations

import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import types
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CACHE = VERIF / ".cache"

MODULES = {
    "irspack.recommenders._ials_core": ("als/wrapper.cpp", "_ials_core"),
    "irspack.recommenders._knn": ("knn/wrapper.cpp", "_knn"),
    "irspack.utils._util_cpp": ("util.cpp", "_util_cpp"),
    "irspack.evaluation._core_evaluator": ("evaluator.cpp", "_core_evaluator"),
}

FLAVOURS = {
    "plain": ["-O2", "-DNDEBUG"],
    # Eigen/STL assertions abort-free: memory errors become visible.
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DNDEBUG"],
}


class BuildError(RuntimeError):
    pass


def _digest(flavour: str) -> str:
    h = hashlib.sha256()
    for root in (REPO / "cpp_source", VERIF / "shim"):
        for p in sorted(root.rglob("*")):
            if p.is_file():
                h.update(str(p.relative_to(root)).encode() + b"\0")
                h.update(p.read_bytes() + b"\0")
    h.update(repr((flavour, FLAVOURS[flavour], sys.version)).encode())
    return h.hexdigest()[:20]


def build(flavour: str = "plain", modules=None) -> dict:
    """Build the named extension modules (all by default); returns name -> path."""
    CACHE.mkdir(exist_ok=True)
    todo = {m: MODULES[m] for m in (modules or MODULES)}
    out = CACHE / f"{flavour}-{_digest(flavour)}"
    paths = {m: out / f"{name}.so" for m, (_, name) in todo.items()}
    with open(CACHE / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if all(p.exists() for p in paths.values()):
            return paths
        if not out.exists():  # one build per flavour is kept
            for old in CACHE.glob(f"{flavour}-*"):
                shutil.rmtree(old, ignore_errors=True)
        out.mkdir(parents=True, exist_ok=True)
        inc = sysconfig.get_paths()["include"]
        if not (Path(inc) / "Python.h").exists():
            inc = f"/usr/include/python3.{sys.version_info[1]}"

        def one(m):
            src, name = MODULES[m]
            dst, tmp = out / f"{name}.so", out / f"{name}.tmp"
            if dst.exists():
                return src, 0, ""
            cmd = ["g++", "-std=c++17", *FLAVOURS[flavour], "-w", "-shared", "-fPIC",
                   "-fvisibility=hidden", "-pthread", "-I", str(VERIF / "shim"),
                   "-isystem", "/usr/include/eigen3", "-isystem", inc,
                   "-I", str(REPO / "cpp_source"),
                   str(REPO / "cpp_source" / src), "-o", str(tmp)]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                tmp.rename(dst)
            return src, r.returncode, r.stderr

        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, todo))
        bad = [(s, e) for s, rc, e in res if rc]
        if bad:
            raise BuildError("\n".join(f"{s}:\n{e[:4000]}" for s, e in bad))
    return paths


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, flavour: str):
        self.flavour = flavour

    def find_spec(self, name, path=None, target=None):
        if name in MODULES:
            so = build(self.flavour, [name])[name]
            loader = importlib.machinery.ExtensionFileLoader(name, str(so))
            return importlib.util.spec_from_file_location(name, str(so), loader=loader)
        if name == "irspack._version":
            return importlib.machinery.ModuleSpec(name, _VersionLoader())
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = module.version = "0.0.0+verif"
        module.__version_tuple__ = module.version_tuple = (0, 0, 0)


def install(bare: bool = False, flavour: str | None = None) -> None:
    """Make `import irspack...` resolve to /repo/src and a fresh native build.

    With bare=True the parent package is an empty stand-in, so that one
    subpackage can be imported (and its extension built) on its own.  Extension
    modules are built when they are first imported.
    """
    sys.dont_write_bytecode = True
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.meta_path.insert(0, _Finder(flavour or os.environ.get("VERIF_FLAVOUR", "plain")))
    if bare:
        pkg = types.ModuleType("irspack")
        pkg.__path__ = [str(REPO / "src" / "irspack")]
        sys.modules.setdefault("irspack", pkg)
