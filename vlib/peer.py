"""A second process with another hash seed, which runs the same case.

What a seed determines must not depend on the process: hash randomisation,
memory layout, or what ran before.  ask() sends a case to checks.pNN.<name> in a
persistent child and returns its JSON answer; the child is also given unrelated
state (another string-hash seed, another global random state).
"""
import atexit
import importlib
import json
import os
import subprocess
import sys
from pathlib import Path

_child = {}


def _start(prop, bare):
    r0, w0 = os.pipe()
    r1, w1 = os.pipe()
    env = dict(os.environ, PYTHONHASHSEED="4711")
    p = subprocess.Popen([sys.executable, "-m", "vlib.peer", prop, str(int(bare)), str(r0), str(w1)], env=env, pass_fds=(r0, w1),
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, cwd=str(Path(__file__).resolve().parent.parent))
    os.close(r0)
    os.close(w1)
    atexit.register(p.kill)
    return p, os.fdopen(w0, "w"), os.fdopen(r1)


def ask(prop, name, case, bare=False):
    if prop not in _child or _child[prop][0].poll() is not None:
        _child[prop] = _start(prop, bare)
    p, w, r = _child[prop]
    w.write(json.dumps([name, case]) + "\n")
    w.flush()
    line = r.readline()
    if not line:
        raise RuntimeError("the second process died")
    a = json.loads(line)
    if "error" in a:
        raise AssertionError(f"in the second process: {a['error']}")
    return a["ok"]


def main():
    prop, bare, r, w = sys.argv[1], sys.argv[2] == "1", int(sys.argv[3]), int(sys.argv[4])
    from vlib import harness, native
    harness.use_hypothesis()
    native.install(bare=bare)
    import numpy as np
    np.random.seed(5)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    out = os.fdopen(w, "w")
    for line in os.fdopen(r):
        name, case = json.loads(line)
        try:
            a = {"ok": getattr(mod, name)(case)}
        except Exception as e:
            a = {"error": f"{type(e).__name__}: {e}"}
        out.write(json.dumps(a) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
