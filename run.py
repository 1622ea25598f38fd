#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE] [--scale X] [--sub NAME] [--jobs N]

Decides one property of dynetworkx by generated-input search (see DESIGN.md).
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Any other exit: the harness itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}

if any(os.environ.get(k) != v for k, v in WANT.items()) or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    env = dict(os.environ)
    env.update(WANT)
    env.pop("PYTHONPATH", None)
    if os.environ.get("DNX_PBT_REEXEC") == "1":
        print("harness error: cannot establish the interpreter environment", file=sys.stderr)
        sys.exit(3)
    env["DNX_PBT_REEXEC"] = "1"
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"     # never trust or write byte code next to the sources
REPO = os.environ.get("DNX_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
# Hypothesis comes from the preinstalled tooling environment (same Python 3.12)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from pbt import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:], HERE, REPO))
