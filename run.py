"""Entry point of every check:  run.py <property-id> [--tier quick|thorough] [--replay FILE]

Re-executes itself with the interpreter the project is installed in and a
pinned environment, makes Hypothesis importable (offline, from the wheelhouse)
and hands over to vp.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
PIN = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "POLARS_MAX_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
    "VP_PINNED": "1",
}
if os.environ.get("VP_PINNED") != "1":
    env = dict(os.environ)
    env.update(PIN)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vp import bootstrap  # noqa: E402

bootstrap.prepare(HERE)
if sys.argv[1:] == ["--setup"]:
    print("ready")
    sys.exit(0)
from vp import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
