#!/opt/venv/bin/python
"""Entry point:  run_check.py <property> [--tier quick|thorough] [--replay FILE]

exit 0  the property held on everything generated
exit 1  a "VIOLATION property=<id> replay=<path>" line was printed
exit 2  the check itself could not run (never a verdict about the code)
"""
import os
import sys

# A fixed environment: set before anything is imported (re-exec once).
_WANT = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}
_PY = "/opt/venv/bin/python"  # the interpreter EC-KitY is installed in
if (any(os.environ.get(k) != v for k, v in _WANT.items())
        or (os.path.exists(_PY) and sys.prefix != "/opt/venv")):
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, VERIF_REEXEC="1", **_WANT)
        py = _PY if os.path.exists(_PY) else sys.executable
        os.execve(py, [py, "-B"] + sys.argv, env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from lib import bootstrap  # noqa: E402  (puts /repo first and hypothesis last)
from lib import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
