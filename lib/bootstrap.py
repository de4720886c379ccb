"""sys.path set-up: the code under test comes from /repo's working tree,
hypothesis from wherever this sandbox has it (appended last, so that it never
shadows a package of the interpreter EC-KitY is installed for)."""
import glob
import importlib.util
import logging
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def _find_hypothesis():
    if importlib.util.find_spec("hypothesis") is not None:
        return
    ver = "python%d.%d" % sys.version_info[:2]
    for p in (
        "/opt/veriftools/pyvenv/lib/%s/site-packages" % ver,
        *sorted(glob.glob("/opt/veriftools/*/lib/%s/site-packages" % ver)),
    ):
        if os.path.isdir(os.path.join(p, "hypothesis")):
            sys.path.append(p)
            return
    # last resort: unpack the wheels into a scratch directory
    import subprocess
    import tempfile

    d = os.path.join(tempfile.gettempdir(), "verif-hypothesis-%d" % os.getuid())
    if not os.path.isdir(os.path.join(d, "hypothesis")):
        subprocess.check_call(
            [sys.executable, "-m", "pip", "install", "-q", "--no-index",
             "--find-links", "/opt/veriftools/wheels", "--target", d,
             "hypothesis"]
        )
    sys.path.append(d)


_find_hypothesis()
logging.disable(logging.CRITICAL)
