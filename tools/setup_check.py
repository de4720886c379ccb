"""Nothing has to be built: checks that the tools and the code can be imported."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import bootstrap  # noqa: E402,F401
import hypothesis  # noqa: E402
import eckity  # noqa: E402

print("hypothesis", hypothesis.__version__, "eckity from", eckity.__path__)
