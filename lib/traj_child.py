"""Child process of the cross-process reproducibility check: reads run specs
from stdin, writes their trajectories to stdout."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import bootstrap  # noqa: E402,F401
from lib import dom, moo  # noqa: E402

noise = int(sys.argv[1])
junk = [object() for _ in range(noise)]  # different memory layout
out = []
for kind, r in json.load(sys.stdin):
    dom.seed_all(noise)
    out.append(dom.run_traj(r) if kind == "simple" else moo.moo_traj(r))
real = os.fdopen(1, "w")
json.dump(out, real)
real.flush()
