"""C28  Fitness is computed where, and as much in parallel, as was asked for.

An evaluator that writes down where it runs (process, thread) and when each
evaluation starts and ends; evaluations meet in groups, so that the recorded
history shows how many can be under way at once."""
import fcntl
import multiprocessing
import os
import pickle
import shutil
import tempfile
import threading
import time
from copy import deepcopy

from hypothesis import strategies as st

from eckity.evaluators import SimpleIndividualEvaluator
from eckity.evaluators.simple_population_evaluator import \
    SimplePopulationEvaluator

from lib.dom import ending, make_alg, run_st, score_of
from lib.harness import Sub, require
from lib.moo import moo_alg, moo_run_st, moo_score

WAIT = 20.0


class Diary:
    """lines in a file, written by any thread of any process"""

    def __init__(self, path):
        self.path = path

    def add(self, what):
        """appends a line; returns the number of lines of that kind before"""
        fd = os.open(self.path, os.O_RDWR | os.O_APPEND | os.O_CREAT)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX)
            data = os.pread(fd, 1 << 24, 0)
            os.write(fd, b"%s %d %d\n" % (what, os.getpid(),
                                          threading.get_ident()))
            return sum(ln.startswith(what) for ln in data.splitlines())
        finally:
            os.close(fd)      # releases the lock

    def count(self, what):
        with open(self.path, "rb") as f:
            return sum(ln.startswith(what) for ln in f)

    def lines(self):
        if not os.path.exists(self.path):
            return []
        with open(self.path) as f:
            out = [ln.split() for ln in f]
        return [(a, int(p), int(t)) for a, p, t in out]


class WhereEv(SimpleIndividualEvaluator):
    def __init__(self, path, kind, m, group):
        super().__init__()
        self.path, self.kind, self.m, self.group = path, kind, m, group

    def evaluate_individual(self, individual):
        d = Diary(self.path)
        n = d.add(b"+")
        if self.group > 1:
            # wait until the others of this group have started
            want = (n // self.group + 1) * self.group
            end = time.time() + WAIT
            while d.count(b"+") < want:
                if d.count(b"!") or time.time() > end:
                    d.add(b"!")
                    break
                time.sleep(0.001)
        else:
            time.sleep(0.002)
        d.add(b"-")
        if self.m:
            return moo_score(self.kind, self.m, individual)
        return score_of(self.kind, individual)


class Here:
    """a subscriber that tells where it was called (can be pickled)"""
    SEEN = []

    def __call__(self, sender, data):
        Here.SEEN.append((os.getpid(), threading.get_ident()))


@st.composite
def case_st(draw):
    moo = draw(st.integers(0, 3)) == 0
    group = draw(st.sampled_from([1, 2, 2, 3, 4]))
    r = draw(ending(moo_run_st(max_gens=2, max_pop=8), 1) if moo else
             ending(run_st(max_gens=2, min_gens=1, max_pop=8, min_pop=2,
                           big=False), 1))
    return {"moo": moo, "run": r, "group": group,
            "ex": draw(st.sampled_from(["thread", "thread", "process"])),
            "extra": draw(st.integers(0, 2)),
            "method": draw(st.sampled_from(["map", "submit"])),
            "again": draw(st.lists(st.sampled_from(
                ["evolve", "pickle", "deepcopy"]), max_size=2))}


def body(case, ctx):
    d = tempfile.mkdtemp(prefix="verif-c28-")
    try:
        where(case, ctx, os.path.join(d, "diary"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def others():
    return {t.ident for t in threading.enumerate()}, {
        p.pid for p in multiprocessing.active_children()}


def where(case, ctx, path):
    r = dict(case["run"])
    n = r["pop"]
    # groups that divide the population always fill up
    g = max(k for k in range(1, case["group"] + 1) if n % k == 0)
    r["workers"] = workers = g + case["extra"] if n > 1 else 1
    kw = dict(executor=case["ex"],
              population_evaluator=SimplePopulationEvaluator(case["method"]))
    make = moo_alg if case["moo"] else make_alg
    alg = make(r, WhereEv(path, r["eval"], r.get("m", 0) if case["moo"] else 0,
                          g), **kw)
    me = os.getpid(), threading.get_ident()
    for e in ("init", "after_generation", "evolution_finished"):
        alg.register(e, Here())
    for k, how in enumerate(["evolve"] + case["again"]):
        if how == "pickle":
            alg = pickle.loads(pickle.dumps(alg))
        elif how == "deepcopy":
            alg = deepcopy(alg)
        before = others()
        del Here.SEEN[:]
        if os.path.exists(path):
            os.unlink(path)
        alg.evolve()
        what = "%s, %s executor, %s, %d workers" % (
            "evolved again after " + how if k else "run", case["ex"],
            case["method"], workers)
        lines = Diary(path).lines()
        require(lines, "%s: nothing was evaluated", what)
        require(all(a != "!" for a, _, _ in lines), "%s: of %d evaluations "
                "that wait for each other, not all start", what, g)
        for a, pid, tid in lines:
            if case["ex"] == "process":
                require(pid != me[0], "%s: fitness was computed in the process "
                        "that evolves", what)
            else:
                require(pid == me[0], "%s: fitness was computed in another "
                        "process", what)
        active = peak = 0
        for a, _, _ in lines:
            active += {"+": 1, "-": -1}[a]
            peak = max(peak, active)
        require(active == 0, "%s: %d evaluations did not end before the run",
                what, active)
        require(peak <= workers, "%s: %d evaluations at once", what, peak)
        require(peak >= g, "%s: at most %d evaluations at once, %d expected",
                what, peak, g)
        require(len(Here.SEEN) >= 2 and all(x == me for x in Here.SEEN),
                "%s: subscribers were called in another thread", what)
        after = others()
        require(after[0] <= before[0], "%s: %d threads are left behind", what,
                len(after[0] - before[0]))
        require(after[1] <= before[1], "%s: %d processes are left behind", what,
                len(after[1] - before[1]))
        ctx.label("%s/%s" % (case["ex"], how))
    ctx.label("at once:%d" % g, "nsga2" if case["moo"] else "simple")
    ctx.nontrivial(g > 1)
    ctx.evals(1 + len(case["again"]))


SUBS = [Sub("where", case_st, body, 480, 6000,
            "evaluations had to be under way at the same time", chunk=20)]
ASSUMPTIONS = ["an executor starts as many workers as it may when there is "
               "enough to do"]
