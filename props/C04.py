"""Same seed, same run."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from eckity.statistics import BestAverageWorstStatistics
from lib.bootstrap import VERIF
from lib.dom import *  # noqa: F403
from lib.moo import MooHist, moo_alg, moo_run_st, moo_traj, moo_traj_of
from lib.harness import HarnessError, Sub, require


def disturb(noise):
    """ambient state a run must not depend on"""
    seed_all(noise)
    for _ in range(noise % 5):
        random.random()
        np.random.rand()
    # earlier individuals move the id counter
    for _ in range(noise % 7):
        IntVector(SimpleFitness(), 1)


def body_same(case, ctx):
    r = case["run"]
    disturb(case["n1"])
    a = run_traj(r)
    disturb(case["n2"])
    if case["between"]:
        run_traj(dict(case["run"], seed=case["n2"] % 2**32, gens=1))
    disturb(case["n2"])
    b = run_traj(r, statistics=[BestAverageWorstStatistics()]
                 if case["stats"] else [])
    same_traj(a, b, "two runs with seed %d" % r["seed"])
    run_labels(ctx, r)
    ctx.nontrivial(len({str(g[2]) for g in a["gens"]}) > 1)


def body_moo(case, ctx):
    r = case["run"]
    disturb(case["n1"])
    a = moo_traj(r)
    disturb(case["n2"])
    b = moo_traj(r)
    same_traj(a, b, "two NSGA-II runs with seed %d" % r["seed"])
    ctx.nontrivial(len({str(g[2]) for g in a["gens"]}) > 1)


def body_default(r, ctx):
    """a run without a given seed can be repeated with the seed it reports"""
    r = dict(r)
    alg = make_alg(r, random_seed=None)
    used = alg.random_seed
    require(isinstance(used, int) and 0 <= used < 2**32,
            "reported seed %r", used)
    h = Hist(alg)
    alg.evolve()
    require(alg.random_seed == used, "seed changed from %r to %r", used,
            alg.random_seed)
    a = trajectory(h, alg)
    disturb(r["seed"])
    b = run_traj(dict(r, seed=used))
    same_traj(a, b, "run with reported seed")
    ctx.nontrivial(len({str(g[2]) for g in a["gens"]}) > 1)


def body_proc(case, ctx):
    """the same runs in fresh interpreters with other hash seeds"""
    specs = [["simple", r] for r in case["runs"]] + \
            [["moo", r] for r in case["moo"]]
    outs = []
    for hs, noise in ((str(case["hs"][0]), 0), (str(case["hs"][1]), 12345)):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run(
            [sys.executable, "-B", os.path.join(VERIF, "lib", "traj_child.py"),
             str(noise)],
            input=json.dumps(specs), capture_output=True, text=True, env=env)
        if p.returncode:
            raise Violation("run in a fresh interpreter failed: "
                            + p.stderr[-800:])
        outs.append(json.loads(p.stdout[p.stdout.index('[{'):]))
    here = [json.loads(json.dumps(run_traj(r) if k == "simple" else moo_traj(r)))
            for k, r in specs]
    for (k, r), x, y, z in zip(specs, here, outs[0], outs[1]):
        same_traj(y, z, "two interpreters, %s run" % k)
        same_traj(x, y, "this and a fresh interpreter, %s run" % k)
        ctx.nontrivial(len({str(g[2]) for g in x["gens"]}) > 1)
    ctx.evals(3 * len(specs))


@st.composite
def nested_st(draw):
    def one():
        if draw(st.booleans()):
            return ["moo", draw(moo_run_st(max_gens=3, max_pop=8))]
        return ["simple", dict(draw(run_st(max_gens=4, max_pop=8, min_gens=1)),
                               defaults=True)]
    return {"outer": one(), "inner": one(), "at": draw(st.integers(0, 3)),
            "twice": draw(st.booleans())}


def build_default(k, r):
    return make_alg(r) if k == "simple" else moo_alg(r, default_breeder=True)


def traj_default(k, r, alg=None):
    alg = build_default(k, r) if alg is None else alg
    h = Hist(alg) if k == "simple" else MooHist(alg)
    alg.evolve()
    return trajectory(h, alg) if k == "simple" else moo_traj_of(h, alg)


def body_nested(case, ctx):
    """an experiment that runs while another one is between two generations"""
    (ok, outer), (ik, inner) = case["outer"], case["inner"]
    alone = traj_default(ok, outer), traj_default(ik, inner)
    alg = build_default(ok, outer)
    other = build_default(ik, inner) if case["twice"] else None
    at = case["at"] % (outer["gens"] + 1)
    got = []

    def interrupt(sender, data):
        if alg.generation_num == at and not got:
            got.append(traj_default(ik, inner, other))

    alg.register("after_generation" if at else "init", interrupt)
    mine = traj_default(ok, outer, alg)
    require(len(got) == 1, "the inner run did not take place")
    same_traj(alone[0], mine, "a run, and the same with another one in between")
    same_traj(alone[1], got[0], "a run, and the same within another one")
    ctx.label("%s in %s" % (ik, ok), "at:init" if not at else "at:generation")
    ctx.nontrivial(len({str(g[2]) for g in mine["gens"]}) > 1)


@st.composite
def same_st(draw):
    return {"run": draw(ending(run_st(max_gens=4, max_pop=10))),
            "n1": draw(st.integers(0, 2**31)), "n2": draw(st.integers(0, 2**31)),
            "between": draw(st.booleans()), "stats": draw(st.booleans())}


SUBS = [
    Sub("proc", lambda: st.fixed_dictionaries({
        "runs": st.lists(run_st(max_gens=3, max_pop=8), min_size=15, max_size=15),
        "moo": st.lists(moo_run_st(max_gens=4, max_pop=12), min_size=15, max_size=15),
        "hs": st.lists(st.integers(1, 10**6), min_size=2, max_size=2)}),
        body_proc, 32, 400, "a run of the batch changed its population",
        shards=8, chunk=4),
    Sub("same", same_st, body_same, 1600, 30000,
        "the population changed during the run"),
    Sub("nsga2", lambda: st.fixed_dictionaries({
        "run": ending(moo_run_st()), "n1": st.integers(0, 2**31),
        "n2": st.integers(0, 2**31)}), body_moo, 800, 10000,
        "the population changed during the run"),
    Sub("nested", nested_st, body_nested, 600, 10000,
        "the population changed during the outer run"),
    Sub("default_seed", lambda: ending(run_st(max_gens=3, max_pop=8)), body_default,
        400, 5000, "the population changed during the run"),
]
ASSUMPTIONS = ["evaluators are deterministic and draw no random numbers"]
