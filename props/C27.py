"""C27  Saved and copied experiments behave like the original.

pickle / deepcopy round trips of algorithms (before, during and after a run)
and of individuals; oracle: the trajectory, genomes and results of the original,
and absence of shared mutable state."""
import contextlib
import logging
import os
import pickle
import re
import sys
import tempfile
from copy import copy, deepcopy

import numpy as np
from hypothesis import strategies as st

from eckity.base import typed_functions as tf
from eckity.base.types import t_argmax
from eckity.creators import FullCreator, GrowCreator
from eckity.fitness import GPFitness
from eckity.multi_objective_evolution import (MOEBestWorstStatistics,
                                              NSGA2Breeder)
from eckity.statistics import (BestAverageWorstStatistics,
                               MinimalPrintStatistics)
from eckity.statistics.best_avg_worst_size_tree_statistics import \
    BestAverageWorstSizeTreeStatistics

from lib.dom import (SEEDS, ending, Ev, Hist, genome, genomes, make_alg, make_tree_creator,
                     parse_all, run_st, same_traj, score_of, seed_all,
                     tree_sets, trajectory, treeset_st)
from lib.harness import Sub, require
from lib.load_child import check_elsewhere, elsewhere, job
from lib.moo import MooEv, MooHist, moo_alg, moo_run_st, moo_score


def through(how, x):
    if how == "deepcopy":
        return deepcopy(x)
    if how == "copy":      # sklearn-style: state handed over explicitly
        return pickle.loads(pickle.dumps(deepcopy(x)))
    return pickle.loads(pickle.dumps(x, protocol=int(how)))


HOW = st.sampled_from(["deepcopy", "deepcopy", "copy", "0", "2", "4", "5"])


class Snapshots:
    """pickles the algorithm after chosen generations (picklable itself)"""

    def __init__(self, at):
        self.at = at
        self.blobs = []

    def __call__(self, sender, data):
        if sender.generation_num == self.at and not self.blobs:
            self.blobs.append(pickle.dumps(sender))


class Heard:
    """a subscriber that can be pickled; all copies write to one log"""
    LOG = []

    def __init__(self, tag):
        self.tag = tag

    def __call__(self, sender, data):
        Heard.LOG.append((self.tag, sender.generation_num))


class Buf:
    """a stream that can be pickled with every protocol"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s


class Tell(logging.Handler):
    def __init__(self, lines):
        super().__init__()
        self.lines = lines

    def emit(self, record):
        self.lines.append(record.getMessage())


@contextlib.contextmanager
def output(lines):
    """collects what is logged and what is written to the standard output"""
    root = logging.getLogger()
    old, lvl, dis = root.handlers[:], root.level, logging.root.manager.disable
    root.handlers[:] = [Tell(lines)]
    root.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    sys.stdout.flush()
    sys.__stdout__.flush()
    keep = os.dup(1)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        try:
            yield
        finally:
            sys.stdout.flush()
            sys.__stdout__.flush()
            os.dup2(keep, 1)
            os.close(keep)
            logging.disable(dis)
            root.handlers[:] = old
            root.setLevel(lvl)
            f.seek(0)
            lines += f.read().decode().splitlines()


def heard_by(f, alg):
    del Heard.LOG[:]
    lines = []
    with output(lines):
        out = f()
    for x in alg.statistics:
        if isinstance(getattr(x, "output_stream", None), Buf):
            lines += x.output_stream.text.splitlines()
    # (functions are named after the id of the individual)
    return out, list(Heard.LOG), [re.sub(r"func_\d+", "func_", x)
                                  for x in lines]


def traj_of(r, moo, alg):
    if not moo:
        h = Hist(alg)
        alg.evolve()
        return trajectory(h, alg)
    h = MooHist(alg)
    alg.evolve()
    return {"gens": [[s["num"], 0, [list(map(str, g)) for g in s["genomes"]],
                      repr(s["fit"]), list(map(str, s["best"])),
                      repr([s["rank"], s["crowd"]])] for s in h.gens],
            "final": alg.final_generation_,
            "best": list(map(str, genome(alg.best_of_run_)))}


@st.composite
def alg_st(draw):
    moo = draw(st.integers(0, 3)) == 0
    return {"moo": draw(ending(moo_run_st(max_gens=3), 1)) if moo else None,
            "run": None if moo else draw(ending(run_st(
                max_gens=4, min_gens=1, max_pop=8), 1)),
            "how": draw(HOW),
            "when": draw(st.sampled_from(["before", "after", "during"])),
            "at": draw(st.integers(0, 4)), "noise": draw(SEEDS),
            "closure": draw(st.booleans()), "first": draw(st.booleans()),
            "subs": draw(st.lists(st.sampled_from(
                ["init", "after_generation", "after_generation",
                 "evolution_finished"]), max_size=5)),
            "gseed": draw(st.sampled_from([None, None, 0, 77, 2**32 - 1])),
            "stats": draw(st.lists(st.sampled_from(
                ["min", "moe", "moebuf"] if moo else ["min", "baw", "size"]),
                max_size=2)),
            "ex": draw(st.sampled_from(["thread"] * 19 + ["process"]))}


def mk_stats(case):
    tree = case["run"] and case["run"]["enc"] in ("tree", "ttree")
    out = []
    for k in case["stats"]:
        if k == "min":
            out.append(MinimalPrintStatistics())
        elif k == "moe":
            out.append(MOEBestWorstStatistics())
        elif k == "moebuf":
            out.append(MOEBestWorstStatistics(output_stream=Buf()))
        elif k == "size" and tree:
            out.append(BestAverageWorstSizeTreeStatistics())
        else:
            out.append(BestAverageWorstStatistics())
    return out


def mk(case):
    if case["moo"] is not None:
        r = case["moo"]
        return moo_alg(r, MooEv(r["eval"], r["m"], log=False),
                       executor=case["ex"], generation_seed=case["gseed"],
                       statistics=mk_stats(case))
    r = case["run"]
    return make_alg(r, Ev(r["eval"], log=False), executor=case["ex"],
                    generation_seed=case["gseed"], statistics=mk_stats(case))


def state(alg):
    sp = alg.population.sub_populations[0]
    inds = sp.individuals
    return {"genomes": None if inds is None else genomes(inds),
            "ids": None if inds is None else [i.id for i in inds],
            "best": None if alg.best_of_run_ is None else genome(
                alg.best_of_run_),
            "of gen": [genome(getattr(alg, k)) if hasattr(
                getattr(alg, k, None), "fitness") else None for k in ("best_of_gen", "worst_of_gen")],
            "seed": alg.random_seed, "gseed": alg.generation_seed,
            "num": alg.generation_num, "max": alg.max_generation,
            "final": alg.final_generation_, "workers": alg.max_workers,
            "executor": type(alg.executor).__name__,
            "parallel": getattr(alg.executor, "_max_workers", None),
            "statistics": [type(x).__name__ for x in alg.statistics],
            "size": sp.population_size, "elite": sp.n_elite,
            "hib": sp.higher_is_better}


def no_sharing(a, b):
    x, y = a.population, b.population
    require(x is not y and x.sub_populations[0] is not y.sub_populations[0],
            "the copy shares its population with the original")
    xs = x.sub_populations[0].individuals or []
    ys = y.sub_populations[0].individuals or []
    mine = {id(i) for i in xs} | {id(i.fitness) for i in xs}
    mine |= {id(getattr(i, "vector", None) or i.tree) for i in xs}
    if a.best_of_run_ is not None:
        mine.add(id(a.best_of_run_))
    theirs = list(ys) + [i.fitness for i in ys] + [
        getattr(i, "vector", None) or i.tree for i in ys]
    if b.best_of_run_ is not None:
        theirs.append(b.best_of_run_)
    require(not any(id(t) in mine for t in theirs),
            "the copy shares individuals with the original")


def heard_of(case, alg):
    return sum(max(1, alg.final_generation_) if e == "after_generation" else 1
               for e in case["subs"])


def alg_body(case, ctx):
    with output([]):
        alg_case(case, ctx)


def alg_case(case, ctx):
    moo = case["moo"] is not None
    r = case["moo"] if moo else case["run"]
    orig = mk(case)
    if case["when"] == "before":
        s0 = state(orig)
        heard = []
        closure = case["closure"] and case["how"] == "deepcopy"
        if closure:     # a local function cannot be pickled, but copied
            orig.register("after_generation",
                          lambda s, d: heard.append(d["generation_num"]))
            ctx.label("closure subscriber")
        for i, e in enumerate(case["subs"]):
            orig.register(e, Heard(i))
        c = through(case["how"], orig)
        require(state(c) == s0, "settings of the copy: %s, original %s",
                state(c), s0)
        no_sharing(orig, c)
        if case["first"]:
            t1, l1, o1 = heard_by(lambda: traj_of(r, moo, orig), orig)
            seed_all(case["noise"])
            t2, l2, o2 = heard_by(lambda: traj_of(r, moo, c), c)
        else:
            t2, l2, o2 = heard_by(lambda: traj_of(r, moo, c), c)
            require(state(orig) == s0, "running the copy changed the original")
            seed_all(case["noise"])
            t1, l1, o1 = heard_by(lambda: traj_of(r, moo, orig), orig)
        require(o1 == o2, "the copy reported %s, the original %s", o2, o1)
        require(l1 == l2, "the subscribers of the copy heard %s, those of the "
                "original %s", l2, l1)
        require(len(l1) == sum(
            max(1, orig.final_generation_) if e == "after_generation" else 1
            for e in case["subs"]), "subscribers heard %s", l1)
        same_traj(t1, t2, "original and copy")
        if closure:
            require(heard == list(range(1, orig.final_generation_ + 1)) * 2,
                    "a subscriber of both heard generations %s of two runs of "
                    "%s", heard, orig.final_generation_)
        no_sharing(orig, c)
    elif case["when"] == "after":
        t1 = traj_of(r, moo, orig)
        # recorders are closures over the original: not part of the experiment
        for e in orig.events.values():
            e.clear()
        for i, e in enumerate(case["subs"]):
            orig.register(e, Heard(i))
        s0 = state(orig)
        c = through(case["how"], orig)
        s1 = state(c)
        for k in s0:
            require(s0[k] == s1[k], "%s of the copy is %s, original %s", k,
                    s1[k], s0[k])
        no_sharing(orig, c)
        vecs = not hasattr(orig.best_of_run_, "tree")
        if vecs:
            require(list(c.execute()) == list(orig.execute()),
                    "the copy executes to %s", c.execute())
        # whether the fitness survives is decided by the cache flag
        for i, j in zip(orig.population.sub_populations[0].individuals,
                        c.population.sub_populations[0].individuals):
            require(j.fitness.is_fitness_evaluated() == i.fitness.cache,
                    "fitness evaluated: %s with cache %s",
                    j.fitness.is_fitness_evaluated(), i.fitness.cache)
            if moo and i.fitness.cache:
                require(i.fitness.front_rank == j.fitness.front_rank and
                        i.fitness.crowding == j.fitness.crowding, "rank of the "
                        "copy %s/%s, original %s/%s", j.fitness.front_rank,
                        j.fitness.crowding, i.fitness.front_rank,
                        i.fitness.crowding)
            require(i.fitness.is_fitness_evaluated(),
                    "copying invalidated the fitness of the original")
        seed_all(case["noise"])
        t2, l2, _ = heard_by(lambda: traj_of(r, moo, c), c)
        require(state(orig) == s0, "running the copy changed the original")
        t1, l1, _ = heard_by(lambda: traj_of(r, moo, orig), orig)
        same_traj(t1, t2, "original and copy, evolved further")
        require(l1 == l2, "the subscribers of the copy heard %s, those of the "
                "original %s", l2, l1)
        require(len(l2) == heard_of(case, c), "the subscribers of the copy "
                "heard %s", l2)
    else:
        ran = r.get("stop", r["gens"])
        at = case["at"] % ran + 1
        ref = traj_of(r, moo, orig)
        watched = mk(case)
        snap = Snapshots(at)
        watched.register("after_generation", snap)
        for i, e in enumerate(case["subs"]):
            watched.register(e, Heard(i))
        got = traj_of_picklable(watched)
        require(len(snap.blobs) == 1, "no snapshot taken")
        require(got == ref["gens"][-1][2], "taking a snapshot changed the run")
        c = pickle.loads(snap.blobs[0])
        want = [g for g in ref["gens"] if g[0] == at][0]
        require([list(map(str, g)) for g in state(c)["genomes"]] == want[2],
                "the snapshot of generation %d has another population", at)
        require(state(c)["num"] == at, "generation number of the snapshot")
        if not moo:
            require(state(c)["gseed"] == want[1], "generation seed of the "
                    "snapshot")
            require(list(map(str, state(c)["best"])) == want[4],
                    "best of run of the snapshot")
        _, heard, _ = heard_by(c.evolve, c)
        require(c.final_generation_ == ran, "the snapshot cannot run")
        require(len(heard) == heard_of(case, c), "the subscribers of the "
                "snapshot heard %s", heard)
    ctx.label("when:" + case["when"], "how:" + case["how"], case["ex"],
              *("stat:" + k for k in case["stats"]),
              "moo" if moo else "enc:" + r["enc"])
    ctx.nontrivial()


def traj_of_picklable(alg):
    """final genomes, without registering anything that cannot be pickled"""
    alg.evolve()
    return [list(map(str, genome(i)))
            for i in alg.population.sub_populations[0].individuals]


# ------------------------------------------------------------ another process
def else_body(case, ctx):
    """saved here, loaded and evolved in a fresh interpreter"""
    jobs = []
    for c in case["algs"]:
        moo = c["moo"] is not None
        r = c["moo"] if moo else c["run"]
        alg = mk(dict(c, ex="thread", stats=[]))
        if c["when"] == "before":
            blob = pickle.dumps(alg, protocol=c["at"] % 5 + 1)
        elif c["when"] == "after":
            alg.evolve()
            blob = pickle.dumps(alg, protocol=c["at"] % 5 + 1)
        else:
            snap = Snapshots(c["at"] % r.get("stop", r["gens"]) + 1)
            alg.register("after_generation", snap)
            alg.evolve()
            blob = snap.blobs[0]
        jobs.append(("alg", moo, blob))
        ctx.label("when:" + c["when"], "moo" if moo else "enc:" + r["enc"])
    there = elsewhere(jobs, case["hs"], case["noise"])
    for c, j, x in zip(case["algs"], jobs, there):
        seed_all(case["noise"])
        check_elsewhere(job(*j), x, "%s the run saved, evolved in a fresh "
                        "interpreter" % c["when"])
    ctx.nontrivial()
    ctx.evals(len(jobs))


# ------------------------------------------------------------------ individuals
@st.composite
def ind_st(draw):
    kind = draw(st.sampled_from(["tree", "tree", "argmax"]))
    return {"kind": kind, "sets": draw(treeset_st()), "seed": draw(SEEDS),
            "how": draw(HOW), "f": draw(st.sampled_from([None, 1.5, 0.0, -2.0])),
            "cache": draw(st.booleans()), "bw": draw(st.sampled_from([0.0, 0.5])),
            "rows": draw(st.integers(1, 4)), "times": draw(st.integers(1, 3)),
            "full": draw(st.booleans())}


def ind_body(case, ctx):
    seed_all(case["seed"])
    if case["kind"] == "argmax":
        cls = FullCreator if case["full"] else GrowCreator
        cr = cls(init_depth=(1, 2),
                 function_set=[tf.argmax2floats, tf.add2floats, tf.mul2floats],
                 terminal_set={"x0": float, "x1": float}, root_type=t_argmax)
        names = ["x0", "x1"]
    else:
        cr = make_tree_creator("full" if case["full"] else "grow", case["sets"],
                               init_depth=(1, 2))
        names = [t for t in tree_sets(case["sets"])["terminal_set"]
                 if isinstance(t, str)]
    ind = cr.create_individuals(1, True)[0]
    ind.fitness = GPFitness(case["f"], True, case["cache"], False, case["bw"])
    env = {}
    types = tree_sets(case["sets"])["terminal_set"] if (
        case["kind"] == "tree") else None
    for n in names:
        t = types[n] if isinstance(types, dict) else float
        v = np.random.randint(-4, 5, case["rows"]) / 2
        env[n] = (float(v[0]) if t is float else int(v[0]) if t is int
                  else bool(v[0] > 0)) if isinstance(types, dict) else v
    cur = ind
    want = ind.execute(**env)
    for _ in range(case["times"]):
        c = through(case["how"], cur)
        require(genome(c) == genome(ind), "genome of the copy: %s, original %s",
                genome(c), genome(ind))
        require(str(c) == str(ind), "text of the copy: %s", c)
        require(c.root_type is ind.root_type and c.id == ind.id
                and c.size() == ind.size() and c.depth() == ind.depth(),
                "the copy differs in a property")
        require([f.__name__ for f in c.function_set]
                == [f.__name__ for f in ind.function_set]
                and list(c.terminal_set.items()) == list(
                    ind.terminal_set.items())
                and c.erc_range == ind.erc_range, "sets of the copy differ")
        got = c.execute(**env)
        require(np.array_equal(np.asarray(got, dtype=float),
                               np.asarray(want, dtype=float), equal_nan=True),
                "the copy executes to %r, original %r", got, want)
        ev = case["f"] is not None and case["cache"]
        require(c.fitness.is_fitness_evaluated() == ev, "fitness evaluated: %s",
                c.fitness.is_fitness_evaluated())
        if ev:
            require(c.get_pure_fitness() == case["f"]
                    and c.get_augmented_fitness() == case["f"]
                    - case["bw"] * c.size(), "fitness of the copy")
        require(not {id(n) for n in c.tree} & {id(n) for n in cur.tree}
                and c.fitness is not cur.fitness, "the copy shares state")
        cur = c
    ctx.label("kind:" + case["kind"], "how:" + case["how"])
    ctx.nontrivial(ind.size() > 2)


SUBS = [
    Sub("algorithm", alg_st, alg_body, 1500, 25000, "every case runs an "
        "algorithm and its copy"),
    Sub("individual", ind_st, ind_body, 1500, 30000,
        "trees of more than two nodes"),
    Sub("elsewhere", lambda: st.fixed_dictionaries({
        "algs": st.lists(alg_st(), min_size=10, max_size=10),
        "noise": SEEDS, "hs": st.integers(0, 1000)}), else_body, 24, 400,
        "always (10 experiments per case, continued in a fresh interpreter)",
        chunk=3),
]
ASSUMPTIONS = ["the user's own parts (evaluator, subscribers) can be pickled",
               "a fitness survives a round trip exactly when its cache flag is "
               "set"]
