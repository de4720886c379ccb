"""A run resumed from a saved population and generation seed continues as the
uninterrupted run did."""
import json
import pickle
from copy import deepcopy

from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require
from lib.moo import MooHist, moo_alg, moo_run_st, moo_traj_of
from lib.load_child import check_elsewhere, elsewhere, job


def body(case, ctx):
    r = case["run"]
    ref = make_alg(r)
    h = Hist(ref)
    saved = {}

    def save(sender, data):
        if sender.generation_num == case["at"] % (r["gens"] + 1):
            inds = sender.population.sub_populations[0].individuals
            saved["inds"] = (pickle.loads(pickle.dumps(inds)) if case["pickle"]
                             else deepcopy(inds))
            saved["gseed"] = sender.generation_seed
            saved["num"] = sender.generation_num

    ref.register("init", save)
    ref.register("after_generation", save)
    ref.evolve()
    at = saved["num"]
    want = trajectory(h, ref)["gens"][at:]
    seed_all(case["noise"])
    alg = make_alg(dict(r, gens=r["gens"] - at, seed=case["noise"] % 2**32),
                   individuals=saved["inds"], generation_seed=saved["gseed"])
    h2 = Hist(alg)
    alg.evolve()
    got = trajectory(h2, alg)["gens"]
    require(len(got) == len(want), "resumed run has %d generations, expected %d",
            len(got), len(want))
    for g, (x, y) in enumerate(zip(want, got)):
        require(x[1] == y[1], "resumed at %d: generation seed %s vs %s after %d "
                "generations", at, x[1], y[1], g)
        require(x[2] == y[2], "resumed at %d: genomes differ %d generations later",
                at, g)
        require(x[3] == y[3], "resumed at %d: fitness differs %d generations "
                "later", at, g)
    run_labels(ctx, r)
    ctx.label("at=0" if at == 0 else "at=last" if at == r["gens"] else "at=mid")
    ctx.nontrivial(len(want) > 1 and len({str(w[2]) for w in want}) > 1)
    ctx.evals(len(want))


def moo_body(case, ctx):
    """multi-objective runs; the saved individuals may still be evaluated"""
    r = case["run"]
    ref = moo_alg(r)
    h = MooHist(ref)
    seeds, saved = [], {}

    def save(sender, data):
        num = sender.generation_num
        seeds.append(sender.generation_seed)
        if num == case["at"] % (r["gens"] + 1):
            inds = sender.population.sub_populations[0].individuals
            if case["cache"]:
                for i in inds:
                    i.fitness.cache = True
            saved["inds"] = (pickle.loads(pickle.dumps(inds)) if case["pickle"]
                             else deepcopy(inds))
            for i in inds:
                i.fitness.cache = False
            saved["gseed"], saved["num"] = sender.generation_seed, num

    ref.register("init", save)
    ref.register("after_generation", save)
    ref.evolve()
    at = saved["num"]
    seed_all(case["noise"])
    alg = moo_alg(dict(r, gens=r["gens"] - at, seed=case["noise"] % 2**32),
                  individuals=saved["inds"], generation_seed=saved["gseed"])
    h2 = MooHist(alg)
    seeds2 = []
    alg.register("after_generation",
                 lambda s, d: seeds2.append(s.generation_seed))
    alg.evolve()
    require(seeds2 == seeds[at + 1:], "resumed at %d: generation seeds %s, "
            "expected %s", at, seeds2, seeds[at + 1:])
    want = moo_traj_of(h, ref)["gens"][at:]
    got = moo_traj_of(h2, alg)["gens"]
    require([g[1:] for g in got] == [g[1:] for g in want], "the multi-objective "
            "run resumed at %d is another one: %s, expected %s", at,
            [g[1:] for g in got], [g[1:] for g in want])
    ctx.label("enc:" + r["enc"], "still evaluated" if case["cache"] else
              "unevaluated", "at=0" if not at else "at>0")
    ctx.nontrivial(len({str(w[2]) for w in want}) > 1)
    ctx.evals(len(want))


def else_body(case, ctx):
    """resumed in another process, from what was written to a file"""
    jobs, tails = [], []
    for r, at in zip(case["runs"], case["at"]):
        ref = make_alg(r)
        h = Hist(ref)
        saved = {}

        def save(sender, data):
            if sender.generation_num == at % (r["gens"] + 1):
                saved["blob"] = pickle.dumps(
                    sender.population.sub_populations[0].individuals)
                saved["gseed"] = sender.generation_seed
                saved["num"] = sender.generation_num

        ref.register("init", save)
        ref.register("after_generation", save)
        ref.evolve()
        tails.append(trajectory(h, ref)["gens"][saved["num"]:])
        jobs.append(("resume", (dict(r, gens=r["gens"] - saved["num"],
                                     seed=case["noise"] % 2**32),
                                {"generation_seed": saved["gseed"]}),
                     saved["blob"]))
    there = elsewhere(jobs, case["hs"], case["noise"])
    for r, want, j, x in zip(case["runs"], tails, jobs, there):
        seed_all(case["noise"])
        check_elsewhere(job(*j), x, "resumed in a fresh interpreter")
        got = x["traj"]["gens"]
        want = json.loads(json.dumps(want))
        require([g[1:4] for g in got] == [g[1:4] for g in want], "the run "
                "resumed in a fresh interpreter is another one: %s, expected "
                "%s", [g[1:4] for g in got], [g[1:4] for g in want])
        run_labels(ctx, r)
        ctx.nontrivial(len({str(w[2]) for w in want}) > 1)
    ctx.evals(sum(map(len, tails)))


def batch(n):
    return st.fixed_dictionaries({
        "runs": st.lists(run_st(max_gens=5, min_gens=1, max_pop=10), min_size=n,
                         max_size=n),
        "at": st.lists(st.integers(0, 5), min_size=n, max_size=n),
        "noise": SEEDS, "hs": st.integers(0, 1000)})


SUBS = [Sub("resume", lambda: st.fixed_dictionaries({
    "run": run_st(max_gens=6, min_gens=1, max_pop=10),
    "at": st.integers(0, 6), "noise": SEEDS, "pickle": st.booleans()}),
    body, 2500, 40000,
    "the resumed part changed the population"),
    Sub("moo", lambda: st.fixed_dictionaries({
        "run": moo_run_st(max_gens=5, max_pop=10, trees=True),
        "at": st.integers(0, 5), "noise": SEEDS, "pickle": st.booleans(),
        "cache": st.booleans()}), moo_body, 500, 8000,
        "the resumed part changed the population"),
    Sub("elsewhere", lambda: batch(12), else_body, 24, 400,
        "the resumed part changed the population (12 runs per case, continued "
        "in a fresh interpreter)", chunk=3)]
ASSUMPTIONS = ["runs without stateful termination checkers"]
