"""Executor choice does not influence the result."""
import os
import tempfile

from copy import deepcopy

from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require
from lib.moo import MooEv, MooHist, moo_alg, moo_run_st, moo_traj, moo_traj_of


def body(case, ctx):
    r = case["run"]
    ref = run_traj(dict(r, executor="thread", workers=1, method="map"),
                   Ev(r["eval"]))
    for v in case["variants"]:
        ev = Ev(r["eval"], delay=v["delay"], log=v["executor"] == "thread")
        t = run_traj(dict(r, executor=v["executor"], workers=v["workers"],
                          method=v["method"]), ev)
        same_traj(ref, t, "thread/1/map vs %s/%s/%s%s" % (
            v["executor"], v["workers"], v["method"],
            " with delays" if v["delay"] else ""))
        ctx.label("%s/%s" % (v["executor"], v["method"]))
    run_labels(ctx, r)
    ctx.nontrivial(len({str(g[2]) for g in ref["gens"]}) > 1
                   and any(len(set(g[3])) > 1 for g in ref["gens"]))
    ctx.evals(len(case["variants"]))


def body_eval(case, ctx):
    """one population evaluation: every individual gets its own score, once,
    and the returned individual is the best"""
    r = case["run"]
    seed_all(r["seed"])
    v = case["variant"]
    scratch = None
    if v["executor"] != "thread":
        fd, scratch = tempfile.mkstemp(prefix="verif-c05-")
        os.close(fd)
    try:
        _eval(case, ctx, r, v, scratch)
    finally:
        if scratch:
            os.unlink(scratch)


def _eval(case, ctx, r, v, scratch):
    from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
    from eckity.population import Population

    ev = Ev(r["eval"], delay=v["delay"], log=scratch is None, logfile=scratch)
    sp = make_subpop(r, ev)
    sp.create_subpopulation_individuals()
    inds = list(sp.individuals)
    before = genomes(inds)
    pe = SimplePopulationEvaluator(v["method"])
    cls = ThreadPoolExecutor if v["executor"] == "thread" else ProcessPoolExecutor
    with cls(max_workers=v["workers"]) as ex:
        pe.set_executor(ex)
        best = pe.act(Population([sp]))
    require(len(sp.individuals) == len(inds) and all(
        a is b for a, b in zip(sp.individuals, inds)), "population replaced")
    require(genomes(inds) == before, "evaluation changed a genome")
    vals = []
    for i in inds:
        want = score_of(r["eval"], i)
        require(i.get_pure_fitness() == want, "fitness %r, expected %r",
                i.get_pure_fitness(), want)
        vals.append(aug(r, want, i))
    require(any(best is i for i in inds), "result is not in the population")
    require(aug(r, score_of(r["eval"], best), best) == best_of(r, vals),
            "result is not the best individual")
    called = ([c[0] for c in ev.calls] if scratch is None
              else [int(x) for x in open(scratch)])
    require(sorted(called) == sorted(i.id for i in inds),
            "individuals evaluated: %s, expected each of %s once",
            sorted(called), sorted(i.id for i in inds))
    ctx.label("%s/%s" % (v["executor"], v["method"]))
    ctx.nontrivial(len(set(vals)) > 1)


def body_moo(case, ctx):
    r = case["run"]
    ref = moo_traj(dict(r, workers=1), executor="thread",
                   population_evaluator=SimplePopulationEvaluator("map"))
    for v in case["variants"]:
        t = moo_traj(dict(r, workers=v["workers"]),
                     MooEv(r["eval"], r["m"], log=False, delay=v["delay"]),
                     executor=v["executor"],
                     population_evaluator=SimplePopulationEvaluator(v["method"]))
        same_traj(ref, t, "NSGA-II, thread/1/map vs %s/%s/%s%s" % (
            v["executor"], v["workers"], v["method"],
            " with delays" if v["delay"] else ""))
        ctx.label("%s/%s" % (v["executor"], v["method"]))
    ctx.nontrivial(len({str(g[2]) for g in ref["gens"]}) > 1)
    ctx.evals(len(case["variants"]))


class EvalError(Exception):
    """an error of the user's fitness function"""


ERRORS = {e.__name__: e for e in (
    EvalError, ValueError, TypeError, KeyError, ZeroDivisionError, OSError,
    TimeoutError, RuntimeError, ArithmeticError, AttributeError,
    NotImplementedError, MemoryError, AssertionError)}
KINDS = st.one_of(st.just("EvalError"), st.sampled_from(sorted(ERRORS)))


class FailingEv(Ev):
    def __init__(self, kind, bad, delay=None, error="EvalError"):
        super().__init__(kind, delay=delay, log=False)
        self.bad, self.error = set(bad), error

    def evaluate_individual(self, individual):
        s = super().evaluate_individual(individual)
        h = ghash(genome(individual))
        if h in self.bad:
            raise ERRORS[self.error](h)
        return s


class FailingMooEv(MooEv):
    def __init__(self, kind, m, bad, delay=False, error="EvalError"):
        super().__init__(kind, m, log=False, delay=delay)
        self.bad, self.error = set(bad), error

    def evaluate_individual(self, individual):
        s = super().evaluate_individual(individual)
        h = ghash(genome(individual))
        if h in self.bad:
            raise ERRORS[self.error](h)
        return s


def body_moo_failing(case, ctx):
    """likewise in multi-objective runs, whose parents are evaluated again"""
    r, v = case["run"], case["variant"]
    ev = MooEv(r["eval"], r["m"])
    alg = moo_alg(dict(r, workers=1), ev, executor="thread",
                  population_evaluator=SimplePopulationEvaluator("map"))
    upto = []
    alg.register("after_generation", lambda s, d: upto.append(len(ev.calls)))
    h = MooHist(alg)
    alg.evolve()
    ref = moo_traj_of(h, alg)["gens"]
    called = [ghash(g) for g, _ in ev.calls]
    bad = {called[int(b * (len(called) - 1))] for b in case["bad"]}
    k = next(i for i, x in enumerate(called) if x in bad)
    done = sum(u <= k for u in upto)
    alg = moo_alg(dict(r, workers=v["workers"]), FailingMooEv(
        r["eval"], r["m"], bad, v["delay"], case["error"]),
        executor=v["executor"],
        population_evaluator=SimplePopulationEvaluator(v["method"]))
    h = MooHist(alg)
    try:
        alg.evolve()
    except Exception as e:
        require(type(e) is ERRORS[case["error"]] and e.args
                and e.args[0] in bad, "the fitness function raised %s, evolve() "
                "raised %r", case["error"], e)
    else:
        require(False, "the fitness function failed after generation %d, yet "
                "the run went on", done)
    got = [[s["num"], 0, [list(map(str, g)) for g in s["genomes"]],
            repr(s["fit"]), list(map(str, s["best"])),
            repr([s["rank"], s["crowd"]])] for s in h.gens]
    require(got == ref[:done], "the generations before the failing one differ "
            "from those of a run that does not fail (%d of %d reported)",
            len(got), done)
    alg.population.sub_populations[0].evaluator.bad.clear()
    left = deepcopy(alg.population.sub_populations[0].individuals)
    gseed = alg.generation_seed
    h = MooHist(alg)
    alg.evolve()
    again = moo_alg(dict(r, workers=1), MooEv(r["eval"], r["m"]),
                    individuals=left, generation_seed=gseed, executor="thread")
    h2 = MooHist(again)
    again.evolve()
    same_traj(moo_traj_of(h2, again), moo_traj_of(h, alg), "evolved again "
              "after an evaluation failed")
    ctx.label("%s/%s" % (v["executor"], v["method"]), case["error"])
    ctx.nontrivial(done > 0)


def body_failing(case, ctx):
    """the fitness function cannot handle some genomes"""
    r, v = case["run"], case["variant"]
    alg = make_alg(dict(r, executor="thread", workers=1, method="map"),
                   Ev(r["eval"]))
    h = Hist(alg)
    alg.evolve()
    ref = trajectory(h, alg)
    seen = [[ghash(g) for g in s["genomes"]] for s in h.gens]
    known = sorted({x for g in seen for x in g},
                   key=lambda x: next(i for i, g in enumerate(seen) if x in g))
    bad = sorted({known[int(b * (len(known) - 1))] for b in case["bad"]})
    first = next(i for i, g in enumerate(seen) if set(g) & set(bad))
    alg = make_alg(dict(r, executor=v["executor"], workers=v["workers"],
                        method=v["method"]),
                   FailingEv(r["eval"], bad, v["delay"], case["error"]))
    h = Hist(alg)
    try:
        alg.evolve()
    except Exception as e:
        require(type(e) is ERRORS[case["error"]] and e.args
                and e.args[0] in bad, "the fitness function raised %s, evolve() "
                "raised %r", case["error"], e)
        require(e.args[0] in seen[first],
                "the error is about a genome that is not in generation %d", first)
    else:
        require(False, "the fitness function failed in generation %d, yet the "
                "run went on", first)
    require(len(h.gens) == first, "the fitness function failed in generation %d,"
            " %d generations were reported", first, len(h.gens))
    left = deepcopy(alg.population.sub_populations[0].individuals)
    gseed = alg.generation_seed
    alg.final_generation_ = ref["final"]
    alg.best_of_run_ = alg.population.sub_populations[0].individuals[0]
    got = trajectory(h, alg)["gens"]
    require(got == ref["gens"][:first], "the generations before the failing one "
            "differ from those of a run that does not fail")
    # with a mended fitness function the experiment can be repeated
    alg.population.sub_populations[0].evaluator.bad.clear()
    h = Hist(alg)
    alg.evolve()
    again = make_alg(dict(r, executor="thread", workers=1, method="map"),
                     Ev(r["eval"]), individuals=left, generation_seed=gseed)
    h2 = Hist(again)
    again.evolve()
    same_traj(trajectory(h2, again), trajectory(h, alg), "evolved again after "
              "an evaluation failed")
    ctx.label("%s/%s" % (v["executor"], v["method"]),
              "fails:init" if not first else "fails:later",
              case["error"])
    ctx.nontrivial(first > 0)


@st.composite
def single_st(draw):
    return {"run": draw(run_st(max_pop=8, min_pop=2)),
            "seq": draw(st.lists(st.tuples(st.integers(0, 99), st.booleans()),
                                 min_size=1, max_size=6))}


def body_single(case, ctx):
    """an individual evaluator used on its own"""
    r = case["run"]
    seed_all(r["seed"])
    ev = Ev(r["eval"])
    sp = make_subpop(r, ev)
    sp.create_subpopulation_individuals()
    inds = list(sp.individuals)
    heard = []
    for e in ("before_operator", "after_operator"):
        ev.register(e, lambda s, d, e=e: heard.append((e, s, [
            i.fitness.is_fitness_evaluated() for i in inds])))
    done = {}
    for n, act in case["seq"]:
        k = n % len(inds)
        del heard[:]
        was = [i.fitness.is_fitness_evaluated() for i in inds]
        res = (ev.act if act else ev.apply_operator)((inds[k], inds))
        done[k] = score_of(r["eval"], inds[k])
        now = [j == k or x for j, x in enumerate(was)]
        require(res is inds[k], "evaluating an individual returned another one")
        require([i.get_pure_fitness() if j in done else None
                 for j, i in enumerate(inds)]
                == [done.get(j) for j in range(len(inds))],
                "the fitness values are not those of the individuals evaluated")
        require([i.fitness.is_fitness_evaluated() for i in inds]
                == [j in done for j in range(len(inds))],
                "evaluating one individual changed which have a fitness")
        require(len(ev.applied_individuals) == 1
                and ev.applied_individuals[0] is inds[k],
                "the evaluator's applied individuals are not the one evaluated")
        require(heard == ([("before_operator", ev, was),
                           ("after_operator", ev, now)] if act else []),
                "the evaluator's subscribers heard %s", heard)
    require(len(ev.calls) == len(case["seq"]), "%d evaluations called the "
            "fitness function %d times", len(case["seq"]), len(ev.calls))
    ctx.label("individuals:%d" % len(done))
    ctx.nontrivial(len(done) > 1)


V_ALL = st.fixed_dictionaries({
    "executor": st.sampled_from(["thread", "process"]),
    "workers": st.sampled_from([1, 2, 3]),
    "method": st.sampled_from(["map", "submit"]), "delay": st.booleans()})
V_THREAD = st.fixed_dictionaries({
    "executor": st.just("thread"),
    "workers": st.sampled_from([2, 4, 8, None]),
    "method": st.sampled_from(["map", "submit"]), "delay": st.booleans()})
V_SLOW = st.fixed_dictionaries({
    "executor": st.sampled_from(["thread", "thread", "process"]),
    "workers": st.sampled_from([1, 2, 4]),
    "method": st.sampled_from(["map", "submit"]),
    "delay": st.sampled_from([0.05, 0.2, 0.4])})

SUBS = [
    Sub("process", lambda: st.fixed_dictionaries({
        "run": run_st(max_gens=2, max_pop=8, min_gens=1, min_pop=4),
        "variants": st.lists(V_ALL, min_size=1, max_size=2)}),
        body, 320, 4000, "population and fitness values vary", chunk=12),
    Sub("thread", lambda: st.fixed_dictionaries({
        "run": ending(run_st(max_gens=3, max_pop=10, min_gens=1, min_pop=4)),
        "variants": st.lists(V_THREAD, min_size=1, max_size=2)}),
        body, 1600, 20000, "population and fitness values vary"),
    Sub("evaluate", lambda: st.fixed_dictionaries({
        "run": run_st(max_pop=16, min_pop=4), "variant": V_ALL}), body_eval,
        800, 10000, "not all fitness values are equal", chunk=30),
    Sub("moo", lambda: st.fixed_dictionaries({
        "run": ending(moo_run_st(max_gens=3, max_pop=8)),
        "variants": st.lists(st.one_of(V_THREAD, V_THREAD, V_ALL), min_size=1,
                             max_size=2)}),
        body_moo, 400, 5000, "the population changed during the run", chunk=15),
    Sub("failing", lambda: st.fixed_dictionaries({
        "run": run_st(max_gens=3, max_pop=8, min_gens=1),
        "variant": st.one_of(V_THREAD, V_THREAD, V_ALL),
        "bad": st.lists(st.floats(0, 1), min_size=1, max_size=3),
        "error": KINDS}),
        body_failing, 600, 8000, "a later generation fails", chunk=20),
    Sub("moo failing", lambda: st.fixed_dictionaries({
        "run": moo_run_st(max_gens=3, max_pop=8),
        "variant": st.one_of(V_THREAD, V_THREAD, V_ALL),
        "bad": st.lists(st.floats(0.1, 1), min_size=1, max_size=2),
        "error": KINDS}),
        body_moo_failing, 240, 3000, "a later generation fails", chunk=15),
    Sub("single", single_st, body_single, 800, 10000,
        "more than one individual was evaluated"),
    # evaluations that take seconds in total
    Sub("slow", lambda: st.fixed_dictionaries({
        "run": run_st(max_pop=8, min_pop=6, big=False), "variant": V_SLOW}), body_eval,
        48, 600, "not all fitness values are equal", chunk=6),
    # single evaluations that take seconds
    Sub("very slow", lambda: st.fixed_dictionaries({
        "run": run_st(max_pop=6, min_pop=3, big=False),
        "variant": st.fixed_dictionaries({
            "executor": st.sampled_from(["thread", "process"]),
            "workers": st.just(8),
            "method": st.sampled_from(["map", "submit"]),
            "delay": st.sampled_from([1.1, 1.8])})}), body_eval,
        16, 80, "not all fitness values are equal", chunk=1),
]
ASSUMPTIONS = ["picklable, deterministic evaluators"]
