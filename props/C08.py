"""Life cycle of a run: generations, events, evaluations, seeds."""
from hypothesis import strategies as st

from eckity.algorithms.algorithm import Algorithm
from eckity.breeders import SimpleBreeder
from eckity.evaluators import SimplePopulationEvaluator
from eckity.random import RNG
from lib.dom import *  # noqa: F403
from lib.harness import Sub, require
from lib.moo import MooEv, moo_alg, moo_run_st


class SpyRNG(RNG):
    def __init__(self):
        super().__init__()
        self.seeds = []

    def set_seed(self, seed):
        self.seeds.append(seed)
        super().set_seed(seed)


class StopAt:
    """termination checker that stops at a given generation and logs calls"""

    def __init__(self, g):
        self.g = g
        self.calls = []

    def should_terminate(self, population, best_individual, gen_number):
        self.calls.append((gen_number, best_individual))
        return self.g is not None and gen_number >= self.g


def body(case, ctx):
    r = case["run"]
    moo = case["moo"] is not None
    if moo:
        r = case["moo"]
    pop, gens = r["pop"], r["gens"]
    stop = case["stop"] if case["stop"] is not None else None
    rng = SpyRNG()
    chk = StopAt(stop)
    over = dict(termination_checker=chk, random_generator=rng)
    if case["gseed"] is not None:
        over["generation_seed"] = case["gseed"]
    if moo:
        ev = MooEv(r["eval"], r["m"])
        alg = moo_alg(r, ev, **over)
    else:
        ev = Ev(r["eval"])
        alg = make_alg(r, ev, **over)
    one_run(case, ctx, r, moo, alg, ev, chk, rng, stop, None)
    if case["again"]:
        # a finished algorithm evolves again, from its last generation seed
        chk.g = case["stop2"]
        del ev.calls[:], chk.calls[:], rng.seeds[:]
        for e in ("init", "after_generation", "evolution_finished"):
            for k in list(alg.events[e]):
                alg.unregister(e, k)
        one_run(case, ctx, r, moo, alg, ev, chk, rng, chk.g,
                alg.generation_seed)
        ctx.label("evolved again")


def one_run(case, ctx, r, moo, alg, ev, chk, rng, stop, gseed):
    pop, gens = r["pop"], r["gens"]
    sp = alg.population.sub_populations[0]
    log = []
    for name in ("init", "after_generation", "evolution_finished"):
        def cb(sender, data, name=name):
            require(sender is alg, "event sender is not the algorithm")
            log.append((name, alg.generation_num, dict(data), len(ev.calls),
                        list(sp.individuals)))
        alg.register(name, cb)
    alg.evolve()
    last = gens if stop is None or stop > gens else stop
    at_start = stop == 0

    names = [e[0] for e in log]
    n_after = last if last else (1 if at_start else 0)
    require(names == ["init"] + ["after_generation"] * n_after
            + ["evolution_finished"],
            "events %s for a run of %d generations", names, last)
    for k, (name, num, data, evs, inds) in enumerate(log):
        g = 0 if name == "init" or (name == "after_generation" and at_start) \
            else last if name == "evolution_finished" else k
        require(num == g, "%s: generation number %s, expected %d", name, num, g)
        if name != "init":
            require(data["generation_num"] == g,
                    "%s: event says generation %s, expected %d", name,
                    data["generation_num"], g)
            require(data["best_of_run_"] is alg.best_of_run_
                    or name == "after_generation",
                    "%s: event data has a stale best of run", name)
        else:
            require(data["max_generation"] == gens, "init: max_generation")
        require(data["population"] is alg.population, "%s: population", name)
        per = pop if not moo else 2 * pop
        require(evs == pop + per * g,
                "%s in generation %d: %d evaluations so far, expected %d",
                name, g, evs, pop + per * g)
    require(alg.final_generation_ == last, "final generation %s, expected %d",
            alg.final_generation_, last)
    require([c[0] for c in chk.calls] == list(range(last + 1)),
            "termination checked at generations %s, expected 0..%d",
            [c[0] for c in chk.calls], last)
    # seeds
    first = gseed if gseed is not None else (
        r["seed"] if case["gseed"] is None else case["gseed"])
    want = [r["seed"]] + [(first + g) % 2**32 for g in range(1, last + 1)]
    require(rng.seeds == want, "seeds set: %s, expected %s", rng.seeds, want)
    require(alg.generation_seed == (first + last) % 2**32,
            "generation seed %s, expected %s", alg.generation_seed,
            (first + last) % 2**32)
    require(alg.random_seed == r["seed"], "random seed %s", alg.random_seed)
    ctx.label("moo" if moo else "simple", "start" if at_start else
              "early" if last < gens else "full",
              "wrap" if first + last >= 2**32 else "no-wrap")
    ctx.nontrivial(last > 0)


@st.composite
def case_st(draw):
    r = draw(run_st(max_gens=6, max_pop=8))
    moo = draw(st.one_of(st.none(), moo_run_st(max_gens=5, min_gens=0)))
    g = (moo or r)["gens"]
    return {"run": r, "moo": moo,
            "stop": draw(st.one_of(st.none(), st.integers(0, g + 1))),
            "again": draw(st.booleans()),
            "stop2": draw(st.one_of(st.none(), st.integers(0, g + 1))),
            "gseed": draw(st.one_of(st.none(), SEEDS, st.just(2**32 - 2)))}


class Watch:
    """statistics / subscribers see each generation once, in order"""

    def __init__(self):
        self.got = []

    def __call__(self, sender, data):
        self.got.append(data["generation_num"])


def body_again(case, ctx):
    """an algorithm that has finished can be evolved again"""
    from eckity.statistics import BestAverageWorstStatistics

    class Stat(BestAverageWorstStatistics):
        def __init__(self):
            super().__init__()
            self.n = []

        def write_statistics(self, sender, data_dict):
            self.n.append(data_dict["generation_num"])

    r = case["run"]
    ev = Ev(r["eval"])
    stat = Stat()
    alg = make_alg(r, ev, statistics=[stat])
    h = Hist(alg)
    for k in range(case["times"]):
        del ev.calls[:], h.gens[:], stat.n[:]
        alg.evolve()
        require(len(h.gens) == r["gens"] + 1, "evolution #%d: %d generations",
                k, len(h.gens) - 1)
        require(len(ev.calls) == r["pop"] * (r["gens"] + 1),
                "evolution #%d: %d evaluations", k, len(ev.calls))
        require(stat.n == list(range(1, r["gens"] + 1)),
                "evolution #%d: statistics called for %s", k, stat.n)
        require(alg.final_generation_ == r["gens"], "final generation")
        m = best_of(r, [aug(r, score_of(r["eval"], i), i)
                        for s in h.gens for i in s["inds"]])
        b = alg.best_of_run_
        require(aug(r, score_of(r["eval"], b), b) == m,
                "evolution #%d: best of run is not the best", k)
    ctx.nontrivial(r["gens"] > 0)


class Own(Algorithm):
    """an algorithm of the user's own: random search with restarts"""

    def __init__(self, log, *args, **kw):
        super().__init__(*args, **kw)
        self.log = log

    def generation_iteration(self, gen):
        self.log.append((gen, self.generation_num, self.generation_seed,
                         random.random(), float(np.random.random()),
                         [i.gen for i in
                          self.population.sub_populations[0].individuals]))
        if self.breeder is not None:
            self.breeder.breed(self.population)
        best = self.population_evaluator.act(self.population)
        if best.better_than(self.best_of_run_):
            self.best_of_run_ = best.clone()
            self.best_of_run_.fitness.set_fitness(best.get_pure_fitness())

    def execute(self, **kwargs):
        return self.best_of_run_.execute(**kwargs)


@st.composite
def own_st(draw):
    r = draw(run_st(max_gens=5, max_pop=8))
    return {"run": r, "stop": draw(st.one_of(
        st.none(), st.integers(0, r["gens"] + 1))),
        "gseed": draw(st.one_of(st.none(), SEEDS, st.just(2**32 - 2))),
        "breed": draw(st.booleans()), "times": draw(st.integers(1, 2)),
        "ex": draw(st.sampled_from(["thread"] * 30 + ["process"]))}


def body_own(case, ctx):
    """the framework runs an algorithm the user wrote"""
    r, stop, gens = case["run"], case["stop"], case["run"]["gens"]
    rng, chk, log = SpyRNG(), StopAt(stop), []
    ev = Ev(r["eval"], log=False)
    alg = Own(log, make_subpop(r, ev), statistics=[],
              breeder=SimpleBreeder() if case["breed"] else None,
              population_evaluator=SimplePopulationEvaluator(),
              termination_checker=chk, max_generation=gens,
              random_generator=rng, random_seed=r["seed"],
              generation_seed=case["gseed"], executor=case["ex"],
              max_workers=r["workers"])
    events, last_seed = [], r["seed"] if case["gseed"] is None else case["gseed"]
    for e in ("init", "after_generation", "evolution_finished"):
        alg.register(e, lambda s, d, e=e: events.append((e, alg.generation_num)))
    last = gens if stop is None or stop > gens else stop
    for k in range(case["times"]):
        del events[:], log[:], rng.seeds[:], chk.calls[:]
        alg.evolve()
        require(events == [("init", 0)] + (
            [("after_generation", g) for g in range(1, last + 1)] if stop != 0
            else [("after_generation", 0)]) + [("evolution_finished", last)],
            "run %d: events %s", k, events)
        require([x[:2] for x in log] == [(g, g) for g in range(1, last + 1)],
                "run %d: iterations %s, expected 1..%d", k,
                [x[:2] for x in log], last)
        require([c[0] for c in chk.calls] == list(range(last + 1)),
                "termination was checked for %s", [c[0] for c in chk.calls])
        seeds = [(last_seed + g) % 2**32 for g in range(1, last + 1)]
        require(rng.seeds == [r["seed"]] + seeds and
                [x[2] for x in log] == seeds, "seeds set %s, in the iterations "
                "%s, expected %s", rng.seeds, [x[2] for x in log], seeds)
        for x in log:
            seed_all(x[2])
            require((random.random(), float(np.random.random())) == x[3:5],
                    "generation %d did not start from its seed", x[0])
            require(set(x[5]) == {x[0]}, "in generation %d the individuals' "
                    "generation is %s", x[0], x[5])
        require(alg.final_generation_ == last, "final generation %s, expected "
                "%d", alg.final_generation_, last)
        require(alg.best_of_run_ is not None, "no best of run")
        last_seed = (last_seed + last) % 2**32
    ctx.label(case["ex"], "stops" if last < gens else "full",
              "breeder" if case["breed"] else "no breeder")
    ctx.nontrivial(last > 0)


SUBS = [
    Sub("lifecycle", case_st, body, 4000, 50000, "at least one generation ran"),
    Sub("again", lambda: st.fixed_dictionaries({
        "run": run_st(max_gens=3, max_pop=8), "times": st.integers(2, 3)}),
        body_again, 600, 8000, "at least one generation ran"),
    Sub("own", own_st, body_own, 800, 10000, "at least one generation ran"),
]
ASSUMPTIONS = ["thread executor (evaluations are counted in-process)"]
