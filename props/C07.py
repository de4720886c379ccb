"""Early termination happens exactly when the configured condition holds."""
from hypothesis import strategies as st

from eckity.multi_objective_evolution import CrowdingTerminationChecker
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.termination_checkers.best_fitness_stagnation_termination_checker \
    import BestFitnessStagnationTerminationChecker
from eckity.termination_checkers.termination_checker import TerminationChecker
from lib.dom import *  # noqa: F403
from lib.harness import Sub, require


def stagnation_model(seq, n):
    """index of the first stop; seq: per generation, list of best fitnesses"""
    ref, streak = None, 0
    for g, vals in enumerate(seq):
        if ref is not None and all(math.isclose(a, b) for a, b in zip(vals, ref)):
            streak += 1
            if streak >= n:
                return g
        else:
            ref, streak = vals, 0
    return None


def threshold_model(seq, optimal, threshold):
    for g, v in enumerate(seq):
        if abs(v - optimal) <= threshold:
            return g
    return None


class Recorder(TerminationChecker):
    """a user's own checker: never satisfied, remembers what it was shown"""

    def __init__(self):
        super().__init__()
        self.alg = None
        self.calls = []

    def should_terminate(self, population, best_individual, gen_number):
        a = self.alg
        self.calls.append((gen_number, population is a.population,
                           best_individual is a.best_of_run_))
        return False


def body_run(case, ctx):
    r = case["run"]
    ref = make_alg(r)
    h = Hist(ref)
    ref.evolve()
    require(len(h.gens) == r["gens"] + 1, "reference run has %d generations",
            len(h.gens) - 1)
    run_best = [s["best_fit"] for s in h.gens]
    # pure fitness of the (augmented-)best individual of each generation
    gen_best = []
    ambiguous = False
    for s in h.gens:
        vals = [aug(r, f, i) for f, i in zip(s["fit"], s["inds"])]
        m = best_of(r, vals)
        top = {f for f, v in zip(s["fit"], vals) if v == m}
        ambiguous |= len(top) > 1
        gen_best.append(min(top))
    checkers, stops = [], []
    for c in case["checkers"]:
        if c["k"] == "threshold":
            j = c["at"] % len(run_best)
            # also targets that only the best of some generation (or some
            # member of it) reaches, not the best of run
            opt = {"run": run_best[j], "gen": gen_best[j],
                   "any": h.gens[j]["fit"][0]}[c.get("src", "run")] + c["off"]
            thr = abs(c["off"]) * c["mult"]
            if not math.isfinite(opt):
                opt = c["off"]
            checkers.append(ThresholdFromTargetTerminationChecker(
                optimal=opt, threshold=thr, higher_is_better=r["hib"]))
            stops.append(threshold_model(run_best, opt, thr))
        else:
            if ambiguous:
                ctx.label("skipped-ambiguous")
                return
            checkers.append(BestFitnessStagnationTerminationChecker(c["n"]))
            stops.append(stagnation_model([[v] for v in gen_best], c["n"]))
        ctx.label(c["k"])
    live = [s for s in stops if s is not None]
    want = min(live) if live else None
    tc = checkers if case["as_list"] or len(checkers) != 1 else checkers[0]
    if not checkers and not case["as_list"]:
        tc = None
    rec = None
    if isinstance(tc, list) and case.get("rec") is not None:
        rec = Recorder()
        tc.insert(case["rec"] % (len(tc) + 1), rec)
        ctx.label("recorder")
    alg = make_alg(r, termination_checker=tc)
    if rec is not None:
        rec.alg = alg
    h2 = Hist(alg)
    alg.evolve()
    last = r["gens"] if want is None else want
    if rec is not None:
        require(rec.calls == [(g, True, True) for g in range(last + 1)],
                "a checker of the list saw (generation, the population, the "
                "best of run): %s; the run ended with generation %d",
                rec.calls, last)
    require(alg.generation_num == last, "run stopped at generation %s, "
            "expected %s (checkers would stop at %s)", alg.generation_num, last,
            stops)
    require(alg.final_generation_ == last, "final generation %s, expected %s",
            alg.final_generation_, last)
    n_ev = sum(e[0] == "after_generation" for e in h2.events)
    require(n_ev == (last if last else (1 if want == 0 else 0)),
            "%d generations reported, expected %d", n_ev, last)
    require(h2.gens[-1]["genomes"] == h.gens[last]["genomes"],
            "early termination changed the population")
    ctx.label("early" if want is not None and want < r["gens"] else "full",
              "at-start" if want == 0 else "later")
    ctx.nontrivial(want is not None and 0 < want)


@st.composite
def run_case(draw):
    r = draw(run_st(max_gens=8, max_pop=8, min_gens=1,
                    evals=("hash", "ties", "coarse", "hashneg", "int")))
    ch = st.one_of(
        st.fixed_dictionaries({
            "k": st.just("threshold"), "at": st.integers(0, 8),
            "src": st.sampled_from(["run", "run", "gen", "any"]),
            "off": st.sampled_from([0.0, 0.0, 0.5, -0.5, 3.0, -3.0, 100.0]),
            "mult": st.sampled_from([1, 1, 0.5, 2])}),
        st.fixed_dictionaries({"k": st.just("stagnation"),
                               "n": st.integers(1, 5)}))
    return {"run": r, "checkers": draw(st.lists(ch, min_size=0, max_size=3)),
            "as_list": draw(st.booleans()),
            "rec": draw(st.sampled_from([None, 0, 1, 2, 3]))}


def fake(f, hib):
    return IntVector(SimpleFitness(f, higher_is_better=hib), 1, bounds=(0, 9),
                     vector=[1])


def fake_pop(subs, hib):
    sps = []
    for vals in subs:
        sps.append(Subpopulation(
            Ev(), creators=GAIntVectorCreator(), operators_sequence=[],
            population_size=len(vals), higher_is_better=hib,
            individuals=[fake(v, hib) for v in vals]))
    return Population(sps)


def body_stagnation(case, ctx):
    """long histories, several sub-populations, driven directly"""
    hib, n = case["hib"], case["n"]
    c = BestFitnessStagnationTerminationChecker(n)
    pick = max if hib else min
    seq = [[pick(v) for v in subs] for subs in case["seq"]]
    want = stagnation_model(seq, n)
    for g, subs in enumerate(case["seq"]):
        p = fake_pop(subs, hib)
        best = pick((i for sp in p.sub_populations for i in sp.individuals),
                    key=lambda i: i.get_pure_fitness())
        got = bool(c.should_terminate(p, best, g))
        require(got == (g == want), "stagnation(%d) says %s at generation %d, "
                "best fitnesses so far %s", n, got, g, seq[:g + 1])
        if got:
            break
    ctx.label("stops" if want is not None else "never")
    ctx.nontrivial(want is not None and want > n or
                   len({str(s) for s in seq}) > 2)


@st.composite
def stag_case(draw):
    nsub = draw(st.integers(1, 2))
    # also values that are near each other without being equal
    val = st.sampled_from(draw(st.sampled_from([
        [0.0, 1.0, 2.0, -3.0, 1e9, 1000.5],
        [0.0, 1e-12, -1e-12], [1.0, 1.0 + 1e-7, 1.0 - 1e-7],
        [1e9, 1e9 + 50, 1e9 - 50], [-1e-5, -1.0001e-5, 0.0]])))
    gen = st.lists(st.lists(val, min_size=1, max_size=3), min_size=nsub,
                   max_size=nsub)
    # runs of equal generations
    blocks = draw(st.lists(st.tuples(gen, st.integers(1, 5)), min_size=1,
                           max_size=5))
    return {"hib": draw(st.booleans()), "n": draw(st.integers(1, 4)),
            "seq": [g for g, k in blocks for _ in range(k)]}


def body_threshold(case, ctx):
    c = ThresholdFromTargetTerminationChecker(
        optimal=case["opt"], threshold=case["thr"], higher_is_better=case["hib"])
    for f in case["fits"]:
        got = c.should_terminate(None, fake(f, case["hib"]), 3)
        want = abs(f - case["opt"]) <= case["thr"]
        require(bool(got) == want, "threshold(%r, %r) says %s for fitness %r",
                case["opt"], case["thr"], got, f)
    ctx.nontrivial(len({abs(f - case["opt"]) <= case["thr"]
                        for f in case["fits"]}) == 2)


def body_crowding(case, ctx):
    c = CrowdingTerminationChecker(threshold=case["thr"])
    sps = []
    worst = []
    for cr in case["crowd"]:
        inds = []
        for x in cr:
            i = IntVector(NSGA2Fitness([0.0, 0.0]), 1, bounds=(0, 9), vector=[1])
            i.fitness.crowding = math.inf if x is None else x
            inds.append(i)
        fin = [x for x in cr if x is not None]
        worst.append(max(fin) if fin else math.inf)
        sps.append(Subpopulation(Ev(), creators=GAIntVectorCreator(),
                                 operators_sequence=[], individuals=inds,
                                 population_size=len(inds)))
    m = max(worst)
    want = m != 0 and m < case["thr"]
    got = bool(c.should_terminate(Population(sps), None, 1))
    require(got == want, "crowding(%r) says %s, largest crowding %r",
            case["thr"], got, m)
    ctx.label("stop" if want else "go")
    ctx.nontrivial(any(x for cr in case["crowd"] for x in cr))


SUBS = [
    Sub("run", run_case, body_run, 3000, 40000,
        "the run stopped early, after the initial population"),
    Sub("stagnation", stag_case, body_stagnation, 2000, 20000,
        "the checker stopped or the history has more than two values"),
    Sub("threshold", lambda: st.fixed_dictionaries({
        "opt": f_st(-50, 50), "thr": f_st(0, 20), "hib": st.booleans(),
        "fits": st.lists(f_st(-80, 80), min_size=1, max_size=10)}),
        body_threshold, 1500, 15000, "both verdicts occur"),
    Sub("crowding", lambda: st.fixed_dictionaries({
        "thr": f_st(0, 3), "crowd": st.lists(st.lists(
            st.one_of(st.none(), f_st(0, 3)), min_size=1, max_size=5),
            min_size=1, max_size=2)}),
        body_crowding, 1500, 15000, "a finite non-zero crowding distance occurs"),
]
ASSUMPTIONS = ["finite fitness values; ties for the generation's best between "
               "different pure fitness values are skipped for stagnation"]
