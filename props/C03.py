"""Elites are carried over unchanged."""
from collections import Counter

from hypothesis import strategies as st

from eckity.genetic_operators import ElitismSelection, GeneticOperator
from eckity.population import Population
from lib.dom import *  # noqa: F403
from lib.harness import Sub, require


def check_elites(r, n, before, vals, after, g):
    """before: genomes, vals: augmented fitness; after: genomes of next gen"""
    order = sorted(vals, reverse=r["hib"])
    cut = order[n - 1]
    have = Counter(after)
    strict = Counter(b for b, v in zip(before, vals) if better(r, v, cut))
    tied = Counter(b for b, v in zip(before, vals) if v == cut)
    for k, c in strict.items():
        require(have[k] >= c,
                "gen %d: an elite genome is not in the next generation: %s",
                g, k)
    left = have - strict
    t = sum(min(c, left[k]) for k, c in tied.items())
    require(t >= n - sum(strict.values()),
            "gen %d: only %d of %d elites survived unchanged", g,
            t + sum(strict.values()), n)


def body_run(r, ctx):
    alg = make_alg(r)
    n = round(r["elite"] * r["pop"])
    require(alg.population.sub_populations[0].n_elite == n,
            "n_elite is %s, expected %d",
            alg.population.sub_populations[0].n_elite, n)
    h = Hist(alg)
    alg.evolve()
    prev = None
    for g, s in enumerate(h.gens):
        vals = [aug(r, score_of(r["eval"], i), i) for i in s["inds"]]
        if prev is not None:
            check_elites(r, n, prev[0], prev[1], s["genomes"], g)
            require(not better(r, best_of(r, prev[1]), best_of(r, vals)),
                    "gen %d: best fitness of the population got worse: %r -> %r",
                    g, best_of(r, prev[1]), best_of(r, vals))
        prev = (s["genomes"], vals)
    run_labels(ctx, r)
    ctx.nontrivial(len(h.gens) > 1 and any(
        Counter(a["genomes"]) != Counter(b["genomes"])
        for a, b in zip(h.gens, h.gens[1:])))
    ctx.evals(len(h.gens))


class Scramble(GeneticOperator):
    """In-place operator that gives every operand a genome never seen before."""

    def __init__(self, arity, top):
        super().__init__(probability=1.0, arity=arity)
        self.next = top

    def apply(self, individuals):
        for i in individuals:
            self.next += 1
            for c in range(i.size()):
                i.set_cell_value(c, self.next)
        self.applied_individuals = individuals
        return individuals


def body_breed(case, ctx):
    """SimpleBreeder with an operator that leaves nothing as it was."""
    hib, fits = case["hib"], case["fits"]
    pop = len(fits)
    rate = min(1.0, max(0.0, (case["n"] + case.get("off", 0)) / pop))
    n = round(rate * pop)
    seed_all(case["seed"])
    inds = [IntVector(SimpleFitness(higher_is_better=hib), 2,
                      bounds=(0, 10**6), vector=[k, k])
            for k in range(pop)]
    sp = Subpopulation(
        Ev(), creators=GAIntVectorCreator(length=2, bounds=(0, 10**6)),
        population_size=pop, elitism_rate=rate, higher_is_better=hib,
        operators_sequence=[Scramble(a, 1000 * (j + 1))
                            for j, a in enumerate(case["arities"])],
        selection_methods=[(make_sel(case["sel"], hib), 1)],
        individuals=inds)
    breeder = SimpleBreeder()
    p = Population([sp])
    for rnd in range(case["rounds"]):
        cur = list(sp.individuals)
        base = {i.vector[0]: None for i in cur}
        for k, i in enumerate(cur):
            i.fitness.set_fitness(fits[(k * (rnd + 1) + rnd) % pop])
        vals = [i.get_augmented_fitness() for i in cur]
        before = genomes(cur)
        breeder.breed(p)
        after = list(sp.individuals)
        require(len(after) == pop, "population size %d -> %d", pop, len(after))
        kept = [genome(i) for i in after if i.vector[0] in base]
        require(len(kept) == n, "%d individuals kept as they are, expected %d",
                len(kept), n)
        if n:
            check_elites({"hib": hib}, n, before, vals, kept, rnd)
        require(genomes(cur) == before, "breeding changed the parents")
    ctx.label("n=%d" % n if n < 3 else "n>=3", "sel:" + case["sel"]["k"])
    ctx.nontrivial(0 < n < pop and len(set(fits)) > 1)
    ctx.evals(case["rounds"])


@st.composite
def breed_st(draw):
    pop = draw(st.sampled_from([2, 4, 6, 8, 12]))
    fits = draw(st.lists(st.one_of(st.integers(0, 5), f_st(0, 100)).map(float),
                         min_size=pop, max_size=pop))
    k = draw(st.sampled_from(["tour", "tourx", "fp"]))
    sel = {"k": k}
    if k != "fp":
        sel["size"] = draw(st.integers(1, min(4, pop)))
    return {"hib": draw(st.booleans()), "fits": fits,
            "n": draw(st.integers(0, pop)),
            "off": draw(st.sampled_from([0, 0, 0.3, -0.3, -0.45, 0.45])),
            "seed": draw(SEEDS),
            "arities": draw(st.lists(st.sampled_from([1, 2]), min_size=1,
                                     max_size=2)),
            "sel": sel, "rounds": draw(st.integers(1, 3))}


def body_sel(case, ctx):
    """ElitismSelection alone: n clones of the n best, source untouched."""
    hib, fits, n = case["hib"], case["fits"], min(case["n"], len(case["fits"]))
    inds = [IntVector(SimpleFitness(f, higher_is_better=hib), 1,
                      bounds=(0, 99), vector=[k]) for k, f in enumerate(fits)]
    before = genomes(inds)
    dest = []
    out = ElitismSelection(num_elites=n, higher_is_better=hib).select(inds, dest)
    require(len(out) == n, "%d elites selected, expected %d", len(out), n)
    require(genomes(inds) == before
            and [i.get_pure_fitness() for i in inds] == fits,
            "source individuals changed")
    require(not any(o is i for o in out for i in inds), "elite is not a copy")
    if n:
        check_elites({"hib": hib}, n, before, fits, genomes(out), 0)
    ctx.nontrivial(0 < n < len(fits) and len(set(fits)) > 1)


SUBS = [
    Sub("run", lambda: ending(run_st(force_elite=True, max_gens=6, min_gens=1)),
        body_run, 3000, 40000, "population changed between two generations"),
    Sub("breed", breed_st, body_breed, 2500, 30000,
        "0 < elites < population and fitness values differ"),
    Sub("selection", breed_st, body_sel, 800, 8000,
        "0 < elites < population and fitness values differ"),
]
ASSUMPTIONS = ["fitness ties may be broken either way"]
