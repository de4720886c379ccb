"""NSGA-II builders and brute-force references."""
import math

from hypothesis import strategies as st

from eckity.evaluators import SimpleIndividualEvaluator
from eckity.genetic_encodings.ga import BitStringVector, IntVector
from eckity.creators import GABitStringVectorCreator, GAIntVectorCreator, GAFloatVectorCreator
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution import (
    CrowdingTerminationChecker,
    NSGA2Breeder,
    NSGA2Evolution,
    NSGA2FrontSorting,
)
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from lib.dom import *  # noqa: F403
from lib.harness import require


def moo_score(kind, m, ind):
    g = genome(ind)
    h = ghash(g)
    if kind == "hash":
        return [((h >> (7 * k)) % 997) / 8.0 for k in range(m)]
    if kind == "ties":
        return [float((h >> (5 * k)) % 4) for k in range(m)]
    if kind == "trade":      # conflicting objectives
        s = ind.size() if hasattr(ind, "tree") else sum(ind.vector)
        return [float(s), -float(s)] + [float((h >> 3) % 50)] * (m - 2)
    raise ValueError(kind)


class MooEv(SimpleIndividualEvaluator):
    def __init__(self, kind, m, log=True, delay=False):
        super().__init__()
        self.kind, self.m, self.delay = kind, m, delay
        self.calls = [] if log else None

    def evaluate_individual(self, individual):
        if self.delay:
            time.sleep((ghash(genome(individual)) % 4) * 0.001)
        s = moo_score(self.kind, self.m, individual)
        if self.calls is not None:
            self.calls.append((genome(individual), s))
        return s


class Fit(NSGA2Fitness):
    """NSGA2Fitness with a fixed objective-direction list."""


class FitFactory:
    """fitness_type whose direction list is given per objective"""

    def __init__(self, hib):
        self.hib = hib

    def __call__(self, higher_is_better=None):
        return NSGA2Fitness(higher_is_better=self.hib if not isinstance(
            self.hib, list) else list(self.hib))


def dominates(a, b, hib):
    ge = all((x >= y) if h else (x <= y) for x, y, h in zip(a, b, hib))
    gt = any((x > y) if h else (x < y) for x, y, h in zip(a, b, hib))
    return ge and gt


def ranks(objs, hib):
    """brute-force non-dominated sorting: index -> rank (1-based)"""
    left = set(range(len(objs)))
    out = {}
    r = 1
    while left:
        front = [i for i in left
                 if not any(dominates(objs[j], objs[i], hib) for j in left if j != i)]
        for i in front:
            out[i] = r
        left -= set(front)
        r += 1
    return out


def crowding(vals):
    """textbook crowding distance of one front; None where ties make the
    result depend on the sorting order"""
    n = len(vals)
    m = len(vals[0])
    out = [0.0] * n
    for k in range(m):
        col = [v[k] for v in vals]
        if len(set(col)) < n:
            return None
        order = sorted(range(n), key=lambda i: col[i])
        lo, hi = col[order[0]], col[order[-1]]
        out[order[0]] = out[order[-1]] = math.inf
        for p in range(1, n - 1):
            i = order[p]
            if hi != lo:
                out[i] += (col[order[p + 1]] - col[order[p - 1]]) / (hi - lo)
    return out


@st.composite
def moo_run_st(draw, max_gens=5, max_pop=12, min_gens=1, trees=False):
    enc = draw(st.sampled_from(["bit", "int", "float"] * 2
                               + ["tree", "ttree"] * trees))
    max_m, min_pop = 3, 2
    how = draw(st.sampled_from([None] * 72 + ["pop", "gens", "m"] * 2
                               + ["crowd"]))
    if how == "pop":
        max_pop, max_gens = 60, min(max_gens, 3)
    elif how == "crowd":
        min_pop, max_pop, max_gens = 66, 180, min(max_gens, 2)
    elif how == "gens":
        max_gens, max_pop = 20, 6
    elif how == "m":
        max_m = 6
    length = draw(st.integers(2, 6))
    m = draw(st.integers(2, max_m))
    hib = draw(st.one_of(st.booleans(), st.lists(st.booleans(), min_size=m, max_size=m)))
    pop = 2 * draw(st.integers(min_pop // 2, max_pop // 2))
    spec = None
    if enc in ("tree", "ttree"):
        spec = draw(treeset_st(typed=enc == "ttree"))
        ops = draw(st.lists(tree_op_st(spec), min_size=1, max_size=3))
    else:
        ops = draw(st.lists(vec_op_st(enc, length), min_size=1, max_size=3))
    draw_arities(draw, ops, pop)
    return {
        "enc": enc, "length": length, "sets": spec,
        "bounds": None if spec else draw(bounds_st(enc, length)),
        "pop": pop, "m": m, "hib": hib,
        "gens": draw(st.integers(min_gens, max_gens)), "seed": draw(SEEDS),
        "eval": draw(st.sampled_from(["hash", "ties", "trade"])),
        "ops": ops,
        # survival is elitist anyway, whatever rate the subpopulation has
        "elite": draw(st.sampled_from([0, 0, 0, 0.25, 0.5])),
        "workers": draw(st.sampled_from([1, 3])),
        "company": draw(st.sampled_from([None, None, "checker", "checkers"])),
    }


def moo_alg(r, evaluator=None, default_breeder=False, individuals=None, **over):
    inds = individuals
    if r.get("sets"):
        # tree creators make single-objective individuals: the population is given
        seed_all(r["seed"] + 1)
        cr = make_tree_creator("grow", r["sets"], init_depth=(1, 2))
        if inds is None:
            inds = cr.create_individuals(r["pop"], True)
            for i in inds:
                i.fitness = FitFactory(r["hib"])()
    else:
        cr = GAVectorCreator(length=r["length"], bounds=mk_bounds(r["bounds"]),
                             vector_type=VEC[r["enc"]],
                             fitness_type=FitFactory(r["hib"]))
    ev = evaluator if evaluator is not None else MooEv(r["eval"], r["m"])
    sp = Subpopulation(
        ev, creators=cr, population_size=r["pop"], higher_is_better=True,
        individuals=inds, elitism_rate=r.get("elite", 0),
        operators_sequence=[make_op(o) for o in r["ops"]],
        selection_methods=[(TournamentSelection(tournament_size=2,
                                                higher_is_better=True), 1)])
    kw = dict(max_generation=r["gens"], max_workers=r["workers"],
              random_seed=r["seed"], statistics=[], termination_checker={
                  None: None, "checker": CrowdingTerminationChecker(0),
                  "checkers": [CrowdingTerminationChecker(0),
                               CrowdingTerminationChecker(-1)]}[
                                   r.get("company")])
    if not default_breeder:
        kw["breeder"] = NSGA2Breeder()
    kw["termination_checker"] = with_stop(r, kw["termination_checker"])
    kw.update(over)
    return NSGA2Evolution(sp, **kw)


def hib_list(r):
    return r["hib"] if isinstance(r["hib"], list) else [r["hib"]] * r["m"]


class MooHist:
    def __init__(self, alg):
        self.alg = alg
        self.gens = []
        alg.register("after_generation", self.on_gen)

    def on_gen(self, sender, data):
        inds = list(self.alg.population.sub_populations[0].individuals)
        self.gens.append({
            "inds": inds, "genomes": genomes(inds),
            "fit": [list(i.get_pure_fitness()) for i in inds],
            "rank": [i.fitness.front_rank for i in inds],
            "crowd": [i.fitness.crowding for i in inds],
            "best": genome(self.alg.best_of_run_),
            "num": data["generation_num"],
        })


def moo_traj_of(h, alg):
    return {"gens": [[s["num"], 0, [list(map(str, g)) for g in s["genomes"]],
                      repr(s["fit"]), list(map(str, s["best"])),
                      repr([s["rank"], s["crowd"]])] for s in h.gens],
            "final": alg.final_generation_,
            "best": list(map(str, genome(alg.best_of_run_)))}


def moo_traj(r, evaluator=None, **over):
    alg = moo_alg(r, evaluator, **over)
    h = MooHist(alg)
    alg.evolve()
    return moo_traj_of(h, alg)
