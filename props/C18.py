"""C18  Fitness comparison is the configured order, everywhere it is used.

Oracle: plain comparison of reference augmented scores (pure score, minus or
plus bloat weight times size), for the fitness objects, the individuals and the
best/worst/average queries of (sub)populations."""
import math

import numpy as np
from hypothesis import strategies as st

from eckity.fitness import Fitness, GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import IntVector
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.population import Population
from eckity.base.untyped_functions import f_add, f_neg

from lib.dom import Ev, f_st, make_creator, make_op, make_sel, size_st
from lib.harness import Sub, require

VALS = st.one_of(
    st.integers(-20, 20), f_st(-20, 20), st.integers(-3, 3), st.integers(-3, 3),
    st.sampled_from([0, 0.0, 1e300, -1e300, 2.0**40, -2.0**40, 2.0**40 + 0.5,
                     1e-300, 5e-324, "inf", "-inf"]),
    # integers that only differ beyond what a float can tell
    st.sampled_from([2**53, 10**18, -2**60, 10**25]).flatmap(
        lambda b: st.integers(b - 2, b + 2)))


def dec(v):
    return float(v) if isinstance(v, str) else v


SIZE = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6),
                 st.integers(7, 300))


@st.composite
def group_st(draw, lo=2, hi=7):
    n = draw(size_st(lo, hi, 70))
    kind = draw(st.sampled_from(["simple", "gp"]))
    return {"kind": kind, "hib": draw(st.booleans()),
            "cache": draw(st.booleans()),
            "np": draw(st.booleans()),
            "bw": draw(st.sampled_from([0.0, 0.125, 0.5, 2.0])),
            "vals": [draw(VALS) for _ in range(n)],
            "sizes": [draw(SIZE) for _ in range(n)]}


def nodes(s):
    """a program with s nodes: chains and bushy trees alternate"""
    if s % 2 == 0 or s < 3:
        return [FunctionNode(f_neg) for _ in range(s - 1)] + [TerminalNode("x")]
    if s % 4 == 1:
        out = []
        for _ in range(s // 2):
            out += [FunctionNode(f_add), TerminalNode("x")]
        return out + [TerminalNode(1)]
    h = (s - 1) // 2
    h -= 1 - h % 2
    return [FunctionNode(f_add)] + nodes(h) + nodes(s - 1 - h)


def build(case):
    """individuals and their reference augmented scores"""
    out, aug = [], []
    for v, s in zip(case["vals"], case["sizes"]):
        v = dec(v)
        if case["np"]:
            v = np.float64(v)
        if case["kind"] == "gp":
            f = GPFitness(higher_is_better=case["hib"], cache=case["cache"],
                          bloat_weight=case["bw"])
            ind = Tree(fitness=f, function_set=[f_neg, f_add],
                       terminal_set=["x", 1], tree=nodes(s))
            a = float(v) - case["bw"] * s if case["hib"] else (
                float(v) + case["bw"] * s)
            if case["bw"] == 0:
                a = v
        else:
            f = SimpleFitness(higher_is_better=case["hib"], cache=case["cache"])
            ind = IntVector(fitness=f, length=s, bounds=(0, 9), vector=[1] * s)
            a = v
        f.set_fitness(v)
        out.append(ind)
        aug.append(a)
    return out, aug


def beats(case, a, b):
    return a > b if case["hib"] else a < b


class OtherFitness(Fitness):
    def get_pure_fitness(self):
        return 0

    def better_than(self, ind, other_fitness, other_ind):
        return False

    def equal_to(self, ind, other_fitness, other_ind):
        return False


def raises(exc, fn):
    try:
        fn()
    except exc:
        return True
    return False


def order_body(case, ctx):
    inds, aug = build(case)
    ties = 0
    for i, a in enumerate(inds):
        require(a.get_pure_fitness() == dec(case["vals"][i]),
                "pure fitness %r, set to %r", a.get_pure_fitness(),
                case["vals"][i])
        require(a.get_augmented_fitness() == aug[i],
                "augmented fitness %r, expected %r (score %r, size %d)",
                a.get_augmented_fitness(), aug[i], case["vals"][i],
                case["sizes"][i])
        require(a.better_than(None) is True, "not better than nothing")
        for j, b in enumerate(inds):
            got = a.better_than(b)
            want = beats(case, aug[i], aug[j])
            require(bool(got) == want, "%r better than %r: %s, expected %s",
                    aug[i], aug[j], got, want)
            eq = a.fitness.equal_to(a, b.fitness, b)
            require(bool(eq) == (aug[i] == aug[j]), "%r equal to %r: %s", aug[i],
                    aug[j], eq)
            ties += i != j and aug[i] == aug[j]
    # comparisons are pure
    require([x.get_augmented_fitness() for x in inds] == aug,
            "comparing changed a fitness")
    # an unevaluated individual takes part in no comparison
    a, b = inds[0], inds[1]
    b.set_fitness_not_evaluated()
    require(not b.fitness.is_fitness_evaluated(), "still counts as evaluated")
    require(raises(ValueError, b.get_pure_fitness), "an unevaluated fitness was "
            "returned")
    require(raises(ValueError, b.get_augmented_fitness), "an unevaluated "
            "augmented fitness was returned")
    for x, y in ((a, b), (b, a)):
        require(raises(ValueError, lambda: x.better_than(y)),
                "an unevaluated individual was compared")
        require(raises(ValueError,
                       lambda: x.fitness.equal_to(x, y.fitness, y)),
                "an unevaluated individual was compared (equality)")
    require(raises(TypeError, lambda: a.fitness.better_than(
        a, OtherFitness(higher_is_better=True), b)),
        "compared with a fitness of another kind")
    b.fitness.set_fitness(dec(case["vals"][1]))
    require(bool(a.better_than(b)) == beats(case, aug[0], aug[1]),
            "re-evaluation is not seen by the comparison")
    ctx.label("kind:" + case["kind"], "ties" if ties else "no ties",
              "hib" if case["hib"] else "lib")
    ctx.nontrivial(ties > 0 or len(set(aug)) > 1)


# ------------------------------------------------------------------ populations
@st.composite
def pops_st(draw):
    return {"groups": draw(st.lists(group_st(lo=1, hi=8), min_size=1,
                                    max_size=draw(st.sampled_from(
                                        [3, 3, 3, 6]))))}


def mk_sub(g, inds):
    from eckity.creators import GAIntVectorCreator
    from eckity.genetic_operators import IdentityTransformation
    from eckity.subpopulation import Subpopulation
    return Subpopulation(
        Ev("hash"), creators=GAIntVectorCreator(length=2),
        operators_sequence=[IdentityTransformation()],
        population_size=len(inds), individuals=inds,
        higher_is_better=g["hib"])


def pops_body(case, ctx):
    subs, augs, all_inds = [], [], []
    for g in case["groups"]:
        inds, aug = build(g)
        subs.append(mk_sub(g, inds))
        augs.append(aug)
        all_inds.append(inds)
    pop = Population(subs)
    bests, worsts = pop.get_best_individuals(), pop.get_worst_individuals()
    avgs = pop.get_average_fitness()
    require(len(bests) == len(worsts) == len(avgs) == len(subs),
            "one answer per subpopulation expected")
    for k, g in enumerate(case["groups"]):
        sp, aug, inds = subs[k], augs[k], all_inds[k]
        hi, lo = max(aug), min(aug)
        best, worst = (hi, lo) if g["hib"] else (lo, hi)
        for b in (bests[k], sp.get_best_individual()):
            require(any(b is i for i in inds), "best is not a member")
            require(b.get_augmented_fitness() == best,
                    "best has %r, the best value is %r (of %s, hib=%s)",
                    b.get_augmented_fitness(), best, aug, g["hib"])
            require(not any(i.better_than(b) for i in inds),
                    "a member beats the best individual")
        for w in (worsts[k], sp.get_worst_individual()):
            require(any(w is i for i in inds), "worst is not a member")
            require(w.get_augmented_fitness() == worst,
                    "worst has %r, the worst value is %r",
                    w.get_augmented_fitness(), worst)
            require(not any(w.better_than(i) for i in inds),
                    "the worst individual beats a member")
        vals = [float(dec(v)) for v in g["vals"]]
        for av in (avgs[k], sp.get_average_fitness()):
            if all(math.isfinite(v) for v in vals):
                m = math.fsum(v / len(vals) for v in vals)
                scale = max(map(abs, vals))
                require(abs(float(av) - m) <= 1e-9 * max(scale, 1e-300),
                        "average fitness %r, expected %r", av, m)
            elif math.inf not in vals or -math.inf not in vals:
                m = math.fsum(v for v in vals if math.isinf(v))
                require(float(av) == m, "average fitness %r of %s", av, vals)
        require(sp.individuals == inds and all(
            a is b for a, b in zip(sp.individuals, inds)),
            "a query reordered the population")
        for i in inds:
            require(sp.contains_individual(i), "a member is not contained")
            require(pop.find_individual_subpopulation(i) is sp,
                    "a member was found in another subpopulation")
    stray, _ = build(dict(case["groups"][0]))
    require(raises(ValueError,
                   lambda: pop.find_individual_subpopulation(stray[0])),
            "an individual of no subpopulation was found")
    ctx.label("subpops:%d" % len(subs))
    ctx.nontrivial(any(len(set(a)) > 1 for a in augs))


# ---------------------------------------------------------- queries and changes
@st.composite
def edits_st(draw):
    g = draw(group_st(lo=2, hi=6))
    n = len(g["vals"])
    return {"g": g, "start": draw(st.integers(1, n)),
            "ops": draw(st.lists(st.tuples(
                st.sampled_from(["score", "score", "add", "drop", "swap",
                                 "list", "grow", "deep", "none"]),
                st.integers(0, 99), VALS), min_size=1, max_size=8))}


def edits_body(case, ctx):
    """the answers follow every change of the population"""
    g = dict(case["g"], vals=list(case["g"]["vals"]))
    inds, aug = build(g)
    n = case["start"]
    mine = list(range(n))               # the members, by their position in inds
    sp = mk_sub(g, inds[:n])
    pop = Population([sp])
    pure = [float(dec(v)) for v in g["vals"]]
    changed = 0

    def ask():
        now = [aug[k] for k in mine]
        best, worst = (max(now), min(now)) if g["hib"] else (min(now), max(now))
        for b in (sp.get_best_individual(), pop.get_best_individuals()[0]):
            require(any(b is inds[k] for k in mine)
                    and b.get_augmented_fitness() == best, "best of %s is "
                    "reported as %r", now, b.get_augmented_fitness())
        for b in (sp.get_worst_individual(), pop.get_worst_individuals()[0]):
            require(any(b is inds[k] for k in mine)
                    and b.get_augmented_fitness() == worst, "worst of %s is "
                    "reported as %r", now, b.get_augmented_fitness())
        vals = [pure[k] for k in mine]
        if all(map(math.isfinite, vals)):
            m = math.fsum(v / len(vals) for v in vals)
            for av in (sp.get_average_fitness(), pop.get_average_fitness()[0]):
                require(abs(float(av) - m) <= 1e-9 * max(
                    max(map(abs, vals)), 1e-300),
                    "average of %s is reported as %r", vals, av)
        for k, i in enumerate(inds):
            require(bool(sp.contains_individual(i)) == (k in mine),
                    "individual %d of %s is contained: %r", k, mine,
                    k not in mine)

    ask()
    for what, k, v in case["ops"]:
        j = mine[k % len(mine)]
        i = inds[j]
        if what == "score":
            # sometimes through an operator-like invalidation
            if k % 3 == 0:
                i.set_fitness_not_evaluated()
            i.fitness.set_fitness(dec(v))
            pure[j] = float(dec(v))
        elif what == "grow" and g["kind"] == "gp":
            i.tree = nodes(1 + k % 9)
            i.fitness.set_fitness(dec(v))
            pure[j] = float(dec(v))
        elif what == "add" and len(mine) < len(inds):
            new = next(x for x in range(len(inds)) if x not in mine)
            sp.individuals.append(inds[new])
            mine.append(new)
        elif what == "drop" and len(mine) > 1:
            sp.individuals.remove(i)
            mine.remove(j)
        elif what == "swap":
            o = mine[(k // 7) % len(mine)]
            a, b = mine.index(j), mine.index(o)
            sp.individuals[a], sp.individuals[b] = inds[o], inds[j]
            mine[a], mine[b] = o, j
        elif what == "list":
            mine = mine[::-1]
            sp.individuals = [inds[x] for x in mine]
        elif what == "deep":
            c = i.clone()
            c.fitness.set_fitness(i.get_pure_fitness())
            sp.individuals[mine.index(j)] = c
            inds[j] = c
        else:
            continue
        changed += 1
        s = i.size()
        w = dec(g["vals"][j]) if what not in ("score", "grow") else dec(v)
        if what in ("score", "grow"):
            g["vals"][j] = v
            aug[j] = w
            if g["kind"] == "gp" and g["bw"]:
                aug[j] = (float(w) - g["bw"] * s if g["hib"]
                          else float(w) + g["bw"] * s)
        ask()
    ctx.label("kind:" + g["kind"])
    ctx.nontrivial(changed > 1 and len(set(aug)) > 1)


SUBS = [
    Sub("order", group_st, order_body, 4000, 120000,
        "ties or at least two different scores"),
    Sub("population", pops_st, pops_body, 2400, 60000,
        "a subpopulation with at least two different scores"),
    Sub("changes", edits_st, edits_body, 1500, 40000,
        "two changes and two different scores"),
]
ASSUMPTIONS = ["scores are numbers other than nan",
               "bloat weights and sizes are exact in binary"]
