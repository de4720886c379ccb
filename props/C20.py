"""C20  Non-dominated sorting, crowding and survival in NSGA-II.

Oracle: brute-force Pareto dominance, front peeling and textbook crowding
distance over the objective vectors."""
import math

from hypothesis import strategies as st

from eckity.creators import GAIntVectorCreator
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import IntVector
from eckity.genetic_operators import IdentityTransformation
from eckity.multi_objective_evolution import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.subpopulation import Subpopulation

from lib.dom import Ev, f_st
from lib.harness import Sub, require
from lib.moo import crowding, dominates, ranks


@st.composite
def objs_st(draw, lo=2, hi=14):
    m = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 5]))
    n = draw(st.integers(lo, hi) if draw(st.integers(0, 11)) else
             st.integers(hi, 60))
    kind = draw(st.sampled_from(["grid", "wide", "perm", "line", "chain"]))
    if kind == "grid":
        e = st.integers(0, 4)
        objs = [[draw(e) for _ in range(m)] for _ in range(n)]
    elif kind == "wide":
        e = f_st(-40, 40)
        objs = [[draw(e) for _ in range(m)] for _ in range(n)]
    elif kind == "perm":      # no ties in any objective
        cols = [draw(st.permutations(range(n))) for _ in range(m)]
        objs = [[float(cols[k][i]) * 1.5 for k in range(m)] for i in range(n)]
    elif kind == "line":      # one large front in the first two objectives
        p = draw(st.permutations(range(n)))
        q = draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))
        acc, s = [], 0
        for x in q:
            s += x
            acc.append(s)
        objs = [[float(acc[i]), -float(acc[i]) * 2] + [float(p[i])] * (m - 2)
                for i in p]
    else:                     # a chain: every front has one member
        p = draw(st.permutations(range(n)))
        objs = [[float(i)] * m for i in p]
    if draw(st.integers(0, 2)) == 0:
        # objectives on very different scales, and nearly equal values: exact
        # scalings and shifts that keep the order of every objective
        sc = [draw(st.sampled_from([1.0, 1.0, 2.0**-40, 2.0**-24, 2.0**-12,
                                    2.0**40, "shift", "int"]))
              for _ in range(m)]
        for o in objs:
            for k, f in enumerate(sc):
                o[k] = (1.0 + o[k] * 2.0**-36 if f == "shift" else
                        10**12 + int(o[k] * 8) if f == "int" else o[k] * f)
    hib = draw(st.one_of(st.booleans(),
                         st.lists(st.booleans(), min_size=m, max_size=m)))
    if kind == "line":
        hib = [True, True] + [draw(st.booleans()) for _ in range(m - 2)] if \
            draw(st.booleans()) else [False, False] + [True] * (m - 2)
    if kind == "chain":
        hib = draw(st.booleans())
    return {"objs": objs, "hib": hib, "m": m, "kind": kind}


@st.composite
def case_st(draw):
    c = draw(objs_st())
    n = len(c["objs"])
    c["size"] = draw(st.one_of(st.none(), st.integers(1, n)))
    c["perm"] = draw(st.permutations(range(n)))
    c["groups"] = draw(st.integers(1, 2))
    return c


def mk(o, hib, j):
    h = list(hib) if isinstance(hib, list) else hib
    # evaluated when made, evaluated later, or evaluated again
    f = NSGA2Fitness(fitness=list(o) if j % 3 == 1 else None,
                     higher_is_better=h)
    ind = IntVector(fitness=f, length=1, bounds=(0, 99), vector=[j])
    if j % 3 == 2:
        f.set_fitness([float(-x) for x in o])
        f.set_not_evaluated()
    if j % 3 != 1:
        f.set_fitness(list(o))
    return ind


def hibs(c):
    return c["hib"] if isinstance(c["hib"], list) else [c["hib"]] * c["m"]


def subpop(inds):
    return Subpopulation(Ev("hash"), creators=GAIntVectorCreator(length=1),
                         operators_sequence=[IdentityTransformation()],
                         population_size=len(inds), individuals=inds)


def check_sorted(c, objs, inds, out, size):
    """out: the survivors chosen from inds (objective vectors objs)"""
    hib = hibs(c)
    n = len(objs)
    want = size if size else n // 2
    require(len(out) == want, "%d survivors of %d, expected %d", len(out), n,
            want)
    pos = {id(i): k for k, i in enumerate(inds)}
    require(all(id(i) in pos for i in out), "a survivor is not from the source")
    idx = [pos[id(i)] for i in out]
    require(len(set(idx)) == len(idx), "an individual survived twice")
    for k, i in enumerate(inds):
        require(i.get_pure_fitness() == objs[k], "the objectives were changed")
    rk = ranks(objs, hib)
    for k in idx:
        require(inds[k].fitness.front_rank == rk[k], "objectives %s: front %s, "
                "expected %d", objs[k], inds[k].fitness.front_rank, rk[k])
    if not want:
        return rk
    last = max(rk[k] for k in idx)
    chosen = set(idx)
    for k in range(n):
        if rk[k] < last:
            require(k in chosen, "%s of front %d was dropped, front %d survived",
                    objs[k], rk[k], last)
    for r in range(1, last + 1):
        front = [k for k in range(n) if rk[k] == r]
        cr = crowding([objs[k] for k in front])
        if cr is not None:
            for k, w in zip(front, cr):
                if k in chosen:
                    g = inds[k].fitness.crowding
                    require(g == w or math.isclose(g, w, rel_tol=1e-9),
                            "crowding of %s in front %s is %r, expected %r",
                            objs[k], [objs[x] for x in front], g, w)
            if r == last:
                inn = [w for k, w in zip(front, cr) if k in chosen]
                outt = [w for k, w in zip(front, cr) if k not in chosen]
                require(not outt or min(inn) >= max(outt) * (1 - 1e-9),
                        "front %d was truncated to crowding %s, dropping %s", r,
                        inn, outt)
        else:
            for k in front:
                if k in chosen:
                    g = inds[k].fitness.crowding
                    require(g == math.inf or 0 <= g <= c["m"] + 1e-9,
                            "crowding %r out of range", g)
            if r < last:
                for o in range(c["m"]):
                    vals = [objs[k][o] for k in front]
                    for ext in (min(vals), max(vals)):
                        require(any(inds[k].fitness.crowding == math.inf
                                    for k in front if objs[k][o] == ext),
                                "no extreme of objective %d keeps infinite "
                                "crowding", o)
    return rk


def sort_body(case, ctx):
    objs = case["objs"]
    hib = hibs(case)
    n = len(objs)
    inds = [mk(o, case["hib"], j) for j, o in enumerate(objs)]
    subs = [subpop(list(inds))]
    others = None
    if case["groups"] == 2:
        others = [mk(o, case["hib"], j) for j, o in enumerate(objs)]
        subs.append(subpop(list(others)))
    sorter = NSGA2FrontSorting()
    sorter.select_for_population(Population(subs), case["size"])
    out = subs[0].individuals
    rk = check_sorted(case, objs, inds, out, case["size"])
    if others is not None:
        check_sorted(case, objs, others, subs[1].individuals, case["size"])
    # survivors compare by rank, then by crowding
    for a in out:
        for b in out:
            fa, fb = a.fitness, b.fitness
            want = fa.front_rank < fb.front_rank or (
                fa.front_rank == fb.front_rank and fa.crowding > fb.crowding)
            require(bool(a.better_than(b)) == want,
                    "rank %s crowding %s better than rank %s crowding %s: %s",
                    fa.front_rank, fa.crowding, fb.front_rank, fb.crowding,
                    not want)
            require(bool(fa.equal_to(a, fb, b)) == (
                fa.front_rank == fb.front_rank and fa.crowding == fb.crowding),
                "equal_to disagrees")
    # the order of the source does not matter
    p = case["perm"]
    objs2 = [objs[i] for i in p]
    inds2 = [mk(o, case["hib"], j) for j, o in enumerate(objs2)]
    sp2 = subpop(list(inds2))
    sorter.select_for_population(Population([sp2]), case["size"])
    check_sorted(case, objs2, inds2, sp2.individuals, case["size"])
    require(sorted(i.fitness.front_rank for i in sp2.individuals) ==
            sorted(i.fitness.front_rank for i in out),
            "the ranks of the survivors depend on the source order")
    # sorting the survivors again changes no rank
    old = {id(i): i.fitness.front_rank for i in out}
    if out:
        sp3 = subpop(list(out))
        sorter.select_for_population(Population([sp3]), len(out))
        require(len(sp3.individuals) == len(out), "survivors lost")
        for i in out:
            require(i.fitness.front_rank == old[id(i)],
                    "sorting again changed a rank")
    # individuals that were evaluated again are sorted by their new objectives
    objs4 = [objs[i] for i in p]
    for i, o in zip(inds, objs4):
        i.set_fitness_not_evaluated()
        i.fitness.set_fitness(list(o))
    sp4 = subpop(list(inds))
    sorter.select_for_population(Population([sp4]), case["size"])
    check_sorted(case, objs4, inds, sp4.individuals, case["size"])
    nf = len(set(rk.values()))
    ctx.label("kind:" + case["kind"], "fronts:%s" % min(nf, 4),
              "m=%d" % case["m"])
    ctx.nontrivial(n > 2 and (nf > 1 or len(out) < n))


def dom_body(case, ctx):
    objs, hib = case["objs"], hibs(case)
    inds = [mk(o, case["hib"], j) for j, o in enumerate(objs)]
    some = False
    for i, a in enumerate(inds):
        for j, b in enumerate(inds):
            got = bool(a.fitness.dominate(a, b.fitness, b))
            want = dominates(objs[i], objs[j], hib)
            some |= want
            require(got == want, "%s dominates %s (%s): %s, expected %s",
                    objs[i], objs[j], hib, got, want)
    a, b = inds[0], inds[1]

    def raises(exc, fn):
        try:
            fn()
        except exc:
            return True
        return False
    require(raises(AttributeError, lambda: a.fitness.set_fitness(objs[0])),
            "an evaluated fitness was overwritten")
    require(a.get_pure_fitness() == objs[0], "and changed")
    short = mk(objs[1] + [1.0], True, 5)
    require(raises(ValueError, lambda: a.fitness.dominate(a, short.fitness,
                                                          short)),
            "vectors of different lengths were compared")
    s = IntVector(fitness=SimpleFitness(1.0), length=1, bounds=(0, 9), vector=[1])
    require(raises(TypeError, lambda: a.fitness.dominate(a, s.fitness, s)),
            "compared with a fitness of another kind")
    b.set_fitness_not_evaluated()
    for x, y in ((a, b), (b, a)):
        require(raises(ValueError,
                       lambda: x.fitness.dominate(x, y.fitness, y)),
                "an unevaluated individual was compared")
    require(raises(ValueError, b.get_pure_fitness), "unevaluated fitness returned")
    require(b.fitness.front_rank == math.inf and b.fitness.crowding == 0,
            "an unevaluated individual keeps its rank")
    b.fitness.set_fitness(objs[1])
    require(b.get_pure_fitness() == objs[1], "cannot be evaluated again")
    ctx.label("kind:" + case["kind"])
    ctx.nontrivial(some)


SUBS = [
    Sub("sorting", case_st, sort_body, 4000, 120000,
        "more than two individuals and several fronts or a real truncation"),
    Sub("dominance", objs_st, dom_body, 1600, 40000,
        "some individual dominates another"),
]
ASSUMPTIONS = ["objective values are finite numbers",
               "exact crowding is compared where no objective has ties inside "
               "a front; otherwise its range and the extremes are checked"]
