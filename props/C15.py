"""C15  K-point crossover exchanges alternating segments at exactly k cuts.

Oracle: parents with position-tagged, pairwise different genes; after the
crossover every position of child 1 comes from exactly one parent at the same
position, child 2 is the complement, and the origin pattern changes exactly k
times (any labelling of which segments are swapped is accepted)."""
import itertools
import math
from collections import Counter

from hypothesis import strategies as st

from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import VectorKPointsCrossover

from lib.dom import SEEDS, seed_all, size_st
from lib.harness import Sub, binom_ok, require

CLS = {"int": IntVector, "float": FloatVector, "bit": BitStringVector}


@st.composite
def xo_st(draw):
    L = draw(size_st(2, 40, 300) if draw(st.booleans()) else st.integers(2, 8))
    return {"L": L, "k": draw(st.one_of(st.integers(1, L - 1),
                                        st.integers(1, min(4, L - 1)),
                                        st.just(L - 1))),
            "enc": draw(st.sampled_from(["int", "float", "bit"])),
            "seed": draw(SEEDS), "rounds": draw(st.integers(1, 4)),
            "default": draw(st.booleans()),
            "same": draw(st.integers(0, 3)) == 0}


def pattern(child, a, b):
    """origin of every position: 0 = parent a, 1 = parent b"""
    out = []
    for i, x in enumerate(child):
        require(x == a[i] or x == b[i],
                "position %d holds %r, the parents had %r and %r there", i, x,
                a[i], b[i])
        out.append(0 if x == a[i] else 1)
    return out


def xo_body(case, ctx):
    seed_all(case["seed"])
    L, k, cls = case["L"], case["k"], CLS[case["enc"]]
    if case["default"] and k == 1:
        op = VectorKPointsCrossover()          # one-point by default
    else:
        op = VectorKPointsCrossover(probability=1.0, arity=2, k=k)
    for rnd in range(case["rounds"]):
        if case["same"] and rnd == 0:
            # equal parents: nothing to see, and nothing to remember
            v = [0] * L if case["enc"] != "float" else [0.5] * L
            two = [cls(fitness=SimpleFitness(), length=L, bounds=(0, 1),
                       vector=list(v)) for _ in range(2)]
            op.apply_operator(two)
            require(two[0].vector == v and two[1].vector == v,
                    "a crossover of equal parents gave %s and %s",
                    two[0].vector, two[1].vector)
        if case["enc"] == "bit":
            va, vb = [0] * L, [1] * L
            bounds = (0, 1)
        else:
            va, vb = list(range(L)), [1000 + i for i in range(L)]
            bounds = (0, 2000)
            if case["enc"] == "float":
                va, vb = [v + 0.5 for v in va], [v + 0.5 for v in vb]
        a = cls(fitness=SimpleFitness(), length=L, bounds=bounds, vector=list(va))
        b = cls(fitness=SimpleFitness(), length=L, bounds=bounds, vector=list(vb))
        bystander = cls(fitness=SimpleFitness(), length=L, bounds=bounds,
                        vector=list(va))
        res = op.apply_operator([a, b])
        require(len(res) == 2 and res[0] is a and res[1] is b,
                "the crossover did not return its two operands")
        require(a.size() == L and b.size() == L and len(a.vector) == L
                and len(b.vector) == L,
                "lengths %d and %d, expected %d", len(a.vector), len(b.vector), L)
        require(a.vector is not b.vector, "the children share one list")
        require(bystander.vector == va, "another individual changed")
        p, q = pattern(a.vector, va, vb), pattern(b.vector, va, vb)
        require(all(x + y == 1 for x, y in zip(p, q)),
                "a gene was duplicated or lost: origins %s and %s", p, q)
        cuts = [i for i in range(1, L) if p[i] != p[i - 1]]
        require(len(cuts) == k, "%d cut points (%s), k=%d", len(cuts), cuts, k)
        # a second application works on the result of the first
        va2, vb2 = list(a.vector), list(b.vector)
        op.apply_operator([a, b])
        p2 = pattern(a.vector, va2, vb2)
        require(sum(p2[i] != p2[i - 1] for i in range(1, L)) == k,
                "second application: wrong number of cuts")
        require(all((x == u and y == w) or (x == w and y == u) for x, y, u, w in
                    zip(a.vector, b.vector, va2, vb2)),
                "second application lost a gene")
    ctx.label("enc:" + case["enc"], "k=1" if k == 1 else "k=max" if k == L - 1
              else "k=%s" % ("even" if k % 2 == 0 else "odd"))
    ctx.nontrivial(L > 2)
    ctx.evals(2 * case["rounds"])


@st.composite
def dist_st(draw):
    L = draw(st.integers(2, 7))
    return {"L": L, "k": draw(st.integers(1, L - 1)), "seed": draw(SEEDS)}


@st.composite
def alike_st(draw):
    L = draw(st.integers(4, 14))
    same = draw(st.lists(st.booleans(), min_size=L, max_size=L))
    return {"L": L, "same": same, "seed": draw(SEEDS), "k": draw(
        st.integers(1, 2))}


def alike_body(case, ctx):
    """where to cut does not depend on what the parents have in common"""
    seed_all(case["seed"])
    L, k, same = case["L"], case["k"], case["same"]
    va = [0] * L
    vb = [0 if s else 1 for s in same]
    op = VectorKPointsCrossover(probability=1.0, k=k)
    N = 900

    def child(cuts):
        out, p, j = [], 0, 0
        for i in range(L):
            if j < k and i == cuts[j]:
                p, j = 1 - p, j + 1
            out.append((va, vb)[p][i])
        comp = [a + b - x for a, b, x in zip(va, vb, out)]
        return frozenset([tuple(out), tuple(comp)])

    exp = Counter()
    sets = list(itertools.combinations(range(1, L), k))
    for cuts in sets:
        exp[child(cuts)] += 1 / len(sets)
    cnt = Counter()
    for _ in range(N):
        a = BitStringVector(fitness=SimpleFitness(), length=L, vector=list(va))
        b = BitStringVector(fitness=SimpleFitness(), length=L, vector=list(vb))
        op.apply_operator([a, b])
        cnt[frozenset([tuple(a.vector), tuple(b.vector)])] += 1
    require(set(cnt) <= set(exp), "children no %d cut points can give: %s", k,
            [sorted(c) for c in set(cnt) - set(exp)])
    for c, p in exp.items():
        require(binom_ok(cnt[c], N, p),
                "parents %s and %s: children %s came up %d times of %d, "
                "expected %.0f", va, vb, sorted(c), cnt[c], N, N * p)
    ctx.nontrivial(len(exp) > 1 and any(same))
    ctx.evals(N)


def dist_body(case, ctx):
    """every set of k inner cut points occurs, equally often (7 sigma)"""
    seed_all(case["seed"])
    L, k = case["L"], case["k"]
    op = VectorKPointsCrossover(probability=1.0, k=k)
    N = 900
    cnt = Counter()
    for _ in range(N):
        a = BitStringVector(fitness=SimpleFitness(), length=L, vector=[0] * L)
        b = BitStringVector(fitness=SimpleFitness(), length=L, vector=[1] * L)
        op.apply_operator([a, b])
        v = a.vector
        cnt[tuple(i for i in range(1, L) if v[i] != v[i - 1])] += 1
    m = math.comb(L - 1, k)
    p = 1 / m
    require(len(cnt) == m, "%d of %d cut sets were seen in %d crossovers: never "
            "a cut set outside %s", len(cnt), m, N, sorted(cnt))
    for cs, c in cnt.items():
        require(binom_ok(c, N, p),
                "cut set %s occurred %d times of %d, expected %.0f", cs, c, N,
                N * p)
    ctx.label("sets:%d" % m)
    ctx.nontrivial(m > 1)
    ctx.evals(N)


def prob_st():
    return st.fixed_dictionaries({
        "L": st.integers(2, 6), "seed": SEEDS,
        "p": st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0])})


def prob_body(case, ctx):
    seed_all(case["seed"])
    L, p = case["L"], case["p"]
    op = VectorKPointsCrossover(probability=p, k=1)
    N = 600
    hit = 0
    for _ in range(N):
        a = BitStringVector(fitness=SimpleFitness(), length=L, vector=[0] * L)
        b = BitStringVector(fitness=SimpleFitness(), length=L, vector=[1] * L)
        op.apply_operator([a, b])
        hit += a.vector != [0] * L
        require([x + y for x, y in zip(a.vector, b.vector)] == [1] * L,
                "a gene was lost")
    require(binom_ok(hit, N, p), "crossover with probability %g happened "
        "%d times of %d", p, hit, N)
    ctx.label("p=%g" % p)
    ctx.nontrivial(0 < p < 1)


SUBS = [
    Sub("segments", xo_st, xo_body, 4000, 200000, "vectors longer than two"),
    Sub("cut points", dist_st, dist_body, 160, 3000,
        "more than one possible cut set (900 crossovers per case)", chunk=20),
    Sub("alike", alike_st, alike_body, 120, 2400,
        "parents agree somewhere and several children are possible (900 "
        "crossovers per case)", chunk=15),
    Sub("probability", prob_st, prob_body, 96, 2000,
        "probability strictly between 0 and 1 (600 crossovers per case)",
        chunk=20),
]
ASSUMPTIONS = ["two parents of equal length L, 1 <= k < L",
               "distribution checks use 7-sigma limits"]
