"""C19  Selection methods: how many, which, and as what.

Oracle: brute force over the source population (reference scores), multiset and
identity relations between source and destination, and 7-sigma frequency checks
against the exact selection probabilities."""
import math
from collections import Counter

from hypothesis import strategies as st

from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import IntVector
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.base.untyped_functions import f_neg
from eckity.genetic_operators import (ElitismSelection,
                                      FitnessProportionateSelection,
                                      TournamentSelection)

from lib.dom import SEEDS, f_st, genome, seed_all, size_st
from lib.harness import Sub, binom_ok, require


@st.composite
def src_st(draw, kind=("simple", "gp"), n=None, vals=None, distinct=False):
    k = draw(st.sampled_from(kind))
    m = draw(size_st(1, 9, 60)) if n is None else n
    v = vals or st.one_of(st.integers(-6, 6), f_st(-10, 10),
                          st.sampled_from(["inf", "-inf", 1e12, -1e12]))
    return {"kind": k, "hib": draw(st.booleans()),
            "bw": draw(st.sampled_from([0.0, 0.5, 4.0])),
            "cache": draw(st.booleans()), "up": draw(st.booleans()),
            "vals": draw(st.lists(v, min_size=m, max_size=m, unique=distinct)),
            "sizes": [draw(st.integers(1, 5)) for _ in range(m)]}


def dec(v):
    return float(v) if isinstance(v, str) else v


def build(c, hib=None):
    hib = c["hib"] if hib is None else hib
    inds, aug = [], []
    for j, (v, s) in enumerate(zip(c["vals"], c["sizes"])):
        v = dec(v)
        if c["kind"] == "gp":
            ind = Tree(fitness=GPFitness(v, hib, c["cache"], False, c["bw"]),
                       function_set=[f_neg], terminal_set=["x", 1.5],
                       tree=[FunctionNode(f_neg) for _ in range(s - 1)]
                       + [TerminalNode(1.5 if j % 2 else "x")],
                       update_parents=c["up"])
            aug.append(v - c["bw"] * s if hib else v + c["bw"] * s)
        else:
            ind = IntVector(SimpleFitness(v, hib, c["cache"]), 2,
                            bounds=(0, 99), vector=[j, s],
                            update_parents=c["up"])
            aug.append(v)
        ind.selected_by.append("earlier")
        inds.append(ind)
    return inds, aug


def snap(i):
    return (i.id, genome(i), i.fitness.is_fitness_evaluated(),
            i.get_pure_fitness(), list(i.selected_by),
            list(i.applied_operators), i.cloned_from, i.gen)


def better(c, a, b):
    return a > b if c["hib"] else a < b


@st.composite
def sel_st(draw):
    k = draw(st.sampled_from(["tour", "tourx", "fp", "elite", "tourall"]))
    if k == "fp":
        c = draw(src_st(vals=st.one_of(st.integers(0, 9), f_st(0, 20),
                                       st.sampled_from([0, 0.0, 700.0, 1000.0]))))
        if c["hib"]:
            c["bw"] = 0.0
    else:
        c = draw(src_st())
    n = len(c["vals"])
    return {"src": c, "k": k, "seed": draw(SEEDS),
            "size": draw(size_st(1, 12, 40)),
            "dest": draw(st.integers(0, n)) if draw(st.booleans()) else 0,
            "n_elite": draw(st.integers(0, n + 1))}


def make(case, hib):
    k, n = case["k"], len(case["src"]["vals"])
    if k == "tour":
        return TournamentSelection(case["size"], higher_is_better=hib)
    if k == "tourx":
        return TournamentSelection(min(case["size"], n), higher_is_better=hib,
                                   replace=False)
    if k == "tourall":
        return TournamentSelection(n, higher_is_better=hib, replace=False)
    if k == "fp":
        return FitnessProportionateSelection(higher_is_better=hib)
    return ElitismSelection(case["n_elite"], higher_is_better=hib)


def sel_body(case, ctx):
    seed_all(case["seed"])
    c = case["src"]
    inds, aug = build(c)
    before = [snap(i) for i in inds]
    order = list(inds)
    sel = make(case, c["hib"])
    other, _ = build(c)
    dest = other[:case["dest"]]
    given = list(dest)
    dest_before = [snap(i) for i in dest]
    if case["seed"] % 2:
        res = sel.select(inds, dest)
    else:
        res = sel.apply_operator((inds, dest))
    n = len(inds)
    want = min(case["n_elite"], n) if case["k"] == "elite" else n - len(given)
    require(res is dest, "the destination list was not returned")
    require(len(dest) == len(given) + want, "%d individuals selected, expected "
            "%d", len(dest) - len(given), want)
    require(all(a is b for a, b in zip(dest, given)) and
            [snap(i) for i in given] == dest_before,
            "individuals already in the destination were disturbed")
    new = dest[len(given):]
    require(len(inds) == n and all(a is b for a, b in zip(inds, order)),
            "the source list was changed")
    require([snap(i) for i in inds] == before, "a source individual was changed")
    src = {i.id: k for k, i in enumerate(inds)}
    require(len({id(x) for x in new}) == len(new), "one object selected twice")
    ids = [i.id for i in new]
    require(len(set(ids)) == len(ids) and not set(ids) & set(src),
            "selected individuals share ids")
    chosen = []
    for x in new:
        require(not any(x is y for y in inds), "a source individual itself was "
                "handed out")
        require(x.cloned_from in src, "cloned from %s, not a source individual",
                x.cloned_from)
        k = src[x.cloned_from]
        chosen.append(k)
        require(genome(x) == before[k][1], "the genome of a winner was changed")
        require(x.fitness.is_fitness_evaluated() == c["cache"],
                "cached fitness rule broken for a selected individual")
        if c["cache"]:
            require(x.get_pure_fitness() == before[k][3], "fitness changed")
        require(x.selected_by == [type(sel).__name__],
                "selected_by is %s", x.selected_by)
        require(x.fitness.higher_is_better == c["hib"], "direction changed")
    best = max(aug) if c["hib"] else min(aug)
    if case["k"] == "tourall":
        for k in chosen:
            require(aug[k] == best, "a tournament of the whole population was "
                    "won by %r, the best is %r", aug[k], best)
    if case["k"] == "elite":
        rk = sorted(aug, reverse=c["hib"])[:want]
        require([aug[k] for k in chosen] == rk, "elites %s, expected %s",
                [aug[k] for k in chosen], rk)
        require(len(set(chosen)) == len(chosen), "an elite was taken twice")
    if case["k"] == "tourx":
        # without repetition the s-1 worst can never win (ties aside)
        s = min(case["size"], n)
        for k in chosen:
            worse_eq = sum(not better(c, a, aug[k]) for a in aug)
            require(worse_eq >= s, "a tournament of %d was won by an individual "
                    "that only %d others do not beat", s, worse_eq - 1)
    ctx.label("sel:" + case["k"], "kind:" + c["kind"],
              "partial" if given else "full", "hib" if c["hib"] else "lib")
    ctx.nontrivial(len(set(aug)) > 1 and want > 0)


# ---------------------------------------------------------------- frequencies
@st.composite
def freq_st(draw):
    n = draw(size_st(2, 9, 20))
    k = draw(st.sampled_from(["tour", "tour", "tourx", "fp", "fp"]))
    v = st.one_of(st.integers(0, 12), st.sampled_from(
        [600, 1200, 5000, 0.02, 0.04, 0.05, 0.1, 0.25, 0.5]), st.integers(1, 100).map(
            lambda i: i / 200)) if k == "fp" else st.integers(-50, 50)
    c = draw(src_st(n=n, vals=v, distinct=k != "fp"))
    if k != "fp":
        c["bw"] = 0.0
    else:
        c["bw"] = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0]))
        if c["bw"] and c["kind"] == "gp":
            # penalties that matter, scores that stay non-negative
            c["vals"] = [x % 2 + (6 * c["bw"] if c["hib"] else 0)
                         for x in c["vals"]]
            c["sizes"] = [draw(st.integers(1, 6)) for _ in c["vals"]]
    return {"src": c, "k": k, "seed": draw(SEEDS), "size": draw(st.integers(1, n + (5 if k == "tour" else 0)))}


def freq_body(case, ctx):
    seed_all(case["seed"])
    c = case["src"]
    inds, aug = build(c)
    n, s = len(inds), case["size"]
    if case["k"] == "fp":
        sel = FitnessProportionateSelection(higher_is_better=c["hib"])
    else:
        sel = TournamentSelection(s, higher_is_better=c["hib"],
                                  replace=case["k"] == "tour")
    src = {i.id: k for k, i in enumerate(inds)}
    cnt = Counter()
    R = (3000 if case["k"] == "fp" else 900) // n
    same = Counter()
    for _ in range(R):
        got = [src[x.cloned_from] for x in sel.select(inds, [])]
        cnt.update(got)
        for j in {1, n // 2, n - 1} - {0}:
            same[j] += got[0] == got[j]
    N = R * n

    def tol(p):
        return 7 * math.sqrt(N * p * (1 - p)) + 1
    if case["k"] == "fp":
        # better individuals are selected more often, equal ones equally often
        for a in range(n):
            for b in range(n):
                if better(c, aug[a], aug[b]) or aug[a] == aug[b]:
                    d = cnt[b] - cnt[a]
                    require(d <= 7 * math.sqrt(cnt[a] + cnt[b] + 1) + 1,
                            "fitness %r was selected %d times, worse or equal "
                            "%r %d times", aug[a], cnt[a], aug[b], cnt[b])
        # a clearly better score is selected clearly more often
        lift = 1 if min(aug) == 0 else 0
        t = [a if c["hib"] else 1 / (a + lift) for a in aug]
        for a in range(n):
            for b in range(n):
                m = cnt[a] + cnt[b]
                if t[a] >= 1.5 * t[b] and t[a] - t[b] >= 1:
                    require(cnt[a] >= 0.6 * m - 7 * math.sqrt(0.24 * m) - 1,
                            "fitness %r was selected %d times, the clearly "
                            "worse %r %d times", aug[a], cnt[a], aug[b], cnt[b])
        best = max(aug) if c["hib"] else min(aug)
        nb = sum(cnt[k] for k in range(n) if aug[k] == best)
        share = sum(a == best for a in aug) / n
        require(nb >= N * share - tol(share), "the best were selected %d times "
                "of %d", nb, N)
    else:
        ps = []
        for k in range(n):
            w = sum(not better(c, a, aug[k]) for a in aug)   # it and the worse
            if case["k"] == "tour":
                p = (w / n) ** s - ((w - 1) / n) ** s
            else:
                p = (math.comb(w, s) - math.comb(w - 1, s)) / math.comb(n, s)
            require(binom_ok(cnt[k], N, p),
                    "rank %d of %d won %d of %d tournaments of %d, expected "
                    "%.1f", n - w + 1, n, cnt[k], N, s, N * p)
            ps.append(p)
        # tournaments are independent of each other
        q = sum(p * p for p in ps)
        for j, m in same.items():
            require(abs(m - R * q) <= 9 * math.sqrt(R * q * (1 - q)) + 2,
                    "winners 0 and %d of one selection were the same individual "
                    "%d times of %d, expected %.1f", j, m, R, R * q)
    ctx.label("sel:" + case["k"])
    ctx.nontrivial(len(set(aug)) > 1)
    ctx.evals(N)


# ------------------------------------------------------------------ rejections
@st.composite
def bad_st(draw):
    k = draw(st.sampled_from(["fp", "tourx"]))
    c = draw(src_st(kind=("simple",), vals=st.integers(0, 9)))
    n = len(c["vals"])
    if k == "fp":
        c["vals"][draw(st.integers(0, n - 1))] = draw(
            st.sampled_from([-1, -0.125, -1000]))
    return {"src": c, "k": k, "seed": draw(SEEDS),
            "size": n + draw(st.integers(1, 3))}


def bad_body(case, ctx):
    seed_all(case["seed"])
    inds, aug = build(case["src"])
    hib = case["src"]["hib"]
    sel = (FitnessProportionateSelection(higher_is_better=hib)
           if case["k"] == "fp" else
           TournamentSelection(case["size"], higher_is_better=hib, replace=False))
    before = [snap(i) for i in inds]
    dest = []
    try:
        sel.select(inds, dest)
    except ValueError:
        pass
    else:
        require(False, "%s was accepted", "negative fitness" if case["k"] == "fp"
                else "a tournament larger than the population")
    require(not dest and [snap(i) for i in inds] == before,
            "a rejected selection had an effect")
    ctx.label("bad:" + case["k"])
    ctx.nontrivial(len(inds) > 1)


SUBS = [
    Sub("select", sel_st, sel_body, 4000, 120000,
        "at least two different scores and something to select"),
    Sub("frequency", freq_st, freq_body, 240, 5000,
        "at least two different scores (900 to 3000 draws per case)", chunk=20),
    Sub("rejected", bad_st, bad_body, 400, 6000, "more than one individual"),
]
ASSUMPTIONS = [
    "the fitness direction of the selection is that of the individuals",
    "fitness proportionate selection: only the monotone relation between "
    "fitness and selection frequency is claimed",
]
