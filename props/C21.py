"""C21  NSGA-II runs: constant size, complete evaluation, elitist fronts.

Oracle: every generation's parents-plus-offspring pool is reconstructed from
the evaluator log, and brute-force sorting of that pool says which individuals
must have survived, with which rank."""
from collections import Counter

from hypothesis import strategies as st

from eckity.multi_objective_evolution import (MOEBestWorstStatistics,
                                              NSGA2Evolution)

from lib.dom import ending, check_tree, check_vector, genome, genomes, make_op, SEEDS
from lib.harness import Sub, require
from lib.moo import (MooEv, MooHist, crowding, dominates, hib_list, moo_alg,
                     moo_run_st, moo_score, ranks)


@st.composite
def case_st(draw):
    return {"run": draw(ending(moo_run_st(max_gens=6, max_pop=14, trees=True), 1)),
            "default": draw(st.booleans())}


def body(case, ctx):
    r = case["run"]
    hib = hib_list(r)
    ev = MooEv(r["eval"], r["m"])
    marks = []
    init = []

    alg = moo_alg(r, ev, default_breeder=case["default"])
    alg.register("init", lambda s, d: init.append(None))
    h = MooHist(alg)
    # evaluator log positions at generation boundaries
    alg.register("after_generation", lambda s, d: marks.append(len(ev.calls)))
    fronts = []
    alg.register("after_generation",
                 lambda s, d: fronts.append([list(f) for f in d["best_of_gen"]]))
    alg.evolve()
    n = r["pop"]
    if r.get("stop"):
        r = dict(r, gens=r["stop"])
    require(len(h.gens) == r["gens"], "%d generations ran, expected %d",
            len(h.gens), r["gens"])
    start = len(ev.calls) - 2 * n * r["gens"]
    require(start == n, "the initial population cost %d evaluations, expected "
            "%d (each generation evaluates parents and offspring: %d)", start, n,
            2 * n)
    prev = Counter(g for g, _ in ev.calls[:n])
    prevfit = [s for _, s in ev.calls[:n]]
    multi = trunc = False
    for g, s in enumerate(h.gens):
        require(len(s["inds"]) == n, "gen %d: %d individuals, expected %d", g,
                len(s["inds"]), n)
        require(len({id(i) for i in s["inds"]}) == n and
                len({i.id for i in s["inds"]}) == n,
                "gen %d: duplicate individuals", g)
        end = marks[g]
        pool = ev.calls[end - 2 * n:end]
        require(end == n + 2 * n * (g + 1), "gen %d: %d evaluations so far", g,
                end)
        cnt = Counter(x for x, _ in pool)
        require(all(cnt[k] >= v for k, v in prev.items()),
                "gen %d: a parent did not compete", g)
        objs = [o for _, o in pool]
        rk = ranks(objs, hib)
        byrank = Counter(rk.values())
        # how many of each front must survive
        left, want = n, Counter()
        for q in sorted(byrank):
            take = min(left, byrank[q])
            if take < byrank[q] and take:
                trunc = True
            if take:
                want[q] = take
            left -= take
        multi |= len(want) > 1
        require(Counter(s["rank"]) == want, "gen %d: front sizes %s, expected %s",
                g, dict(Counter(s["rank"])), dict(want))
        rank_of = {}
        for k, (x, o) in enumerate(pool):
            rank_of.setdefault(x, rk[k])
        for i, x, f, q in zip(s["inds"], s["genomes"], s["fit"], s["rank"]):
            if g == len(h.gens) - 1:
                if r["sets"]:
                    check_tree(i, r["sets"], True)
                else:
                    check_vector(i, r["enc"], r["length"], r["bounds"],
                                 "gen %d: " % g)
            require(x in rank_of, "gen %d: a survivor was never evaluated", g)
            require(q == rank_of[x], "gen %d: a survivor has rank %s, brute "
                    "force says %s", g, q, rank_of[x])
            require(x in cnt, "survivor not in the pool")
            require(f == dict_lookup(pool, x), "gen %d: objectives %s do not "
                    "belong to the genome", g, f)
        require(not (Counter(s["genomes"]) - cnt),
                "gen %d: a genome survived more often than it competed", g)
        # the last, truncated front keeps the most isolated individuals
        last = max(want)
        fr = [k for k in range(2 * n) if rk[k] == last]
        if want[last] < byrank[last]:
            cr = crowding([objs[k] for k in fr])
            if cr is not None:
                keep = sorted(cr, reverse=True)[:want[last]]
                got = sorted((c for c, q in zip(s["crowd"], s["rank"])
                              if q == last), reverse=True)
                require(all(a == b or abs(a - b) <= 1e-9 * max(abs(a), 1)
                            for a, b in zip(keep, got)),
                        "gen %d: crowding of the truncated front %s, expected %s",
                        g, got, keep)
        # no survivor of front 1 is dominated by anything it competed with
        for f, q in zip(s["fit"], s["rank"]):
            if q == 1:
                require(not any(dominates(o, f, hib) for o in objs + prevfit),
                        "gen %d: a first-front individual %s is dominated", g, f)
        # the reported front is the set of rank-1 survivors
        require(len(fronts[g]) == 1, "one front per subpopulation expected")
        rep = [genome(i) for i in fronts[g][0]]
        mine = [x for x, q in zip(s["genomes"], s["rank"]) if q == 1]
        if g == len(h.gens) - 1:
            require(sorted(rep) == sorted(mine),
                    "gen %d: the reported front is not the first front", g)
        require(len(rep) == len(mine), "reported front has %d members, the "
                "first front %d", len(rep), len(mine))
        require(s["best"] in mine, "gen %d: best_of_run_ is not in the first "
                "front", g)
        prev = Counter(s["genomes"])
        prevfit = s["fit"]
    # after the run
    end = h.gens[-1]
    inds = alg.population.sub_populations[0].individuals
    require(genomes(inds) == end["genomes"], "the population changed after the "
            "last generation")
    b = alg.best_of_run_
    require(list(b.get_pure_fitness()) == moo_score(r["eval"], r["m"], b),
            "best_of_run_ carries objectives of another genome")
    if not r["sets"]:
        require(list(alg.execute()) == list(b.vector), "execute() does not "
                "answer with the best individual")
    ctx.label("enc:" + r["enc"], "eval:" + r["eval"], "m=%d" % r["m"],
              "default breeder" if case["default"] else "explicit breeder",
              "truncated" if trunc else "not truncated")
    ctx.nontrivial(multi or trunc)
    ctx.evals(len(h.gens))


def dict_lookup(pool, x):
    for g, o in pool:
        if g == x:
            return o
    return None


SUBS = [
    Sub("run", case_st, body, 2400, 40000,
        "some generation had several fronts or truncated one"),
]
ASSUMPTIONS = ["even population sizes and operators whose arity divides them"]
