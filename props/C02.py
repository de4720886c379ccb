"""Population integrity over the history of a run."""
from copy import deepcopy

from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require


def mutable_parts(ind):
    yield "individual", ind
    yield "fitness", ind.fitness
    if isinstance(ind, Tree):
        yield "tree", ind.tree
        for n in ind.tree:
            yield "node", n
    else:
        yield "vector", ind.vector


def body(case, ctx):
    r = case["run"]
    inds = None
    if case["given"]:
        seed_all(r["seed"])
        inds = make_creator(r).create_individuals(r["pop"], r["hib"])
        if case["given"] == "copied":  # the second half are clones of the first
            half = len(inds) // 2
            inds = inds[:len(inds) - half] + [i.clone() for i in inds[:half]]
        if case["given"] == "evaluated":  # e.g. the end of an earlier run
            for i in inds:
                i.fitness.set_fitness(score_of(r["eval"], i))
        if case["given"] == "stale":      # scored by some other evaluator
            for n, i in enumerate(inds):
                if n % 3:
                    i.fitness.set_fitness(float(n))
    if inds is not None:
        given, given_ids = genomes(inds), [i.id for i in inds]
    ev = Ev(r["eval"])
    alg = make_alg(r, ev, individuals=inds)
    h = Hist(alg)
    alg.evolve()
    if inds is not None:
        require(h.gens[0]["ids"] == given_ids
                and h.gens[0]["genomes"] == given,
                "the initial population is not the one that was supplied")
    ids = {}
    prev = None
    for g, s in enumerate(h.gens):
        require(len(s["inds"]) == r["pop"],
                "gen %d: population has %d individuals, configured %d",
                g, len(s["inds"]), r["pop"])
        parts = {}
        for n, i in enumerate(s["inds"]):
            for what, o in mutable_parts(i):
                k = id(o)
                require(k not in parts,
                        "gen %d: %s of individual #%d is shared with #%s",
                        g, what, n, parts.get(k))
                parts[k] = n
        for iid, i in zip(s["ids"], s["inds"]):
            require(ids.setdefault(iid, i) is i,
                    "gen %d: id %d names two different individuals", g, iid)
        require(len(set(s["ids"])) == r["pop"], "gen %d: ids are not unique", g)
        for i, f in zip(s["inds"], s["fit"]):
            want = score_of(r["eval"], i)
            require(f == want,
                    "gen %d: recorded fitness %r, genome scores %r", g, f, want)
            if r["enc"] in ("tree", "ttree"):
                check_tree(i, r["sets"],
                           erc_mutated=any(o["op"] == "erc" for o in r["ops"]))
            else:
                check_vector(i, r["enc"], r["length"], r["bounds"],
                             "gen %d: " % g)
        require(s["num"] == g, "generation number %s at generation %d",
                s["num"], g)
        require(all(x == g for x in s["gen"]),
                "gen %d: individuals are stamped %s", g, s["gen"])
        if prev is not None:
            pids = set(prev["ids"])
            for i in s["inds"]:
                require(i.cloned_from in pids,
                        "gen %d: cloned_from=%s is not in generation %d",
                        g, i.cloned_from, g - 1)
            # the parents are what they were
            require(genomes(prev["inds"]) == prev["genomes"],
                    "gen %d: breeding changed a genome of generation %d", g, g - 1)
            require([i.id for i in prev["inds"]] == prev["ids"],
                    "gen %d: breeding changed an id of generation %d", g, g - 1)
            for i, f in zip(prev["inds"], prev["fit"]):
                require(i.fitness.is_fitness_evaluated()
                        and i.get_pure_fitness() == f,
                        "gen %d: breeding changed a fitness of generation %d",
                        g, g - 1)
            pparts = {id(o): w for i in prev["inds"]
                      for w, o in mutable_parts(i)}
            for n, i in enumerate(s["inds"]):
                for what, o in mutable_parts(i):
                    require(id(o) not in pparts,
                            "gen %d: %s of individual #%d is shared with the "
                            "previous generation", g, what, n)
        prev = s
    run_labels(ctx, r)
    ctx.label("given:%s" % case["given"])
    changed = len(h.gens) > 1 and any(
        set(s["genomes"]) != set(h.gens[0]["genomes"]) for s in h.gens)
    ctx.nontrivial(changed)
    ctx.evals(len(h.gens) * r["pop"])


def strat():
    return st.fixed_dictionaries({
        "run": ending(run_st(max_gens=6, max_pop=12), 1),
        "given": st.sampled_from([None, None, None, "fresh", "copied",
                                  "evaluated", "stale"])})


SUBS = [Sub("run", strat, body, 5000, 60000,
            "at least one generation introduced a new genome")]
ASSUMPTIONS = ["population size divisible by operator arities",
               "function and terminal sets from a pool of closed sets"]
