"""C29  The parts of an experiment can be used again.

Metamorphic: a run whose components (creators, operators, selections, breeder,
evaluators, statistics, checkers) have already served other runs equals the run
with fresh ones; everything handed to the constructors is as it was."""
import inspect

from hypothesis import strategies as st

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.creators import FullCreator, GrowCreator, HalfCreator
from eckity.evaluators.simple_population_evaluator import \
    SimplePopulationEvaluator
from eckity.multi_objective_evolution import NSGA2Breeder
from eckity.subpopulation import Subpopulation

from lib.dom import (SEEDS, Ev, Hist, bounds_st, ending, genome,
                     make_company, make_creator, make_op, make_sel, run_st,
                     same_traj, seed_all, trajectory, tree_op_st, tree_sets,
                     vec_op_st, with_stop)
from lib.harness import Sub, require
from lib.moo import MooEv, MooHist, moo_alg, moo_run_st, moo_traj_of

PARTS = ["creator", "ops", "sel", "breeder", "popev", "ev", "company"]
# what a run computes, though constructors accept it as well
STATE = {"population", "individuals", "generation_num", "generation_seed",
         "best_of_run_", "best_of_gen", "worst_of_gen", "best_of_run",
         "events", "event_names", "executor"}


def plain(v, depth=0):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return [[plain(k), plain(x, depth + 1)] for k, x in v.items()]
    if v is None or isinstance(v, (bool, int, float, str, complex)):
        return repr(v)
    if inspect.isfunction(v) or inspect.isclass(v):
        return "%s@%d" % (v.__name__, id(v))
    return type(v).__name__


def settings(*objs):
    """the values of all constructor parameters the objects still show"""
    out = []
    for o in objs:
        names = set()
        for c in type(o).__mro__[:-1]:
            if "__init__" in c.__dict__:
                names |= set(inspect.signature(c.__init__).parameters)
        out.append((type(o).__name__, {
            k: plain(getattr(o, k)) for k in sorted(names - STATE)
            if hasattr(o, k)}))
    return out


def parts_of(r):
    p = {"sel": [(make_sel(r["sel"], r["hib"]), 1)],
         "ops": [make_op(o) for o in r["ops"]], "creator": [make_creator(r)],
         "pcr": [1.0],
         "breeder": SimpleBreeder(), "ev": Ev(r["eval"]),
         "popev": SimplePopulationEvaluator(r.get("method", "map")),
         "company": make_company(r["company"])}
    return p


def build(r, p):
    sp = Subpopulation(
        p["ev"], creators=p["creator"], pcr=p["pcr"],
        population_size=r["pop"],
        higher_is_better=r["hib"], elitism_rate=r["elite"],
        operators_sequence=p["ops"], selection_methods=p["sel"])
    kw = dict(p["company"])
    kw["termination_checker"] = with_stop(r, kw["termination_checker"])
    return SimpleEvolution(
        sp, breeder=p["breeder"], population_evaluator=p["popev"],
        max_generation=r["gens"], executor="thread", max_workers=r["workers"],
        random_seed=r["seed"], **kw)


def traj(alg):
    h = Hist(alg)
    alg.evolve()
    return trajectory(h, alg)


def leaves(p):
    out = p["ops"] + [s for s, _ in p["sel"]] + list(p["creator"])
    for c in p["creator"]:
        for k in ("grow_creator", "full_creator"):
            if hasattr(c, k):
                out.append(getattr(c, k))
    ch = p["company"]["termination_checker"]
    return out + [p["ev"], p["popev"], p["breeder"]] + (
        ch if isinstance(ch, list) else [ch] if ch else [])


@st.composite
def case_st(draw):
    r = draw(ending(run_st(max_gens=4, max_pop=10, min_gens=1), 1))
    share = draw(st.one_of(st.just(PARTS), st.lists(
        st.sampled_from(PARTS), min_size=1, unique=True)))
    more = []
    for _ in range(draw(st.integers(1, 3))):
        lo = 2 * (r["depth"][1] + 1 - r["depth"][0]) if r.get(
            "creator") == "half" else 2
        # sizes that every operator divides
        size = r["pop"] * draw(st.sampled_from([1, 1, 2, 3]))
        m = {"pop": max(lo, size), "gens": draw(st.integers(1, 4)),
             "seed": draw(SEEDS),
             "elite": draw(st.sampled_from([0.0, 0.5, 1.0]))}
        # what is not shared may be of another kind
        if "sel" not in share and draw(st.booleans()):
            m["sel"] = {"k": "tour", "size": draw(st.integers(1, 5))}
        if "ops" not in share and draw(st.booleans()):
            m["ops"] = draw(st.lists(
                tree_op_st(r["sets"]) if "sets" in r else
                vec_op_st(r["enc"], r["length"]), min_size=1, max_size=3))
        more.append(m)
    return {"run": r, "more": more, "share": share}


def body(case, ctx):
    r = case["run"]
    p = parts_of(r)
    lists = {k: list(p[k]) for k in ("ops", "sel", "creator", "pcr")}
    alg = build(r, p)
    before = settings(*leaves(p), alg)
    first = traj(alg)
    after = settings(*leaves(p), alg)
    for a, b in zip(before, after):
        require(a == b, "the settings of %s were %s before the run and are %s "
                "after it", a[0], a[1], b[1])
    for k, v in lists.items():
        require(len(p[k]) == len(v) and all(
            x is y for x, y in zip(p[k], v)), "the list of %s handed in was "
            "changed", k)
    for m in case["more"]:
        r2 = dict(r, **m)
        r2.pop("stop", None)
        fresh = parts_of(r2)
        want = traj(build(r2, fresh))
        used = dict(parts_of(r2), **{k: p[k] for k in case["share"]})
        b0 = settings(*leaves(used))
        got = traj(build(r2, used))
        same_traj(want, got, "fresh components vs %s that served a run before"
                  % ", ".join(case["share"]))
        require(settings(*leaves(used)) == b0, "settings of components changed "
                "when they were used again: %s, %s", b0,
                settings(*leaves(used)))
    ctx.label("enc:" + r["enc"], "shared:%d" % len(case["share"]))
    ctx.nontrivial(len({str(g[2]) for g in first["gens"]}) > 1)
    ctx.evals(1 + len(case["more"]))


# --------------------------------------------------------------- multi-objective
def moo_parts(r):
    return {"population_evaluator": SimplePopulationEvaluator(),
            "breeder": NSGA2Breeder(), "ev": MooEv(r["eval"], r["m"])}


def moo_run(r, p):
    over = {k: v for k, v in p.items() if k != "ev"}
    alg = moo_alg(r, p["ev"], **over)
    return alg


def moo_body(case, ctx):
    r = case["run"]
    p = moo_parts(r)
    n = 0
    for k, m in enumerate([{}] + case["more"]):
        r2 = dict(r, **m)
        want, got = [], []
        for parts, out in ((moo_parts(r2), want),
                           (dict(moo_parts(r2), **{
                               x: p[x] for x in case["share"]}), got)):
            alg = moo_run(r2, parts)
            sp = alg.population.sub_populations[0]
            things = list(sp.get_operators_sequence()) + [
                s for s, _ in sp.get_selection_methods()] + [alg]
            b0 = settings(*things)
            h = MooHist(alg)
            alg.evolve()
            out.append(moo_traj_of(h, alg))
            require(settings(*things) == b0, "the settings %s are %s after the "
                    "run", b0, settings(*things))
        same_traj(want[0], got[0], "NSGA-II: fresh components vs %s that served "
                  "%d runs before" % (", ".join(case["share"]), k))
        n += len({str(g[2]) for g in got[0]["gens"]}) > 1
    ctx.label("m=%d" % r["m"])
    ctx.nontrivial(n > 0)
    ctx.evals(1 + len(case["more"]))


@st.composite
def moo_st(draw):
    r = draw(ending(moo_run_st(max_gens=3, max_pop=8), 1))
    return {"run": r, "more": [
        {"pop": r["pop"] * draw(st.integers(1, 2)), "seed": draw(SEEDS),
         "gens": draw(st.integers(1, 3)), "stop": None}
        for _ in range(draw(st.integers(1, 2)))],
        "share": draw(st.lists(st.sampled_from(
            ["population_evaluator", "breeder", "ev"]), min_size=1,
            unique=True))}


# ------------------------------------------------------- creators and operators
@st.composite
def direct_st(draw):
    r = draw(run_st(max_gens=1, max_pop=8))
    # another experiment with the same kind of genomes
    other = draw(run_st(max_gens=1, max_pop=8, encs=(r["enc"],)))
    if "length" in r:
        n = other["length"] = r["length"] + draw(st.integers(0, 3))
        other["bounds"] = draw(bounds_st(r["enc"], n))
    return {"run": r, "other": draw(st.sampled_from([None, other])), "n": draw(st.lists(st.integers(1, 12), min_size=1,
                                         max_size=4)),
            "own": draw(st.booleans()),
            "depths": [draw(st.integers(1, 2)), draw(st.integers(2, 4))],
            "seeds": draw(st.lists(SEEDS, min_size=4, max_size=4))}


def direct_body(case, ctx):
    """components that are used on their own, several times"""
    r = case["run"]

    def creator():
        if case["own"] and r.get("creator") == "half":
            s = tree_sets(r["sets"])
            lo, hi = case["depths"]
            g, f = (c(init_depth=(lo, hi), **s) for c in (GrowCreator,
                                                          FullCreator))
            return HalfCreator(grow_creator=g, full_creator=f,
                               init_depth=tuple(r["depth"]), **s), [g, f]
        return make_creator(r), []
    used, inner = creator()
    base = settings(used, *inner)
    for n, seed in zip(case["n"], case["seeds"]):
        n = max(n, 2 * (r["depth"][1] + 1 - r["depth"][0])
                if r.get("creator") == "half" else 1)
        out = []
        for c in (creator()[0], used):
            seed_all(seed)
            out.append([genome(i) for i in c.create_individuals(n, r["hib"])])
        require(out[0] == out[1], "a creator used again makes %s, a fresh one "
                "%s", out[1], out[0])
        for c, c2 in zip(inner, creator()[1]):
            out = []
            for x in (c2, c):
                seed_all(seed)
                out.append([genome(i) for i in x.create_individuals(n, True)])
            require(out[0] == out[1], "a %s that also serves in ramped "
                    "half-and-half creation makes %s, a fresh one %s",
                    type(c).__name__, out[1], out[0])
        require(settings(used, *inner) == base, "the settings of the creator "
                "were %s and are %s", base, settings(used, *inner))
    ops = [make_op(o) for o in r["ops"]]
    mine = make_creator(r)
    seed_all(r["seed"])
    k = 12 if r.get("creator") == "half" else 4
    pool = mine.create_individuals(k, r["hib"])
    s0 = settings(*ops)
    if case["other"]:
        there = make_creator(case["other"]).create_individuals(12, r["hib"])
        for o in ops:
            for i in range(0, 12 - o.get_operator_arity(), 3):
                o.apply_operator([x.clone() for x in there[
                    i:i + o.get_operator_arity()]])
        ctx.label("operators from another experiment")
    for seed in case["seeds"]:
        for o, spec in zip(ops, r["ops"]):
            a = [i.clone() for i in pool[:o.get_operator_arity()]]
            b = [i.clone() for i in pool[:o.get_operator_arity()]]
            if len(a) < o.get_operator_arity():
                continue
            seed_all(seed)
            x = make_op(spec).apply_operator(a)
            seed_all(seed)
            y = o.apply_operator(b)
            require([genome(i) for i in x] == [genome(i) for i in y],
                    "%s used again makes %s, a fresh one %s",
                    type(o).__name__, [genome(i) for i in y],
                    [genome(i) for i in x])
    require(settings(*ops) == s0, "the settings of operators were %s and are "
            "%s", s0, settings(*ops))
    ctx.label("enc:" + r["enc"], "inner creators" if inner else "plain")
    ctx.nontrivial(len(case["n"]) > 1)
    ctx.evals(len(case["n"]) + 4)


SUBS = [
    Sub("runs", case_st, body, 1000, 16000, "the first run changed something"),
    Sub("moo", moo_st, moo_body, 400, 6000, "the population changed"),
    Sub("direct", direct_st, direct_body, 1600, 20000,
        "a creator was used several times"),
]
ASSUMPTIONS = ["components are used by one run after the other",
               "stagnation checkers remember the fitness of earlier runs"]
