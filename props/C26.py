"""C26  A configuration is accepted exactly when it is consistent.

Configurations are generated together with an independent validity rule;
accepted ones must take effect as given, invalid ones must be refused with
ValueError before anything runs."""
import math
import random
from fractions import Fraction

from hypothesis import strategies as st

from eckity import genetic_operators as gop
from eckity.algorithms import SimpleEvolution
from eckity.algorithms.algorithm import Algorithm
from eckity.breeders import SimpleBreeder
from eckity.breeders.breeder import Breeder
from eckity.creators import (FullCreator, GAIntVectorCreator, GrowCreator,
                             HalfCreator)
from eckity.evaluators import SimplePopulationEvaluator
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.gp import Tree
from eckity.genetic_encodings.gp.tree.tree_node import FunctionNode
from eckity.genetic_operators import (IdentityTransformation, SubtreeCrossover,
                                      TournamentSelection)
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.multi_objective_evolution import (CrowdingTerminationChecker,
                                              NSGA2Evolution)
from eckity.population import Population
from eckity.statistics import BestAverageWorstStatistics, MinimalPrintStatistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker \
    import BestFitnessStagnationTerminationChecker

from lib import dom
from lib.dom import (SEEDS, TYPED_SETS, UNTYPED, VEC, Ev, fn_types, make_op,
                     mk_bounds, seed_all)
from lib.harness import Sub, Violation, binom_ok, require


def refused(fn, what):
    try:
        fn()
    except ValueError:
        return
    raise Violation("accepted: " + what)


# ------------------------------------------------------------- subpopulation
@st.composite
def sub_st(draw):
    cr = draw(st.sampled_from(["one", "list", "list", "list", "list", "none",
                               "empty", "bad", "str", "tuple"]))
    n = draw(st.integers(1, 4)) if cr in ("list", "bad") else 1
    pcr = draw(st.sampled_from(["none", "ok", "ok", "ok", "short", "long", "sum"]))
    w = [draw(st.integers(0, 6)) for _ in range(n)]
    if not sum(w):
        w[0] = 1
    return {"cr": cr, "n": n, "badat": draw(st.integers(0, 3)),
            "pcr": pcr, "w": w, "off": draw(st.sampled_from(
                [0.01, -0.01, 0.5, -0.3, 1.0])),
            "ops": draw(st.sampled_from(["ok", "ok", "ok", "none"])),
            "size": draw(st.integers(1, 60)), "seed": draw(SEEDS),
            "rate": draw(st.one_of(st.integers(0, 60), st.integers(0, 120).map(
                lambda i: i / 4), st.integers(0, 12).map(lambda i: i + 0.5))),
            "hib": draw(st.booleans())}


class MarkedCreator(GAIntVectorCreator):
    def __init__(self, mark):
        super().__init__(length=1, bounds=(mark, mark))


def sub_body(case, ctx):
    n = case["n"]
    creators = [MarkedCreator(k) for k in range(n)]
    arg = {"one": creators[0], "list": creators, "none": None, "empty": [],
           "str": "creator", "tuple": tuple(creators),
           "bad": creators[:case["badat"]] + ["x"] + creators[case["badat"]:]
           }[case["cr"]]
    k = n + 1 if case["cr"] == "bad" else n
    tot = sum(case["w"])
    w = [x / tot for x in case["w"]] + ([0.0] if k > n else [])
    pcr = {"none": None, "ok": w, "short": w[:-1], "long": w + [0.0],
           "sum": [w[0] + case["off"]] + w[1:]}[case["pcr"]]
    ops = None if case["ops"] == "none" else [IdentityTransformation()]
    rate = min(1.0, case["rate"] / case["size"])
    ok = case["cr"] in ("one", "list") and case["pcr"] in ("none", "ok") and (
        ops is not None)

    def mk():
        return Subpopulation(Ev("hash"), creators=arg, pcr=pcr,
                             operators_sequence=ops, elitism_rate=rate,
                             population_size=case["size"],
                             higher_is_better=case["hib"])
    ctx.label("cr:" + case["cr"], "pcr:" + case["pcr"])
    if not ok:
        refused(mk, "creators %r with probabilities %r, operators %r" % (
            arg, pcr, ops))
        ctx.label("refused")
        ctx.nontrivial()
        return
    sp = mk()
    require(abs(sp.n_elite - rate * case["size"]) <= 0.5 + 1e-9,
            "%d elites for a rate of %r of %d", sp.n_elite, rate, case["size"])
    x = rate * case["size"]
    if x % 2 == 1.5:    # half up and half to even agree
        require(sp.n_elite == x + 0.5, "%d elites for a rate of %r of %d, "
                "which is %g", sp.n_elite, rate, case["size"], x)
    require(sp.population_size == case["size"]
            and sp.higher_is_better == case["hib"]
            and sp.get_operators_sequence() == ops, "settings were not kept")
    sels = sp.get_selection_methods()
    require(len(sels) >= 1 and sels[0][0].higher_is_better == case["hib"],
            "default selection does not follow the direction of the fitness")
    # one creator makes the whole population, never one with probability 0
    seed_all(case["seed"])
    sp.create_subpopulation_individuals()
    require(len(sp.individuals) == case["size"], "%d individuals created",
            len(sp.individuals))
    marks = {i.vector[0] for i in sp.individuals}
    require(len(marks) == 1, "individuals of several creators")
    m = marks.pop()
    require(case["pcr"] == "none" or case["w"][m] > 0,
            "creator %d with probability 0 was used", m)
    require(all(i.fitness.higher_is_better == case["hib"]
                for i in sp.individuals), "direction of the fitness")
    keep = list(sp.individuals)
    sp.create_subpopulation_individuals()
    require(all(a is b for a, b in zip(keep, sp.individuals)),
            "existing individuals were replaced")
    ctx.nontrivial(n > 1 and case["pcr"] == "ok")


def freq_body(case, ctx):
    """creators are used with the given probabilities"""
    seed_all(case["seed"])
    w = case["w"]
    tot = sum(w)
    n = len(w)
    creators = [MarkedCreator(k) for k in range(n)]
    pcr = None if case["uniform"] else [x / tot for x in w]
    p = [1 / n] * n if case["uniform"] else [x / tot for x in w]
    N = 4000
    cnt = [0] * n
    sp = Subpopulation(Ev("hash"), creators=creators, pcr=pcr,
                       operators_sequence=[IdentityTransformation()],
                       population_size=1)
    for _ in range(N):
        sp.individuals = None
        sp.create_subpopulation_individuals()
        cnt[sp.individuals[0].vector[0]] += 1
    for k in range(n):
        require(binom_ok(cnt[k], N, p[k]), "creator %d of probability %.3f was "
                "used %d times of %d", k, p[k], cnt[k], N)
    ctx.nontrivial(len(set(p)) > 1)


# ----------------------------------------------------------------- algorithm
def one_sub(**kw):
    return Subpopulation(Ev("hash"), creators=MarkedCreator(1),
                         operators_sequence=[IdentityTransformation()],
                         population_size=2, **kw)


class OtherBreeder(Breeder):
    def apply_breed(self, population):
        pass


ALG_CASES = {
    "population": ["sub", "sub", "list", "pop", "none", "empty", "badlist",
                   "badlist2", "str", "dict"],
    "statistics": ["none", "none", "one", "list", "many", "emptylist", "bad",
                   "badlist"],
    "executor": ["thread", "thread", "process", "THREAD", "none", "pool"],
    "breeder": ["default", "default", "none", "simple", "other", "str"],
    "evaluator": ["none", "none", "simple", "submit", "str", "individual"],
    "method": ["map", "submit", "MAP", "none", "apply"],
}


def alg_body(case, ctx):
    s = one_sub()
    pop = {"sub": s, "list": [s], "pop": Population([s]), "none": None,
           "empty": [], "badlist": [s, "x"], "badlist2": [Population([s])],
           "str": "pop", "dict": {"a": s}}[case["population"]]
    st1, st2 = BestAverageWorstStatistics(), MinimalPrintStatistics()
    stats = {"none": None, "one": st1, "list": [st1, st2],
             "many": [st1, st2] + [MinimalPrintStatistics() for _ in range(
                 case["gens"] % 7)], "emptylist": [],
             "bad": "stat", "badlist": [st1, print]}[case["statistics"]]
    ex = None if case["executor"] == "none" else case["executor"]
    kw = {}
    if case["breeder"] != "default":
        kw["breeder"] = {"none": None, "simple": SimpleBreeder(),
                         "other": OtherBreeder(), "str": "b"}[case["breeder"]]
    if case["evaluator"] != "none":
        kw["population_evaluator"] = {
            "simple": SimplePopulationEvaluator(),
            "submit": SimplePopulationEvaluator("submit"), "str": "e",
            "individual": Ev("hash")}[case["evaluator"]]
    moo = case["moo"]
    bad = [case["population"] in ("none", "empty", "badlist", "badlist2", "str",
                                  "dict"),
           case["statistics"] in ("bad", "badlist"),
           ex not in ("thread", "process")]
    if not moo:
        bad += [case["breeder"] in ("other", "str"),
                case["evaluator"] in ("str", "individual")]
    else:
        kw = {}
    cls = NSGA2Evolution if moo else SimpleEvolution

    def mk():
        return cls(pop, statistics=stats, executor=ex,
                   max_generation=case["gens"], max_workers=1,
                   random_seed=case["seed"], **kw)
    m = None if case["method"] == "none" else case["method"]
    if m in ("map", "submit"):
        require(SimplePopulationEvaluator(m).executor_method == m, "method")
    else:
        refused(lambda: SimplePopulationEvaluator(m), "executor method %r" % m)
    ctx.label("bad:%d" % sum(bad), "moo" if moo else "simple")
    if any(bad):
        refused(mk, "algorithm with %r" % case)
        ctx.nontrivial()
        return
    a = mk()
    require(a.population.sub_populations == [s], "population was not taken over")
    want = [st1] if case["statistics"] == "one" else (
        stats if case["statistics"] in ("list", "many") else [])
    require(len(a.statistics) == len(want) and all(
        x is y for x, y in zip(a.statistics, want)), "statistics %s, expected %s",
            a.statistics, want)
    require(a.max_generation == case["gens"] and a.random_seed == case["seed"]
            and a.generation_seed == case["seed"] and a.max_workers == 1,
            "settings were not kept")
    from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
    require(isinstance(a.executor, ThreadPoolExecutor if ex == "thread" else
                       ProcessPoolExecutor), "executor is a %s",
            type(a.executor))
    a.executor.shutdown(wait=False)
    ctx.nontrivial(case["population"] != "sub")


# ---------------------------------------------------------------------- trees
POOL = sorted({f.__name__: f for fs in TYPED_SETS.values() for f in fs[0]
               if f.__module__ == "lib.dom"}.items())
TYPES = {"float": float, "int": int, "bool": bool, "str": str}


@st.composite
def tree_st(draw):
    kind = draw(st.sampled_from(["typed", "typed", "typed", "typed", "untyped",
                                 "mixed", "nofunc", "noterm", "badfunc",
                                 "badterm", "badtype"]))
    fs = draw(st.lists(st.sampled_from([n for n, _ in POOL]), min_size=1,
                       max_size=5, unique=True))
    args = sorted({t.__name__ for n in fs for t in fn_types(dict(POOL)[n])[0]})
    rets = sorted({fn_types(dict(POOL)[n])[1].__name__ for n in fs})
    # mostly consistent sets
    terms = list(args)
    flip = draw(st.integers(0, 5))
    if flip == 0:
        terms = draw(st.lists(st.sampled_from(sorted(TYPES)), min_size=1,
                              max_size=4, unique=True))
    elif flip == 1 and len(terms) > 1:
        terms.pop(draw(st.integers(0, len(terms) - 1)))
    erc = draw(st.sampled_from([None, None, None, "float", "int"]))
    root = draw(st.one_of(st.sampled_from(rets), st.sampled_from(rets),
                          st.sampled_from(sorted(TYPES) + [None])))
    return {"kind": kind, "fs": fs, "terms": terms, "erc": erc, "root": root,
            "extra": draw(st.integers(0, 2)), "at": draw(st.integers(0, 4)),
            "ufs": draw(st.lists(st.sampled_from(sorted(UNTYPED)), min_size=1,
                                 max_size=3, unique=True))}


def tree_body(case, ctx):
    kind = case["kind"]
    pool = dict(POOL)
    fs = [pool[n] for n in case["fs"]]
    terms = {}
    for t in case["terms"]:
        for j in range(1 + case["extra"]):
            terms["%s%d" % (t[0], j)] = TYPES[t]
    erc = {"float": (0.0, 1.0), "int": (0, 5), None: None}[case["erc"]]
    root = TYPES.get(case["root"])
    if kind == "untyped":
        fs = [UNTYPED[n] for n in case["ufs"]]
        terms = ["a%d" % i for i in range(case["extra"] + 1)] + [1]
        root = None
        ok = True
    elif kind == "mixed":        # a typed function, terminals without types
        fs = [UNTYPED[n] for n in case["ufs"]]
        fs.insert(case["at"] % (len(fs) + 1), pool[case["fs"][0]])
        terms = list(terms)
        root = None
        ok = False
    elif kind == "nofunc":
        fs, ok = None, False
    elif kind == "noterm":
        terms, ok = None, False
    elif kind == "badfunc":
        fs = list(fs)
        fs.insert(case["at"] % (len(fs) + 1), "f_add")
        ok = False
    elif kind == "badterm":
        terms, ok = tuple(terms), False
    elif kind == "badtype":
        terms = dict(terms)
        terms["zz"] = "float"
        ok = False
    else:
        args = {t for f in fs for t in fn_types(f)[0]}
        rets = {fn_types(f)[1] for f in fs}
        tt = set(terms.values()) | ({type(erc[0])} if erc else set())
        ok = root in rets and args == tt and (
            erc is None or type(erc[0]) in rets)

    def mk():
        return Tree(fitness=GPFitness(), function_set=fs, terminal_set=terms,
                    erc_range=erc, root_type=root)
    ctx.label("kind:" + kind, "valid" if ok else "invalid")
    if not ok:
        refused(mk, "function set %s, terminal set %s, erc %s, root type %s" % (
            fs, terms, erc, root))
        for cls in (GrowCreator, FullCreator, HalfCreator):
            refused(lambda: cls(init_depth=(1, 2), function_set=fs,
                                terminal_set=terms, erc_range=erc,
                                root_type=root).create_individuals(4, True),
                    "%s with function set %s, terminal set %s, erc %s, root "
                    "type %s" % (cls.__name__, fs, terms, erc, root))
        ctx.nontrivial(kind == "typed")
        return
    t = mk()
    require(t.size() == 0, "a new tree has %d nodes", t.size())
    require(list(t.function_set) == fs and set(t.terminal_set) == set(terms)
            and t.root_type is root and t.erc_range == erc,
            "settings were not kept")
    if kind == "typed":
        require(t.terminal_set == terms, "terminal types were not kept")
        ctx.nontrivial()


# partially annotated functions have no usable type
def part_a(x: float, y):
    return x


def part_b(x, y) -> float:
    return x


def part_c(x: int, y: int):
    return x


def part_d(x: int, y, z: float) -> int:
    return x


# -------------------------------------------------------------------- vectors
@st.composite
def vecs_st(draw):
    enc = draw(st.sampled_from(["bit", "int", "float"]))
    n = draw(st.integers(1, 6))
    return {"enc": enc, "n": n,
            "bounds": draw(st.sampled_from(["tuple", "tuple", "list", "list",
                                            "tuple1", "tuple3", "tuple0",
                                            "short", "long", "empty"])),
            "vec": draw(st.sampled_from(["none", "ok", "ok", "short", "long",
                                         "tuple", "str", "empty"]))}


def vec_body(case, ctx):
    n = case["n"]
    p = (0, 1)
    b = {"tuple": p, "list": [p] * n, "tuple1": (0,), "tuple3": (0, 1, 2),
         "tuple0": (), "short": [p] * (n - 1), "long": [p] * (n + 1),
         "empty": []}[case["bounds"]]
    v = {"none": None, "ok": [1] * n, "short": [1] * (n - 1),
         "long": [1] * (n + 1), "tuple": (1,) * n, "str": "1" * n, "empty": []
         }[case["vec"]]
    ok = case["bounds"] in ("tuple", "list") and case["vec"] in ("none", "ok")

    def mk():
        return VEC[case["enc"]](fitness=SimpleFitness(), length=n, bounds=b,
                                vector=v)
    ctx.label("bounds:" + case["bounds"], "vec:" + case["vec"])
    if not ok:
        refused(mk, "vector %r of length %d with bounds %r" % (v, n, b))
        ctx.nontrivial()
        return
    ind = mk()
    require(ind.vector == (v or []) and ind.bounds == b and ind.length == n,
            "settings were not kept")


# ------------------------------------------------------- refused when running
class Pass(IdentityTransformation):
    def __init__(self, arity):
        super().__init__()
        self.arity = arity


class Try(FailableOperator):
    def attempt_operator(self, payload, attempt_num):
        return True, payload

    def on_fail(self, payload):
        return payload


@st.composite
def late_st(draw):
    return {"pop": draw(st.integers(1, 12)),
            "ar": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)),
            "subs": draw(st.integers(1, 3)),
            "attempts": draw(st.integers(-2, 3)),
            "size": draw(st.integers(1, 6)), "replace": draw(st.booleans()),
            "lo": draw(st.integers(1, 3)), "span": draw(st.integers(0, 3)),
            "n": draw(st.integers(1, 16)), "seed": draw(SEEDS),
            "gens": draw(st.integers(0, 2))}


def late_body(case, ctx):
    def sub():
        return Subpopulation(
            Ev("hash"), creators=MarkedCreator(1),
            operators_sequence=[Pass(a) for a in case["ar"]],
            selection_methods=[(TournamentSelection(tournament_size=2), 1)],
            population_size=case["pop"])

    def alg(subs):
        return SimpleEvolution([sub() for _ in range(subs)],
                               max_generation=case["gens"], max_workers=1,
                               random_seed=case["seed"])
    # arity must divide the population size
    ok = all(case["pop"] % a == 0 for a in case["ar"])
    a = alg(1)
    if ok or case["gens"] == 0:
        a.evolve()
        require(len(a.population.sub_populations[0].individuals) == case["pop"],
                "population size")
    else:
        refused(a.evolve, "operators of arity %s on %d individuals" % (
            case["ar"], case["pop"]))
    # the simple algorithm takes one subpopulation
    if case["subs"] > 1:
        refused(alg(case["subs"]).evolve, "%d subpopulations" % case["subs"])
    # attempts
    if case["attempts"] < 1:
        refused(lambda: Try(arity=1, attempts=case["attempts"]),
                "%d attempts" % case["attempts"])
        refused(lambda: SubtreeCrossover(attempts=case["attempts"]),
                "%d attempts" % case["attempts"])
    else:
        Try(arity=1, attempts=case["attempts"])
    # half and half needs two individuals per depth
    lo, hi = case["lo"], case["lo"] + case["span"]
    need = 2 * (hi + 1 - lo)
    cr = HalfCreator(init_depth=(lo, hi), function_set=[dom.uf.f_neg, dom.u_mix],
                     terminal_set=["x"])
    seed_all(case["seed"])
    if case["n"] < need:
        refused(lambda: cr.create_individuals(case["n"], True),
                "%d individuals of depths %d to %d" % (case["n"], lo, hi))
    else:
        require(len(cr.create_individuals(case["n"], True)) == case["n"],
                "population size")
    for F in (SimpleFitness, GPFitness):
        for kw in ({}, {"cache": True}, {"fitness": 1.0},
                   {"fitness": 2, "cache": True, "is_relative_fitness": True}):
            refused(lambda: F(higher_is_better=None, **kw),
                    "no direction of the fitness")
    for f in (part_a, part_b, part_c, part_d):
        refused(lambda: FunctionNode(f), "a partially annotated function")
    ctx.label("divides" if ok else "does not divide")
    ctx.nontrivial(not ok or case["subs"] > 1)


# ---------------------------------------------------------------- left out
MUT = {"probability": 1.0, "arity": 1}
GAUSS = dict(MUT, mu=0.0, sigma=1.0, attempts=5)
# documented defaults, by the kind of component and its class
LEFT_OUT = {
    "float": [(gop.FloatVectorUniformOnePointMutation, MUT),
              (gop.FloatVectorUniformNPointMutation, MUT),
              (gop.FloatVectorGaussOnePointMutation, GAUSS),
              (gop.FloatVectorGaussNPointMutation, GAUSS)],
    "int": [(gop.IntVectorNPointMutation, MUT)],
    "bit": [(gop.BitStringVectorFlipMutation, MUT),
            (gop.BitStringVectorNFlipMutation,
             dict(MUT, probability_for_each=0.2)),
            (IdentityTransformation, {"probability": 1.0})],
    "tree": [(GrowCreator, {"bloat_weight": 0.0, "p_prune": 0.5})],
    "check": [(ThresholdFromTargetTerminationChecker,
               {"optimal": 0.0, "threshold": 0.0, "higher_is_better": False}),
              (BestFitnessStagnationTerminationChecker,
               {"stagnation_generations_to_terminate": 100}),
              (CrowdingTerminationChecker, {"threshold": 0.1})],
    "select": [(TournamentSelection, {"higher_is_better": False}),
               (gop.FitnessProportionateSelection,
                {"higher_is_better": False})],
    "sub": [(Subpopulation, {"elitism_rate": 0.0, "population_size": 200,
                             "higher_is_better": False})],
    "run": [(Algorithm, {"max_generation": 100, "generation_num": 0})],
}
ALL_LEFT = [(k, i) for k, v in LEFT_OUT.items() for i in range(len(v))]


@st.composite
def left_st(draw):
    kind, i = draw(st.sampled_from(ALL_LEFT))
    keys = sorted(LEFT_OUT[kind][i][1])
    return {"kind": kind, "i": i,
            "given": draw(st.lists(st.sampled_from(keys), unique=True,
                                   max_size=len(keys) - 1)),
            "n": draw(st.integers(1, 6)), "length": draw(st.integers(1, 40)),
            "w": draw(st.integers(0, 6)), "hi": draw(st.integers(2, 4)),
            "fits": draw(st.lists(st.sampled_from(
                [0.0, 0.001, 0.05, 0.0999, 0.1, 0.1001, 0.2, 1, 2, 5, -1, -2.5]),
                min_size=1, max_size=8)),
            "plateau": draw(st.integers(95, 104)), "seed": draw(SEEDS)}


class Steps(Algorithm):
    """an algorithm with nothing but the life cycle"""

    def __init__(self, **kw):
        super().__init__(Subpopulation(
            Ev("hash"), creators=MarkedCreator(1), population_size=1,
            operators_sequence=[IdentityTransformation()]),
            population_evaluator=SimplePopulationEvaluator(), statistics=[],
            executor="thread", max_workers=1, **kw)
        self.seen = []

    def execute(self, **kwargs):
        pass

    def generation_iteration(self, gen):
        self.seen.append(gen)


def left_body(case, ctx):
    cls, doc = LEFT_OUT[case["kind"]][case["i"]]
    kind = case["kind"]
    few = {k: doc[k] for k in case["given"]}
    ctx.label(cls.__name__)
    ctx.nontrivial()

    def inds():
        out = []
        for f in case["fits"]:
            x = VEC["int"](fitness=SimpleFitness(higher_is_better=False),
                           length=1, bounds=(0, 9), vector=[len(out) % 10])
            x.fitness.set_fitness(f)
            out.append(x)
        return out

    def trial(kw):
        if kind in VEC:
            op = cls(**kw)
            require(op.get_operator_arity() == 1, "arity %r",
                    op.get_operator_arity())
            rnd = random.Random(case["seed"])
            b = {"bit": (0, 1), "int": (-case["w"], case["w"] + 1),
                 "float": (-case["w"] - 0.5, case["w"] + 0.5)}[kind]
            res = []
            vs = [[rnd.randint(*b) if kind != "float" else rnd.uniform(*b)
                   for _ in range(case["length"])] for _ in range(case["n"])]
            seed_all(case["seed"])
            for v in vs:
                x = VEC[kind](fitness=SimpleFitness(), length=len(v), bounds=b,
                              vector=list(v))
                op.apply_operator([x])
                res.append((list(x.vector), list(x.applied_operators)))
            return res
        if kind == "tree":
            cr = cls(init_depth=(1, case["hi"]), erc_range=(-1.0, 1.0),
                     function_set=[dom.uf.f_neg, dom.u_mix],
                     terminal_set=["x", "y"], **kw)
            seed_all(case["seed"])
            out = cr.create_individuals(case["n"], False)
            for x in out:
                x.fitness.set_fitness(1.5)
            return [(dom.genome(x), x.get_augmented_fitness()) for x in out]
        if kind == "select":
            if cls is TournamentSelection:
                kw = dict(kw, tournament_size=2)
            pos = inds()
            for x in pos:
                x.fitness.set_fitness(abs(x.get_pure_fitness()))
            seed_all(case["seed"])
            return [x.vector for x in cls(**kw).select(pos, [])]
        if kind == "sub":
            sp = cls(Ev("hash"), creators=[MarkedCreator(1), MarkedCreator(2)],
                     operators_sequence=[IdentityTransformation()], **kw)
            seed_all(case["seed"])
            sp.create_subpopulation_individuals()
            return (sp.n_elite, sp.population_size, sp.higher_is_better,
                    [x.vector for x in sp.individuals],
                    sp.get_selection_methods()[0][0].higher_is_better)
        if kind == "run":
            a = Steps(random_seed=case["seed"], **kw)
            a.evolve()
            return a.seen, a.final_generation_
        c = cls(**kw)
        pop = Population([Subpopulation(
            Ev("hash"), creators=MarkedCreator(1), individuals=inds(),
            operators_sequence=[IdentityTransformation()])])
        best = pop.sub_populations[0].individuals
        if cls is CrowdingTerminationChecker:
            out = []
            for f in case["fits"]:
                for x in best:
                    x.fitness.crowding = abs(f)
                out.append(c.should_terminate(pop, best[0], 0))
            return out
        if cls is BestFitnessStagnationTerminationChecker:
            # the best fitness changes a few times and then never again
            out = []
            for g in range(len(best) + case["plateau"]):
                sp = pop.sub_populations[0]
                sp.individuals = [best[min(g, len(best) - 1)]]
                out.append(c.should_terminate(pop, sp.individuals[0], g))
                if out[-1]:
                    break
            return out
        return [c.should_terminate(pop, x, 0) for x in best]

    a, b = trial(few), trial(doc)
    require(a == b, "%s with %s given behaves as %s, with the documented "
            "defaults as %s", cls.__name__, few, a, b)


SUBS = [
    Sub("subpopulation", sub_st, sub_body, 2500, 40000,
        "refused, or several creators with given probabilities"),
    Sub("creators", lambda: st.fixed_dictionaries({
        "w": st.lists(st.integers(1, 9), min_size=2, max_size=4),
        "uniform": st.booleans(), "seed": SEEDS}), freq_body, 60, 600,
        "different probabilities"),
    Sub("algorithm", lambda: st.fixed_dictionaries(dict(
        {k: st.sampled_from(v) for k, v in ALG_CASES.items()},
        moo=st.booleans(), gens=st.integers(0, 9), seed=SEEDS)), alg_body,
        2000, 20000, "refused, or a wrapped population"),
    Sub("trees", tree_st, tree_body, 3000, 50000, "typed sets"),
    Sub("vectors", vecs_st, vec_body, 1500, 10000, "refused"),
    Sub("running", late_st, late_body, 1200, 12000,
        "arities that do not divide the population size or several "
        "subpopulations"),
    Sub("left out", left_st, left_body, 1500, 15000, "all"),
]
ASSUMPTIONS = ["creation probabilities differ from a sum of 1 by rounding or by "
               "at least 0.01",
               "frequencies: 6.5 standard deviations"]
