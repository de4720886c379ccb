"""Domain builders: turn JSON-able specs into EC-KitY objects.

Everything here is module level, so that process executors can pickle it.
Only public API of eckity is used."""
import math
import os
import random
import threading
import time
import zlib

import numpy as np
from hypothesis import strategies as st

from eckity.algorithms import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.creators import (
    FullCreator,
    GABitStringVectorCreator,
    GAFloatVectorCreator,
    GAIntVectorCreator,
    GrowCreator,
    HalfCreator,
)
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_operators import (
    BitStringVectorFlipMutation,
    BitStringVectorNFlipMutation,
    ERCMutation,
    FitnessProportionateSelection,
    FloatVectorGaussNPointMutation,
    FloatVectorGaussOnePointMutation,
    FloatVectorUniformNPointMutation,
    FloatVectorUniformOnePointMutation,
    IdentityTransformation,
    IntVectorNPointMutation,
    IntVectorOnePointMutation,
    SubtreeCrossover,
    SubtreeMutation,
    TournamentSelection,
    VectorKPointsCrossover,
    VectorNPointMutation,
)
from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf
from eckity.subpopulation import Subpopulation
from eckity.statistics import Statistics
from eckity.termination_checkers import TerminationChecker
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker \
    import BestFitnessStagnationTerminationChecker

from lib.harness import HarnessError, Violation, require  # noqa: F401

SEEDS = st.integers(0, 2**32 - 1)


def size_st(lo, hi, big, rate=15):
    """a size between lo and hi, now and then (one in rate + 1) up to big"""
    return st.integers(0, rate).flatmap(
        lambda z: st.integers(hi, big) if z == rate else st.integers(lo, hi))


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed % 2**32)


# ------------------------------------------------------------------ genomes
def node_key(n):
    if isinstance(n, FunctionNode):
        return ("f", n.function.__name__)
    v = n.value
    t = n.node_type
    return ("t", type(v).__name__, repr(v), None if t is None else t.__name__)


def genome(ind):
    """A hashable value equal iff the genomes are equal."""
    if isinstance(ind, Tree):
        return tuple(node_key(n) for n in ind.tree)
    return tuple(repr(v) for v in ind.vector)


def genomes(inds):
    return [genome(i) for i in inds]


def ghash(g):
    return zlib.crc32(repr(g).encode())


# ---------------------------------------------------------------- evaluators
def score_of(kind, ind):
    """The reference fitness functions (deterministic)."""
    g = genome(ind)
    if kind == "hash":          # rugged, practically no ties
        return ghash(g) / 2.0**20
    if kind == "hashneg":       # rugged, negative values too
        return ghash(g) / 2.0**20 - 2048.0
    if kind == "ties":          # few distinct values, many ties
        return float(ghash(g) % 5)
    if kind == "coarse":
        return float(ghash(g) % 23)
    if kind == "big":           # far beyond 32 bit, exactly representable
        return float(ghash(g)) * 2.0**20 - 2.0**50
    if kind == "sum":
        if isinstance(ind, Tree):
            return float(ind.size())
        return float(sum(ind.vector))
    if kind == "inf":           # infeasible individuals get an infinite score
        m = ghash(g) % 5
        return math.inf if m == 0 else -math.inf if m == 1 else ghash(g) / 2.0**20
    if kind == "int":
        return ghash(g) % 1000
    if kind == "np":
        return np.float64(ghash(g) % 4096) / 8
    if kind == "const":
        return 1.0
    raise HarnessError(kind)


class Ev(SimpleIndividualEvaluator):
    """Evaluator that logs its calls (thread executors)."""

    def __init__(self, kind="hash", delay=None, log=True, logfile=None):
        super().__init__()
        self.kind = kind
        self.delay = delay
        self.calls = [] if log else None
        self.logfile = logfile  # for process executors

    def evaluate_individual(self, individual):
        if self.delay:
            # completion order differs from submission order
            unit = self.delay if isinstance(self.delay, float) else 0.001
            time.sleep((ghash(genome(individual)) % 4) * unit)
        s = score_of(self.kind, individual)
        if self.calls is not None:
            self.calls.append((individual.id, genome(individual), s))
        if self.logfile:
            fd = os.open(self.logfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b"%d\n" % individual.id)
            os.close(fd)
        return s


# ------------------------------------------------------------- function sets
UNTYPED = {
    f.__name__: f
    for f in (uf.f_add, uf.f_sub, uf.f_mul, uf.f_div, uf.f_sqrt, uf.f_log,
              uf.f_abs, uf.f_neg, uf.f_inv, uf.f_max, uf.f_min, uf.f_sin,
              uf.f_cos, uf.f_iflte0, uf.f_ifgt0, uf.f_iflte, uf.f_ifgt)
}


# functions of the user's own
def u_mix(a, b, c):
    return a * b - c


def u_five(v, w, x, y, z):
    return v - w + x - y * z


UNTYPED.update(u_mix=u_mix, u_five=u_five)


# typed functions used to build mixed-type function sets
def ff_add(x: float, y: float) -> float:
    return x + y


def ff_neg(x: float) -> float:
    return -x


def fb_if(c: bool, x: float, y: float) -> float:
    return x if c else y


def bf_lt(x: float, y: float) -> bool:
    return bool(x < y)


def bb_and(x: bool, y: bool) -> bool:
    return bool(x and y)


def bb_not(x: bool) -> bool:
    return not x


def ii_add(x: int, y: int) -> int:
    return x + y


def ib_sel(c: bool, x: int, y: int) -> int:
    return x if c else y


def bi_eq(x: int, y: int) -> bool:
    return x == y


def if_floor(x: float) -> int:
    return int(math.floor(x)) if math.isfinite(x) else 0


def fi_scale(x: float, n: int) -> float:
    return x * (n % 7)


# name -> (functions, {variables: type}, {constants: type}, root types)
TYPED_SETS = {
    "float": ([ff_add, ff_neg], {"x": float, "y": float}, [(0.5, float)],
              [float]),
    "floatbool": ([ff_add, fb_if, bf_lt, bb_and, bb_not],
                  {"x": float, "y": float, "p": bool},
                  [(1.5, float), (True, bool), (False, bool)],
                  [float, bool]),
    "intbool": ([ii_add, ib_sel, bi_eq, bb_and],
                {"i": int, "j": int, "p": bool},
                [(3, int), (True, bool)], [int, bool]),
    "all": ([ff_add, fb_if, bf_lt, bb_not, ii_add, ib_sel, bi_eq, if_floor,
             fi_scale],
            {"x": float, "i": int, "p": bool},
            [(2.5, float), (7, int), (False, bool)],
            [float, int, bool]),
    "lib": ([tf.add2floats, tf.mul2floats, tf.div2floats, tf.sin_float,
             tf.iflte_floats], {"x": float, "y": float}, [(1.0, float)],
            [float]),
}
TYPE_BY_NAME = {"float": float, "int": int, "bool": bool, None: None}


def tree_sets(spec):
    """spec -> dict(function_set, terminal_set, erc_range, root_type)

    spec: {"typed": name|None, "funcs": [...], "vars": n, "consts": [...],
           "erc": None|[lo, hi] , "root": typename}"""
    erc = spec.get("erc")
    if spec.get("typed"):
        funcs, vs, cs, roots = TYPED_SETS[spec["typed"]]
        terms = dict(vs)
        if spec.get("consts"):
            terms.update(dict(cs))
        return dict(
            function_set=list(funcs), terminal_set=terms,
            erc_range=tuple(erc) if erc else None,
            root_type=TYPE_BY_NAME[spec["root"]],
        )
    funcs = [UNTYPED.get(n) or getattr(uf, n) for n in spec["funcs"]]
    names = spec.get("names") or ["x%d" % i for i in range(spec["vars"])]
    terms = list(names) + list(spec.get("consts") or [])
    return dict(
        function_set=funcs, terminal_set=terms,
        erc_range=tuple(erc) if erc else None, root_type=None,
    )


def f_st(lo, hi):
    """floats on an exact grid (sums and comparisons have no rounding)"""
    return st.integers(int(lo * 8), int(hi * 8)).map(lambda i: i / 8)


@st.composite
def erc_st(draw, kinds=("none", "float", "int")):
    k = draw(st.sampled_from(kinds))
    if k == "none":
        return None
    lo = draw(st.integers(-20, 20))
    hi = lo + draw(st.integers(1, 30))
    return [float(lo), float(hi)] if k == "float" else [lo, hi]


@st.composite
def treeset_st(draw, typed=None, erc=("none", "float", "int"), consts=True):
    """function/terminal-set spec; typed None = either"""
    is_typed = draw(st.booleans()) if typed is None else typed
    if is_typed:
        name = draw(st.sampled_from(sorted(TYPED_SETS)))
        funcs, vs, cs, roots = TYPED_SETS[name]
        types = {t.__name__ for t in vs.values()}
        kinds = [k for k in erc if k == "none" or k in types]
        return {
            "typed": name,
            "consts": draw(st.booleans()) if consts else False,
            "erc": draw(erc_st(tuple(kinds))),
            "root": draw(st.sampled_from([r.__name__ for r in roots])),
        }
    funcs = draw(st.lists(st.sampled_from(sorted(UNTYPED)), min_size=1,
                          max_size=5, unique=True))
    cl = []
    if consts:
        cl = draw(st.lists(st.one_of(st.integers(-5, 5), f_st(-4, 4)),
                           max_size=2, unique=True))
    return {
        "typed": None, "funcs": funcs, "vars": draw(st.integers(1, 3)),
        "consts": cl, "erc": draw(erc_st(erc)), "root": None,
    }


def make_tree_creator(kind, spec, cache=False, **kw):
    s = tree_sets(spec)
    cls = {"grow": GrowCreator, "full": FullCreator, "half": HalfCreator}[kind]
    if cache:
        cls = {"grow": CachedGrowCreator, "full": CachedFullCreator,
               "half": CachedHalfCreator}[kind]
    return cls(function_set=s["function_set"], terminal_set=s["terminal_set"],
               erc_range=s["erc_range"], root_type=s["root_type"], **kw)


# ------------------------------------------------------- independent tree ops
def fn_types(f):
    """argument types and return type, from the annotations"""
    import inspect

    sig = inspect.signature(f)
    ps = list(sig.parameters.values())
    ann = f.__annotations__
    return [ann.get(p.name) for p in ps], ann.get("return")


def nargs(f):
    import inspect

    return len(inspect.signature(f).parameters)


def parse(nodes, i=0):
    """prefix list -> nested (node, [children]), index after it"""
    require(i < len(nodes), "tree ends before all arguments are present")
    n = nodes[i]
    i += 1
    kids = []
    if isinstance(n, FunctionNode):
        for _ in range(nargs(n.function)):
            k, i = parse(nodes, i)
            kids.append(k)
    return (n, kids), i


def parse_all(nodes):
    t, i = parse(nodes)
    require(i == len(nodes), "tree has %d nodes after its last argument",
            len(nodes) - i)
    return t


def ref_depth(t):
    return 0 if not t[1] else 1 + max(ref_depth(k) for k in t[1])


def leaf_depths(t, d=0):
    if not t[1]:
        return [d]
    return [x for k in t[1] for x in leaf_depths(k, d + 1)]


def ref_eval(t, env):
    n, kids = t
    if isinstance(n, FunctionNode):
        return n.function(*[ref_eval(k, env) for k in kids])
    if isinstance(n.value, str):
        return env[n.value]
    return n.value


def check_tree(ind, spec, erc_mutated=False):
    """well-formed, closed over the sets, type-correct.  Returns parsed tree."""
    s = tree_sets(spec)
    t = parse_all(ind.tree)
    typed = spec.get("typed") is not None
    terms = s["terminal_set"]
    keys = [(type(k), k) for k in terms]
    erc = s["erc_range"]

    def rec(t, want, path):
        n, kids = t
        if isinstance(n, FunctionNode):
            require(any(n.function is f for f in s["function_set"]),
                    "function %s is not in the function set", n.function)
            args, ret = fn_types(n.function)
            if typed:
                require(ret is want, "at %s: function %s returns %s, %s expected",
                        path, n.function.__name__, ret, want)
                require(n.node_type is want, "at %s: node type %s, expected %s",
                        path, n.node_type, want)
            for i, (k, a) in enumerate(zip(kids, args)):
                rec(k, a, path + (i,))
        else:
            v = n.value
            if typed:
                require(n.node_type is want,
                        "at %s: terminal %r has type %s, expected %s",
                        path, v, n.node_type, want)
            in_set = (type(v), v) in keys and (
                not typed or terms[v] is want)
            in_erc = False
            if erc is not None and not isinstance(v, str):
                if erc_mutated:
                    in_erc = isinstance(v, (int, float))
                else:
                    in_erc = type(v) is type(erc[0]) and erc[0] <= v <= erc[1]
                if typed:
                    in_erc = in_erc and type(v) is want
            if erc_mutated and not in_set and type(v) in (int, float):
                in_erc = not typed or type(v) is want
            require(in_set or in_erc,
                    "at %s: terminal %r is neither in the terminal set nor in "
                    "the ERC range %s", path, v, erc)

    rec(t, s["root_type"], ())
    return t


# ------------------------------------------------------------------ operators
def make_op(o):
    k = o["op"]
    p = o.get("p", 1.0)
    # operators other than crossovers take their arity from the case, if any
    kw = {"arity": o["arity"]} if "arity" in o else {}
    if k == "kx":
        return VectorKPointsCrossover(probability=p, arity=2, k=o["k"])
    if k == "flip":
        return BitStringVectorFlipMutation(probability=p, **kw)
    if k == "nflip":
        return BitStringVectorNFlipMutation(
            probability=p, probability_for_each=o.get("pe", 0.3), n=o["n"],
            **kw)
    if k == "intn":
        return IntVectorNPointMutation(probability=p, n=o["n"], **kw)
    if k == "int1":
        return IntVectorOnePointMutation(
            probability=p, probability_for_each=o.get("pe", 0.3), **kw)
    if k == "uni1":
        return FloatVectorUniformOnePointMutation(probability=p, **kw)
    if k == "unin":
        return FloatVectorUniformNPointMutation(probability=p, n=o["n"], **kw)
    if k == "gauss1":
        return FloatVectorGaussOnePointMutation(
            probability=p, mu=o.get("mu", 0.0), sigma=o["sigma"],
            attempts=o.get("attempts", 5), **kw)
    if k == "gaussn":
        return FloatVectorGaussNPointMutation(
            n=o["n"], probability=p, mu=o.get("mu", 0.0), sigma=o["sigma"],
            attempts=o.get("attempts", 5), **kw)
    if k == "npoint":
        return VectorNPointMutation(n=o["n"], probability=p,
                                    attempts=o.get("attempts", 5), **kw)
    if k == "id":
        return IdentityTransformation(probability=p)
    if k == "stx":
        return SubtreeCrossover(probability=p, arity=o.get("arity", 2),
                                attempts=o.get("attempts", 1))
    if k == "stm":
        return SubtreeMutation(probability=p, init_depth=tuple(o["depth"]),
                               attempts=o.get("attempts", 1), **kw)
    if k == "erc":
        return ERCMutation(probability=p, mu=o.get("mu", 0),
                           sigma=o.get("sigma", 1), **kw)
    raise HarnessError(k)


P_ST = st.sampled_from([1.0, 1.0, 0.7, 0.3, 0.0])


@st.composite
def vec_op_st(draw, enc, length, p=P_ST):
    kinds = {
        "bit": ["kx", "flip", "nflip", "npoint", "id"],
        "int": ["kx", "intn", "int1", "npoint", "id"],
        "float": ["kx", "uni1", "unin", "gauss1", "gaussn", "npoint", "id"],
    }[enc]
    if length < 2:
        kinds = [k for k in kinds if k != "kx"]
    k = draw(st.sampled_from(kinds))
    o = {"op": k, "p": draw(p)}
    if k == "kx":
        o["k"] = draw(st.integers(1, length - 1))
    if k in ("nflip", "intn", "unin", "gaussn", "npoint"):
        o["n"] = draw(st.integers(1, length))
    if k in ("gauss1", "gaussn"):
        o["sigma"] = draw(st.sampled_from([0.01, 0.5, 3.0, 50.0]))
        o["attempts"] = draw(st.integers(1, 4))
    return o


@st.composite
def tree_op_st(draw, spec, p=P_ST):
    kinds = ["stx", "stm", "id"]
    if spec.get("erc") or spec.get("consts"):
        kinds.append("erc")
    k = draw(st.sampled_from(kinds))
    o = {"op": k, "p": draw(p)}
    if k == "erc":
        o["mu"] = draw(st.sampled_from([0, 0, 0, 2, -0.5, 1.0]))
        o["sigma"] = draw(st.sampled_from([1, 1, 0.01, 5.0, 0]))
    if k in ("stx", "stm"):
        o["attempts"] = draw(st.integers(1, 3))
    if k == "stm":
        lo = draw(st.integers(1, 2))
        o["depth"] = [lo, draw(st.integers(lo, 3))]
    return o


# -------------------------------------------------------------------- vectors
@st.composite
def bounds_st(draw, enc, length):
    """tuple bounds {"t": [lo, hi]} or per-cell {"l": [[lo, hi], ...]}"""
    # beyond 32 bits, sometimes
    wide = enc != "bit" and not draw(st.integers(0, 15))

    def pair():
        if enc == "bit":
            return draw(st.sampled_from([[0, 1]] * 6 + [[1, 1], [0, 0]]))
        if wide:
            lo = draw(st.integers(-2**40, 2**40))
            return ([lo, lo + draw(st.integers(0, 2**41))] if enc == "int" else
                    [float(lo), lo + float(draw(st.integers(1, 2**41)))])
        if enc == "int":
            lo = draw(st.integers(-50, 50))
            return [lo, lo + draw(st.integers(0, 40))]
        lo = draw(f_st(-20, 20))
        return [lo, lo + draw(f_st(0.125, 30))]
    if draw(st.booleans()):
        return {"t": pair()}
    return {"l": [pair() for _ in range(length)]}


def mk_bounds(b):
    return tuple(b["t"]) if "t" in b else [tuple(x) for x in b["l"]]


def cell_bounds(b, i):
    return b["t"] if "t" in b else b["l"][i]


VEC = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}
VEC_CREATOR = {"bit": GABitStringVectorCreator, "int": GAIntVectorCreator,
               "float": GAFloatVectorCreator}


def check_vector(ind, enc, length, b, msg=""):
    v = ind.vector
    require(isinstance(v, list), "%sgenome is a %s", msg, type(v))
    require(len(v) == length, "%sgenome has %d cells, expected %d", msg,
            len(v), length)
    require(ind.size() == length, "%ssize() is %s, expected %d", msg,
            ind.size(), length)
    for i, x in enumerate(v):
        lo, hi = cell_bounds(b, i)
        if enc == "float":
            require(isinstance(x, (int, float)), "%scell %d is %r", msg, i, x)
        else:
            require(type(x) is int, "%scell %d is %r", msg, i, x)
        require(lo <= x <= hi, "%scell %d = %r is outside [%r, %r]", msg, i, x,
                lo, hi)


# ------------------------------------------------------------------ run specs
def draw_arities(draw, ops, pop):
    """operators on several individuals at once"""
    for o in ops:
        if o["op"] in ("kx", "id") or draw(st.integers(0, 4)):
            continue
        lo = 2 if o["op"] == "stx" else 1
        o["arity"] = draw(st.sampled_from(
            [a for a in range(lo, 5) if pop % a == 0]))


@st.composite
def run_st(draw, encs=("bit", "int", "float", "tree", "ttree"), max_gens=6,
           max_pop=12, evals=("hash", "hashneg", "ties", "coarse", "big", "inf", "int",
                             "np"),
           sels=("tour", "tourx", "fp"), elites=True, min_gens=0, min_pop=2,
           force_elite=False, bloat=True, individuals=False, big=True):
    enc = draw(st.sampled_from(encs))
    max_len, max_tour, deep = 6, 4, 1
    # now and then far larger in one dimension
    how = draw(st.sampled_from([None] * 36 + ["pop", "gens", "genome", "tour"])
               ) if big else None
    if how == "pop":
        min_pop, max_pop, max_gens = 30, 120, min(max_gens, 3)
    elif how == "gens":
        max_gens, max_pop = 40, max(min_pop, 4)
    elif how == "genome":
        max_len, deep = 90, 4
    elif how == "tour":
        max_tour = 24
    pop = 2 * draw(st.integers((min_pop + 1) // 2, max_pop // 2))
    r = {"enc": enc, "hib": draw(st.booleans()),
         "gens": draw(st.one_of(
             st.integers(max(min_gens, max_gens - 2), max_gens),
             st.integers(min_gens, max_gens))),
         "seed": draw(st.one_of(SEEDS, st.sampled_from(
             [0, 1, 2**32 - 1, 2**32 - 2, 2**31]))),
         "eval": draw(st.sampled_from(evals)),
         "up": draw(st.booleans()),
         "cache": draw(st.sampled_from([False, False, True])),
         "workers": draw(st.sampled_from([1, 2, 4, None]))}
    if enc in ("tree", "ttree"):
        spec = draw(treeset_st(typed=(enc == "ttree")))
        r["sets"] = spec
        r["creator"] = draw(st.sampled_from(["grow", "full", "half"]))
        lo = draw(st.integers(1, 2))
        hi = draw(st.integers(lo, lo + deep))
        r["depth"] = [lo, hi]
        if r["creator"] == "half":
            pop = max(pop, 2 * (hi + 1 - lo))
            r["up"] = False
        r["bloat"] = draw(st.sampled_from([0.0, 0.5, 10.0])) if bloat else 0.0
        r["ops"] = draw(st.lists(tree_op_st(spec), min_size=1, max_size=3))
    else:
        length = draw(st.integers(1, max_len))
        r["length"] = length
        r["bounds"] = draw(bounds_st(enc, length))
        r["ops"] = draw(st.lists(vec_op_st(enc, length), min_size=1, max_size=3))
        r["bloat"] = 0.0
    r["pop"] = pop
    draw_arities(draw, r["ops"], pop)
    if force_elite:
        # rates need not be a whole number of individuals
        r["elite"] = draw(st.integers(1, pop)) / pop + draw(
            st.sampled_from([0, 0, 0.3, -0.3, -0.45])) / pop
        r["elite"] = min(1.0, r["elite"])
    elif elites:
        r["elite"] = draw(st.sampled_from([0, 0, 1, 1, 2, 3, pop])) / pop
        r["elite"] = min(1.0, r["elite"])
    else:
        r["elite"] = 0.0
    sel = draw(st.sampled_from(sels))
    if sel == "fp" and (r["eval"] in ("hashneg", "big", "sum", "inf")
                        or (r["bloat"] and r["hib"])):
        sel = "tour"   # FP selection needs non-negative fitness
    r["sel"] = {"k": sel}
    if sel != "fp":
        r["sel"]["size"] = draw(st.integers(1, max_tour if sel == "tour"
                                            else min(max_tour, pop)))
    r["company"] = draw(COMPANY)
    return r


# parts of an experiment that must not influence it: termination checkers that
# are never satisfied, statistics
COMPANY = st.sampled_from([None] * 3 + ["threshold", "stagnation", "list",
                                        "statistics", "all"])


class Quiet(Statistics):
    """statistics that read the generation and write nothing"""

    def __init__(self):
        super().__init__("{}")

    def write_statistics(self, sender, data_dict):
        for sp in data_dict["population"].sub_populations:
            sp.get_best_individual()
            sp.get_worst_individual()
            self.format_string.format(len(sp.individuals))


class StopAt(TerminationChecker):
    """ends a run after generation `at`"""

    def __init__(self, at):
        super().__init__()
        self.at = at

    def should_terminate(self, population, best_individual, gen_number):
        return gen_number == self.at


def ending(runs, lo=0):
    """some of the runs end before the last generation"""
    return st.builds(
        lambda r, s: r if s is None or r["gens"] < lo else dict(
            r, stop=max(lo, min(s, r["gens"]))),
        runs, st.sampled_from([None] * 6 + [0, 1, 1, 2, 3, 5]))


def with_stop(r, checker):
    if r.get("stop") is None:
        return checker
    more = checker if isinstance(checker, list) else [checker] if checker else []
    return more + [StopAt(r["stop"])] if more else StopAt(r["stop"])


def make_company(k):
    chk = {"threshold": ThresholdFromTargetTerminationChecker(
               optimal=-1.5e307, threshold=0.5),
           "stagnation": BestFitnessStagnationTerminationChecker(10**9)}
    if k in ("list", "all"):
        checker = list(chk.values())
    else:
        checker = chk.get(k)
    return {"termination_checker": checker,
            "statistics": [Quiet()] if k in ("statistics", "all") else []}


def make_sel(s, hib):
    if s["k"] == "fp":
        return FitnessProportionateSelection(higher_is_better=hib)
    return TournamentSelection(tournament_size=s["size"], higher_is_better=hib,
                               replace=s["k"] == "tour")


class _Cached:
    """individuals whose scores are kept by clones"""

    def create_individuals(self, n_individuals, higher_is_better):
        inds = super().create_individuals(n_individuals, higher_is_better)
        for i in inds:
            i.fitness.cache = True
        return inds


class CachedGrowCreator(_Cached, GrowCreator):
    pass


class CachedFullCreator(_Cached, FullCreator):
    pass


class CachedHalfCreator(_Cached, HalfCreator):
    pass


class CachedBitCreator(_Cached, GABitStringVectorCreator):
    pass


class CachedIntCreator(_Cached, GAIntVectorCreator):
    pass


class CachedFloatCreator(_Cached, GAFloatVectorCreator):
    pass


def make_creator(r):
    cache = r.get("cache", False)
    if r["enc"] in ("tree", "ttree"):
        kw = dict(init_depth=tuple(r["depth"]), bloat_weight=r["bloat"])
        if r["creator"] != "half":
            kw["update_parents"] = r["up"]
        return make_tree_creator(r["creator"], r["sets"], cache, **kw)
    cls = {"bit": CachedBitCreator, "int": CachedIntCreator,
           "float": CachedFloatCreator} if cache else VEC_CREATOR
    return cls[r["enc"]](length=r["length"], bounds=mk_bounds(r["bounds"]),
                         update_parents=r["up"])


def make_subpop(r, evaluator=None, individuals=None, **over):
    kw = dict(
        creators=make_creator(r),
        population_size=r["pop"],
        evaluator=evaluator if evaluator is not None else Ev(r["eval"]),
        higher_is_better=r["hib"],
        elitism_rate=r["elite"],
        operators_sequence=[make_op(o) for o in r["ops"]],
        selection_methods=[(make_sel(r["sel"], r["hib"]), 1)],
        individuals=individuals,
    )
    kw.update(over)
    return Subpopulation(**kw)


def make_alg(r, evaluator=None, individuals=None, **over):
    sp = make_subpop(r, evaluator, individuals)
    kw = dict(breeder=SimpleBreeder(), max_generation=r["gens"],
              executor=r.get("executor", "thread"),
              max_workers=r["workers"], random_seed=r["seed"],
              **make_company(r.get("company")),
              population_evaluator=SimplePopulationEvaluator(
                  r.get("method", "map")))
    kw["termination_checker"] = with_stop(r, kw["termination_checker"])
    kw.update(over)
    if r.get("defaults"):    # the components an algorithm brings along
        for k in ("breeder", "population_evaluator"):
            kw.pop(k)
    return SimpleEvolution(sp, **kw)


def aug(r, score, ind):
    """reference augmented fitness"""
    if not r.get("bloat"):
        return score
    w = r["bloat"] * len(ind.tree)
    return score - w if r["hib"] else score + w


def better(r, a, b):
    return a > b if r["hib"] else a < b


def best_of(r, vals):
    return max(vals) if r["hib"] else min(vals)


class Hist:
    """Records the history of a run through the published events."""

    def __init__(self, alg, deep=False):
        self.gens = []
        self.alg = alg
        alg.register("init", self.on_init)
        alg.register("after_generation", self.on_gen)
        alg.register("evolution_finished", self.on_end)
        self.events = []

    def snap(self):
        a = self.alg
        inds = list(a.population.sub_populations[0].individuals)
        return {
            "inds": inds,
            "genomes": genomes(inds),
            "fit": [i.get_pure_fitness() for i in inds],
            "ids": [i.id for i in inds],
            "gen": [i.gen for i in inds],
            "best": a.best_of_run_,
            "best_genome": genome(a.best_of_run_),
            "best_fit": a.best_of_run_.get_pure_fitness(),
            "num": a.generation_num,
            "gseed": a.generation_seed,
        }

    def on_init(self, sender, data):
        self.events.append(("init", sender, data))
        self.gens.append(self.snap())

    def on_gen(self, sender, data):
        self.events.append(("after_generation", sender, data))
        s = self.snap()
        s["best_of_gen"] = data.get("best_of_gen")
        self.gens.append(s)

    def on_end(self, sender, data):
        self.events.append(("evolution_finished", sender, data))


def run_labels(ctx, r):
    ctx.label("enc:" + r["enc"], "sel:" + r["sel"]["k"],
              "hib" if r["hib"] else "lib", "eval:" + r["eval"],
              "elite" if round(r["elite"] * r["pop"]) else "no-elite",
              "cache" if r.get("cache") else "no-cache")
    for o in r["ops"]:
        ctx.label("op:" + o["op"])


# --------------------------------------------------------------- trajectories
def trajectory(h, alg):
    """Everything observable about a run that does not depend on object ids."""
    base = []
    for s in h.gens:
        base.append([s["num"], s["gseed"], [list(map(str, g)) for g in s["genomes"]],
                     [repr(float(f)) for f in s["fit"]],
                     list(map(str, s["best_genome"])), repr(float(s["best_fit"]))])
    return {"gens": base, "final": alg.final_generation_,
            "best": list(map(str, genome(alg.best_of_run_)))}


def run_traj(r, evaluator=None, individuals=None, **over):
    alg = make_alg(r, evaluator, individuals, **over)
    h = Hist(alg)
    alg.evolve()
    return trajectory(h, alg)


def same_traj(a, b, what):
    require(len(a["gens"]) == len(b["gens"]), "%s: %d vs %d generations", what,
            len(a["gens"]), len(b["gens"]))
    names = ["generation number", "generation seed", "genomes", "fitness",
             "best of run genome", "best of run fitness"]
    for g, (x, y) in enumerate(zip(a["gens"], b["gens"])):
        for n, p, q in zip(names, x, y):
            require(p == q, "%s: generation %d differs in %s: %s vs %s", what, g,
                    n, str(p)[:300], str(q)[:300])
    require(a["final"] == b["final"], "%s: final generation %s vs %s", what,
            a["final"], b["final"])
    require(a["best"] == b["best"], "%s: best of run differs", what)
