"""C16  The operator protocol: probability, in-place operands, fitness
invalidation, lineage, attempts, arity and application order."""
import math

from hypothesis import strategies as st

from eckity.algorithms import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.creators import GAIntVectorCreator
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import IntVector
from eckity.genetic_operators import GeneticOperator
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.population import Population
from eckity.subpopulation import Subpopulation

from lib.dom import (SEEDS, VEC, Ev, genome, make_creator, make_op, make_subpop,
                     run_st, seed_all, size_st, tree_op_st, treeset_st,
                     vec_op_st, bounds_st)
from lib.harness import Sub, binom_ok, require


def arity_of(o):
    return o.get("arity", 2 if o["op"] in ("stx", "kx") else 1)


@st.composite
def op_st(draw):
    """an operator and a creator for its operands"""
    enc = draw(st.sampled_from(["bit", "int", "float", "tree", "ttree"]))
    r = {"enc": enc, "up": draw(st.booleans()), "bloat": 0.0}
    if enc in ("tree", "ttree"):
        spec = draw(treeset_st(typed=enc == "ttree"))
        lo = draw(st.integers(1, 2))
        r.update(sets=spec, creator=draw(st.sampled_from(["grow", "full"])),
                 depth=[lo, lo + draw(st.integers(0, 1))])
        o = draw(tree_op_st(spec, p=st.just(1.0)))
        if o["op"] == "stx":
            o["arity"] = draw(st.sampled_from([2, 2, 3, 5, 7]))
    else:
        length = draw(size_st(1, 6, 60))
        r.update(length=length, bounds=draw(bounds_st(enc, length)))
        o = draw(vec_op_st(enc, length, p=st.just(1.0)))
    if o["op"] not in ("stx", "kx", "id"):
        o["arity"] = draw(st.sampled_from([1, 1, 1, 2, 3, 5, 8]))
    return {"r": r, "op": o, "seed": draw(SEEDS), "hib": draw(st.booleans()),
            "cache": draw(st.booleans()),
            "fit": draw(st.sampled_from([10.0, 0.0, 0, -1.0]))}


def operands(case, n):
    inds = make_creator(case["r"]).create_individuals(n, case["hib"])
    for i, ind in enumerate(inds):
        ind.fitness.cache = case["cache"]
        ind.fitness.set_fitness(case["fit"] + i)
    return inds


def evaluated(ind):
    return ind.fitness.is_fitness_evaluated()


def pure_raises(ind):
    try:
        ind.get_pure_fitness()
    except ValueError:
        return True
    return False


def state(ind):
    return (genome(ind), evaluated(ind),
            ind.get_pure_fitness() if evaluated(ind) else None, ind.id,
            list(ind.applied_operators), list(ind.selected_by),
            list(getattr(ind, "parents", [])), ind.cloned_from)


def check_applied(op, before, inds, res, name):
    ids = [i.id for i in inds]
    require(len(res) == len(inds) and all(a is b for a, b in zip(res, inds)),
            "%s did not return its operands in order", name)
    for s, ind in zip(before, inds):
        require(not evaluated(ind) and pure_raises(ind),
                "%s was applied but the old fitness is still valid", name)
        require(ind.id == s[3], "%s changed the id of an operand", name)
        new = ind.applied_operators[len(s[4]):]
        require(ind.applied_operators[:len(s[4])] == s[4],
                "%s rewrote the applied-operator record", name)
        require(new and new[-1] == type(op).__name__
                and new.count(type(op).__name__) == 1,
                "%s recorded %s", name, new)
        if ind.update_parents:
            require(ind.parents == s[6] + ids * len(new),
                    "%s: parents %s, expected %s", name, ind.parents,
                    s[6] + ids * len(new))
        else:
            require(not hasattr(ind, "parents"), "parents recorded unasked")


def op_body(case, ctx):
    seed_all(case["seed"])
    o = case["op"]
    a = arity_of(o)
    name = o["op"]
    pool = operands(case, a + 2)
    inds, rest = pool[:a], pool[a:]
    keep = [state(i) for i in rest]
    # probability 0: a no-op
    before = [state(i) for i in inds]
    for _ in range(4):
        res = make_op(dict(o, p=0.0)).apply_operator(inds)
        require(len(res) == a and all(x is y for x, y in zip(res, inds)),
                "%s with probability 0 returned other individuals", name)
        require([state(i) for i in inds] == before,
                "%s with probability 0 had an effect", name)
    # probability 1: always applied
    changed = False
    op = make_op(dict(o, p=1.0))
    for _ in range(3):
        before = [state(i) for i in inds]
        res = op.apply_operator(list(inds))
        check_applied(op, before, inds, res, name)
        changed |= [genome(i) for i in inds] != [b[0] for b in before]
        for i in inds:
            i.fitness.set_fitness(case["fit"])
    require(op.get_operator_arity() == a, "arity %s", op.get_operator_arity())
    # act() insists on the arity, before touching anything
    before = [state(i) for i in pool]
    for k in (a - 1, a + 1):
        try:
            op.act(pool[:k])
        except ValueError:
            pass
        else:
            require(False, "%s of arity %d acted on %d individuals", name, a, k)
        require([state(i) for i in pool] == before,
                "%s touched operands it rejected", name)
    if a > 1:   # one individual on its own
        try:
            op.act(pool[0])
        except ValueError:
            pass
        else:
            require(False, "%s of arity %d acted on a single individual", name,
                    a)
        require([state(i) for i in pool] == before,
                "%s touched an operand it rejected", name)
    before = [state(i) for i in inds]
    res = op.act(list(inds))
    check_applied(op, before, inds, res, name)
    require([state(i) for i in rest] == keep,
            "%s changed individuals it was not given", name)
    ctx.label("op:" + name, "enc:" + case["r"]["enc"],
              "update_parents" if case["r"]["up"] else "no parents")
    ctx.nontrivial(changed)


# ---------------------------------------------------------------- frequency
@st.composite
def freq_st(draw):
    c = draw(op_st())
    c["p"] = draw(st.sampled_from([0.05, 0.25, 0.5, 0.75, 0.95]))
    return c


def freq_body(case, ctx):
    seed_all(case["seed"])
    o = dict(case["op"], p=case["p"])
    a = arity_of(o)
    op = make_op(o)
    inds = operands(case, a)
    N, hit = 300, 0
    for _ in range(N):
        if case["r"]["enc"] in ("tree", "ttree") and max(
                len(i.tree) for i in inds) > 60:
            inds = operands(case, a)
        before = [state(i) for i in inds]
        op.apply_operator(list(inds))
        ev = [evaluated(i) for i in inds]
        require(all(ev) or not any(ev),
                "%s was applied to only some of its operands", o["op"])
        if all(ev):
            require([state(i) for i in inds] == before,
                    "%s kept the fitness valid but had an effect", o["op"])
        else:
            hit += 1
            for i in inds:
                i.fitness.set_fitness(3.0)
        for i in inds:
            i.applied_operators.clear()
            if i.update_parents:
                i.parents.clear()
    p = case["p"]
    require(binom_ok(hit, N, p),
            "%s with probability %g was applied %d times of %d", o["op"], p,
            hit, N)
    ctx.label("op:" + o["op"], "p=%g" % p)
    ctx.nontrivial()
    ctx.evals(N)


# --------------------------------------------------- application rate, sharp
@st.composite
def rate_st(draw):
    enc = draw(st.sampled_from(["bit", "int", "float"]))
    o = draw(vec_op_st(enc, 2, p=st.just(1.0)))
    if "attempts" in o:
        o["attempts"] = 1
    if o["op"].startswith("gauss"):
        o["sigma"] = 0.01
    return {"enc": enc, "op": o, "seed": draw(SEEDS),
            "p": draw(st.one_of(st.sampled_from([0.01, 0.05, 0.1, 0.2, 0.3, 0.9]),
                                st.integers(2, 98).map(lambda i: i / 100)))}


def rate_body(case, ctx):
    seed_all(case["seed"])
    b = {"bit": (0, 1), "int": (0, 9), "float": (-1e6, 1e6)}[case["enc"]]
    op = make_op(dict(case["op"], p=case["p"]))
    inds = [VEC[case["enc"]](SimpleFitness(1.0), 2, bounds=b, vector=[0, 1])
            for _ in range(arity_of(case["op"]))]
    N, hit, p = 6000, 0, case["p"]
    for _ in range(N):
        op.apply_operator(inds)
        if not evaluated(inds[0]):
            hit += 1
            for i in inds:
                i.fitness.set_fitness(1.0)
                i.applied_operators.clear()
    require(binom_ok(hit, N, p),
            "%s with probability %g was applied %d times of %d",
            case["op"]["op"], p, hit, N)
    ctx.label("op:" + case["op"]["op"])
    ctx.nontrivial()
    ctx.evals(N)


# ----------------------------------------------------------------- attempts
class Scripted(FailableOperator):
    def __init__(self, script, probability, attempts, arity):
        super().__init__(probability=probability, arity=arity,
                         attempts=attempts)
        self.script = script
        self.log = []

    def attempt_operator(self, payload, attempt_num):
        self.log.append(("try", attempt_num))
        return self.script[attempt_num], payload

    def on_fail(self, payload):
        self.log.append(("fail",))
        return payload


class ScriptedDefault(FailableOperator):
    def __init__(self, attempts):
        super().__init__(probability=1.0, arity=1, attempts=attempts)
        self.n = 0

    def attempt_operator(self, payload, attempt_num):
        self.n += 1
        return False, None


@st.composite
def attempts_st(draw):
    n = draw(st.one_of(st.integers(-1, 6), st.integers(7, 30)))
    return {"attempts": n, "script": draw(st.one_of(
        st.just([False] * n), st.integers(0, max(n - 1, 0)).map(
            lambda k: [False] * k + [True] * (max(n, 0) - k)), st.lists(
        st.sampled_from([True, False, False]), min_size=max(n, 0),
        max_size=max(n, 0)))), "arity": draw(st.integers(1, 3))}


def attempts_body(case, ctx):
    n, script = case["attempts"], case["script"]
    if n < 1:
        try:
            Scripted(script, 1.0, n, case["arity"])
        except ValueError:
            ctx.label("rejected")
            return
        require(False, "an operator with %d attempts was accepted", n)
    op = Scripted(script, 1.0, n, case["arity"])
    inds = [IntVector(SimpleFitness(1.0), 2, bounds=(0, 9), vector=[1, 2])
            for _ in range(case["arity"])]
    res = op.apply_operator(inds)
    first = script.index(True) if True in script else None
    want = [("try", i) for i in range(n if first is None else first + 1)]
    if first is None:
        want.append(("fail",))
    require(op.log == want, "calls %s, expected %s", op.log, want)
    require(len(res) == len(inds) and all(x is y for x, y in zip(res, inds)),
            "operands lost")
    d = ScriptedDefault(n)
    one = inds[:1]
    res = d.apply_operator(one)
    require(d.n == n, "%d attempts made of %d", d.n, n)
    require(res is not None and len(res) == 1 and res[0] is inds[0],
            "a failed operator must hand back its operands, got %s", res)
    ctx.label("failed" if first is None else "succeeded")
    ctx.nontrivial(n > 1)


# ------------------------------------------------------------ breeding order
class Rec(GeneticOperator):
    def __init__(self, tag, arity, probability, log, fresh=False):
        super().__init__(probability=probability, arity=arity)
        self.tag = tag
        self.log = log
        self.fresh = fresh

    def apply(self, individuals):
        self.log.append((self.tag, [i.id for i in individuals]))
        if self.fresh:
            # an operator may hand back other individuals than it was given
            old, individuals = individuals, []
            for i in old:
                c = i.clone()
                c.applied_operators = list(i.applied_operators)
                c.selected_by = list(i.selected_by)
                individuals.append(c)
        for i in individuals:
            i.set_cell_value(0, i.cell_value(0) * 10 + self.tag)
        return individuals


@st.composite
def seq_st(draw):
    r = draw(run_st(encs=("int",), max_gens=2, min_gens=1, sels=("tour", "fp"),
                    evals=("hash", "ties")))
    if draw(st.integers(0, 7)) == 7:
        r["pop"] = draw(st.sampled_from([16, 24, 30, 48, 60, 100]))
    pop = r["pop"]
    divs = [d for d in range(1, pop + 1) if pop % d == 0]
    ar = draw(st.lists(st.sampled_from(divs), min_size=1, max_size=4))
    bad = draw(st.integers(0, 4)) == 0
    nd = [d for d in range(2, pop + 3) if pop % d]
    if bad and nd:
        ar[draw(st.integers(0, len(ar) - 1))] = draw(st.sampled_from(nd))
    r["ops"] = []
    r["bounds"] = {"t": [0, 0]}
    return {"r": r, "arities": ar, "fresh": [draw(st.integers(0, 3)) == 3
                                             for _ in ar]}


def seq_body(case, ctx):
    r = case["r"]
    log = []
    ops = [Rec(i + 1, a, 1.0, log, case["fresh"][i])
           for i, a in enumerate(case["arities"])]
    sp = make_subpop(r, operators_sequence=ops)
    alg = SimpleEvolution(sp, breeder=SimpleBreeder(), max_generation=r["gens"],
                          max_workers=1, random_seed=r["seed"], statistics=[])
    pop = r["pop"]
    ok = all(pop % a == 0 for a in case["arities"])
    gens = []
    alg.register("after_generation", lambda s, d: gens.append(list(sp.individuals)))
    if not ok:
        try:
            alg.evolve()
        except ValueError:
            ctx.label("rejected")
            return
        finally:
            alg.executor.shutdown(wait=False)
        require(False, "arities %s were accepted for a population of %d",
                case["arities"], pop)
    alg.evolve()
    per = sum(pop // a for a in case["arities"])
    require(len(log) == per * r["gens"], "%d operator calls, expected %d",
            len(log), per * r["gens"])
    want_cell = int("".join(str(i + 1) for i in range(len(ops))))
    ne = sp.n_elite
    for g in range(r["gens"]):
        part = log[g * per:(g + 1) * per]
        tags = [t for t, _ in part]
        require(tags == sorted(tags), "operators were applied in order %s", tags)
        for i, a in enumerate(case["arities"]):
            groups = [ids for t, ids in part if t == i + 1]
            require(all(len(x) == a for x in groups),
                    "operator of arity %d got groups of %s", a,
                    [len(x) for x in groups])
            flat = [x for grp in groups for x in grp]
            require(len(set(flat)) == len(flat) == pop, "operator %d was not "
                    "applied to every individual exactly once", i + 1)
    # every non-elite went through the whole sequence in order
    last = gens[-1]
    for j, ind in enumerate(last[ne:]):
        require(ind.applied_operators == ["Rec"] * len(ops),
                "individual %d: %s applied, expected %d operators", j,
                ind.applied_operators, len(ops))
        require(ind.vector[0] % 10 ** len(ops) == want_cell,
                "individual %d: sequence effect %s, expected ...%d", j,
                ind.vector[0], want_cell)
        require(len(ind.selected_by) == 1, "selected by %s", ind.selected_by)
    ctx.label("ops:%d" % len(ops), "elites" if ne else "no elites")
    ctx.nontrivial(len(ops) > 1 and pop > 2)


# ------------------------------------------------- probabilities within breeding
def share_body(case, ctx):
    """every operator of a sequence keeps its own probability"""
    import random
    seed_all(case["seed"])
    log = []
    ar = [(1, 2, 4)[a] for a in case["ar"]]
    ops = [Rec(k + 1, a, p, log) for k, (p, a) in enumerate(zip(case["p"], ar))]
    n, gens = 200, 20
    inds = []
    for k in range(n):
        f = SimpleFitness(higher_is_better=case["hib"])
        f.set_fitness(random.random())
        inds.append(IntVector(fitness=f, length=1, bounds=(0, 9), vector=[k % 9]))
    sp = Subpopulation(Ev("hash"), creators=GAIntVectorCreator(length=1),
                       operators_sequence=ops, population_size=n,
                       individuals=inds, higher_is_better=case["hib"])
    br, pop = SimpleBreeder(), Population([sp])
    for g in range(gens):
        br.breed(pop)
        for i in sp.individuals:
            i.fitness.set_fitness(random.random())
            i.set_cell_value(0, 1)
    for k, (p, a) in enumerate(zip(case["p"], ar)):
        N = n * gens // a
        m = sum(t == k + 1 for t, _ in log)
        require(binom_ok(m, N, p), "operator %d of %d with probability %r was "
            "applied to %d of %d groups", k + 1, len(ops), p, m, N)
    ctx.label("ops:%d" % len(ops))
    ctx.nontrivial()


SUBS = [
    Sub("operators", op_st, op_body, 2000, 60000, "some application changed a "
        "genome"),
    Sub("probability", freq_st, freq_body, 160, 4000,
        "always (300 applications per case, 7-sigma limits)", chunk=20),
    Sub("rate", rate_st, rate_body, 120, 4000,
        "always (6000 applications per case, 6.5-sigma limits)", chunk=15),
    Sub("attempts", attempts_st, attempts_body, 800, 10000,
        "more than one attempt allowed"),
    Sub("sequence", seq_st, seq_body, 400, 8000,
        "at least two operators and more than two individuals"),
    Sub("share", lambda: st.fixed_dictionaries({
        "p": st.lists(st.sampled_from([0.0, 0.009, 0.015, 0.03, 0.1, 0.5, 0.9,
                                       0.98, 0.995, 1.0]),
                      min_size=1, max_size=4),
        "ar": st.lists(st.integers(0, 2), min_size=4, max_size=4),
        "hib": st.booleans(), "seed": SEEDS}), share_body, 60, 1500,
        "always (4000 individuals per case, 6.5-sigma limits)", chunk=10),
]
ASSUMPTIONS = ["operands are distinct individuals, as many as the arity"]
