"""C30  Errors of user-written parts surface and leave the experiment usable.

Fault injection: one call of an operator, selection, creator, checker,
statistics or subscriber fails; oracle: the run that does not fail, up to that
call, and a fresh algorithm on the individuals left."""
from copy import deepcopy

from hypothesis import strategies as st

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.genetic_operators.genetic_operator import GeneticOperator
from eckity.genetic_operators.selections.tournament_selection import \
    TournamentSelection
from eckity.statistics.statistics import Statistics
from eckity.termination_checkers.termination_checker import TerminationChecker

from lib.dom import (Ev, Hist, genome, genomes, make_op,
                     make_sel, make_subpop, run_st, same_traj,
                     score_of, trajectory)
from lib.harness import Sub, require
from lib.moo import MooEv, MooHist, moo_alg, moo_run_st, moo_traj_of


class OwnError(Exception):
    """an error of the user's code"""


ERRORS = {e.__name__: e for e in (
    OwnError, ValueError, TypeError, KeyError, IndexError, AttributeError,
    StopIteration, RuntimeError, ZeroDivisionError, OSError, MemoryError,
    AssertionError, NotImplementedError, KeyboardInterrupt, SystemExit)}


class Fuse:
    """counts calls; one of them fails"""

    def __init__(self, at=None, error="OwnError"):
        self.at, self.error = at, error
        self.calls, self.err, self.hist, self.marks = 0, None, None, []

    def tick(self, *args):
        self.marks.append(len(self.hist.gens))
        self.calls += 1
        if self.at is not None and self.calls - 1 == self.at:
            self.err = ERRORS[self.error]("fuse")
            raise self.err


class FuseOp(GeneticOperator):
    def __init__(self, fuse):
        super().__init__(probability=1.0, arity=1)
        self.fuse = fuse

    def apply(self, individuals):
        self.fuse.tick()
        self.applied_individuals = individuals
        return individuals


class FuseFailable(FailableOperator):
    """an operator that may be attempted several times"""

    def __init__(self, fuse):
        super().__init__(probability=1.0, arity=1, attempts=3)
        self.fuse = fuse

    def attempt_operator(self, payload, attempt_num):
        self.fuse.tick()
        self.applied_individuals = payload
        # every other attempt fails without an error
        return self.fuse.calls % 2 == 0, payload


OPS = {"op": FuseOp, "failable": FuseFailable}


class FuseSel(TournamentSelection):
    def __init__(self, fuse, **kw):
        super().__init__(**kw)
        self.fuse = fuse

    def select(self, source_inds, dest_inds):
        self.fuse.tick()
        return super().select(source_inds, dest_inds)


class FuseChecker(TerminationChecker):
    def __init__(self, fuse):
        super().__init__()
        self.fuse = fuse

    def should_terminate(self, population, best_individual, gen_number):
        self.fuse.tick()
        return False


class FuseStats(Statistics):
    def __init__(self, fuse):
        super().__init__("{}")
        self.fuse = fuse

    def write_statistics(self, sender, data_dict):
        self.fuse.tick()


EVENTS = ["init", "after_generation", "evolution_finished"]
KINDS = (["op", "failable", "sel", "checker", "stats", "creator", "before evaluation",
          "after evaluation"] + EVENTS)


def hook(alg, case, fuse):
    sp = alg.population.sub_populations[0]
    k = case["kind"]
    if k in EVENTS:
        alg.register(k, fuse.tick)
    elif k in ("before evaluation", "after evaluation"):
        alg.population_evaluator.register(k.split()[0] + "_operator",
                                          fuse.tick)
    elif k == "creator":
        c = sp.creators[0]
        create = c.create_individuals

        def bad(*a, **kw):
            fuse.tick()
            return create(*a, **kw)
        c.create_individuals = bad
    return alg


def build(case, fuse, individuals=None, **kw):
    r, k = case["run"], case["kind"]
    if case["moo"]:
        over = {}
        if k == "checker":
            over["termination_checker"] = FuseChecker(fuse)
        if k == "stats":
            over["statistics"] = [FuseStats(fuse)]
        alg = moo_alg(r, MooEv(r["eval"], r["m"], log=False),
                      individuals=individuals, **over, **kw)
        if k in OPS:
            ops = alg.population.sub_populations[0].get_operators_sequence()
            ops.insert(case["where"] % (len(ops) + 1), OPS[k](fuse))
    else:
        ops = [make_op(o) for o in r["ops"]]
        if k in OPS:
            ops.insert(case["where"] % (len(ops) + 1), OPS[k](fuse))
        sel = make_sel(r["sel"], r["hib"])
        if k == "sel":
            sel = FuseSel(fuse, tournament_size=2, replace=True,
                          higher_is_better=r["hib"])
        over = {}
        if k == "checker":
            over["termination_checker"] = FuseChecker(fuse)
        if k == "stats":
            over["statistics"] = [FuseStats(fuse)]
        sp = make_subpop(r, Ev(r["eval"], log=False), individuals,
                         operators_sequence=ops, selection_methods=[(sel, 1)])
        alg = SimpleEvolution(sp, max_generation=r["gens"], executor="thread",
                              max_workers=r["workers"], random_seed=r["seed"],
                              **over, **kw)
    # the history is kept before or after the failing subscriber
    hist = MooHist if case["moo"] else Hist
    if case["late"]:
        hook(alg, case, fuse)
        fuse.hist = hist(alg)
    else:
        fuse.hist = hist(alg)
        hook(alg, case, fuse)
    return alg


def gens_of(case, fuse, alg):
    h = fuse.hist
    if case["moo"]:
        return [[s["num"], [list(map(str, g)) for g in s["genomes"]],
                 repr(s["fit"]), list(map(str, s["best"])),
                 repr([s["rank"], s["crowd"]])] for s in h.gens]
    return [[s["num"], s["gseed"], [list(map(str, g)) for g in s["genomes"]],
             [repr(float(f)) for f in s["fit"]],
             list(map(str, s["best_genome"]))] for s in h.gens]


def traj_of(case, fuse, alg):
    return (moo_traj_of if case["moo"] else trajectory)(fuse.hist, alg)


def body(case, ctx):
    r, kind = case["run"], case["kind"]
    f0 = Fuse()
    ref = build(case, f0)
    ref.evolve()
    if not f0.calls:
        ctx.label("never called")
        return
    want = gens_of(case, f0, ref)
    at = int(case["at"] * (f0.calls - 1))
    # every kind of error is tried; the chosen one last
    for error in [e for e in sorted(ERRORS) if e != case["error"]] + [
            case["error"]]:
        fuse = Fuse(at, error)
        alg = build(case, fuse)
        what = "call %d of %d of a user's %s raised %s" % (
            at, f0.calls, kind, error)
        try:
            alg.evolve()
        except BaseException as e:
            if fuse.err is None:
                raise
            require(e is fuse.err, "%s, evolve() raised %r", what, e)
        else:
            require(False, "%s, evolve() returned", what)
        n = f0.marks[at]
        got = gens_of(case, fuse, alg)
        require(got == want[:n], "%s: %d generations were reported, %d "
                "expected, or they differ from those of the run that does not "
                "fail", what, len(got), n)
    sp = alg.population.sub_populations[0]
    if not case["moo"] and kind not in ("creator", "before evaluation",
                                        "after evaluation"):
        inds = sp.individuals
        require(len(inds) == r["pop"], "%s: %d individuals are left of %d",
                what, len(inds), r["pop"])
        for i in inds + [alg.best_of_run_]:
            require(i.get_pure_fitness() == score_of(r["eval"], i),
                    "%s: an individual %s is left with fitness %r, its score "
                    "is %r", what, genome(i), i.get_pure_fitness(),
                    score_of(r["eval"], i))
        if n and kind in ("op", "failable", "sel"):
            s = fuse.hist.gens[-1]
            require(genomes(inds) == s["genomes"], "%s: the population was %s "
                    "and is %s", what, s["genomes"], genomes(inds))
            require(genome(alg.best_of_run_) == s["best_genome"],
                    "%s: best_of_run_ changed", what)
    if kind == "creator":
        require(sp.individuals is None or case["moo"] and r.get("sets"),
                "%s: there are individuals", what)
    # mended, the experiment goes on
    fuse.at = None
    left = deepcopy(sp.individuals)
    gseed = alg.generation_seed
    fuse.hist = (MooHist if case["moo"] else Hist)(alg)
    alg.evolve()
    f2 = Fuse()
    again = build(case, f2, individuals=left, generation_seed=gseed)
    again.evolve()
    same_traj(traj_of(case, f2, again), traj_of(case, fuse, alg),
              what + "; evolved again")
    ctx.label(kind, case["error"], "nsga2" if case["moo"] else "simple",
              "fails:first" if at == 0 else "fails:later")
    ctx.nontrivial(at > 0)
    ctx.evals(1 + len(ERRORS))


def case_st(moo):
    def make(run):
        return st.fixed_dictionaries({
            "run": run, "moo": st.just(moo),
            "kind": st.sampled_from([k for k in KINDS
                                     if not moo or k != "sel"]),
            "where": st.integers(0, 5), "at": st.sampled_from([
                0.5, 0.2, 0.4, 0.6, 0.7, 0.8, 0.9, 1.0, 0.0]),
            "late": st.booleans(), "error": st.one_of(
                st.just("OwnError"), st.sampled_from(sorted(ERRORS)))})
    return make(moo_run_st(max_gens=3, max_pop=8) if moo else
                run_st(max_gens=4, max_pop=8, min_gens=1))


SUBS = [
    Sub("simple", lambda: case_st(False), body, 1400, 20000,
        "not the first call fails"),
    Sub("moo", lambda: case_st(True), body, 350, 4000,
        "not the first call fails"),
]
ASSUMPTIONS = ["one error at a time, in the thread that called evolve()"]
