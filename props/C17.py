"""C17  Clones are equal, independent and traceable.

Stateful search: a pool of individuals, a random history of clone / operator /
fitness / editing steps, and a model that holds what every individual of the
pool must look like after every step."""
import pickle
from copy import deepcopy

from hypothesis import strategies as st

from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.gp import Tree

from lib.dom import (SEEDS, VEC, bounds_st, genome, make_creator, make_op,
                     seed_all, size_st, tree_op_st, treeset_st, vec_op_st)
from lib.harness import Sub, require
from props.C16 import arity_of


@st.composite
def hist_st(draw):
    enc = draw(st.sampled_from(["bit", "int", "float", "tree", "ttree"]))
    r = {"enc": enc, "up": draw(st.booleans()), "bloat": 0.0}
    if enc in ("tree", "ttree"):
        spec = draw(treeset_st(typed=enc == "ttree"))
        r.update(sets=spec, creator=draw(st.sampled_from(["grow", "full"])),
                 depth=[1, 2])
        ops = tree_op_st(spec, p=st.just(1.0))
    else:
        length = draw(size_st(1, 5, 50))
        r.update(length=length, bounds=draw(bounds_st(enc, length)))
        ops = vec_op_st(enc, length, p=st.just(1.0))
    n = draw(size_st(1, 3, 12))
    idx = st.integers(0, 30)
    step = st.one_of(
        st.tuples(st.just("clone"), idx),
        st.tuples(st.just("clone"), idx),
        st.tuples(st.just("op"), idx, idx, idx, ops),
        st.tuples(st.just("op"), idx, idx, idx, ops),
        st.tuples(st.just("fit"), idx, st.sampled_from(
            [0.0, -1.5, 3, 2.25, 0, 1e300, -7])),
        st.tuples(st.just("unfit"), idx),
        st.tuples(st.just("note"), idx),
        st.tuples(st.just("deepcopy"), idx),
        st.tuples(st.just("pickle"), idx),
        st.tuples(st.just("gen"), idx, st.integers(0, 5)),
        st.tuples(st.just("edit"), idx, idx),
    )
    return {"r": r, "n": n, "seed": draw(SEEDS), "hib": draw(st.booleans()),
            "cache": draw(st.booleans()), "rel": draw(st.integers(0, 5)) == 0,
            "bw": draw(st.sampled_from([0.0, 0.5])),
            "init": [draw(st.sampled_from([None, 1.5, 0.0, -2])) for _ in range(n)],
            "steps": draw(st.lists(step, min_size=2, max_size=10) if draw(
                st.integers(0, 15)) < 15 else
                st.lists(step, min_size=10, max_size=40))}


def snap(ind):
    f = ind.fitness
    return {
        "genome": genome(ind), "type": type(ind), "id": ind.id,
        # a relative fitness always counts as evaluated
        "evaluated": f.is_fitness_evaluated() and not f.is_relative_fitness,
        "fitness": _pure(ind), "hib": f.higher_is_better, "cache": f.cache,
        "rel": f.is_relative_fitness, "bw": getattr(f, "bloat_weight", None),
        "ftype": type(f), "gen": ind.gen, "cloned_from": ind.cloned_from,
        "selected_by": list(ind.selected_by),
        "applied": list(ind.applied_operators), "up": ind.update_parents,
        "parents": list(ind.parents) if ind.update_parents else None,
        "size": ind.size(),
        "extra": (repr(ind.bounds), ind.length) if not isinstance(ind, Tree)
        else (ind.depth(), [t for t in ind.terminal_set], ind.erc_range,
              ind.root_type,
              [f for fs in (ind.function_set,) for f in _names(fs)]),
    }


def _names(fs):
    return sorted(f.__name__ for f in fs) if not isinstance(fs, dict) else \
        sorted(map(repr, fs))


def _pure(ind):
    try:
        return ("v", repr(ind.get_pure_fitness()))
    except ValueError:
        return ("unevaluated",)


def parts(ind):
    yield ind
    yield ind.fitness
    yield ind.selected_by
    yield ind.applied_operators
    if ind.update_parents:
        yield ind.parents
    if isinstance(ind, Tree):
        yield ind.tree
        yield from ind.tree
    else:
        yield ind.vector


def hist_body(case, ctx):
    seed_all(case["seed"])
    r = case["r"]
    pool = make_creator(r).create_individuals(case["n"], case["hib"])
    owner = {}
    for j, p in enumerate(pool):
        for x in parts(p):
            require(owner.setdefault(id(x), j) == j, "newly created individuals "
                    "%d and %d share a %s", owner[id(x)], j, type(x).__name__)
    for ind, f in zip(pool, case["init"]):
        if isinstance(ind, Tree):
            ind.fitness = GPFitness(f, case["hib"], case["cache"], case["rel"],
                                    case["bw"])
        else:
            ind.fitness = SimpleFitness(f, case["hib"], case["cache"],
                                        case["rel"])
    require(len({i.id for i in pool}) == len(pool), "ids are not unique")
    model = [snap(i) for i in pool]
    for m, f in zip(model, case["init"]):
        require(m["fitness"] == (("unevaluated",) if f is None else
                                 ("v", repr(f))), "initial fitness lost")
    clones = effects = 0
    for step in case["steps"]:
        k = step[1] % len(pool)
        ind = pool[k]
        touched = {k}
        if step[0] == "clone":
            c = ind.clone()
            clones += 1
            require(type(c) is type(ind), "a clone is a %s", type(c))
            want = dict(model[k])
            want.update(id=c.id, cloned_from=ind.id, selected_by=[], applied=[],
                        parents=[] if ind.update_parents else None)
            if not ind.fitness.cache:
                want.update(fitness=("unevaluated",), evaluated=False)
            got = snap(c)
            for key in want:
                require(got[key] == want[key], "clone: %s is %s, expected %s",
                        key, got[key], want[key])
            require(c.id not in {m["id"] for m in model},
                    "a clone got id %s, which is in use", c.id)
            pool.append(c)
            model.append(want)
            touched = set()
        elif step[0] in ("deepcopy", "pickle"):
            c = deepcopy(ind) if step[0] == "deepcopy" else (
                pickle.loads(pickle.dumps(ind)))
            want = dict(model[k])
            if not ind.fitness.cache:
                want.update(fitness=("unevaluated",), evaluated=False)
            got = snap(c)
            for key in want:
                require(got[key] == want[key], "%s: %s is %s, expected %s",
                        step[0], key, got[key], want[key])
            mine = {id(p) for p in parts(ind)}
            require(not any(id(p) in mine for p in parts(c)),
                    "%s shares state with its source", step[0])
            touched = set()
        elif step[0] == "op":
            o = step[4]
            a = arity_of(o)
            others = [j for j in range(len(pool)) if j != k]
            if a > len(pool):
                continue
            idxs = [k]
            for pickme in (step[2], step[3]):
                if len(idxs) < a:
                    rest = [j for j in others if j not in idxs]
                    idxs.append(rest[pickme % len(rest)])
            if isinstance(ind, Tree) and max(len(pool[j].tree)
                                             for j in idxs) > 80:
                continue
            make_op(o).apply_operator([pool[j] for j in idxs])
            touched = set(idxs)
            for j in idxs:
                new = snap(pool[j])
                effects += new["genome"] != model[j]["genome"]
                require(new["fitness"] == ("unevaluated",),
                        "%s left the old fitness in place", o["op"])
                for key in ("id", "cloned_from", "gen", "hib", "cache", "bw",
                            "selected_by", "type", "up"):
                    require(new[key] == model[j][key], "%s changed %s", o["op"],
                            key)
                model[j] = new
        elif step[0] == "fit":
            ind.fitness.set_fitness(step[2])
            model[k].update(fitness=("v", repr(step[2])), evaluated=not case["rel"])
        elif step[0] == "unfit":
            ind.set_fitness_not_evaluated()
            model[k].update(fitness=("unevaluated",), evaluated=False)
        elif step[0] == "note":
            ind.selected_by.append("S")
            ind.applied_operators.append("O")
            model[k]["selected_by"].append("S")
            model[k]["applied"].append("O")
            if ind.update_parents:
                ind.parents.append(-5)
                model[k]["parents"].append(-5)
            model[k] = {x: (list(v) if isinstance(v, list) else v)
                        for x, v in model[k].items()}
        elif step[0] == "gen":
            ind.gen = step[2]
            model[k]["gen"] = step[2]
        elif step[0] == "edit":
            # direct edits of the genome of one individual
            if isinstance(ind, Tree):
                n = ind.tree[step[2] % len(ind.tree)]
                if hasattr(n, "value") and not isinstance(n.value, (str, bool)):
                    n.value = n.value + 1
            else:
                i = step[2] % ind.size()
                ind.set_cell_value(i, ind.cell_value(i))
                ind.vector[i] = ind.get_random_number_in_bounds(i)
            new = snap(ind)
            effects += new["genome"] != model[k]["genome"]
            model[k]["genome"] = new["genome"]
        for j, (p, m) in enumerate(zip(pool, model)):
            got = snap(p)
            for key in m:
                require(got[key] == m[key], "after %s on %s: %s of individual %d "
                        "is %s, expected %s", step[0], sorted(touched), key, j,
                        got[key], m[key])
        owner = {}
        for j, p in enumerate(pool):
            for x in parts(p):
                require(owner.setdefault(id(x), j) == j,
                        "individuals %d and %d share a %s", owner[id(x)], j,
                        type(x).__name__)
    ctx.label("enc:" + r["enc"], "cache" if case["cache"] else "no cache")
    ctx.nontrivial(clones > 0 and effects > 0)
    ctx.evals(len(case["steps"]))


# -------------------------------------------------- fresh individuals, no fitness
def fresh_st():
    return st.fixed_dictionaries({"n": size_st(2, 6, 60), "seed": SEEDS,
                                  "which": st.integers(0, 5),
                                  "enc": st.sampled_from(["tree", "vec"])})


def fresh_body(case, ctx):
    seed_all(case["seed"])
    from eckity.base.untyped_functions import f_add
    if case["enc"] == "tree":
        inds = [Tree(function_set=[f_add], terminal_set=["x"])
                for _ in range(case["n"])]
    else:
        inds = [VEC["int"](SimpleFitness(), 2) for _ in range(case["n"])]
        for i in inds:
            i.add_cell(3)
    w = case["which"] % case["n"]
    ids = [i.id for i in inds]
    require(len(set(ids)) == len(ids), "ids %s are not unique", ids)
    inds[w].fitness.set_fitness(4.0)
    for j, i in enumerate(inds):
        require(i.fitness.is_fitness_evaluated() == (j == w),
                "setting the fitness of individual %d changed individual %d", w, j)
        require(i.cloned_from == -1 and i.gen == 0 and not i.selected_by
                and not i.applied_operators, "a new individual has a past")
    ctx.nontrivial()
    ctx.label("enc:" + case["enc"])


SUBS = [
    Sub("history", hist_st, hist_body, 4000, 160000,
        "at least one clone and one genome change in the history"),
    Sub("fresh", fresh_st, fresh_body, 240, 4000, "always"),
]
ASSUMPTIONS = ["fitness is kept by a copy exactly when its cache flag is set "
               "(documented)"]
