"""C14  Vector creation and mutation stay inside the declared shape and bounds.

Oracle: an independent bounds/length/type predicate on every produced vector,
cell-difference counts against the requested number of points, a scripted model
of the attempt/revert protocol, and 7-sigma distribution checks."""
import math
import random
from collections import Counter

from hypothesis import strategies as st

from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import FloatVector, IntVector
from eckity.genetic_operators import VectorNPointMutation

from lib.dom import (SEEDS, VEC, VEC_CREATOR, bounds_st, cell_bounds,
                     check_vector, f_st, make_op, mk_bounds, seed_all,
                     size_st, vec_op_st)
from lib.harness import Sub, binom_ok, require

ENC = st.sampled_from(["bit", "int", "float"])


def deep(b):
    return list(b) if isinstance(b, list) else b


# ----------------------------------------------------------------- creation
@st.composite
def create_st(draw):
    enc = draw(ENC)
    n = draw(size_st(0, 12, 70))
    length = draw(size_st(1, 10, 80))
    return {"enc": enc, "n": n, "length": length,
            "bounds": draw(bounds_st(enc, length)),
            "default_bounds": draw(st.integers(0, 5)) == 0,
            "gene": draw(st.sampled_from([None, None, "index", "bound"])),
            "hib": draw(st.booleans()), "up": draw(st.booleans()),
            "seed": draw(SEEDS)}


def gene_index(ind, i):
    return i


def gene_bound(ind, i):
    b = ind.get_bounds()
    return (b if isinstance(b, tuple) else b[i])[1]


def create_body(case, ctx):
    seed_all(case["seed"])
    enc, length = case["enc"], case["length"]
    b = case["bounds"]
    kw = dict(length=length, bounds=mk_bounds(b), update_parents=case["up"])
    if case["default_bounds"]:
        b = {"t": [0, 1]}
        del kw["bounds"]
    gene = {None: None, "index": gene_index, "bound": gene_bound}[case["gene"]]
    if gene:
        kw["gene_creator"] = gene
    cr = VEC_CREATOR[enc](**kw)
    inds = cr.create_individuals(case["n"], case["hib"])
    require(len(inds) == case["n"], "%d individuals created, %d asked for",
            len(inds), case["n"])
    require(len({id(i.vector) for i in inds}) == len(inds),
            "two individuals share one genome list")
    require(len({id(i.fitness) for i in inds}) == len(inds),
            "two individuals share one fitness object")
    require(len({i.id for i in inds}) == len(inds), "ids are not unique")
    for i, ind in enumerate(inds):
        require(type(ind) is VEC[enc], "created a %s", type(ind))
        require(not ind.fitness.is_fitness_evaluated(),
                "a new individual counts as evaluated")
        require(ind.fitness.higher_is_better is case["hib"],
                "fitness direction %s, asked for %s",
                ind.fitness.higher_is_better, case["hib"])
        require(ind.update_parents is case["up"], "update_parents was lost")
        if gene is None:
            check_vector(ind, enc, length, b, "individual %d: " % i)
            require(ind.check_if_in_bounds() is True,
                    "check_if_in_bounds() denies a vector in its bounds")
        else:
            want = [gene(ind, j) for j in range(length)]
            require(ind.vector == want, "custom genes %s, got %s", want,
                    ind.vector)
    ctx.label("enc:" + enc, "per-cell" if "l" in b else "uniform-bounds")
    ctx.nontrivial(case["n"] > 1 and length > 1)


# ---------------------------------------------------------------- predicate
@st.composite
def pred_st(draw):
    enc = draw(st.sampled_from(["int", "float"]))
    length = draw(size_st(1, 6, 60))
    b = draw(bounds_st(enc, length))
    cells = []
    for i in range(length):
        lo, hi = cell_bounds(b, i)
        unit = 1 if enc == "int" else 0.125
        cells.append(draw(st.sampled_from(
            [lo, hi, lo, hi, lo - unit, hi + unit, (lo + hi) // 2
             if enc == "int" else (lo + hi) / 2])
            if draw(st.integers(0, 2)) == 0 else st.sampled_from([lo, hi])))
    return {"enc": enc, "length": length, "bounds": b, "cells": cells,
            "up": draw(st.booleans())}


def pred_body(case, ctx):
    b = case["bounds"]
    ind = VEC[case["enc"]](fitness=SimpleFitness(), length=case["length"],
                           bounds=mk_bounds(b), vector=list(case["cells"]))
    want = all(cell_bounds(b, i)[0] <= v <= cell_bounds(b, i)[1]
               for i, v in enumerate(case["cells"]))
    got = ind.check_if_in_bounds()
    require(got == want, "check_if_in_bounds() is %s for %s in %s", got,
            case["cells"], mk_bounds(b))
    require(ind.vector == case["cells"], "the predicate changed the genome")
    require(ind.get_bounds() == mk_bounds(b), "get_bounds() is %s",
            ind.get_bounds())
    require(ind.clone().check_if_in_bounds() == want,
            "a clone gives another verdict")
    ctx.label("inside" if want else "outside")
    ctx.nontrivial(case["length"] > 1)


# ----------------------------------------------------------------- mutation
@st.composite
def mut_st(draw):
    enc = draw(ENC)
    length = draw(size_st(1, 8, 80))
    ops = draw(st.lists(vec_op_st(enc, length, p=st.just(1.0)).filter(
        lambda o: o["op"] not in ("kx", "id")), min_size=1, max_size=5))
    for o in ops:
        if o["op"] in ("int1", "nflip"):
            o["pe"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
        if o["op"] in ("gauss1", "gaussn"):
            o["mu"] = draw(st.sampled_from([0.0, 0.0, 5.0, 1000.0]))
    return {"enc": enc, "length": length, "bounds": draw(bounds_st(enc, length)),
            "ops": ops, "seed": draw(SEEDS), "inds": draw(size_st(1, 3, 12))}


def mut_body(case, ctx):
    seed_all(case["seed"])
    enc, length, b = case["enc"], case["length"], case["bounds"]
    inds = VEC_CREATOR[enc](length=length, bounds=mk_bounds(b)
                            ).create_individuals(case["inds"], True)
    other = [list(i.vector) for i in inds]
    ind = inds[0]
    changed_any = False
    for o in case["ops"]:
        before = list(ind.vector)
        bounds_before = repr(ind.bounds)
        op = make_op(o)
        res = op.apply_operator([ind])
        require(isinstance(res, list) and len(res) == 1 and res[0] is ind,
                "%s returned %s instead of its operand", o["op"], res)
        check_vector(ind, enc, length, b, "after %s: " % o["op"])
        require(repr(ind.bounds) == bounds_before, "%s changed the bounds",
                o["op"])
        ch = [i for i in range(length) if before[i] != ind.vector[i]]
        n = o.get("n", 1)
        changed_any |= bool(ch)
        if o["op"] == "int1":
            if o["pe"] == 0.0:
                require(not ch, "int1 with cell probability 0 changed %s", ch)
        elif o["op"] == "nflip":
            wide = all(cell_bounds(b, i)[0] < cell_bounds(b, i)[1]
                       for i in range(length))
            require(len(ch) <= n, "%s changed %d cells, at most %d allowed",
                    o["op"], len(ch), n)
            if o["pe"] == 0.0:
                require(not ch, "nflip with cell probability 0 changed %s", ch)
            if o["pe"] == 1.0 and wide:
                require(len(ch) == n, "nflip with cell probability 1 and n=%d "
                        "flipped %d bits", n, len(ch))
        elif o["op"] in ("flip", "uni1", "unin", "gauss1", "gaussn"):
            wide = [i for i in range(length)
                    if cell_bounds(b, i)[0] < cell_bounds(b, i)[1]]
            if len(wide) == length:
                require(len(ch) == n, "%s changed %d cells, %d expected "
                        "(%s -> %s)", o["op"], len(ch), n, before, ind.vector)
        else:
            require(len(ch) <= n, "%s changed %d cells, at most %d allowed",
                    o["op"], len(ch), n)
        for j in range(1, case["inds"]):
            require(inds[j].vector == other[j],
                    "%s changed an individual it was not given", o["op"])
        ctx.label("op:" + o["op"])
    ctx.label("per-cell" if "l" in b else "uniform-bounds")
    ctx.nontrivial(changed_any)
    ctx.evals(len(case["ops"]))


# ------------------------------------------------- scripted attempt protocol
@st.composite
def script_st(draw):
    length = draw(size_st(1, 5, 16))
    attempts = draw(st.sampled_from([1, 2, 3, 4, 4, 7, 12, 20]))
    k = draw(st.integers(1, 3))
    steps = []
    for _ in range(attempts * k):
        cells = draw(st.lists(st.integers(0, length - 1), min_size=1,
                              max_size=length, unique=True))
        steps.append([cells, [draw(st.integers(-5, 25)) for _ in cells],
                      draw(st.booleans())])
    return {"length": length, "attempts": attempts, "inds": k, "steps": steps,
            "verdict": draw(st.sampled_from([None, None, None, False])),
            "start": [[draw(st.integers(0, 20)) for _ in range(length)]
                      for _ in range(k)],
            "checker": draw(st.booleans()), "seed": draw(SEEDS)}


def script_body(case, ctx):
    """a mutation whose cell choice, values and (optionally) success verdict
    are scripted must act exactly as the documented protocol says"""
    seed_all(case["seed"])
    k, length = case["inds"], case["length"]
    inds = [IntVector(fitness=SimpleFitness(), length=length, bounds=(0, 20),
                      vector=list(v)) for v in case["start"]]
    calls = {"sel": 0, "val": 0, "chk": 0}
    seen = []

    def selector(vec):
        calls["sel"] += 1
        cells = case["steps"][calls["sel"] - 1][0]
        calls["val"] = 0
        return list(cells)

    def getter(vec, idx):
        cells, vals, _ = case["steps"][calls["sel"] - 1]
        require(idx in cells, "the value of cell %s was asked, %s selected", idx,
                cells)
        return vals[cells.index(idx)]

    def checker(old, new):
        calls["chk"] += 1
        seen.append((list(old.vector), list(new.vector)))
        return (case["steps"][calls["sel"] - 1][2]
                and case["verdict"] is not False)

    op = VectorNPointMutation(
        n=1, probability=1.0, arity=k, cell_selector=selector,
        mut_val_getter=getter, success_checker=checker if case["checker"]
        else None, attempts=case["attempts"])
    res = op.apply_operator(inds)
    # model
    state = [list(v) for v in case["start"]]
    pairs = []
    step = 0
    ok = False
    for _ in range(case["attempts"]):
        ok = True
        for j in range(k):
            cells, vals, verdict = case["steps"][step]
            if case["verdict"] is False:
                verdict = False
            step += 1
            old = list(state[j])
            new = list(old)
            for c, v in zip(cells, vals):
                new[c] = v
            good = verdict if case["checker"] else all(0 <= v <= 20 for v in new)
            pairs.append((old, new))
            if not good:
                ok = False
                state = [list(v) for v in case["start"]]
                break
            state[j] = new
        if ok:
            break
    require(calls["sel"] == step, "%d attempts were made, %d expected",
            calls["sel"], step)
    if case["checker"]:
        require(seen == pairs, "the success check saw %s, expected %s", seen,
                pairs)
    got = [list(i.vector) for i in inds]
    require(got == state, "genomes %s, expected %s (started from %s, "
            "succeeded=%s)", got, state, case["start"], ok)
    require(list(res) == inds and all(a is b for a, b in zip(res, inds)),
            "the mutation returned %s", res)
    for i in inds:
        require(not i.fitness.is_fitness_evaluated(), "still evaluated")
    ctx.label("succeeded" if ok else "all attempts failed",
              "attempts:%d" % case["attempts"])
    ctx.nontrivial(step > 1)


# ------------------------------------------------------------- distributions
@st.composite
def dist_st(draw):
    kind = draw(st.sampled_from(["int", "float", "bit", "cells", "gauss",
                                 "int1", "nflip", "create"]))
    return {"kind": kind, "seed": draw(SEEDS), "length": draw(st.integers(2, 5)),
            "lo": draw(st.integers(-5, 5)),
            "w": draw(size_st(1, 3, 40)), "wide": draw(st.sampled_from(
                [0] * 9 + [300, 1200, 2000])),
            "percell": draw(st.booleans()), "cell": draw(st.integers(0, 4)),
            "mu": draw(st.sampled_from([0.0, 2.0, -3.0])),
            "sigma": draw(st.sampled_from([0.5, 1.0, 4.0])),
            "pe": draw(st.sampled_from([0.05, 0.1, 0.2, 0.5, 0.8, 0.95]))}


def dist_body(case, ctx):
    seed_all(case["seed"])
    L, lo, hi = case["length"], case["lo"], case["lo"] + case["w"]
    kind = case["kind"]
    ctx.label("dist:" + kind)
    ctx.nontrivial()
    N = 20000 if kind in ("int", "float", "bit") else 1200
    if kind in ("int", "float", "bit"):
        if kind == "bit":
            lo, hi = 0, 1
        if kind == "int" and case["wide"]:
            hi, N = lo + case["wide"], 120 * (case["wide"] + 1)
        bounds = (lo, hi)
        if case["percell"]:
            bounds = [(lo - 50 * i, hi - 50 * i) if kind != "bit" else (0, 1)
                      for i in range(L)]
        ind = VEC[kind](fitness=SimpleFitness(), length=L, bounds=bounds,
                        vector=[lo] * L)
        i = case["cell"] % L
        b = bounds if isinstance(bounds, tuple) else bounds[i]
        vals = [ind.get_random_number_in_bounds(i) for _ in range(N)]
        require(all(b[0] <= v <= b[1] for v in vals),
                "a random cell value left the bounds %s", b)
        if kind == "float":
            for q in (0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98):
                c = sum(v <= b[0] + q * (b[1] - b[0]) for v in vals)
                require(binom_ok(c, N, q), "%d of %d random values in the lowest "
                        "%g of %s", c, N, q, b)
        else:
            m = b[1] - b[0] + 1
            cnt = Counter(vals)
            for x in range(b[0], b[1] + 1):
                c = cnt[x]
                require(binom_ok(c, N, 1 / m), "value %d drawn %d times of %d "
                        "from %s", x, c, N, b)
    elif kind == "cells":
        # every cell is equally likely to be mutated
        op = make_op({"op": "uni1", "p": 1.0})
        cnt = [0] * L
        ind = FloatVector(fitness=SimpleFitness(), length=L, bounds=(0.0, 1.0),
                          vector=[0.5] * L)
        for _ in range(N):
            old = list(ind.vector)
            op.apply_operator([ind])
            for i in range(L):
                cnt[i] += old[i] != ind.vector[i]
        for i in range(L):
            require(binom_ok(cnt[i], N, 1 / L), "cell %d of %d was mutated %d "
                    "times of %d", i, L, cnt[i], N)
    elif kind == "gauss":
        op = make_op({"op": "gauss1", "p": 1.0, "mu": case["mu"],
                      "sigma": case["sigma"], "attempts": 3})
        d = []
        for _ in range(N):
            ind = FloatVector(fitness=SimpleFitness(), length=1,
                              bounds=(-1e9, 1e9), vector=[10.0])
            op.apply_operator([ind])
            d.append(ind.vector[0] - 10.0)
        mean = sum(d) / N
        var = sum((x - mean) ** 2 for x in d) / N
        require(abs(mean - case["mu"]) <= 7 * case["sigma"] / math.sqrt(N),
                "mean step %g, expected %g", mean, case["mu"])
        require(abs(var / case["sigma"] ** 2 - 1) <= 7 * math.sqrt(2 / N),
                "step variance %g, expected %g", var, case["sigma"] ** 2)
    elif kind in ("int1", "nflip"):
        enc = "int" if kind == "int1" else "bit"
        b = (0, 10**6) if enc == "int" else (0, 1)
        op = make_op({"op": kind, "p": 1.0, "pe": case["pe"], "n": L})
        cnt = [0] * L
        M = 2400
        ind = VEC[enc](fitness=SimpleFitness(), length=L, bounds=b,
                       vector=[1] * L)
        for _ in range(M):
            old = list(ind.vector)
            op.apply_operator([ind])
            for i in range(L):
                cnt[i] += old[i] != ind.vector[i]
        require(binom_ok(sum(cnt), M * L, case["pe"]), "%d of %d cells changed "
                "with cell probability %g", sum(cnt), M * L, case["pe"])
        for i in range(L):
            require(binom_ok(cnt[i], M, case["pe"]), "cell %d changed %d times "
                    "of %d with cell probability %g", i, cnt[i], M, case["pe"])
    else:
        inds = VEC_CREATOR["int"](length=L, bounds=(lo, hi)).create_individuals(
            600, True)
        m = hi - lo + 1
        for i in range(L):
            for x in range(lo, hi + 1):
                c = sum(v.vector[i] == x for v in inds)
                require(binom_ok(c, 600, 1 / m), "cell %d was created as %d %d "
                        "times of 600 in (%d, %d)", i, x, c, lo, hi)


# ----------------------------------------------------- bounds-free defaults
def default_body(case, ctx):
    """the constructors' default bounds are usable"""
    seed_all(case["seed"])
    enc, L = case["enc"], case["length"]
    ind = VEC[enc](fitness=SimpleFitness(), length=L)
    rng = {"bit": (0, 1), "int": (-2**31, 2**31 - 1), "float": (0.0, 1.0)}[enc]
    vec = [ind.get_random_number_in_bounds(i) for i in range(L)]
    ind.set_vector(vec)
    for _ in range(case["steps"]):
        make_op({"op": "npoint", "n": L}).apply_operator([ind])
        require(all(rng[0] <= v <= rng[1] for v in ind.vector),
                "%s outside the default bounds %s", ind.vector, rng)
        require(ind.size() == L, "length changed")
        require(ind.check_if_in_bounds() is True, "denies its own values")
    ctx.label("enc:" + enc)
    ctx.nontrivial(L > 1)


def default_st():
    return st.fixed_dictionaries({"enc": ENC, "length": size_st(1, 6, 60),
                                  "steps": st.integers(1, 3), "seed": SEEDS})


SUBS = [
    Sub("create", create_st, create_body, 1600, 40000,
        "more than one individual and more than one cell"),
    Sub("predicate", pred_st, pred_body, 1600, 40000, "more than one cell"),
    Sub("mutate", mut_st, mut_body, 3200, 120000, "some cell changed"),
    Sub("protocol", script_st, script_body, 1600, 80000,
        "more than one attempt or operand"),
    Sub("distribution", dist_st, dist_body, 360, 8000,
        "always (1200 to 20000 draws per case, 7-sigma bounds)", chunk=40),
    Sub("defaults", default_st, default_body, 240, 4000, "more than one cell"),
]
ASSUMPTIONS = [
    "lower bound <= upper bound for every cell; n at most the vector length",
    "distribution checks use 7-sigma limits: a false alarm per comparison is "
    "below 1e-11",
]
