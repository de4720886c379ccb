"""Tree creators keep their depth, size and initialisation contracts."""
from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require


def common(inds, n, spec, case):
    require(len(inds) == n, "%d individuals created, asked for %d", len(inds), n)
    require(len({i.id for i in inds}) == n, "ids are not unique")
    require(len({id(i.fitness) for i in inds}) == n, "fitness objects are shared")
    seen = set()
    for i in inds:
        check_tree(i, spec)
        require(not i.fitness.is_fitness_evaluated(), "created as evaluated")
        require(i.fitness.higher_is_better == case["hib"],
                "fitness direction %s", i.fitness.higher_is_better)
        i.fitness.set_fitness(10.0)
        w = case["bloat"] * len(i.tree)
        require(i.get_augmented_fitness() == (10.0 - w if case["hib"]
                                              else 10.0 + w),
                "augmented fitness %r of a tree of %d nodes with bloat weight %r",
                i.get_augmented_fitness(), len(i.tree), case["bloat"])
        require(i.get_pure_fitness() == 10.0, "pure fitness")
        for nd in i.tree:
            require(id(nd) not in seen, "a node is shared")
            seen.add(id(nd))


def body(case, ctx):
    spec, (lo, hi), n = case["sets"], case["depth"], case["n"]
    seed_all(case["seed"])
    kind = case["creator"]
    kw = dict(init_depth=(lo, hi), bloat_weight=case["bloat"])
    if kind == "grow" and case["prune"] is not None:
        kw["p_prune"] = case["prune"]
    cr = make_tree_creator(kind, spec, **kw)
    group = n // (2 * (hi + 1 - lo))
    if kind == "half" and group == 0:
        try:
            cr.create_individuals(n, case["hib"])
        except ValueError:
            ctx.label("half-too-small")
            return
        raise Violation("half and half accepted %d individuals for depths %s"
                        % (n, (lo, hi)))
    inds = cr.create_individuals(n, case["hib"])
    common(inds, n, spec, case)
    require(cr.created_individuals is inds
            or list(cr.created_individuals) == list(inds), "created_individuals")
    full_at = {}
    for i in inds:
        d = leaf_depths(parse_all(i.tree))
        require(i.depth() == max(d), "depth() is %d, longest path %d",
                i.depth(), max(d))
        require(max(d) <= hi, "%s: depth %d exceeds the maximum %d", kind,
                max(d), hi)
        require(min(d) >= lo, "%s: a leaf at depth %d, minimum is %d", kind,
                min(d), lo)
        if kind == "full":
            require(min(d) == hi, "full: a leaf at depth %d, expected %d",
                    min(d), hi)
        if kind == "grow" and case["prune"] == 0.0:
            require(min(d) == hi, "grow without pruning: a leaf at %d", min(d))
        if kind == "grow" and case["prune"] == 1.0:
            require(max(d) == lo, "grow with certain pruning: a leaf at %d",
                    max(d))
        if min(d) == max(d):
            full_at[max(d)] = full_at.get(max(d), 0) + 1
    if kind == "half":
        for d in range(lo, hi + 1):
            require(full_at.get(d, 0) >= group,
                    "half and half: %d full trees of depth %d, expected at "
                    "least %d", full_at.get(d, 0), d, group)
        missing = n - group * 2 * (hi + 1 - lo)
        require(full_at.get(hi, 0) >= group + missing,
                "half and half: remaining trees are not full trees of the "
                "maximal depth")
    ctx.label(kind, "typed" if spec["typed"] else "untyped",
              "erc" if spec["erc"] else "no-erc")
    ctx.nontrivial(n > 1 and hi > lo)
    ctx.evals(n)


@st.composite
def case_st(draw):
    lo = draw(st.integers(1, 3))
    sets = draw(treeset_st())
    if draw(st.integers(0, 4)) == 0:
        # deep programs of functions with few arguments
        lo = draw(st.integers(3, 6))
        sets = {"typed": None, "funcs": draw(st.lists(st.sampled_from(
            ["f_neg", "f_add", "f_abs", "f_min"]), min_size=1, max_size=3,
            unique=True)), "vars": draw(st.integers(1, 3)), "consts": [],
            "erc": draw(st.sampled_from([None, [-1.0, 1.0]])), "root": None}
    return {"sets": sets,
            "creator": draw(st.sampled_from(["grow", "full", "half"])),
            "depth": [lo, draw(st.integers(lo, max(4, min(lo + 2, 7))))],
            "n": draw(st.integers(1, 24)), "hib": draw(st.booleans()),
            "bloat": draw(st.sampled_from([0.0, 0.5, 2.0])),
            "prune": draw(st.sampled_from([None, 0.0, 0.5, 1.0])),
            "seed": draw(SEEDS)}


def body_cover(case, ctx):
    """every function, terminal and the ERC range are actually used"""
    spec = case["sets"]
    s = tree_sets(spec)
    seed_all(case["seed"])
    funcs, terms, ercs = set(), set(), []
    need_t = {(type(k).__name__, repr(k)) for k in s["terminal_set"]}
    need_f = {f.__name__ for f in s["function_set"]}
    cr = make_tree_creator(case["creator"], spec, init_depth=(2, 3))
    # types of terminals that occur below the root type
    for rnd in range(40):
        for i in cr.create_individuals(25, True):
            for nd in i.tree:
                if isinstance(nd, FunctionNode):
                    funcs.add(nd.function.__name__)
                else:
                    k = (type(nd.value).__name__, repr(nd.value))
                    if k in need_t:
                        terms.add(k)
                    elif not isinstance(nd.value, str):
                        ercs.append(nd.value)
        if funcs == need_f and terms == need_t and (
                not s["erc_range"] or len(set(ercs)) > 1):
            break
    require(funcs == need_f, "functions never used: %s", need_f - funcs)
    require(terms == need_t, "terminals never used: %s", need_t - terms)
    if s["erc_range"]:
        lo, hi = s["erc_range"]
        # an integer range of few values may coincide with listed constants
        if isinstance(lo, float) or hi - lo > 12:
            require(len(set(ercs)) > 1, "no two different ERC values in many trees")
    ctx.nontrivial()


def body_erc(case, ctx):
    """random constants come from the whole range, to its ends"""
    spec = case["sets"]
    s = tree_sets(spec)
    lo, hi = s["erc_range"]
    seed_all(case["seed"])
    listed = {v for v in s["terminal_set"] if not isinstance(v, str)}
    cr = make_tree_creator(case["creator"], spec, init_depth=(2, 3))
    ercs = []
    for _ in range(200):
        for i in cr.create_individuals(25, True):
            ercs += [nd.value for nd in i.tree
                     if isinstance(nd, TerminalNode)
                     and type(nd.value) in (int, float)
                     and type(nd.value) is type(lo)
                     and nd.value not in listed]
        if len(ercs) >= 1500:
            break
    if len(ercs) < 1500:
        ctx.label("too-few")
        return
    if isinstance(lo, float):
        w = (hi - lo) * 0.05
        require(lo <= min(ercs) <= lo + w, "smallest of %d constants is %r, "
                "range (%r, %r)", len(ercs), min(ercs), lo, hi)
        require(hi - w <= max(ercs) <= hi, "largest of %d constants is %r, "
                "range (%r, %r)", len(ercs), max(ercs), lo, hi)
        for q in range(10):
            a, b = lo + q * (hi - lo) / 10, lo + (q + 1) * (hi - lo) / 10
            n = sum(a <= v <= b for v in ercs)
            # mean n/10, more than eight standard deviations
            require(abs(n - len(ercs) / 10) < 8.5 * math.sqrt(len(ercs) * 0.09),
                    "%d of %d constants in [%r, %r] of (%r, %r)", n, len(ercs),
                    a, b, lo, hi)
    else:
        want = {v for v in range(lo, hi + 1)} - listed
        require(set(ercs) == want, "constants %s never occur, %s occur",
                sorted(want - set(ercs)), sorted(set(ercs) - want))
    ctx.label("float" if isinstance(lo, float) else "int")
    ctx.nontrivial()
    ctx.evals(len(ercs))


# --------------------------------------------------------- sets with dead ends
POOL = {f.__name__: f for f in (ff_add, ff_neg, fb_if, bf_lt, bb_and, bb_not,
                                ii_add, ib_sel, bi_eq, if_floor, fi_scale)}


@st.composite
def open_st(draw):
    fs = draw(st.lists(st.sampled_from(sorted(POOL)), min_size=1, max_size=5,
                       unique=True))
    args = sorted({t.__name__ for f in fs for t in fn_types(POOL[f])[0]})
    rets = sorted({fn_types(POOL[f])[1].__name__ for f in fs})
    erc = draw(st.sampled_from([None, None] + [t for t in rets if t != "bool"
                                               and t in args]))
    # every argument type has a terminal or the constants, as construction asks
    terms = {}
    for t in args:
        k = draw(st.integers(0 if t == erc else 1, 2))
        for i in range(k):
            terms["%s%d" % (t[0], i)] = t
    lo = draw(st.integers(0, 3))
    return {"fs": fs, "terms": terms, "erc": erc,
            "root": draw(st.sampled_from(rets)),
            "creator": draw(st.sampled_from(["grow", "full"])),
            "depth": [lo, draw(st.integers(max(lo, 1), 4))],
            "n": draw(st.integers(1, 6)), "seed": draw(SEEDS)}


def body_open(case, ctx):
    """sets in which some types cannot be produced at some depths: creation
    yields correct programs or is refused with a ValueError, as the sets imply"""
    fs = [POOL[f] for f in case["fs"]]
    terms = {k: TYPE_BY_NAME[t] for k, t in case["terms"].items()}
    root = TYPE_BY_NAME[case["root"]]
    erc = {"int": (-3, 9), "float": (-2.0, 2.0), None: None}[case["erc"]]
    lo, hi = case["depth"]
    if case["creator"] == "full":
        lo = hi
    leaf = set(terms.values()) | ({type(erc[0])} if erc else set())

    def verdict(t, d, memo):
        """(possible, certain): some / every sequence of choices succeeds"""
        if (t, d) in memo:
            return memo[t, d]
        opts = []
        if d >= lo:
            opts.append([(t in leaf, t in leaf)])
        if d < hi:
            mine = [f for f in fs if fn_types(f)[1] is t]
            if not mine:
                opts.append([(False, False)])
            for f in mine:
                opts.append([verdict(a, d + 1, memo) for a in fn_types(f)[0]])
        r = (any(all(p for p, _ in o) for o in opts),
             all(all(c for _, c in o) for o in opts))
        memo[t, d] = r
        return r

    possible, certain = verdict(root, 0, {})
    seed_all(case["seed"])
    cls = GrowCreator if case["creator"] == "grow" else FullCreator
    cr = cls(init_depth=tuple(case["depth"]), function_set=fs,
             terminal_set=terms, erc_range=erc, root_type=root)
    try:
        inds = cr.create_individuals(case["n"], True)
    except ValueError as e:
        require(not certain, "creation was refused (%s), but every choice "
                "leads to a program", e)
        ctx.label("refused", "impossible" if not possible else "dead end")
        ctx.nontrivial()
        return
    require(possible, "programs %s were made of sets that allow none", inds)

    def rec(node, want, d):
        n, kids = node
        require(n.node_type is want, "node %s has type %s, expected %s", n,
                n.node_type, want)
        require(d <= hi, "deeper than %d", hi)
        if isinstance(n, FunctionNode):
            require(any(n.function is f for f in fs)
                    and fn_types(n.function)[1] is want, "function %s where %s "
                    "is expected", n, want)
            for k, a in zip(kids, fn_types(n.function)[0]):
                rec(k, a, d + 1)
        else:
            require(d >= lo, "leaf at depth %d, minimum %d", d, lo)
            require(terms.get(n.value) is want
                    or erc is not None and type(n.value) is want
                    and type(erc[0]) is want and erc[0] <= n.value <= erc[1],
                    "terminal %r where %s is expected", n.value, want)

    require(len(inds) == case["n"], "%d programs", len(inds))
    for i in inds:
        rec(parse_all(i.tree), root, 0)
    ctx.label("created", "certain" if certain else "lucky")
    ctx.nontrivial(not certain)


# -------------------------------------------------- half and half of given parts
@st.composite
def parts_st(draw):
    lo = draw(st.integers(1, 3))
    return {"sets": draw(treeset_st()), "lo": lo,
            "hi": draw(st.integers(lo, 4)), "extra": draw(st.integers(0, 3)),
            "group": draw(st.integers(1, 3)), "hib": draw(st.booleans()),
            "prune": draw(st.sampled_from([0.0, 1.0])), "seed": draw(SEEDS),
            "times": draw(st.integers(1, 2))}


def body_parts(case, ctx):
    """with a grow creator that always or never prunes, the number of programs
    of every depth is known exactly"""
    lo, hi, g = case["lo"], case["hi"], case["group"]
    w = hi + 1 - lo
    n = 2 * w * g + case["extra"] % (2 * w)
    seed_all(case["seed"])
    spec = case["sets"]
    grow = make_tree_creator("grow", spec, init_depth=(lo, hi),
                             p_prune=case["prune"])
    full = make_tree_creator("full", spec, init_depth=(lo, hi))
    cr = make_tree_creator("half", spec, init_depth=(lo, hi), grow_creator=grow,
                           full_creator=full)
    for _ in range(case["times"]):
        inds = cr.create_individuals(n, case["hib"])
        common(inds, n, spec, {"hib": case["hib"], "bloat": 0.0})
        got = {}
        for i in inds:
            d = leaf_depths(parse_all(i.tree))
            require(min(d) == max(d), "leaves at depths %s", sorted(set(d)))
            got[d[0]] = got.get(d[0], 0) + 1
        want = {d: g for d in range(lo, hi + 1)}
        want[hi] += n - 2 * w * g
        for d in range(lo, hi + 1):
            at = lo if case["prune"] == 1.0 else d
            want[at] += g
        require(got == want, "programs per depth: %s, expected %s", got, want)
    ctx.label("pruned" if case["prune"] else "not pruned")
    ctx.nontrivial(hi > lo)


# ------------------------------------------------------------------ pruning rate
def body_rate(case, ctx):
    """inside the depth range every node is a terminal with the given
    probability"""
    lo, hi, p = case["lo"], case["lo"] + case["w"], case["p"]
    seed_all(case["seed"])
    kw = {} if p is None else {"p_prune": p}
    p = 0.5 if p is None else p
    spec = {"typed": None, "funcs": ["f_add", "f_neg"], "vars": 2, "consts": [],
            "erc": None, "root": None}
    cr = make_tree_creator("grow", spec, init_depth=(lo, hi), **kw)
    n = k = 0

    def rec(t, d):
        nonlocal n, k
        if lo <= d < hi:
            n += 1
            k += not t[1]
        for c in t[1]:
            rec(c, d + 1)

    while n < 4000:
        for i in cr.create_individuals(100, True):
            rec(parse_all(i.tree), 0)
    # the number of draws is decided by a stopping rule, 8 sigma leave room
    require(abs(k - n * p) <= 8 * math.sqrt(n * p * (1 - p)),
            "%d of %d nodes were pruned, probability is %r", k, n, p)
    ctx.evals(n)
    ctx.nontrivial()


SUBS = [
    Sub("dead ends", open_st, body_open, 1500, 30000,
        "some choices lead nowhere"),
    Sub("parts", parts_st, body_parts, 600, 10000, "several depths"),
    Sub("pruning", lambda: st.fixed_dictionaries({
        "lo": st.integers(0, 2), "w": st.integers(1, 3), "seed": SEEDS,
        "p": st.sampled_from([None, 0.1, 0.3, 0.5, 0.7, 0.9])}), body_rate,
        80, 800, "always"),
    Sub("erc", lambda: st.fixed_dictionaries({
        "sets": treeset_st(erc=("float", "int")), "seed": SEEDS,
        "creator": st.sampled_from(["grow", "full", "half"])}).filter(
            lambda c: c["sets"]["erc"]), body_erc, 160, 2000, "always"),
    Sub("contract", case_st, body, 3000, 40000,
        "several trees and a depth range, not a single depth"),
    Sub("coverage", lambda: st.fixed_dictionaries({
        "sets": treeset_st(), "seed": SEEDS,
        "creator": st.sampled_from(["grow", "full"])}), body_cover, 600, 6000,
        "always"),
]
ASSUMPTIONS = ["closed function/terminal sets", "depth at least 1"]
