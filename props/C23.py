"""C23  Genome queries and edits behave like the sequence / tree they expose.

Stateful search against a plain Python list (vectors) and against a nested tree
rebuilt from the recorded nodes (trees).  Every observer is compared after
every step."""
from collections import Counter
from copy import deepcopy

from hypothesis import strategies as st

from eckity.base.untyped_functions import f_add, f_iflte0, f_neg
from eckity.base.utils import arity
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree

from lib.dom import (SEEDS, VEC, bounds_st, cell_bounds, fn_types,
                     make_tree_creator, mk_bounds, node_key, parse_all,
                     ref_depth, seed_all, size_st, treeset_st, u_five)
from lib.harness import Sub, Violation, require
from eckity.fitness import SimpleFitness
from props.C09 import keys, spans

CELL = {"bit": st.integers(0, 1), "int": st.integers(-60, 100),
        "float": st.integers(-80, 200).map(lambda x: x / 4)}


@st.composite
def vec_st(draw):
    enc = draw(st.sampled_from(["bit", "int", "float"]))
    n = draw(size_st(1, 7, 60))
    cell = CELL[enc]
    idx = st.integers(0, 40 if n < 8 else 120)
    part = st.lists(cell, min_size=1, max_size=7 if n < 8 else n)
    step = st.one_of(
        st.tuples(st.just("replace"), idx, part),
        st.tuples(st.just("replace"), idx, part),
        st.tuples(st.just("replace_random"), part),
        st.tuples(st.just("replace_random"), part),
        st.tuples(st.just("random_part")),
        st.tuples(st.just("part"), idx, idx),
        st.tuples(st.just("slice"), st.integers(-9, 9), st.integers(-9, 12)),
        st.tuples(st.just("cell"), idx, cell),
        st.tuples(st.just("back cell"), idx, cell),
        st.tuples(st.just("add"), cell),
        st.tuples(st.just("set"), part),
        st.tuples(st.just("empty")),
        st.tuples(st.just("scribble"), idx, cell),
        st.tuples(st.just("clone")),
    )
    return {"enc": enc, "bounds": draw(bounds_st(enc, n)),
            "v": draw(st.lists(cell, min_size=n, max_size=n)),
            "seed": draw(SEEDS),
            "steps": draw(st.lists(step, min_size=1, max_size=12) if draw(
                st.integers(0, 15)) < 15 else
                st.lists(step, min_size=12, max_size=40))}


def in_bounds(b, v):
    return all(cell_bounds(b, i)[0] <= x <= cell_bounds(b, i)[1]
               for i, x in enumerate(v))


def vec_body(case, ctx):
    seed_all(case["seed"])
    n0 = len(case["v"])
    b = case["bounds"]
    ind = VEC[case["enc"]](fitness=SimpleFitness(), length=n0,
                           bounds=mk_bounds(b), vector=list(case["v"]))
    m = list(case["v"])
    given_out = []           # (list handed out by the code, its value then)
    handed_in = []
    edits = 0
    for s in case["steps"]:
        k = s[0]
        if k == "replace":
            part = list(s[2])[:len(m)]
            if not part:
                continue
            i = s[1] % (len(m) - len(part) + 1)
            got = ind.replace_vector_part(part, i)
            require(got == m[i:i + len(part)], "replacing %s at %d of %s "
                    "returned %s", part, i, m, got)
            m[i:i + len(part)] = s[2][:len(part)]
            given_out.append((got, list(got)))
            handed_in.append((part, list(part)))
            edits += 1
        elif k == "replace_random":
            part = list(s[1])[:len(m)]
            if not part:
                continue
            got = ind.replace_vector_part_random(part)
            new = list(ind.get_vector())
            want = [(m[:i] + part + m[i + len(part):], m[i:i + len(part)])
                    for i in range(len(m) - len(part) + 1)]
            require((new, got) in want, "replacing a random part of %s by %s "
                    "gave %s and returned %s", m, part, new, got)
            m = new
            given_out.append((got, list(got)))
            handed_in.append((part, list(part)))
            edits += 1
        elif k == "random_part":
            if not m:
                continue
            got = ind.random_vector_part()
            require(len(got) >= 1 and any(
                m[i:i + len(got)] == got
                for i in range(len(m) - len(got) + 1)),
                "random part %s of %s", got, m)
            given_out.append((got, list(got)))
        elif k == "part":
            i, j = sorted((s[1] % (len(m) + 1), s[2] % (len(m) + 1)))
            got = ind.get_vector_part(i, j)
            require(got == m[i:j], "part [%d, %d) of %s is %s", i, j, m, got)
            given_out.append((got, list(got)))
        elif k == "slice":
            # any two positions, as with a list
            i, j = s[1:]
            got = ind.get_vector_part(i, j)
            require(got == m[i:j], "part from %d to %d of %s is %s", i, j, m,
                    got)
            given_out.append((got, list(got)))
        elif k in ("cell", "back cell"):
            if not m:
                continue
            i = s[1] % len(m)
            if k == "back cell":
                i -= len(m)
                require(ind.cell_value(i) == m[i], "cell %d of %s is %s", i, m,
                        ind.cell_value(i))
            ind.set_cell_value(i, s[2])
            m[i] = s[2]
            edits += 1
        elif k == "add":
            if len(m) >= 12:
                continue
            ind.add_cell(s[1])
            m.append(s[1])
            edits += 1
        elif k == "set":
            # the genome is exchanged: the one read before keeps its cells
            before = ind.get_vector()
            ind.set_vector(list(s[1]))
            given_out.append((before, list(m)))
            m = list(s[1])
            edits += 1
        elif k == "empty":
            ind.empty_vector()
            m = []
            edits += 1
        elif k == "scribble":
            # parts handed out earlier are the caller's
            for lst, val in given_out[-1:]:
                if lst:
                    lst[s[1] % len(lst)] = s[2]
                    given_out[-1] = (lst, list(lst))
        elif k == "clone":
            old, ind = ind, ind.clone()
            require(ind.get_vector() == m, "clone has %s, expected %s",
                    ind.get_vector(), m)
            old.get_vector().append(99)
        ctx.label(k)
        require(list(ind.get_vector()) == m and list(ind.vector) == m,
                "after %s: genome is %s, expected %s", s, ind.vector, m)
        require(ind.size() == len(m), "after %s: size %s, expected %d", s,
                ind.size(), len(m))
        require(ind.length == len(m), "after %s: length %s, expected %d", s,
                ind.length, len(m))
        require([ind.cell_value(i) for i in range(len(m))] == m,
                "after %s: cell values differ from the genome", s)
        for bad in (len(m), -len(m) - 1, len(m) + 3):
            for f in (lambda: ind.cell_value(bad),
                      lambda: ind.set_cell_value(bad, 1)):
                try:
                    f()
                except IndexError:
                    continue
                raise Violation("cell %d of a vector of %d cells was accessed"
                                % (bad, len(m)))
        if m:
            require(ind.cell_value(-1) == m[-1], "cell -1 is %s, expected %s",
                    ind.cell_value(-1), m[-1])
        require(list(ind.execute()) == m, "execute() returned %s, genome is %s",
                ind.execute(), m)
        if m:
            require(list(ind.execute([1, 2], x=3)) == m, "execute() with "
                    "arguments is not the genome")
        if "t" in b or len(m) <= n0:
            require(bool(ind.check_if_in_bounds()) == in_bounds(b, m),
                    "in-bounds predicate is %s for %s within %s",
                    ind.check_if_in_bounds(), m, b)
        for lst, val in given_out + handed_in:
            require(lst == val, "a list exchanged with the caller changed from "
                    "%s to %s", val, lst)
    require(ind.get_bounds() == mk_bounds(b), "bounds changed")
    ctx.evals(len(case["steps"]))
    ctx.nontrivial(edits >= 2)


# every part / every place comes up
def reach_body(case, ctx):
    seed_all(case["seed"])
    n = case["n"]
    v = list(range(100, 100 + n))
    ind = VEC["int"](fitness=SimpleFitness(), length=n, bounds=(0, 1000),
                     vector=list(v))
    want = {(i, j) for i in range(n) for j in range(i + 1, n + 1)}
    got = set()
    for _ in range(400 * n):
        p = ind.random_vector_part()
        got.add((p[0] - 100, p[-1] - 99))
        require(p == v[p[0] - 100:p[-1] - 99], "random part %s of %s", p, v)
        if got == want:
            break
    require(got == want, "parts %s of a vector of %d cells never come up in %d "
            "draws", sorted(want - got), n, 400 * n)
    L = case["len"] % n + 1
    starts = set()
    for _ in range(60 * n):
        ind.set_vector(list(v))
        ind.replace_vector_part_random([-1] * L)
        w = ind.get_vector()
        i = w.index(-1)
        require(w == v[:i] + [-1] * L + v[i + L:], "replaced part: %s", w)
        starts.add(i)
    require(starts == set(range(n - L + 1)), "places %s never come up",
            sorted(set(range(n - L + 1)) - starts))
    ctx.nontrivial(n > 2)


# ---------------------------------------------------------------------- trees
@st.composite
def tree_st(draw):
    spec = draw(treeset_st())
    idx = st.integers(0, 200)
    step = st.one_of(
        st.tuples(st.just("replace"), idx, idx),
        st.tuples(st.just("replace"), idx, idx),
        st.tuples(st.just("replace_random"), idx),
        st.tuples(st.just("numeric")),
        st.tuples(st.just("filter")),
        st.tuples(st.just("self"), idx),
        st.tuples(st.just("clone")),
        st.tuples(st.just("empty")),
    )
    return {"sets": spec, "seed": draw(SEEDS), "depth": draw(size_st(1, 3, 4)),
            "steps": draw(st.lists(step, min_size=1, max_size=8) if draw(
                st.integers(0, 15)) < 15 else
                st.lists(step, min_size=8, max_size=25))}


def donors(spec, n, depth):
    return make_tree_creator("grow", spec, init_depth=(1, depth)
                             ).create_individuals(n, True)


def tree_body(case, ctx):
    spec = case["sets"]
    seed_all(case["seed"])
    typed = spec["typed"] is not None
    pool = donors(spec, 4, case["depth"])
    ind = pool.pop()
    full = [list(t.tree) for t in pool]
    m = list(ind.tree)
    edits = repeated = 0

    def fresh(ty):
        """a complete subtree of the wanted type from a donor"""
        c = []
        for t in full:
            c += [t[a:b] for a, b in spans(t)
                  if not typed or t[a].node_type is ty]
        return c

    for s in case["steps"]:
        k = s[0]
        if not m and k != "empty":
            continue
        if k in ("replace", "replace_random"):
            if len(m) > 200:
                continue
            if k == "replace":
                sp = spans(m)
                a, b = sp[s[1] % len(sp)]
                old = m[a:b]
            else:
                old = ind.random_subtree(None)
                if old is None:
                    require(typed and len(m) == 1, "no subtree found")
                    continue
                a = next(i for i, x in enumerate(m) if x is old[0])
                b = dict(spans(m))[a]
                require(len(old) == b - a and all(
                    x is y for x, y in zip(old, m[a:b])),
                    "random subtree at %d is not the complete subtree", a)
                old = list(old)
            cand = fresh(m[a].node_type)
            if not cand:
                continue
            new = [deepcopy(x) for x in cand[s[-1] % len(cand)]]
            repeated += sum(x == m[a] for x in m) > 1
            o2, n2 = list(old), list(new)
            ind.replace_subtree(old, new)
            require(old == o2 and len(new) == len(n2) and all(
                x is y for x, y in zip(new, n2)),
                "replacing a subtree changed the lists passed in")
            want = m[:a] + n2 + m[b:]
            require(len(ind.tree) == len(want) and all(
                x is y for x, y in zip(ind.tree, want)),
                "replacing the subtree at %d (%s) of %s by %s gave %s", a, old,
                m, new, ind.tree)
            m = want
            edits += 1
        elif k == "self":
            sp = spans(m)
            a, b = sp[s[1] % len(sp)]
            ind.replace_subtree(m[a:b], [deepcopy(x) for x in m[a:b]])
            require(keys(ind) == [node_key(x) for x in m], "replacing a subtree "
                    "by its copy changed the tree")
            m = list(ind.tree)
        elif k == "numeric":
            consts = [x for x in m if isinstance(x, TerminalNode)
                      and not isinstance(x.value, (str, bool))]
            got = ind.get_random_numeric_node()
            if got is None:
                require(not consts, "no constant found in %s", m)
            else:
                require(any(got is x for x in consts), "%s is not a constant of "
                        "the tree", got)
        elif k == "filter":
            for pred in (lambda x: isinstance(x, FunctionNode),
                         lambda x: isinstance(x, TerminalNode),
                         lambda x: True, lambda x: False):
                got = ind.filter_tree(pred)
                want = [x for x in m if pred(x)]
                require(len(got) == len(want) and all(
                    x is y for x, y in zip(got, want)), "filter gave %s, "
                    "expected %s", got, want)
        elif k == "clone":
            old, ind = ind, ind.clone()
            require(keys(ind) == [node_key(x) for x in m], "clone differs")
            old.empty_tree()
            m = list(ind.tree)
        elif k == "empty":
            if edits < 1:
                continue
            ind.empty_tree()
            m = []
            require(ind.size() == 0, "an emptied tree has %d nodes", ind.size())
            try:
                ind.execute(**{t: 1.0 for t in ind.terminal_set
                               if isinstance(t, str)})
            except ValueError:
                pass
            else:
                raise Violation("an empty tree was executed")
        ctx.label(k)
        require(len(ind.tree) == len(m) and all(
            x is y for x, y in zip(ind.tree, m)), "%s changed the tree", s)
        require(ind.size() == len(m), "size %s of a tree with %d nodes",
                ind.size(), len(m))
        if m:
            require(ind.root is m[0], "root is not the first node")
            t = parse_all(m)
            require(ind.depth() == ref_depth(t), "depth %s, expected %d of %s",
                    ind.depth(), ref_depth(t), m)
    ctx.label("typed" if typed else "untyped")
    if repeated:
        ctx.label("replaced node occurs several times")
    ctx.evals(len(case["steps"]))
    ctx.nontrivial(edits > 0)


# ------------------------------------------------------- trees of any shape
SHAPES = [f_neg, f_add, f_iflte0, u_five]


def deep_st():
    return st.fixed_dictionaries({
        "n": size_st(1, 12, 120), "bias": st.sampled_from([0, 1, 2]),
        "seed": SEEDS, "pick": st.integers(0, 200)})


def random_nodes(rng, n, bias):
    """a program of about n nodes: chains (bias 0) to bushy (bias 2)"""
    out = []

    def rec(budget):
        fs = [f for f in SHAPES if arity(f) < budget]
        if bias == 0:
            fs = fs[:2]
        if not fs:
            out.append(TerminalNode(rng.choice(["x", "y", rng.randint(0, 10**6)])))
            return
        f = rng.choice(fs)
        out.append(FunctionNode(f))
        k = arity(f)
        left = budget - 1
        for j in range(k):
            rest = k - 1 - j
            most = left - rest
            b = most if j == k - 1 else (1 if bias == 0 else
                                         rng.randint(1, most) if bias == 1 else
                                         max(1, most // (rest + 1)))
            rec(b)
            left -= b
    rec(n)
    return out


def deep_body(case, ctx):
    import random
    rng = random.Random(case["seed"])
    seed_all(case["seed"])
    m = random_nodes(rng, case["n"], case["bias"])
    ind = Tree(function_set=list(SHAPES), terminal_set=["x", "y", 1],
               tree=list(m))
    t = parse_all(m)
    require(ind.depth() == ref_depth(t), "depth %s, expected %d of %s",
            ind.depth(), ref_depth(t), m)
    require(ind.size() == len(m), "size %s of %d nodes", ind.size(), len(m))
    sp = spans(m)
    a, b = sp[case["pick"] % len(sp)]
    new = [deepcopy(x) for x in m[a:b]]
    ind.replace_subtree(m[a:b], new)
    want = m[:a] + new + m[b:]
    require(len(ind.tree) == len(want) and all(
        x is y for x, y in zip(ind.tree, want)), "replacing the subtree at %d "
        "of %s failed", a, m)
    m = want
    # random nodes reach every position
    where = {id(x): i for i, x in enumerate(m)}
    ends = dict(spans(m))
    N = 40 * len(m)
    seen, cseen = Counter(), Counter()
    consts = [i for i, x in enumerate(m) if isinstance(x, TerminalNode)
              and not isinstance(x.value, str)]
    for _ in range(N):
        s = ind.random_subtree()
        i = where[id(s[0])]
        require(len(s) == ends[i] - i and all(
            x is y for x, y in zip(s, m[i:ends[i]])), "the random subtree at %d "
            "of %s is not the complete subtree", i, m)
        seen[i] += 1
        c = ind.get_random_numeric_node()
        if c is None:
            require(not consts, "no constant found in %s", m)
        else:
            cseen[where[id(c)]] += 1
    require(set(cseen) <= set(consts), "not a constant was picked")
    for what, cnt, pos in (("subtrees", seen, range(len(m))),
                           ("constants", cseen, consts)):
        for i in pos:
            mean = N / len(pos)
            require(abs(cnt[i] - mean) <= 7 * mean ** 0.5 + 2,
                    "random %s: node %d of %d was picked %d times of %d", what,
                    i, len(m), cnt[i], N)
    ctx.label("depth:%d+" % (ref_depth(t) // 10 * 10))
    ctx.nontrivial(len(m) > 2)


def long_body(case, ctx):
    """random parts of long vectors: every length and both ends come up"""
    seed_all(case["seed"])
    n, N = case["n"], 300
    v = list(range(n))
    ind = VEC["int"](fitness=SimpleFitness(), length=n, bounds=(0, 1000),
                     vector=list(v))
    parts = []
    for _ in range(N):
        p = ind.random_vector_part()
        require(p and p == v[p[0]:p[-1] + 1], "random part %s", p)
        parts.append((p[0], p[-1] + 1))
    # each event has probability over 0.1 under any reasonable choice
    for name, f in (("longer than a half", lambda a, b: 2 * (b - a) > n),
                    ("shorter than a half", lambda a, b: 2 * (b - a) < n),
                    ("starting in the first quarter", lambda a, b: 4 * a < n),
                    ("ending in the last quarter", lambda a, b: 4 * b > 3 * n),
                    ("ending in the first half", lambda a, b: 2 * b <= n),
                    ("starting in the second half", lambda a, b: 2 * a >= n)):
        require(any(f(a, b) for a, b in parts), "no part of %d random parts of "
                "a vector of %d cells is %s", N, n, name)
    ind.set_vector(list(v))
    L = 1 + case["len"] % (n - 1)
    at = set()
    for _ in range(N):
        ind.set_vector(list(v))
        ind.replace_vector_part_random([-1] * L)
        w = ind.get_vector()
        i = w.index(-1)
        require(w == v[:i] + [-1] * L + v[i + L:], "replaced part: %s", w)
        at.add(i)
    places = n - L + 1
    require(places < 4 or min(at) < places / 2 <= max(at), "a part of %d cells "
            "is only put at %s of a vector of %d cells", L, sorted(at), n)
    ctx.label("n:%d+" % (n // 20 * 20))
    ctx.nontrivial(L > 1)
    ctx.evals(2 * N)


SUBS = [
    Sub("vector", vec_st, vec_body, 4000, 100000, "at least two edits"),
    Sub("reach", lambda: st.fixed_dictionaries({
        "n": st.integers(1, 6), "len": st.integers(0, 5), "seed": SEEDS}),
        reach_body, 300, 5000, "more than two cells"),
    Sub("long", lambda: st.fixed_dictionaries({
        "n": st.integers(8, 120), "len": st.integers(0, 120), "seed": SEEDS}),
        long_body, 160, 3000, "parts longer than one cell"),
    Sub("tree", tree_st, tree_body, 2000, 40000, "at least one replacement"),
    Sub("shapes", deep_st, deep_body, 320, 8000, "more than two nodes"),
]
ASSUMPTIONS = ["parts are replaced within the vector (start + length of the "
               "part does not exceed its size)"]
