"""Genetic operators keep trees well-formed, closed and type-correct."""
import itertools

from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require


def keys(ind):
    return [node_key(n) for n in ind.tree]


def spans(nodes):
    """[start, end) of every subtree, by position"""
    out = []

    def rec(i):
        n = nodes[i]
        j = i + 1
        if isinstance(n, FunctionNode):
            for _ in range(nargs(n.function)):
                j = rec(j)
        out.append((i, j))
        return j

    require(rec(0) == len(nodes), "not a complete tree")
    return sorted(out)


def check_crossover(old, new):
    """old/new: list of node lists; is `new` a cyclic exchange of one subtree
    per individual?"""
    n = len(old)
    ok_ = [[node_key(x) for x in t] for t in old]
    nk = [[node_key(x) for x in t] for t in new]
    sp = [spans(t) for t in old]
    cand = []
    for i in range(n):
        c = set()
        d = i - 1
        for (a, b) in sp[i]:
            keep = len(ok_[i]) - (b - a)
            if keep > len(nk[i]):
                continue
            if nk[i][:a] != ok_[i][:a]:
                continue
            if ok_[i][b:] and nk[i][len(nk[i]) - len(ok_[i][b:]):] != ok_[i][b:]:
                continue
            seg = nk[i][a:len(nk[i]) - len(ok_[i][b:])]
            for (p, q) in sp[d]:
                if ok_[d][p:q] == seg and seg:
                    c.add((a, p))
        cand.append(c)

    def solve(i, first_p, need):
        # need: start replaced in individual i (None = free)
        if i < 0:
            return need == first_p
        return any(need is None or a == need
                   for a, p in cand[i]) and any(
            solve(i - 1, first_p, p) for a, p in cand[i]
            if need is None or a == need)

    # individual i takes subtree p of individual i-1, which must be the one
    # that is replaced there; individual 0 takes from the last
    for a, p in cand[0]:
        # chain: last must have replaced position p
        def chain(i, need):
            for x, y in cand[i]:
                if x == need:
                    if i == 1:
                        if y == a:
                            return True
                    elif chain(i - 1, y):
                        return True
            return False
        if n == 1 or chain(n - 1, p):
            return True
    return False


def check_mutation(old, new, depth):
    ok_ = [node_key(x) for x in old]
    nk = [node_key(x) for x in new]
    for (a, b) in spans(old):
        tail = ok_[b:]
        if len(nk) < a + len(tail) + 1:
            continue
        if nk[:a] != ok_[:a] or (tail and nk[-len(tail):] != tail):
            continue
        seg = new[a:len(new) - len(tail)]
        try:
            t = parse_all(seg)
        except Violation:
            continue
        d = leaf_depths(t)
        if min(d) >= depth[0] and max(d) <= depth[1]:
            return True
    return False


def num(k):
    return k[0] == "t" and k[1] in ("float", "int")


def erc_step(o, olds, news):
    """every operand has one constant changed, none if one has no constant"""
    all_have = all(any(map(num, k)) for k in olds)
    for old, new in zip(olds, news):
        diff = [(a, b) for a, b in zip(old, new) if a != b]
        require(len(old) == len(new) and len(diff) <= 1
                and all(num(a) and num(b) and a[3] == b[3] for a, b in diff),
                "ERC mutation changed more than one constant: %s", diff)
        has = [k for k in old if num(k)]
        if not all_have:
            require(not diff, "ERC mutation changed %s although an operand has "
                    "no constant", diff)
        elif o["sigma"] == 0:
            # the step is exactly mu
            for a, b in diff:
                w = float(a[2]) + o["mu"]
                require(float(b[2]) in ((w, round(w)) if a[3] == "int"
                                        else (w,)),
                        "ERC mutation by %r made %s of %s", o["mu"], b, a)
            require(diff or o["mu"] in (0, -0.5) or
                    all(k[3] == "int" for k in has),
                    "ERC mutation by %r changed nothing", o["mu"])
        elif all(k[1] == "float" for k in has):
            require(len(diff) == 1, "ERC mutation changed no constant of %s",
                    has)
        require(all(b[1] == a[1] for a, b in diff if a[1] == "float"),
                "ERC mutation changed the type of a constant: %s", diff)
        # ten sigma around mu, and half a unit where integers are kept
        for a, b in diff:
            s = float(b[2]) - float(a[2]) - o["mu"]
            require(abs(s) <= 10 * o["sigma"] + (0.5 if a[3] == "int" else 1e-6),
                    "ERC mutation with mu %r and sigma %r made %s of %s",
                    o["mu"], o["sigma"], b, a)


def body(case, ctx):
    spec = case["sets"]
    seed_all(case["seed"])
    cr = make_tree_creator(case["creator"], spec,
                           init_depth=tuple(case["depth"]))
    pop = cr.create_individuals(4, case["hib"])
    mutated_erc = False
    changed = 0
    for i in pop:
        check_tree(i, spec)
    for step in case["steps"]:
        o = step["o"]
        op = make_op(o)
        ar = o.get("arity", 2 if o["op"] == "stx" else 1)
        idx = [(step["at"] + k) % len(pop) for k in range(ar)]
        inds = [pop[k] for k in idx]
        if sum(i.size() for i in pop) > 900:
            break
        others = [keys(i) for k, i in enumerate(pop) if k not in idx]
        old = [list(i.tree) for i in inds]
        oldk = [keys(i) for i in inds]
        res = op.apply_operator(inds)
        require(len(res) == ar and all(a is b for a, b in zip(res, inds)),
                "%s did not return its operands", o["op"])
        mutated_erc |= o["op"] == "erc"
        for i in pop:
            check_tree(i, spec, erc_mutated=mutated_erc)
        require(others == [keys(i) for k, i in enumerate(pop) if k not in idx],
                "%s changed an individual it was not applied to", o["op"])
        nodes = [id(n) for i in pop for n in i.tree]
        require(len(set(nodes)) == len(nodes),
                "%s made a node part of two places", o["op"])
        newk = [keys(i) for i in inds]
        changed += newk != oldk
        if o["op"] == "stx":
            if newk != oldk:
                require(check_crossover(old, [i.tree for i in inds]),
                        "subtree crossover is not an exchange of one subtree per "
                        "individual: %s -> %s", oldk, newk)
            else:
                # legitimate only if equal subtrees were exchanged or no
                # compatible subtree exists
                ctx.label("stx-noop")
            moved = any(x is not y for t, i in zip(old, inds)
                        for x, y in itertools.zip_longest(t, i.tree))
            if spec["typed"] is None:
                require(moved, "subtree crossover of untyped trees exchanged "
                        "nothing: %s", oldk)
            elif o["attempts"] and all(
                    len({t.node_type for t in x[1:]}) == 1
                    and x[1].node_type is old[0][1].node_type if len(x) > 1
                    else False for x in old):
                require(moved, "subtree crossover exchanged nothing although "
                        "all subtrees have one type: %s", oldk)
        elif o["op"] == "stm":
            for t, i, k0, k1 in zip(old, inds, oldk, newk):
                if k0 != k1:
                    require(check_mutation(t, i.tree, o["depth"]),
                            "subtree mutation is not a replacement of one "
                            "subtree by a new one of depth %s: %s -> %s",
                            o["depth"], k0, k1)
            if spec["typed"] is None or all(len(t) > 1 for t in old):
                for t, i in zip(old, inds):
                    require(len(t) != i.size() or any(
                        x is not y for x, y in zip(t, i.tree)),
                        "subtree mutation replaced nothing in %s", t)
        elif o["op"] == "erc":
            erc_step(o, oldk, newk)
        ctx.label(o["op"])
    ctx.label("typed:%s" % spec["typed"])
    ctx.nontrivial(changed > 0)
    ctx.evals(len(case["steps"]))


@st.composite
def case_st(draw):
    spec = draw(treeset_st())
    if spec["erc"] and draw(st.integers(0, 3)) == 0:
        # constants of every magnitude
        m = draw(st.sampled_from([30, 1000, 10 ** 6]))
        spec["erc"] = [type(x)(x * m) for x in spec["erc"]]
    lo = draw(st.integers(1, 2))
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        o = draw(tree_op_st(spec, p=st.just(1.0)))
        if o["op"] == "stx":
            o["arity"] = draw(st.sampled_from([2, 2, 2, 3, 4]))
        elif o["op"] in ("stm", "erc"):
            o["arity"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
        steps.append({"o": o, "at": draw(st.integers(0, 3))})
    return {"sets": spec, "seed": draw(SEEDS),
            "creator": draw(st.sampled_from(["grow", "full"])),
            "depth": [lo, draw(st.integers(lo, draw(st.sampled_from(
                [3, 3, 3, 5]))))],
            "hib": draw(st.booleans()), "steps": steps}


def body_reach(case, ctx):
    """random_subtree: complete subtrees, and every eligible one can come up"""
    spec = case["sets"]
    seed_all(case["seed"])
    ind = make_tree_creator("grow", spec, init_depth=(1, 2)
                            ).create_individuals(1, True)[0]
    if case["big"]:
        # the largest program up to a size that keeps the search cheap
        for d in ((2, 3), (3, 4), (3, 6), (4, 7)):
            t = make_tree_creator("grow", spec, init_depth=d
                                  ).create_individuals(1, True)[0]
            if ind.size() < t.size() <= 260:
                ind = t
    typed = spec["typed"] is not None
    sp = dict(spans(ind.tree))
    if typed and case["want"] is not None:
        t = TYPE_BY_NAME[case["want"]]
    else:
        t = None
    n = ind.size()
    elig = set(range(n)) if not typed else {
        k for k in range(1, n) if t is None or ind.tree[k].node_type is t}
    before = keys(ind)
    got = set()
    pos = {id(x): k for k, x in enumerate(ind.tree)}
    for _ in range(60 * max(1, len(elig))):
        s = ind.random_subtree(t)
        if s is None:
            require(not elig, "no subtree found although %d are eligible",
                    len(elig))
            break
        k = pos.get(id(s[0]))
        require(k is not None, "random subtree is not part of the tree")
        require(k in elig, "subtree at %d is not eligible for type %s", k, t)
        require([node_key(x) for x in s] == before[k:sp[k]],
                "random subtree at %d is not the complete subtree", k)
        got.add(k)
        if got == elig:
            break
    require(got == elig, "subtrees at %s of %s never come up",
            sorted(elig - got), before)
    require(keys(ind) == before, "choosing a subtree changed the tree")
    ks = [before[k] for k in elig]
    ctx.label("typed" if typed else "untyped",
              "nodes>40" if n > 40 else "nodes<=40")
    ctx.nontrivial(len(set(ks)) < len(ks))


def body_add(case, ctx):
    """node-by-node construction accepts exactly type-correct nodes"""
    spec = case["sets"]
    s = tree_sets(spec)
    seed_all(case["seed"])
    ref = make_tree_creator("grow", spec, init_depth=(1, 3)
                            ).create_individuals(1, True)[0]
    nodes = list(ref.tree)
    t = Tree(fitness=GPFitness(), **s)
    # expected type of each position, from the parsed tree
    want = []

    def rec(p, ty):
        want.append(ty)
        n, kids = p
        if isinstance(n, FunctionNode):
            for k, a in zip(kids, fn_types(n.function)[0]):
                rec(k, a)

    rec(parse_all(nodes), s["root_type"])
    typed = spec["typed"] is not None
    for i, n in enumerate(nodes):
        if typed and i % 3 == case["bad"] % 3:
            wrong = [ty for ty in (float, int, bool) if ty is not want[i]]
            bad = TerminalNode("zz", wrong[case["bad"] % 2])
            try:
                t.add_tree(bad)
            except ValueError:
                ctx.label("rejected")
            else:
                raise Violation("a %s terminal was accepted where %s is expected "
                                "(after %s)" % (bad.node_type, want[i],
                                                nodes[:i]))
            require(t.size() == i, "a rejected node was added")
        t.add_tree(n)
        require(t.size() == i + 1, "node %d was not added", i)
    require(keys(t) == [node_key(n) for n in nodes], "nodes differ")
    try:
        t.add_tree(TerminalNode(nodes[-1].value if isinstance(
            nodes[-1], TerminalNode) else "x", nodes[-1].node_type))
    except ValueError:
        pass
    else:
        raise Violation("a node was added to a complete tree")
    ctx.nontrivial(typed and len(nodes) > 3)


SUBS = [
    Sub("operators", case_st, body, 4000, 60000, "an operator changed a tree"),
    Sub("reach", lambda: st.fixed_dictionaries({
        "sets": treeset_st(), "seed": SEEDS,
        "big": st.sampled_from([False, False, False, True]),
        "want": st.sampled_from([None, "float", "int", "bool"])}), body_reach,
        1200, 12000, "the tree has several equal eligible nodes"),
    Sub("add", lambda: st.fixed_dictionaries({
        "sets": treeset_st(), "seed": SEEDS, "bad": st.integers(0, 5)}),
        body_add, 1200, 12000, "typed tree with more than three nodes"),
]
ASSUMPTIONS = ["closed function/terminal sets: every argument type has a "
               "terminal and a function returning it"]
