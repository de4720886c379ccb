"""The printed form of a tree is that program; size and depth are its own."""
import ast
import inspect
import random

from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require
from props.C23 import SHAPES, random_nodes


def body(case, ctx):
    spec = case["sets"]
    s = tree_sets(spec)
    seed_all(case["seed"])
    if case["leaf"]:
        ind = Tree(fitness=GPFitness(), **s)
        ind.tree = [ind.random_terminal(s["root_type"])]
    else:
        ind = make_tree_creator(case["creator"], spec,
                                init_depth=tuple(case["depth"])
                                ).create_individuals(1, True)[0]
        for o in case["ops"]:
            make_op(o).apply_operator([ind])
    # constants of any magnitude
    k = 0
    for nd in ind.tree:
        if (isinstance(nd, TerminalNode) and type(nd.value) in (int, float)
                and case["consts"]):
            c = case["consts"][k % len(case["consts"])]
            k += 1
            if c is not None and (abs(c) < 1e15 or not spec["typed"]
                                  or type(nd.value) is float):
                nd.value = type(nd.value)(c) if spec["typed"] else c
                ctx.label("extreme-constant")
    p = parse_all(ind.tree)
    require(ind.size() == len(ind.tree), "size() %d", ind.size())
    require(ind.depth() == ref_depth(p), "depth() is %d, tree has depth %d",
            ind.depth(), ref_depth(p))
    txt = str(ind)
    ns = {f.__name__: f for f in s["function_set"]}
    ns.update(float=float, int=int, bool=bool)
    try:
        exec(txt, ns)
    except Exception as e:
        raise Violation("printed tree is not a program (%s):\n%s" % (e, txt))
    fn = ns.get("func_%d" % ind.id)
    require(callable(fn), "printed tree does not define func_%d:\n%s", ind.id, txt)
    vs = [v for v in s["terminal_set"] if isinstance(v, str)]
    sig = inspect.signature(fn)
    require(list(sig.parameters) == vs, "printed arguments %s, variables %s",
            list(sig.parameters), vs)
    if spec["typed"]:
        for v in vs:
            require(sig.parameters[v].annotation is s["terminal_set"][v],
                    "printed annotation of %s", v)
        require(sig.return_annotation is s["root_type"],
                "printed return type %s", sig.return_annotation)
    for f, i, b in zip(case["f"], case["i"], case["b"]):
        env = {}
        for k, v in enumerate(vs):
            ty = s["terminal_set"][v] if isinstance(s["terminal_set"], dict) \
                else None
            env[v] = {float: f + k, None: f - k, int: i + k, bool: b}[ty]
        with np.errstate(all="ignore"):
            try:
                want = ref_eval(p, env)
            except OverflowError:
                continue
            got = fn(**env)
            ex = ind.execute(**env)
        for w, x in (("printed program", got), ("execute", ex)):
            require(np.array_equal(np.asarray(x, dtype=float),
                                   np.asarray(want, dtype=float), equal_nan=True),
                    "%s gives %r, tree gives %r for %s:\n%s", w, x, want, env, txt)
    require(repr(ind) == txt, "repr differs from str")
    ctx.label("typed:%s" % spec["typed"], "leaf" if case["leaf"] else "tree",
              "depth>2" if ref_depth(p) > 2 else "depth<=2")
    ctx.nontrivial(len(ind.tree) > 3)


CONSTS = [1e-7, -1e-5, 5e-324, 1e300, -1e22, 1e16, 123456789.123456789, 0.1,
          -0.0, 1 / 3, 2**62, -7, 2**53 + 1, 1e-300]


@st.composite
def case_st(draw):
    lo = draw(st.integers(1, 3))
    spec = draw(treeset_st())
    if not spec["typed"] and draw(st.booleans()):
        # variables in any order, under any name
        spec["names"] = draw(st.lists(st.sampled_from(
            ["zeta", "b", "x10", "x2", "x", "A", "f_ad", "n1", "_q", "ab"]),
            min_size=1, max_size=5, unique=True))
    elif not spec["typed"] and draw(st.integers(0, 4)) == 0:
        spec["vars"] = draw(st.integers(4, 13))
    return {"sets": spec, "seed": draw(SEEDS),
            "leaf": draw(st.integers(0, 9)) == 9,
            "creator": draw(st.sampled_from(["grow", "full"])),
            "depth": [lo, draw(st.integers(lo, 4))],
            "ops": [o for o in draw(st.lists(tree_op_st(spec), max_size=2))
                    if o["op"] != "stx"],
            "consts": draw(st.one_of(st.just([]), st.lists(st.one_of(
                st.none(), st.sampled_from(CONSTS),
                st.floats(allow_nan=False, allow_infinity=False)),
                min_size=1, max_size=4))),
            "f": draw(st.lists(f_st(-9, 9), min_size=3, max_size=3)),
            "i": draw(st.lists(st.integers(-9, 9), min_size=3, max_size=3)),
            "b": [True, False, draw(st.booleans())]}


# ------------------------------------------------------- programs of any shape
def shape_body(case, ctx):
    rng = random.Random(case["seed"])
    seed_all(case["seed"])
    nodes = random_nodes(rng, case["n"], case["bias"])
    for nd in nodes:
        if isinstance(nd, TerminalNode):
            nd.value = rng.choice(case["vars"] + [
                rng.choice(CONSTS), rng.uniform(-50, 50), rng.gauss(0, 1e-3),
                rng.randint(-10**9, 10**9)])
    ind = Tree(function_set=list(SHAPES), terminal_set=list(case["vars"]) + [1],
               tree=nodes)
    p = parse_all(nodes)
    d = ref_depth(p)
    require(ind.depth() == d, "depth() is %d, tree has depth %d", ind.depth(), d)
    require(ind.size() == len(nodes), "size() %d of %d nodes", ind.size(),
            len(nodes))
    txt = str(ind)
    ns = {f.__name__: f for f in SHAPES}
    try:
        exec(txt, ns)
    except Exception as e:
        raise Violation("printed tree is not a program (%s):\n%s" % (e, txt))
    fn = ns["func_%d" % ind.id]
    for k in range(3):
        env = {v: rng.uniform(-9, 9) for v in case["vars"]}
        with np.errstate(all="ignore"):
            want, got = ref_eval(p, env), fn(**env)
            ex = ind.execute(**env)
        for w, x in (("printed program", got), ("execute", ex)):
            require(np.array_equal(np.asarray(x, dtype=float),
                                   np.asarray(want, dtype=float),
                                   equal_nan=True),
                    "%s gives %r, tree gives %r for %s:\n%s", w, x, want, env,
                    txt)
    # every constant is printed as it is, whether or not it decides the result
    printed = []
    for nd in ast.walk(ast.parse(txt)):
        if isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.USub):
            printed.append(-nd.operand.value)
            nd.operand.value = "seen"
        elif isinstance(nd, ast.Constant) and type(nd.value) in (int, float):
            printed.append(nd.value)
    consts = [x.value for x in nodes if isinstance(x, TerminalNode)
              and not isinstance(x.value, str)]
    require(sorted(map(repr, printed)) == sorted(map(repr, consts)),
            "constants %s are printed as %s", sorted(consts), sorted(printed))
    ctx.label("depth:%d+" % (d // 10 * 10))
    ctx.nontrivial(d > 3)


SUBS = [Sub("roundtrip", case_st, body, 4500, 60000, "more than three nodes"),
        Sub("shapes", lambda: st.fixed_dictionaries({
            "n": size_st(1, 14, 90), "bias": st.sampled_from([0, 1, 2]),
            "vars": st.lists(st.sampled_from(["x", "y", "x10", "b"]),
                             min_size=1, max_size=3, unique=True),
            "seed": SEEDS}), shape_body, 900, 20000, "deeper than three")]
ASSUMPTIONS = ["variables are Python identifiers; constants are numbers or "
               "booleans"]
