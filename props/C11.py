"""Executing a tree computes the program it spells out."""
from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from eckity.genetic_encodings.gp.tree.utils import create_terminal_set

from lib.harness import Sub, require

# exactly rounded functions: scalar and array evaluation agree bit by bit
EXACT = ["f_add", "f_sub", "f_mul", "f_div", "f_abs", "f_neg", "f_max",
         "f_min", "f_sqrt", "f_iflte0", "f_ifgt0", "f_iflte", "f_ifgt", "u_mix",
         "u_five"]


def same(a, b):
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float),
                          equal_nan=True)


def make(case):
    spec = case["sets"]
    seed_all(case["seed"])
    if case["leaf"]:
        s = tree_sets(spec)
        t = Tree(fitness=GPFitness(), **s)
        t.tree = [t.random_terminal(s["root_type"])]
        return t
    return make_tree_creator(case["creator"], spec,
                             init_depth=tuple(case["depth"])
                             ).create_individuals(1, True)[0]


def body_array(case, ctx):
    spec = case["sets"]
    ind = make(case)
    nv = spec["vars"]
    rows = [row[:nv] for row in case["rows"]]
    if case["more"]:
        # a long table of such rows, none like the other
        rng = np.random.RandomState(case["seed"] % 2**32)
        rows = [[v + float(rng.randint(-30, 30)) for v in rows[j % len(rows)]]
                for j in range(case["more"])]
        ctx.label("rows:%d+" % (case["more"] // 100 * 100))
    X = np.array(rows, dtype=int if case["int"] else float)
    if case["int"]:
        X = np.array([[int(v) for v in row] for row in rows])
    X0 = X.copy()
    g0 = genome(ind)
    with np.errstate(all="ignore"):
        got = ind.execute(X)
        env = {"x%d" % i: X[:, i] for i in range(nv)}
        want = ref_eval(parse_all(ind.tree), env)
        require(isinstance(got, np.ndarray) and got.shape == (len(rows),),
                "execute(X) has shape %s for %d rows", np.shape(got), len(rows))
        require(same(got, np.broadcast_to(want, (len(rows),))),
                "execute(X) = %s, program %s gives %s", got, g0, want)
        kw = ind.execute(**env)
        require(same(np.broadcast_to(kw, (len(rows),)), got),
                "execute(columns) = %s differs from execute(X) = %s", kw, got)
        if all(k[1] in EXACT for k in g0 if k[0] == "f"):
            step = 1 + len(rows) // 40
            for j, row in list(enumerate(X))[::step]:
                sc = ind.execute(**{"x%d" % i: row[i] for i in range(nv)})
                require(same(sc, got[j]), "row %d alone gives %s, in the array %s",
                        j, sc, got[j])
            perm = list(range(len(rows)))[::-1]
            require(same(ind.execute(X[perm]), got[perm]),
                    "permuting rows does not permute the result")
            ctx.label("rowwise")
    require(create_terminal_set(X) == ["x%d" % i for i in range(nv)],
            "features are called %s", create_terminal_set(X))
    ty = create_terminal_set(X, typed=True)
    require(ty == {"x%d" % i: int if case["int"] else float for i in range(nv)}
            and list(ty) == ["x%d" % i for i in range(nv)],
            "typed features are %s", ty)
    for bad in (np.column_stack([X, X[:, :1]]), X[:, :nv - 1], X[:, 0], "x"):
        try:
            ind.execute(bad)
        except ValueError:
            pass
        else:
            raise Violation("execute accepted %r for %d features" % (bad, nv))
    for some in (env, {"x0": X[:, 0]}, {"x%d" % (nv - 1): 1.0}):
        try:
            ind.execute(X, **some)
        except ValueError:
            pass
        else:
            raise Violation("execute accepted an array together with %s"
                            % sorted(some))
    require(np.array_equal(X, X0, equal_nan=True), "execute changed its input")
    require(genome(ind) == g0, "execute changed the tree")
    ctx.label("leaf" if case["leaf"] else "tree", "int" if case["int"] else "float",
              "wide" if nv > 10 else "narrow", "const" if not any(k[1] == "str" for k in g0 if k[0] == "t")
              else "uses-vars")
    ctx.nontrivial(len(g0) > 1 and len(rows) > 1)


VAL = st.one_of(f_st(-20, 20), st.sampled_from(
    [0.0, -0.0, 1e-3, 1.0, -1.0, 1e6, 1e-9]))


@st.composite
def arr_case(draw):
    spec = draw(treeset_st(typed=False))
    if draw(st.booleans()):
        spec["funcs"] = draw(st.lists(st.sampled_from(EXACT), min_size=1,
                                      max_size=5, unique=True))
    lo = draw(st.integers(1, 3))
    if draw(st.integers(0, 3)) == 0:
        spec["vars"] = draw(st.integers(4, 14))   # two-digit feature names
    nv = max(spec["vars"], 3)
    return {"sets": spec, "seed": draw(SEEDS), "leaf": draw(st.integers(0, 5)) == 5,
            "creator": draw(st.sampled_from(["grow", "full"])),
            "depth": [lo, draw(st.integers(lo, 4))],
            "int": draw(st.booleans()),
            "more": draw(st.integers(7, 400)) if draw(
                st.integers(0, 7)) == 0 else 0,
            "rows": draw(st.lists(st.lists(VAL, min_size=nv, max_size=nv),
                                  min_size=1, max_size=6))}


def body_kwargs(case, ctx):
    """typed trees, scalar arguments, errors"""
    spec = case["sets"]
    ind = make(case)
    s = tree_sets(spec)
    vs = [v for v in s["terminal_set"] if isinstance(v, str)]
    pool = {float: case["f"], int: case["i"], bool: case["b"], None: case["f"]}
    cnt = {}
    env = {}
    for v in vs:
        ty = s["terminal_set"][v] if isinstance(s["terminal_set"], dict) else None
        k = cnt.get(ty, 0)
        cnt[ty] = k + 1
        env[v] = pool[ty][k % len(pool[ty])]
    g0 = genome(ind)
    with np.errstate(all="ignore"):
        try:
            want = ref_eval(parse_all(ind.tree), env)
        except OverflowError:
            return
        got = ind.execute(**env)
    require(same(got, want), "execute(%s) = %r, program %s gives %r", env, got,
            g0, want)
    if spec["typed"] in ("floatbool", "intbool", "all", "float"):
        require(isinstance(got, s["root_type"]),
                "result %r is not a %s", got, s["root_type"])
    # argument order does not matter
    rev = ind.execute(**dict(reversed(list(env.items()))))
    require(same(rev, got), "argument order changed the result")
    # the same shape with other constants of the domain is an error
    miss = case["miss"] % len(vs)
    part = {k: v for i, (k, v) in enumerate(env.items()) if i != miss}
    for what, bad in (("missing", part), ("unknown", dict(env, qq=1.0))):
        try:
            ind.execute(**bad)
        except ValueError:
            pass
        else:
            raise Violation("execute accepted %s variable: %s" % (what, bad))
    e = Tree(fitness=GPFitness(), **s)
    try:
        e.execute(**env)
    except ValueError:
        pass
    else:
        raise Violation("an empty tree was executed")
    require(genome(ind) == g0, "execute changed the tree")
    ctx.label("typed:%s" % spec["typed"])
    ctx.nontrivial(len(g0) > 2)


@st.composite
def kw_case(draw):
    lo = draw(st.integers(1, 3))
    return {"sets": draw(treeset_st()), "seed": draw(SEEDS), "leaf": False,
            "creator": draw(st.sampled_from(["grow", "full"])),
            "depth": [lo, draw(st.integers(lo, 3))],
            "f": draw(st.lists(VAL, min_size=3, max_size=3)),
            "i": draw(st.lists(st.integers(-9, 9), min_size=2, max_size=2)),
            "b": draw(st.lists(st.booleans(), min_size=1, max_size=1)),
            "miss": draw(st.integers(0, 4))}


INT_FUNCS = {
    "f_and": lambda a, b: a & b, "f_or": lambda a, b: a | b,
    "f_not": lambda a: int(not a),
    "f_if_then_else": lambda t, a, b: a if t else b,
    "f_max": max, "f_min": min, "f_neg": lambda a: -a, "f_abs": abs,
    "f_iflte0": lambda x, a, b: a if x <= 0 else b,
    "f_ifgt0": lambda x, a, b: a if x > 0 else b,
    "f_iflte": lambda x, y, a, b: a if x <= y else b,
    "f_ifgt": lambda x, y, a, b: a if x > y else b,
}


def int_eval(t, env):
    n, kids = t
    if isinstance(n, FunctionNode):
        return INT_FUNCS[n.function.__name__](*[int_eval(k, env) for k in kids])
    return env[n.value] if isinstance(n.value, str) else n.value


def body_ints(case, ctx):
    """whole numbers of any size stay exact; reference in plain Python"""
    spec = case["sets"]
    ind = make(case)
    nv = spec["vars"]
    rows = [row[:nv] for row in case["rows"]]
    X = np.array(rows, dtype=np.int64)
    got = ind.execute(X)
    t = parse_all(ind.tree)
    want = [int_eval(t, {"x%d" % i: v for i, v in enumerate(row)})
            for row in rows]
    require(np.shape(got) == (len(rows),) and
            np.issubdtype(np.asarray(got).dtype, np.integer),
            "result %r of an integer program on integers", got)
    require([int(v) for v in got] == want, "execute(X) = %s, program %s gives %s",
            got, genome(ind), want)
    kw = ind.execute(**{"x%d" % i: X[:, i] for i in range(nv)})
    require([int(v) for v in np.broadcast_to(kw, len(rows))] == want,
            "execute(columns) = %s, program gives %s", kw, want)
    big = any(abs(v) > 2**53 for v in want)
    ctx.label("beyond-2^53" if big else "small")
    ctx.nontrivial(len(ind.tree) > 2)


@st.composite
def int_case(draw):
    v = st.one_of(st.integers(-9, 9), st.integers(-2**62, 2**62),
                  st.sampled_from([2**53 + 1, -2**53 - 1, 2**60 + 1]))
    lo = draw(st.integers(1, 2))
    spec = {"typed": None, "root": None, "vars": draw(st.integers(1, 4)),
            "funcs": draw(st.lists(st.sampled_from(sorted(INT_FUNCS)),
                                   min_size=1, max_size=5, unique=True)),
            "consts": draw(st.lists(v, max_size=2, unique=True)),
            "erc": draw(erc_st(("none", "int")))}
    return {"sets": spec, "seed": draw(SEEDS),
            "leaf": draw(st.integers(0, 7)) == 7,
            "creator": draw(st.sampled_from(["grow", "full"])),
            "depth": [lo, draw(st.integers(lo, 3))],
            "rows": draw(st.lists(st.lists(v, min_size=4, max_size=4),
                                  min_size=1, max_size=5))}


SUBS = [
    Sub("ints", int_case, body_ints, 1500, 20000, "more than two nodes"),
    Sub("array", arr_case, body_array, 3500, 50000,
        "more than one node and more than one row"),
    Sub("kwargs", kw_case, body_kwargs, 2500, 30000, "more than two nodes"),
]
ASSUMPTIONS = ["variables are strings, other terminals are constants",
               "row-wise agreement is claimed for exactly rounded functions"]
