"""C13  The GP function library computes its documented elementwise functions.

Oracle: scalar reference definitions written with the math module, applied cell
by cell; the vectorised library function must agree on every cell, on every
mixture of scalars and arrays, and must leave its arguments as they were."""
import math

import numpy as np
from hypothesis import strategies as st

from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf

from lib.harness import Sub, require

nan = math.nan


def _div(x, y):
    if not abs(y) > 0.001:
        return 0.0
    if math.isinf(x) and math.isinf(y):
        return nan
    try:
        return x / y
    except OverflowError:
        return math.copysign(math.inf, x * y)


def _mul(x, y):
    return float(x) * float(y)


def _log(x):
    return math.log(abs(x)) if abs(x) > 0.001 else 0.0


def _trig(f):
    def g(x):
        return nan if not math.isfinite(x) else f(x)
    return g


def _max(x, y):
    return nan if x != x or y != y else max(x, y)


def _min(x, y):
    return nan if x != x or y != y else min(x, y)


def _t(x):
    return bool(x)   # nan is true, as in Python


REF = {
    "add": (2, lambda x, y: float(x) + float(y), "num"),
    "sub": (2, lambda x, y: float(x) - float(y), "num"),
    "mul": (2, _mul, "num"),
    "div": (2, _div, "num"),
    "sqrt": (1, lambda x: math.sqrt(abs(x)), "num"),
    "log": (1, _log, "num"),
    "abs": (1, abs, "num"),
    "neg": (1, lambda x: -x, "num"),
    "inv": (1, lambda x: _div(1, x), "num"),
    "max": (2, _max, "num"),
    "min": (2, _min, "num"),
    "sin": (1, _trig(math.sin), "trig"),
    "cos": (1, _trig(math.cos), "trig"),
    "tan": (1, _trig(math.tan), "trig"),
    "iflte0": (3, lambda x, y, z: y if x <= 0 else z, "num"),
    "ifgt0": (3, lambda x, y, z: y if x > 0 else z, "num"),
    "iflte": (4, lambda x, y, z, w: z if x <= y else w, "num"),
    "ifgt": (4, lambda x, y, z, w: z if x > y else w, "num"),
    "and": (2, lambda x, y: float(_t(x) and _t(y)), "bool"),
    "or": (2, lambda x, y: float(_t(x) or _t(y)), "bool"),
    "not": (1, lambda x: float(not _t(x)), "bool"),
    "ite": (3, lambda c, x, y: x if _t(c) else y, "ite"),
    "argmax": (2, lambda x, y: 0.0 if x >= y else 1.0, "num"),
}

# library function -> (reference, value kind override)
LIB = {
    uf.f_add: "add", uf.f_sub: "sub", uf.f_mul: "mul", uf.f_div: "div",
    uf.f_sqrt: "sqrt", uf.f_log: "log", uf.f_abs: "abs", uf.f_neg: "neg",
    uf.f_inv: "inv", uf.f_max: "max", uf.f_min: "min", uf.f_sin: "sin",
    uf.f_cos: "cos", uf.f_tan: "tan", uf.f_iflte0: "iflte0",
    uf.f_ifgt0: "ifgt0", uf.f_iflte: "iflte", uf.f_ifgt: "ifgt",
    uf.f_and: "and", uf.f_or: "or", uf.f_not: "not",
    uf.f_if_then_else: "ite",
    tf.add2floats: "add", tf.sub2floats: "sub", tf.mul2floats: "mul",
    tf.div2floats: "div", tf.sqrt_float: "sqrt", tf.log_float: "log",
    tf.abs_float: "abs", tf.neg_float: "neg", tf.inv_float: "inv",
    tf.max2floats: "max", tf.min2floats: "min", tf.sin_float: "sin",
    tf.cos_float: "cos", tf.tan_float: "tan", tf.iflte0_floats: "iflte0",
    tf.ifgt0_floats: "ifgt0", tf.iflte_floats: "iflte",
    tf.ifgt_floats: "ifgt", tf.and2floats: "and", tf.or2floats: "or",
    tf.not2floats: "not", tf.if_then_else: "ite", tf.argmax2floats: "argmax",
    tf.and2ints: "and", tf.or2ints: "or", tf.not2ints: "not",
    tf.if_then_else3ints: "ite", tf.and2bools: "and", tf.or2bools: "or",
    tf.not2bools: "not", tf.if_then_else3bools: "ite",
}
BY_NAME = {f.__module__.rsplit(".", 1)[1] + "." + f.__name__: f for f in LIB}

# which values "x and y" is defined on in each family
LOGIC_DTYPE = {"and2floats": "float", "or2floats": "float",
               "not2floats": "float", "and2ints": "int", "or2ints": "int",
               "not2ints": "int", "and2bools": "bool", "or2bools": "bool",
               "not2bools": "bool", "f_and": "01", "f_or": "01",
               "f_not": "any"}

SPECIAL = [0.0, -0.0, 0.001, -0.001, 0.0009999999, 0.0010000001, -0.0010000001,
           0.0011, 0.002, 0.0005, -0.0011, -0.0005, 0.01, -0.01, 0.1, 0.5,
           1e-300, -1e-9, 1.0, -1.0, 2.0, 3.0, math.e, 10.0, -7.5, 100.0, 1e6,
           -1e6, 1e12, 1e154, 1e200, -1e300, -1e-200, 1e-160, 5e-324]
EXTREME = ["inf", "-inf", "nan"]


def dec(v):
    return float(v) if isinstance(v, str) else v


FLOATS = st.one_of(st.sampled_from(SPECIAL),
                   st.floats(-100, 100, allow_nan=False),
                   st.floats(-0.01, 0.01, allow_nan=False),
                   st.floats(-1e9, 1e9, allow_nan=False))


@st.composite
def case_st(draw):
    name = draw(st.sampled_from(sorted(BY_NAME)))
    f = BY_NAME[name]
    n, _, kind = REF[LIB[f]]
    size = draw(st.integers(1, 6) if draw(st.integers(0, 24)) else
                st.integers(7, 70))
    extreme = LIB[f] != "argmax" and draw(st.integers(0, 9)) == 0
    args = []
    for i in range(n):
        if kind == "bool":
            dt = LOGIC_DTYPE[f.__name__]
            if dt == "01":
                dt = draw(st.sampled_from(["bool", "01"]))
            elif dt == "any":
                dt = draw(st.sampled_from(["bool", "01", "int", "float"]))
        elif kind == "ite" and i == 0:
            dt = draw(st.sampled_from(["bool", "01"]))
        elif f.__name__ == "if_then_else3bools":
            dt = "bool"
        elif f.__name__ == "if_then_else3ints":
            dt = "int"
        else:
            dt = draw(st.sampled_from(["float", "float", "float", "int"]))
        elem = {"float": FLOATS, "int": st.integers(-30, 30),
                "bool": st.booleans(), "01": st.integers(0, 1)}[dt]
        if kind == "trig" and dt == "float":
            elem = st.one_of(st.sampled_from([s for s in SPECIAL if abs(s) < 1e7]),
                             st.floats(-1e3, 1e3, allow_nan=False))
        if extreme and dt == "float":
            elem = st.one_of(elem, st.sampled_from(EXTREME))
        if draw(st.integers(0, 3)) == 0:
            args.append({"k": "s", "d": dt, "v": draw(elem)})
        else:
            a = {"k": "a", "d": dt, "v": draw(
                st.lists(elem, min_size=size, max_size=size))}
            if args and draw(st.integers(0, 5)) == 0:
                prev = [p for p in args if p["k"] == "a" and p["d"] == dt]
                if prev:  # equal operands: ties of the comparisons
                    a = {"k": "a", "d": dt, "v": list(prev[0]["v"])}
            args.append(a)
    shape = [size]
    if size % 2 == 0 and draw(st.integers(0, 5)) == 5:
        shape = [2, size // 2] if draw(st.booleans()) else [size // 2, 2]
    return {"f": name, "args": args, "shape": shape}


DT = {"float": float, "int": np.int64, "bool": bool, "01": np.int64}


def build(a, shape=(-1,)):
    if a["k"] == "s":
        v = dec(a["v"])
        return bool(v) if a["d"] == "bool" else v
    return np.array([dec(v) for v in a["v"]], dtype=DT[a["d"]]).reshape(
        shape)


def body(case, ctx):
    f = BY_NAME[case["f"]]
    n, ref, kind = REF[LIB[f]]
    args = [build(a, case["shape"]) for a in case["args"]]
    arrays = [a for a in args if isinstance(a, np.ndarray)]
    ctx.label("fn:" + case["f"])
    ctx.label("arrays" if len(arrays) == n else
              "scalars" if not arrays else "mixed")
    keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    with np.errstate(all="ignore"):
        out = f(*args)
    for i, (a, b) in enumerate(zip(args, keep)):
        if isinstance(a, np.ndarray):
            require(np.array_equal(a, b, equal_nan=a.dtype == float),
                    "%s changed argument %d: %s -> %s", case["f"], i, b, a)
    shape = arrays[0].shape if arrays else ()
    require(np.shape(out) == shape, "%s returned shape %s for arguments of "
            "shape %s", case["f"], np.shape(out), shape)
    cells = range(int(np.prod(shape))) if shape else [None]
    outs = np.asarray(out, dtype=float)
    if len(shape) > 1:
        ctx.label("matrix")
        outs = outs.reshape(-1)
    vals = set()
    for c in cells:
        xs = [a["v"] if a["k"] == "s" else a["v"][c] for a in case["args"]]
        xs = [dec(x) for x in xs]
        want = float(ref(*xs))
        got = float(outs if c is None else outs[c])
        vals.add(got)
        ok = (want == got) or (want != want and got != got) or math.isclose(
            want, got, rel_tol=1e-9, abs_tol=1e-12 if kind == "trig" else 0.0)
        require(ok, "%s(%s) is %r, the documented value is %r", case["f"],
                ", ".join(map(repr, xs)), got, want)
        ctx.label("cell:nonfinite" if not math.isfinite(want) else "cell:finite")
    # a function of its arguments only: asking again gives the same answer
    with np.errstate(all="ignore"):
        out2 = f(*args)
    require(np.array_equal(np.asarray(out2, dtype=float).reshape(outs.shape), outs, equal_nan=True),
            "%s gives different results for the same arguments", case["f"])
    ctx.nontrivial(len(vals) > 1)
    ctx.evals(len(list(cells)))


# ------------------------------------------------------------------- grids
@st.composite
def grid_st(draw):
    """every pairing of the special values, in arrays of any rank"""
    name = draw(st.sampled_from(sorted(BY_NAME)))
    f = BY_NAME[name]
    n, _, kind = REF[LIB[f]]
    pool = {"bool": [0, 1], "trig": [s for s in SPECIAL if abs(s) < 1e7]}.get(
        kind, SPECIAL)
    dts = ["float"] * n
    if kind == "bool":
        dt = LOGIC_DTYPE[f.__name__]
        dts = [{"01": "01", "any": "float"}.get(dt, dt)] * n
    elif kind == "ite":
        dts[0] = "bool"
    if f.__name__ == "if_then_else3bools":
        dts = ["bool"] * 3
    elif f.__name__ == "if_then_else3ints":
        dts = ["bool", "int", "int"]
    cols = [[] for _ in range(n)]
    some = draw(st.permutations(pool)) if n > 2 else pool
    some = list(some)[:7] if n > 2 else pool
    idx = [0] * n
    size = len(some) ** n
    for c in range(size):
        k = c
        for i in range(n):
            v = some[k % len(some)]
            k //= len(some)
            if dts[i] == "bool":
                v = bool(v and idx[i] % 2)
                idx[i] += 1
            elif dts[i] == "int":
                v = int(max(-100, min(100, v)))
            cols[i].append(v)
    div = [d for d in range(1, size + 1) if size % d == 0]
    a = draw(st.sampled_from(div))
    b = draw(st.sampled_from([d for d in div if (size // a) % d == 0]))
    shape = draw(st.sampled_from([[size], [a, size // a], [a, size // a],
                                  [a, b, size // a // b]]))
    return {"f": name, "args": [{"k": "a", "d": d, "v": v}
                                for d, v in zip(dts, cols)], "shape": shape}


SUBS = [
    Sub("grid", grid_st, body, 600, 20000,
        "the result has at least two distinct cells"),
    Sub("functions", case_st, body, 16000, 400000,
        "the result has at least two distinct cells", chunk=500),
]
ASSUMPTIONS = [
    "logical functions are exercised on the values their name states (floats, "
    "ints, bools; bool/0-1 for the untyped ones); argmax without nan",
]
