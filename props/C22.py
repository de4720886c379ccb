"""C22  The scikit-learn estimators: fit, predict, score, clone, refit, pickle.

Oracle: the metric applied by hand to an independent evaluation of the best
tree, plus differential relations between estimators that must agree."""
import math
import pickle
import warnings
from copy import deepcopy

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.exceptions import NotFittedError
from sklearn.metrics import accuracy_score, mean_absolute_error
from sklearn.model_selection import (GridSearchCV, KFold, cross_val_predict,
                                     cross_val_score)
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler

from eckity.algorithms import SimpleEvolution
from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf
from eckity.base.types import t_argmax
from eckity.breeders import SimpleBreeder
from eckity.creators import FullCreator, GrowCreator
from eckity.fitness import GPFitness
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_operators import (SubtreeCrossover, SubtreeMutation,
                                      TournamentSelection)
from eckity.sklearn_compatible import (ClassificationEvaluator,
                                       RegressionEvaluator, SKClassifier,
                                       SKRegressor)
from eckity.subpopulation import Subpopulation

from lib.dom import (SEEDS, f_st, genome, parse_all, ref_eval, seed_all,
                     size_st, with_stop)
from lib.harness import Sub, require

FUNCS = [uf.f_add, uf.f_sub, uf.f_mul, uf.f_neg, uf.f_max, uf.f_min, uf.f_abs]


def asym(y_true, y_pred):
    """an error measure in which the order of the arguments matters"""
    d = np.asarray(y_true, dtype=float) - np.asarray(y_pred, dtype=float)
    return float(np.mean(np.where(d > 0, 3 * d, -d)))


def weighted_acc(y_true, y_pred):
    t, p = np.asarray(y_true), np.asarray(y_pred)
    return float(np.mean((t == p) * (1.0 + t)))


METRICS = {"mae": mean_absolute_error, "asym": asym, "acc": accuracy_score,
           "wacc": weighted_acc}


@st.composite
def data_st(draw, cls, lo=4, hi=12, d=None):
    n = draw(st.integers(lo, hi) if hi < 12 or draw(st.integers(0, 3)) else
             st.integers(hi, 40))
    d = draw(st.integers(1, 3)) if d is None else d
    X = [[draw(f_st(-8, 8)) for _ in range(d)] for _ in range(n)]
    if cls:
        y = [draw(st.integers(0, cls - 1)) for _ in range(n)]
    elif draw(st.integers(0, 3)) == 0:     # integers, all but a few
        y = [draw(st.integers(-20, 20)) for _ in range(n)]
        y[draw(st.integers(0, n - 1))] += draw(st.sampled_from([0.5, 0.875, 0]))
    else:
        y = [draw(f_st(-20, 20)) for _ in range(n)]
    return {"X": X, "y": y}


@st.composite
def est_st(draw):
    kind = draw(st.sampled_from(["reg", "reg", "clf", "argmax"]))
    ncl = draw(size_st(2, 4, 9)) if kind == "clf" else 2
    d = draw(size_st(1, 3, 12))
    cls = 0 if kind == "reg" else ncl
    return {"kind": kind, "ncl": ncl, "d": d,
            "metric": draw(st.sampled_from(
                ["mae", "asym"] if kind == "reg" else ["acc", "wacc"])),
            "A": draw(data_st(cls, d=d)), "B": draw(data_st(cls, d=d)),
            "q": draw(data_st(cls, lo=1, hi=6, d=d)),
            "gens": draw(size_st(0, 3, 10)),
            "pop": 2 * draw(size_st(1, 4, 20)), "seed": draw(SEEDS),
            "bw": draw(st.sampled_from([0.0, 0.5])),
            "elite": draw(st.sampled_from([1, 0, 0, 2])),
            "workers": draw(st.sampled_from([1, 2])),
            "stop": draw(st.sampled_from([None, None, None, 0, 1, 2])),
            "hist": draw(st.sampled_from(["plain", "refit", "clone", "pickle",
                                          "lists", "params", "monitor"]))}


def make_est(c):
    if c["kind"] == "reg":
        ev = RegressionEvaluator(metric=METRICS[c["metric"]])
    elif c["kind"] == "clf":
        ev = ClassificationEvaluator(metric=METRICS[c["metric"]],
                                     n_classes=c["ncl"])
    else:
        ev = ClassificationEvaluator(metric=METRICS[c["metric"]],
                                     clf_method="argmax")
    hib = c["kind"] != "reg"
    if c["kind"] == "argmax":
        cr = GrowCreator(init_depth=(1, 2), root_type=t_argmax,
                         function_set=[tf.argmax2floats, tf.add2floats,
                                       tf.neg_float],
                         terminal_set={"x%d" % i: float for i in range(c["d"])},
                         bloat_weight=c["bw"])
        ops = [SubtreeCrossover(probability=0.8)]
    else:
        cr = FullCreator(init_depth=(1, 2), function_set=FUNCS,
                         terminal_set=["x%d" % i for i in range(c["d"])] + [1, 2.5],
                         bloat_weight=c["bw"])
        ops = [SubtreeCrossover(probability=0.8),
               SubtreeMutation(probability=0.4, init_depth=(1, 2))]
    sp = Subpopulation(
        ev, creators=cr, population_size=c["pop"], higher_is_better=hib,
        elitism_rate=c.get("elite", 1) / c["pop"], operators_sequence=ops,
        selection_methods=[(TournamentSelection(tournament_size=2,
                                                higher_is_better=hib), 1)])
    alg = SimpleEvolution(sp, breeder=SimpleBreeder(), max_generation=c["gens"],
                          max_workers=c["workers"], executor="thread",
                          random_seed=c["seed"], statistics=[],
                          termination_checker=with_stop(c, None))
    return SKRegressor(alg) if c["kind"] == "reg" else SKClassifier(alg)


def ran(c, k):
    """how many generations a run of up to k has"""
    return k if c.get("stop") is None else min(k, c["stop"])


def raw(ind, X):
    env = {"x%d" % i: X[:, i] for i in range(X.shape[1])}
    with np.errstate(all="ignore"):
        v = ref_eval(parse_all(ind.tree), env)
    return np.array(np.broadcast_to(v, (X.shape[0],)))


def classes_of(c, v):
    """reference classification; None where a probability is on a threshold"""
    if c["kind"] == "argmax":
        return [int(x) for x in v]
    out = []
    n = c["ncl"]
    for x in v:
        x = float(x)
        p = 1 / (1 + math.exp(-x)) if x > -700 else 0.0
        k = 0
        for j in range(1, n):
            t = j / n
            if abs(p - t) < 1e-12 and not (n == 2 and x == 0):
                k = None
                break
            k += p >= t
        out.append(k)
    return out


def check_pred(c, est, X, pred, what):
    v = raw(est.algorithm.best_of_run_, X)
    pred = np.asarray(pred)
    require(pred.shape == (len(X),), "%s: predictions have shape %s for %d rows",
            what, pred.shape, len(X))
    if c["kind"] == "reg":
        require(np.allclose(pred, v, rtol=1e-12, atol=0, equal_nan=True),
                "%s: predictions %s, the best program gives %s", what, pred, v)
    else:
        ref = classes_of(c, v)
        for a, b in zip(pred, ref):
            require(b is None or int(a) == b, "%s: predicted classes %s, the "
                    "best program gives %s (outputs %s)", what, pred, ref, v)
    return pred


def check_fit(c, est, X, y, what):
    """every fitness of the final population is the metric on (X, y)"""
    pop = est.algorithm.population.sub_populations[0].individuals
    m = METRICS[c["metric"]]
    best = est.algorithm.best_of_run_
    for who, ind in [("best", best)] + [("member", i) for i in pop]:
        v = raw(ind, X)
        if c["kind"] != "reg":
            v = classes_of(c, v)
            if None in v:
                continue
        want = m(y, v)
        got = ind.get_pure_fitness()
        require(got == want or math.isclose(got, want, rel_tol=1e-9),
                "%s: fitness of a %s is %r, the metric on the training data is "
                "%r", what, who, got, want)
    require(not any(i.better_than(best) for i in pop),
            "%s: a member of the final population beats the best of run", what)


def arrays(dd, cls):
    X = np.array(dd["X"], dtype=float)
    return X, np.array(dd["y"], dtype=int if cls else float)


def unfitted(est, X):
    try:
        est.predict(X)
    except NotFittedError:
        return True
    return False


def est_body(case, ctx):
    c = case
    cls = c["kind"] != "reg"
    XA, yA = arrays(c["A"], cls)
    XB, yB = arrays(c["B"], cls)
    XQ, yQ = arrays(c["q"], cls)
    keep = [a.copy() for a in (XA, yA, XB, yB, XQ)]
    est = make_est(c)
    require(unfitted(est, XA), "an unfitted estimator predicted")
    twin = clone(est)            # before fitting: an equal, unfitted estimator
    require(type(twin) is type(est), "clone is a %s", type(twin))
    require(est.get_params()["algorithm"] is est.algorithm, "get_params lost "
            "the algorithm")
    # rejected input leaves the estimator unfitted
    for bad in ((XA[:-1], yA), (np.where(XA == XA, np.nan, XA), yA)):
        try:
            est.fit(*bad)
        except ValueError:
            pass
        else:
            require(False, "fit accepted inconsistent or nan data")
        require(unfitted(est, XA), "a rejected fit left the estimator fitted")
    r = est.fit(XA, yA)
    require(r is est, "fit does not return the estimator")
    p1 = check_pred(c, est, XQ, est.predict(XQ), "predict")
    check_fit(c, est, XA, yA, "after fit")
    pa = check_pred(c, est, XA, est.predict(XA), "predict training data")
    require(np.array_equal(np.asarray(est.predict(XQ)), p1, equal_nan=not cls),
            "predicting twice gives different answers")
    # row by row the same
    for j in range(len(XQ)):
        one = np.asarray(est.predict(XQ[j:j + 1]))
        require(one.shape == (1,) and np.array_equal(one, p1[j:j + 1]),
                "row %d alone is predicted as %s, in the batch %s", j, one,
                p1[j])
    if cls:
        sc = est.score(XQ, yQ)
        require(math.isclose(sc, accuracy_score(yQ, p1)), "score %r", sc)
        require(math.isclose(est.score(XA, yA), accuracy_score(yA, pa)), "score")
    elif len(yA) > 1 and np.all(np.isfinite(pa)):
        from sklearn.metrics import r2_score
        sc, want = est.score(XA, yA), r2_score(yA, pa)
        require(sc == want or math.isclose(sc, want, rel_tol=1e-9), "score %r, "
                "expected %r", sc, want)
    require(unfitted(twin, XA), "fitting an estimator fitted its clone")
    h = c["hist"]
    if h == "plain" or h == "lists":
        # the clone, fitted on the same data, is the same model
        if h == "lists":
            twin.fit(c["A"]["X"], c["A"]["y"])
            got = np.asarray(twin.predict(c["q"]["X"]))
            require(np.array_equal(got, p1, equal_nan=not cls), "predicting a "
                    "list of rows gives %s, the array %s", got, p1)
        else:
            twin.fit(XA, yA)
        require(genome(twin.algorithm.best_of_run_) ==
                genome(est.algorithm.best_of_run_),
                "an equal estimator fitted on equal data found another model")
        require(np.array_equal(np.asarray(twin.predict(XQ)), p1), "and predicts "
                "differently")
    elif h == "refit":
        est.fit(XB, yB)
        check_fit(c, est, XB, yB, "after fitting again")
        check_pred(c, est, XQ, est.predict(XQ), "predict after fitting again")
    elif h == "clone":
        again = clone(est)
        require(unfitted(again, XA), "a clone of a fitted estimator is fitted")
        again.fit(XB, yB)
        check_fit(c, again, XB, yB, "a clone fitted on other data")
        require(np.array_equal(np.asarray(est.predict(XQ)), p1),
                "fitting a clone changed the original's predictions")
    elif h == "pickle":
        for copy in (pickle.loads(pickle.dumps(est)), deepcopy(est)):
            require(np.array_equal(np.asarray(copy.predict(XQ)), p1),
                    "a copied estimator predicts differently")
            copy.fit(XB, yB)
            check_fit(c, copy, XB, yB, "a copy fitted on other data")
            require(np.array_equal(np.asarray(est.predict(XQ)), p1),
                    "fitting a copy changed the original's predictions")
    elif h == "params":
        k = (c["gens"] + 1) % 4
        require(twin.set_params(max_generation=k) is twin, "set_params must "
                "return the estimator")
        twin.fit(XA, yA)
        require(twin.algorithm.final_generation_ == ran(c, k),
                "%s generations ran after set_params(max_generation=%d)",
                twin.algorithm.final_generation_, k)
        check_fit(c, twin, XA, yA, "after set_params")
        other = make_est(dict(c, seed=c["seed"] ^ 1))
        if c["seed"] % 2:
            est.set_params(algorithm=other.algorithm)
            k = c["gens"]
        else:
            est.set_params(algorithm=other.algorithm, max_generation=k)
        require(est.get_params()["algorithm"] is other.algorithm,
                "set_params(algorithm=...) was not taken over")
        require(est.algorithm.max_generation == k, "max_generation is %s after "
                "set_params, expected %s", est.algorithm.max_generation, k)
        est.fit(XB, yB)
        require(est.algorithm.final_generation_ == ran(c, k), "%s generations ran, "
                "expected %s", est.algorithm.final_generation_, k)
        check_fit(c, est, XB, yB, "after set_params(algorithm=...)")
    elif h == "monitor":
        # predicting while the estimator is fitted again, and after it, must
        # not disturb the training data
        seen = []
        est.algorithm.register("after_generation", lambda s, d: seen.append(
            np.asarray(est.predict(XQ))))
        est.fit(XB, yB)
        check_fit(c, est, XB, yB, "fitted while predicting")
        check_pred(c, est, XQ, est.predict(XQ), "predict after that")
        require(all(p.shape == (len(XQ),) for p in seen), "predictions of "
                "another shape during the fit")
        ev = est.algorithm.get_individual_evaluator()
        best = est.algorithm.best_of_run_
        require(ev.evaluate_individual(best) == best.get_pure_fitness(),
                "after predicting, the evaluator no longer scores on the "
                "training data")
    for a, b in zip((XA, yA, XB, yB, XQ), keep):
        require(np.array_equal(a, b), "the estimator changed its input data")
    ctx.label("kind:" + c["kind"], "hist:" + h, "metric:" + c["metric"])
    ctx.nontrivial(c["gens"] > 0 and len(set(map(repr, p1))) > 1)


# ------------------------------------------------------ classification methods
def my_softmax(x, y):
    """the class of the larger softmax value"""
    return np.where(x >= y, 0, 1)


@st.composite
def clf_st(draw):
    return {"n": draw(size_st(2, 6, 20)), "kind": "clf",
            "vals": draw(st.lists(st.one_of(f_st(-6, 6), st.sampled_from(
                [0.0, 800.0, -800.0, 40.0, -40.0, 0.5, -0.5])), min_size=1,
                max_size=12)),
            "y": draw(st.lists(st.integers(0, 5), min_size=12, max_size=12)),
            "metric": draw(st.sampled_from(["acc", "wacc"])),
            "bad": draw(st.sampled_from(["sigmoids", "", "hardmax"]))}


def clf_body(case, ctx):
    n = case["n"]
    X = np.array([[v] for v in case["vals"]])
    ident = Tree(fitness=GPFitness(), function_set=[uf.f_add], terminal_set=["x0"],
                 tree=[TerminalNode("x0")])
    y = np.array(case["y"][:len(X)]) % n
    ev = ClassificationEvaluator(X, y, metric=METRICS[case["metric"]], n_classes=n)
    got = np.asarray(ev.classify_individual(ident))
    ref = classes_of({"kind": "clf", "ncl": n}, case["vals"])
    require(got.shape == (len(X),), "shape %s", got.shape)
    for v, a, b in zip(case["vals"], got, ref):
        require(b is None or int(a) == b, "output %r is put in class %s of %d, "
                "expected %s", v, a, n, b)
    # monotone in the output and inside 0..n-1
    order = np.argsort(X[:, 0], kind="stable")
    require(np.all(np.diff(got[order]) >= 0), "classes are not monotone")
    require(got.min() >= 0 and got.max() < n, "class outside 0..%d", n - 1)
    require(ev.evaluate_individual(ident) == METRICS[case["metric"]](
        y_true=y, y_pred=got), "fitness is not the metric")
    try:
        ClassificationEvaluator(clf_method=case["bad"])
    except ValueError:
        pass
    else:
        require(False, "unknown classification method %r accepted", case["bad"])
    # argmax needs an argmax root
    am = ClassificationEvaluator(X, y, clf_method="argmax")
    add = Tree(fitness=GPFitness(), function_set=[tf.add2floats, tf.argmax2floats],
               terminal_set={"x0": float}, root_type=float,
               tree=[FunctionNode(tf.add2floats), TerminalNode("x0", float),
                     TerminalNode("x0", float)])
    try:
        am.classify_individual(add)
    except ValueError:
        pass
    else:
        require(False, "argmax classification of a tree without argmax root")
    neg = Tree(fitness=GPFitness(), function_set=[tf.argmax2floats, tf.neg_float],
               terminal_set={"x0": float}, root_type=t_argmax,
               tree=[FunctionNode(tf.argmax2floats), TerminalNode("x0", float),
                     FunctionNode(tf.neg_float), TerminalNode("x0", float)])
    got = np.asarray(am.classify_individual(neg))
    for v, a in zip(case["vals"], got):
        require(int(a) == (0 if v >= -v else 1), "argmax(%r, %r) is %s", v, -v, a)
    # softmax with a root function of the user's own
    sm = ClassificationEvaluator(X, y, metric=METRICS[case["metric"]],
                                 clf_method="softmax")
    own = Tree(fitness=GPFitness(), function_set=[my_softmax, uf.f_neg],
               terminal_set=["x0"],
               tree=[FunctionNode(my_softmax), TerminalNode("x0"),
                     FunctionNode(uf.f_neg), TerminalNode("x0")])
    got = np.asarray(sm.classify_individual(own))
    want = np.array([0 if v >= -v else 1 for v in case["vals"]])
    require(np.array_equal(got, want), "softmax of %s is %s", case["vals"], got)
    require(sm.evaluate_individual(own) == METRICS[case["metric"]](
        y_true=y, y_pred=want), "softmax: fitness is not the metric")
    for other, tree in ((sm, neg), (am, own)):
        try:
            other.classify_individual(tree)
        except ValueError:
            pass
        else:
            require(False, "%s classification of a tree without %s root",
                    other.clf_method, other.clf_method)
    ctx.label("n=%d" % n)
    ctx.nontrivial(len(set(case["vals"])) > 1)


# ----------------------------------------------------------------- grid search
@st.composite
def grid_st(draw):
    c = draw(est_st())
    c["A"] = draw(data_st(0 if c["kind"] == "reg" else 2, lo=8, hi=12, d=c["d"]))
    c["ncl"] = 2
    if c["kind"] != "reg":   # both classes present in every fold
        c["A"]["y"] = [i % 2 for i in range(len(c["A"]["y"]))]
    c["grid"] = draw(st.lists(st.integers(0, 3), min_size=2, max_size=3,
                              unique=True))
    return c


def grid_body(case, ctx):
    c = case
    cls = c["kind"] != "reg"
    X, y = arrays(c["A"], cls)
    est = make_est(c)
    require(is_classifier(est) == cls and is_regressor(est) == (not cls),
            "the estimator type is not recognised")
    gs = GridSearchCV(est, {"max_generation": c["grid"]}, cv=2,
                      error_score="raise")
    gs.fit(X, y)
    require(unfitted(est, X), "the grid search fitted the given estimator")
    k = gs.best_params_["max_generation"]
    require(gs.best_estimator_.algorithm.max_generation == k,
            "the best parameter was not set")
    require(gs.best_estimator_.algorithm.final_generation_ == ran(c, k),
            "the refitted estimator ran %s generations, best is %s",
            gs.best_estimator_.algorithm.final_generation_, k)
    check_fit(c, gs.best_estimator_, X, y, "grid search refit")
    check_pred(c, gs.best_estimator_, X, gs.predict(X), "grid search predict")
    direct = make_est(dict(c, gens=k)).fit(X, y)
    require(genome(direct.algorithm.best_of_run_) ==
            genome(gs.best_estimator_.algorithm.best_of_run_),
            "fitting directly with the best parameter gives another model")
    ctx.label("kind:" + c["kind"])
    ctx.nontrivial()


def tools_body(case, ctx):
    """the estimators inside scikit-learn's own machinery"""
    c = case
    cls = c["kind"] != "reg"
    X, y = arrays(c["A"], cls)
    XQ, _ = arrays(c["q"], cls)
    est = make_est(c)
    # a pipeline is the transformation followed by the estimator
    pipe = Pipeline([("scale", StandardScaler()), ("est", clone(est))])
    require(pipe.fit(X, y) is pipe, "fitting a pipeline")
    tr = StandardScaler().fit(X)
    direct = make_est(c).fit(tr.transform(X), y)
    got, want = pipe.predict(XQ), direct.predict(tr.transform(XQ))
    require(np.array_equal(got, want, equal_nan=not cls), "a pipeline predicts "
            "%s, transforming and predicting gives %s", got, want)
    check_fit(c, pipe.named_steps["est"], tr.transform(X), y, "pipeline")
    # cross validation: every part is predicted by an estimator that was
    # fitted on the others
    cv = KFold(c["folds"])
    got = cross_val_predict(est, X, y, cv=cv)
    want = np.empty_like(got)
    scores = []
    for train, test in cv.split(X):
        e = make_est(c).fit(X[train], y[train])
        want[test] = e.predict(X[test])
        scores.append(accuracy_score(y[test], want[test]) if cls else
                      -mean_absolute_error(y[test], want[test]))
    require(np.array_equal(got, want, equal_nan=not cls), "cross validation "
            "predicts %s, fitting on each part gives %s", got, want)
    require(unfitted(est, X), "cross validation fitted the given estimator")
    if np.all(np.isfinite(np.asarray(want, dtype=float))):
        got = cross_val_score(est, X, y, cv=cv, error_score="raise", scoring=None
                              if cls else "neg_mean_absolute_error")
        require(np.allclose(got, scores, rtol=1e-9, atol=1e-12), "scores of the "
                "parts are %s, expected %s", got, scores)
    # tabular data
    frame = pd.DataFrame(X, columns=["c%d" % i for i in range(X.shape[1])])
    table = make_est(c).fit(frame, pd.Series(y))
    got = table.predict(pd.DataFrame(XQ, columns=frame.columns))
    want = make_est(c).fit(X, y).predict(XQ)
    require(np.array_equal(got, want, equal_nan=not cls), "with data frames %s "
            "is predicted, with arrays %s", got, want)
    ctx.label("kind:" + c["kind"])
    ctx.nontrivial(c["gens"] > 0)


@st.composite
def tools_st(draw):
    c = draw(est_st())
    c["gens"] = min(c["gens"], 3)
    c["folds"] = draw(st.integers(2, 3))
    return c


def quiet(f):
    def g(case, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(case, ctx)
    return g


SUBS = [
    Sub("estimator", est_st, quiet(est_body), 1600, 24000,
        "evolved at least one generation and predictions are not constant"),
    Sub("classify", clf_st, quiet(clf_body), 1200, 30000,
        "at least two different outputs"),
    Sub("gridsearch", grid_st, quiet(grid_body), 160, 2400, "always", chunk=20),
    Sub("tools", tools_st, quiet(tools_body), 240, 4000,
        "evolved at least one generation", chunk=20),
]
ASSUMPTIONS = ["thread executor; numeric finite training data",
               "sigmoid outputs within 1e-12 of a class threshold are not judged"]
