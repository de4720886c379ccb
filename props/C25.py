"""C25  Reported statistics are the statistics of the generation.

The written text is captured and parsed, every number in it is compared with
the value recomputed from the raw scores of the individuals."""
import contextlib
import io
import logging
import math
import random
import re
import sys

from hypothesis import strategies as st

from eckity.genetic_encodings.ga import IntVector
from eckity.multi_objective_evolution import (
    MOEBestWorstStatistics,
    NSGA2FrontSorting,
)
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.statistics import (
    BestAverageWorstSizeTreeStatistics,
    BestAverageWorstStatistics,
    MinimalPrintStatistics,
    Statistics,
)

from lib.dom import SEEDS, ending, seed_all, aug, make_alg, run_st, score_of, size_st
from lib.harness import Sub, require
from lib.moo import MooEv, moo_alg, moo_run_st, moo_score, ranks, hib_list
from props.C18 import build, dec, group_st, mk_sub

STATS = {"baw": BestAverageWorstStatistics,
         "size": BestAverageWorstSizeTreeStatistics,
         "min": MinimalPrintStatistics}


@contextlib.contextmanager
def captured():
    """everything that is logged or printed"""
    root = logging.getLogger()
    out = io.StringIO()

    class H(logging.Handler):
        def emit(self, record):
            out.write(record.getMessage() + "\n")

    h = H()
    old, lvl, dis = root.handlers[:], root.level, logging.root.manager.disable
    root.handlers[:] = [h]
    root.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        logging.disable(dis)
        root.handlers[:] = old
        root.setLevel(lvl)


def lines(text):
    return [x.strip() for x in text.split("\n") if x.strip()]


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def check_report(text, kind, fmt, gen, subs):
    """subs: list of (hib, [(aug, pure, size)])"""
    ls = lines(text)
    require(ls and ls[0] == "generation #%d" % gen, "first line %r, generation "
            "is %d", ls[:1], gen)
    ls = ls[1:]
    if kind == "min":
        require(not ls, "unexpected lines %s", ls)
        return
    n = 4 if kind == "size" else 3
    per = 1 if fmt else n
    require(len(ls) == len(subs) * (1 + per), "report has %d lines for %d "
            "subpopulations: %s", len(ls), len(subs), ls)
    for k, (hib, rows) in enumerate(subs):
        part = ls[k * (1 + per):(k + 1) * (1 + per)]
        require(part[0] == "subpopulation #%d" % k, "heading %r", part[0])
        if fmt:
            vals = part[1].split("|")
            require(len(vals) == n, "custom format gave %r", part[1])
        else:
            names = ["best fitness", "worst fitness", "average fitness",
                     "average size"][:n]
            vals = []
            for name, ln in zip(names, part[1:]):
                require(ln.startswith(name + " "), "line %r, expected %s", ln,
                        name)
                vals.append(ln[len(name):])
        vals = [float(v) for v in vals]
        hi, lo = max(r[0] for r in rows), min(r[0] for r in rows)
        best, worst = (hi, lo) if hib else (lo, hi)
        for v, a, what in ((vals[0], best, "best"), (vals[1], worst, "worst")):
            ok = {float(r[1]) for r in rows if r[0] == a}
            require(v in ok, "%s fitness %r reported, expected %s", what, v, ok)
        pure = [float(r[1]) for r in rows]
        if all(map(math.isfinite, pure)):
            m = math.fsum(p / len(pure) for p in pure)
            require(abs(vals[2] - m) <= 1e-9 * max(map(abs, pure + [1e-300])),
                    "average fitness %r reported, expected %r", vals[2], m)
        if n == 4:
            m = sum(r[2] for r in rows) / len(rows)
            require(near(vals[3], m), "average size %r reported, expected %r",
                    vals[3], m)


FMT = {"baw": "{}|{}|{}", "min": "{}", "size": "{}|{}|{}|{}"}


def direct_body(case, ctx):
    subs, rows = [], []
    for g in case["groups"]:
        inds, a = build(g)
        subs.append(mk_sub(g, inds))
        rows.append((g["hib"], [(x, dec(v), s) for x, v, s in zip(
            a, g["vals"], g["sizes"])]))
    pop = Population(subs)
    before = [list(s.individuals) for s in subs]
    kind = case["stat"]
    stat = STATS[kind](FMT[kind]) if case["fmt"] else STATS[kind]()
    with captured() as out:
        # (the event data of a run names its champions as well)
        every = [i for b in before for i in b]
        champ = every[case["gen"] % len(every)]
        stat.write_statistics(None, {
            "population": pop, "best_of_run_": champ,
            "best_of_gen": every[-1 - case["gen"] % len(every)],
            "generation_num": case["gen"]})
    check_report(out.getvalue(), kind, case["fmt"], case["gen"], rows)
    require(all(len(a) == len(s.individuals) and all(
        x is y for x, y in zip(a, s.individuals))
        for a, s in zip(before, subs)), "statistics changed the population")
    ctx.label("stat:" + kind, "subpops:%d" % len(subs),
              "custom format" if case["fmt"] else "default format")
    ctx.nontrivial(kind != "min" and any(
        len({r[0] for r in rr}) > 1 for _, rr in rows))


class Wrap(Statistics):
    """captures what another statistics object writes"""

    def __init__(self, inner, log):
        super().__init__(None)
        self.inner, self.log = inner, log

    def write_statistics(self, sender, data_dict):
        with captured() as out:
            self.inner.write_statistics(sender, data_dict)
        sp = sender.population.sub_populations[0]
        self.log.append((out.getvalue(), list(sp.individuals),
                         sender.generation_num))


def reported(r):
    """number of the first generation that is reported, and how many are"""
    if r.get("stop") is None:
        return 1, r["gens"]
    return min(r["stop"], 1), max(r["stop"], 1)


def run_body(case, ctx):
    r = case["run"]
    kind = case["stat"]
    log = []
    more = [(k, []) for k in case["more"]]
    alg = make_alg(r, statistics=[Wrap(STATS[kind](), log)] + [
        Wrap(STATS[k](), lg) for k, lg in more])
    rows = []

    def on_gen(sender, data):
        inds = alg.population.sub_populations[0].individuals
        rows.append([(aug(r, score_of(r["eval"], i), i), score_of(r["eval"], i),
                      i.size()) for i in inds])

    alg.register("after_generation", on_gen)
    for n in range(1 + case["again"]):
        alg.evolve()
        first, n = reported(r)
        require(len(log) == len(rows) == n,
                "%d reports of %d generations", len(log), n)
        for g, ((text, inds, num), rr) in enumerate(zip(log, rows), first):
            check_report(text, kind, False, g, [(r["hib"], rr)])
        for k, lg in more:
            require([x[2] for x in lg] == [x[2] for x in log],
                    "of %s statistics, one of kind %s reported for the "
                    "generations %s, the first one for %s", 1 + len(more), k,
                    [x[2] for x in lg], [x[2] for x in log])
            if k == kind:
                require([x[0] for x in lg] == [x[0] for x in log],
                        "two statistics of one kind differ")
            del lg[:]
        del log[:], rows[:]
    if case["again"]:
        ctx.label("evolved twice")
    ctx.label("stat:" + kind, "enc:" + r["enc"])
    ctx.nontrivial(r["gens"] > 0 and kind != "min")


# ------------------------------------------------------------ multi-objective
def check_fronts(p, rows, hib, fmt, index):
    """p: the lines about one subpopulation; rows: (objectives, rank, crowding)"""
    rk = ranks([list(o) for o, _, _ in rows], hib)
    nf = max(rk.values())
    require(p[0] == "subpopulation #%d has %d fronts" % (index, nf),
            "%r reported, there are %d fronts", p[0], nf)
    first = sum(v == 1 for v in rk.values())
    pct = 100.0 * first / len(rows)
    if fmt:
        a, b, c, d = p[1].split(";")
    else:
        m = re.fullmatch(r"first front has (\S+) individuals \((\S+)%\)",
                         p[1])
        require(m, "line %r", p[1])
        a, b = m.groups()
        require(p[2].startswith("first front's corners: ")
                and p[3].startswith("last front's corners: "),
                "corner lines %s", p[2:])
        c, d = p[2].split(": ")[1], p[3].split(": ")[1]
    require(int(a) == first, "first front has %s individuals, expected %d",
            a, first)
    require(abs(float(b) - pct) <= (1e-9 if fmt else 0.0501),
            "%s%% in the first front, expected %r", b, pct)
    for txt, rank, what in ((c, 1, "first"), (d, nf, "last")):
        want = sorted({o for i, (o, _, cr) in enumerate(rows)
                       if rk[i] == rank and cr == math.inf})
        got = re.findall(r"\[([^\[\]]+)\]", txt)
        got = sorted(tuple(float(x) for x in t.split(",")) for t in got)
        require(got == want, "%s front's corners %s, expected %s", what,
                got, want)
        # the extreme members of a front are corners
        front = [o for i, (o, _, _) in enumerate(rows) if rk[i] == rank]
        require(set(want) <= set(front), "corner outside its front")
    return nf, first


@st.composite
def fronts_st(draw):
    m = draw(st.integers(2, 4))
    return {"m": m, "hib": draw(st.lists(st.booleans(), min_size=m, max_size=m)),
            "subs": draw(st.lists(size_st(1, 8, 60), min_size=1, max_size=4)),
            "range": draw(st.sampled_from([1, 3, 40])), "seed": draw(SEEDS),
            "gen": draw(st.integers(0, 300)), "fmt": draw(st.booleans()),
            "champ": draw(st.integers(0, 100))}


def fronts_body(case, ctx):
    """several ranked subpopulations, reported one by one"""
    rng = random.Random(case["seed"])
    subs, rows = [], []
    for n in case["subs"]:
        inds = []
        for _ in range(n):
            ind = IntVector(NSGA2Fitness(higher_is_better=list(case["hib"])),
                            2, (0, 9))
            ind.fitness.set_fitness([rng.randint(0, case["range"]) / 4
                                     for _ in range(case["m"])])
            inds.append(ind)
        sp = mk_sub({"hib": True}, inds)
        NSGA2FrontSorting().select_for_population(Population([sp]), n)
        subs.append(sp)
        rows.append([(tuple(i.get_pure_fitness()), i.fitness.front_rank,
                      i.fitness.crowding) for i in sp.individuals])
    keep = [list(s.individuals) for s in subs]
    stream = io.StringIO()
    stat = MOEBestWorstStatistics(output_stream=stream) if not case["fmt"] else (
        MOEBestWorstStatistics("{};{};{};{}", output_stream=stream))
    stat.write_statistics(None, {
        "population": Population(subs), "generation_num": case["gen"],
        "best_of_run_": keep[0][case["champ"] % len(keep[0])],
        "best_of_gen": keep[-1][case["champ"] % len(keep[-1])]})
    ls = lines(stream.getvalue())
    per = 4 if not case["fmt"] else 2
    require(ls[0] == "generation #%d" % case["gen"], "heading %r", ls[0])
    require(len(ls) == 1 + per * len(subs), "%d lines for %d subpopulations",
            len(ls), len(subs))
    nf = 0
    for i, rr in enumerate(rows):
        nf += check_fronts(ls[1 + i * per:1 + (i + 1) * per], rr, case["hib"],
                           case["fmt"], i)[0] > 1
    for sp, k, rr in zip(subs, keep, rows):
        require(len(k) == len(sp.individuals) and all(
            x is y for x, y in zip(k, sp.individuals)) and rr == [
                (tuple(i.get_pure_fitness()), i.fitness.front_rank,
                 i.fitness.crowding) for i in sp.individuals],
            "statistics changed the population")
    ctx.label("subpops:%d" % len(subs), "m:%d" % case["m"])
    ctx.nontrivial(nf > 0)


def moo_body(case, ctx):
    r = case["moo"]
    stream = io.StringIO()
    reports = []
    stat = MOEBestWorstStatistics(output_stream=stream) if not case["fmt"] else (
        MOEBestWorstStatistics("{};{};{};{}", output_stream=stream))
    alg = moo_alg(r, MooEv(r["eval"], r["m"]), statistics=[stat])
    state = []

    def on_gen(sender, data):
        inds = alg.population.sub_populations[0].individuals
        state.append([(tuple(moo_score(r["eval"], r["m"], i)),
                       i.fitness.front_rank, i.fitness.crowding) for i in inds])

    alg.register("after_generation", on_gen)
    alg.evolve()
    ls = lines(stream.getvalue())
    per = 5 if not case["fmt"] else 3
    first, n = reported(r)
    require(len(ls) == per * n, "%d lines for %d generations: %s",
            len(ls), n, ls)
    multi = False
    for g, rows in enumerate(state, first):
        p = ls[(g - first) * per:][:per]
        require(p[0] == "generation #%d" % g, "heading %r of generation %d",
                p[0], g)
        nf, _ = check_fronts(p[1:], rows, hib_list(r), case["fmt"], 0)
        multi |= nf > 1
    ctx.label("m:%d" % r["m"])
    ctx.nontrivial(multi)


# ------------------------------------------------------------------------ plots
@st.composite
def plot_st(draw):
    m = draw(st.sampled_from([2, 2, 2, 3]))
    n = st.integers(1, 8)
    return {"m": m, "gens": draw(st.lists(st.lists(n, min_size=1, max_size=2),
                                          min_size=1, max_size=3)),
            "seed": draw(SEEDS), "save": draw(st.booleans()),
            "labels": draw(st.sampled_from([None, ["cost", "weight"],
                                            ["b", "a"]])),
            "hib": draw(st.booleans())}


def plot_body(case, ctx):
    import os
    import tempfile
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from eckity.multi_objective_evolution import nsga2_plot
    from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
    from eckity.genetic_encodings.ga import IntVector
    seed_all(case["seed"])
    shown = []

    def show(*a, **k):
        """a window that the user looks at and closes"""
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                pts = [tuple(map(float, q)) for c in ax.collections
                       for q in c.get_offsets()]
                pts += [tuple(map(float, q)) for ln in ax.lines
                        for q in ln.get_xydata()]
                shown.append((ax.get_xlabel(), ax.get_ylabel(), pts))
        plt.close("all")

    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "front.png") if case["save"] else None
        kw = {} if f is None else {"savefile": f}
        labels = case["labels"] or ["Objective function 1",
                                    "Objective function 2"]
        if case["labels"]:
            kw.update(objective1=labels[0], objective2=labels[1])
        plot = nsga2_plot.NSGA2Plot(**kw)
        old, plt.show = plt.show, show
        dpi = plt.rcParams["savefig.dpi"]
        plt.rcParams["savefig.dpi"] = 10
        try:
            for sizes in case["gens"]:
                subs, want = [], []
                for n in sizes:
                    inds, objs = [], []
                    for _ in range(n):
                        ind = IntVector(NSGA2Fitness(
                            higher_is_better=case["hib"]), 2, (0, 9))
                        o = [random.randint(-40, 40) / 4
                             for _ in range(case["m"])]
                        ind.fitness.set_fitness(list(o))
                        inds.append(ind)
                        objs.append(tuple(o))
                    want.append(objs)
                    subs.append(mk_sub({"hib": True}, inds))
                pop = Population(subs)
                del shown[:]
                plot.print_plots(None, {"population": pop,
                                        "generation_num": 1})
                if case["m"] != 2:
                    require(not shown, "a plot of %d objectives", case["m"])
                    continue
                require(len(shown) == len(sizes), "%d plots of %d "
                        "subpopulations", len(shown), len(sizes))
                for (x, y, pts), objs in zip(shown, want):
                    require([x, y] == labels, "axes %s, expected %s", [x, y],
                            labels)
                    require(sorted(pts) == sorted(objs), "plotted %s, objective "
                            "vectors are %s", pts, objs)
                for sp, objs in zip(subs, want):
                    require([tuple(i.get_pure_fitness()) for i in
                             sp.individuals] == objs, "plotting changed the "
                            "population")
                if f is not None:
                    require(os.path.exists(f) and os.path.getsize(f) > 0,
                            "no file was written")
                    os.remove(f)
                require(not os.listdir(tmp), "other files were written")
        finally:
            plt.show = old
            plt.rcParams["savefig.dpi"] = dpi
            plt.close("all")
    ctx.label("m:%d" % case["m"], "saved" if case["save"] else "shown")
    ctx.nontrivial(case["m"] == 2)


SUBS = [
    Sub("plots", plot_st, plot_body, 200, 2000, "two objectives"),
    Sub("direct", lambda: st.fixed_dictionaries({
        "groups": st.lists(group_st(lo=1, hi=7), min_size=1, max_size=3),
        "stat": st.sampled_from(["baw", "baw", "size", "size", "min"]),
        "fmt": st.booleans(), "gen": st.integers(0, 10**6)}), direct_body,
        3000, 60000, "at least two different scores"),
    Sub("runs", lambda: st.fixed_dictionaries({
        "run": ending(run_st(max_gens=4, max_pop=8)), "again": st.booleans(),
        "stat": st.sampled_from(["baw", "size", "min"]),
        "more": st.lists(st.sampled_from(["baw", "size", "min"]),
                         max_size=2)}), run_body,
        1500, 20000, "at least one generation reported"),
    Sub("fronts", lambda: st.fixed_dictionaries({
        "moo": ending(moo_run_st(max_gens=4), 1), "fmt": st.booleans()}), moo_body,
        1000, 12000, "a generation with more than one front"),
    Sub("ranked", fronts_st, fronts_body, 1500, 30000,
        "a subpopulation with more than one front"),
]
ASSUMPTIONS = ["reports go to the standard logging / stdout or the given stream"]
