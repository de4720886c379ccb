"""Best-of-run is the true champion of the whole run."""
from hypothesis import strategies as st

from lib.dom import *  # noqa: F403
from lib.harness import Sub, require


def body(r, ctx):
    ev = Ev(r["eval"])
    alg = make_alg(r, ev)
    h = Hist(alg)
    for k in range(2 if r.get("again") else 1):
        # the champion of an earlier run does not count
        del h.gens[:]
        alg.evolve()
        judge(r, alg, h, ctx)
    ctx.label("all generations" if r.get("stop") is None else "ended early")
    ctx.label("evolved again" if r.get("again") else "evolved once")


def judge(r, alg, h, ctx):
    best = None  # best augmented fitness so far
    changes = 0
    seen = {}
    for g, s in enumerate(h.gens):
        vals = [aug(r, score_of(r["eval"], i), i) for i in s["inds"]]
        for i, v in zip(s["inds"], vals):
            seen.setdefault(s["ids"][s["inds"].index(i)], genome(i))
        m = best_of(r, vals)
        if best is None or better(r, m, best):
            changes += best is not None
            best = m
        b = s["best"]
        # value as of the time of the event, recomputed from the genome
        require(s["best_fit"] == score_of(r["eval"], b),
                "gen %d: best of run records fitness %r, its genome scores %r",
                g, s["best_fit"], score_of(r["eval"], b))
        got = aug(r, s["best_fit"], b)
        require(got == best,
                "gen %d: best of run has augmented fitness %r, best so far is %r",
                g, got, best)
        require(b.get_augmented_fitness() == got,
                "gen %d: augmented fitness %r, expected %r", g,
                b.get_augmented_fitness(), got)
        if s.get("best_of_gen") is not None:
            bg = s["best_of_gen"]
            require(any(bg is i for i in s["inds"]),
                    "gen %d: best of generation is not in the population", g)
            require(aug(r, score_of(r["eval"], bg), bg) == m,
                    "gen %d: best of generation is not the best", g)
    # afterwards
    b = alg.best_of_run_
    require(aug(r, score_of(r["eval"], b), b) == best, "final best of run")
    require(b.get_pure_fitness() == score_of(r["eval"], b),
            "final best of run: stored fitness %r, genome scores %r",
            b.get_pure_fitness(), score_of(r["eval"], b))
    if r["gens"] and h.gens[-1]["num"] > 0:
        w = alg.worst_of_gen
        vals = [aug(r, score_of(r["eval"], i), i) for i in h.gens[-1]["inds"]]
        require(aug(r, score_of(r["eval"], w), w)
                == (min(vals) if r["hib"] else max(vals)),
                "worst of generation is not the worst")
    # execute uses the best individual
    if r["enc"] in ("bit", "int", "float"):
        require(list(alg.execute()) == list(b.vector), "execute() result")
    else:
        env = {}
        for t in b.terminal_set:
            if isinstance(t, str):
                env[t] = {"x": 0.75, "y": -1.25, "p": True, "i": 3,
                          "j": -2}.get(t, 0.5)
        got = alg.execute(**env)
        want = ref_eval(parse_all(b.tree), env)
        require(np.array_equal(got, want, equal_nan=True),
                "execute(%s) = %r, best of run gives %r", env, got, want)
    run_labels(ctx, r)
    ctx.label("improved" if changes else "no-improvement")
    ctx.nontrivial(changes > 0)
    ctx.evals(len(h.gens))


SUBS = [
    Sub("run", lambda: st.builds(lambda r, a: dict(r, again=a == 0), ending(
        run_st(max_gens=8, max_pop=14)), st.integers(0, 3)), body, 5000, 60000,
        "the best of run changed after the initial population"),
]
ASSUMPTIONS = ["deterministic evaluators without NaN scores",
               "population size divisible by operator arities"]
