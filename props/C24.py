"""C24  Every subscriber hears every event of its publisher, once, in order.

Stateful search: random histories of register / unregister / publish / act /
clone-with-existing-events against an explicit subscription table, for every
kind of publisher (operators, selections, creators, breeder, evaluators,
algorithm)."""
from hypothesis import strategies as st

from eckity.before_after_publisher import BeforeAfterPublisher
from eckity.breeders import SimpleBreeder
from eckity.evaluators import SimplePopulationEvaluator
from eckity.genetic_operators import GeneticOperator
from eckity.genetic_operators.selections.elitism_selection import \
    ElitismSelection
from eckity.statistics import BestAverageWorstStatistics

from lib.dom import (SEEDS, Ev, genome, make_alg, make_creator, make_op,
                     make_sel, make_subpop, run_st, seed_all)
from lib.harness import Sub, Violation, require
from lib.moo import MooEv, moo_alg, moo_run_st
from props.C16 import arity_of, op_st

KINDS = ["plain", "operator", "operator+", "selection", "selection+", "creator",
         "creator+", "breeder", "evaluator", "popeval", "alg", "alg+", "dict"]
BA = ["before_operator", "after_operator"]


def customs():
    """every shipped component that takes custom events, built with some"""
    import eckity.creators as cr
    import eckity.genetic_operators as go
    from eckity.base.untyped_functions import f_add
    ev = ["a", "b"]
    tree = dict(init_depth=(1, 2), function_set=[f_add], terminal_set=["x"])
    out = {}
    for n in ("VectorNPointMutation", "FloatVectorUniformOnePointMutation",
              "FloatVectorUniformNPointMutation",
              "FloatVectorGaussOnePointMutation",
              "FloatVectorGaussNPointMutation", "IntVectorOnePointMutation",
              "IntVectorNPointMutation", "BitStringVectorFlipMutation",
              "BitStringVectorNFlipMutation", "VectorKPointsCrossover",
              "SubtreeCrossover", "SubtreeMutation", "ERCMutation",
              "IdentityTransformation", "FitnessProportionateSelection"):
        out[n] = lambda n=n: getattr(go, n)(events=list(ev))
    out["TournamentSelection"] = lambda: go.TournamentSelection(
        tournament_size=2, events=list(ev))
    out["ElitismSelection"] = lambda: go.ElitismSelection(1, events=list(ev))
    for n in ("GAIntVectorCreator", "GAFloatVectorCreator",
              "GABitStringVectorCreator"):
        out[n] = lambda n=n: getattr(cr, n)(length=2, events=list(ev))
    for n in ("GrowCreator", "FullCreator", "HalfCreator"):
        out[n] = lambda n=n: getattr(cr, n)(events=list(ev), **tree)
    return out


CUSTOM = customs()
KINDS += ["custom"] * 6 + ["many"]
ALG = ["init", "after_generation", "evolution_finished"]
R = {"enc": "int", "hib": True, "gens": 2, "seed": 3, "eval": "hash",
     "up": False, "workers": 1, "length": 2, "bounds": {"t": [0, 9]},
     "ops": [{"op": "id"}], "bloat": 0.0, "pop": 2, "elite": 0.0,
     "sel": {"k": "tour", "size": 2}}


def mk(kind, existing=None):
    """publisher and the names of its events"""
    if kind in CUSTOM:
        return CUSTOM[kind](), BA + ["a", "b"]
    if kind == "plain":
        return BeforeAfterPublisher(event_names=["ping"]), BA + ["ping"]
    if kind == "many":
        names = ["e%d" % i for i in range(10)]
        return BeforeAfterPublisher(event_names=list(names)), BA + names
    if kind == "dict":
        # subscribers handed over by another publisher
        return BeforeAfterPublisher(events=existing), list(existing)
    if kind == "operator":
        return make_op({"op": "intn", "n": 1}), BA
    if kind == "operator+":
        from eckity.genetic_operators import IntVectorNPointMutation
        return IntVectorNPointMutation(events=["a", "b"]), BA + ["a", "b"]
    if kind == "selection":
        return make_sel({"k": "tour", "size": 2}, True), BA + ["after_selection"]
    if kind == "selection+":
        from eckity.genetic_operators import FitnessProportionateSelection
        return (FitnessProportionateSelection(higher_is_better=True,
                                              events=["mine"]),
                BA + ["mine"])
    if kind in ("creator", "creator+"):
        from eckity.creators import GAIntVectorCreator
        ev = ["made"] if kind == "creator+" else None
        return GAIntVectorCreator(length=2, events=ev), BA + (ev or [])
    if kind == "breeder":
        return SimpleBreeder(), BA
    if kind == "evaluator":
        return Ev("hash"), BA
    if kind == "popeval":
        return SimplePopulationEvaluator(), BA
    if kind == "alg":
        return make_alg(R), BA + ALG
    if kind == "alg+":
        return make_alg(R, event_names=["custom"]), BA + ALG + ["custom"]


@st.composite
def bus_st(draw):
    i = st.integers(0, 30)
    step = st.one_of(
        st.tuples(st.just("reg"), i), st.tuples(st.just("reg"), i),
        st.tuples(st.just("reg"), i),
        st.tuples(st.just("none"), i),
        st.tuples(st.just("again"), i, i),
        st.tuples(st.just("oneshot"), i),
        st.tuples(st.just("adder"), i, i),
        st.tuples(st.just("unreg"), i),
        st.tuples(st.just("pub"), i), st.tuples(st.just("pub"), i),
        st.tuples(st.just("pub"), i),
        st.tuples(st.just("act")),
    )
    kind = draw(st.sampled_from(KINDS))
    if kind == "custom":
        kind = draw(st.sampled_from(sorted(CUSTOM)))
    return {"kind": kind,
            "pre": draw(st.lists(st.tuples(st.integers(0, 1),
                                           st.one_of(st.integers(0, 5),
                                                     st.sampled_from("xyz"))),
                                 max_size=4)),
            "steps": draw(st.lists(step, min_size=3, max_size=18))}


def bus_body(case, ctx):
    heard = []
    model = {}               # event -> ordered [(id, tag, kind, extra)]
    pub = [None]
    tags = iter(range(10**6))
    pending = []             # registered from within a callback

    def cb(tag, kind, event, extra, cell):
        def f(sender, data):
            heard.append(tag)
            require(sender is pub[0], "the sender is not the publisher")
            if kind == "oneshot":
                pub[0].unregister(event, cell[0])
            if kind == "adder" and not cell[1]:
                cell[1] = True
                t = next(tags)
                c = [None, False]
                c[0] = pub[0].register(extra, cb(t, "reg", extra, None, c))
                pending.append((extra, c[0], t))
        return f

    if case["kind"] == "dict":
        ev = {"e0": {}, "e1": {}}
        for e, key in case["pre"]:
            e = "e%d" % e
            if key in ev["e0"] or key in ev["e1"]:
                continue
            t = next(tags)
            ev[e][key] = cb(t, "reg", e, None, [key, False])
            model.setdefault(e, []).append((key, t, "reg", None))
        pub[0], names = mk("dict", ev)
        names = list(dict.fromkeys(names + BA))
    else:
        pub[0], names = mk(case["kind"])
    p = pub[0]
    # a sibling of the same kind has subscribers of its own
    sib, sib_heard = None, []
    if case["kind"] != "dict":
        sib, sib_names = mk(case["kind"])
        require(all(not sib.events[e] for e in sib_names),
                "a new publisher already has subscribers")
        for e in sib_names:
            sib.register(e, lambda s, d, e=e: sib_heard.append(e))
    for n in names:
        model.setdefault(n, [])
    ids = {k for subs in model.values() for k, *_ in subs}
    used = set(ids)
    delivered = nreg = 0
    fns = {}

    def expect(event, got):
        nonlocal delivered
        want = [t for _, t, k, _ in model[event] if k != "none"]
        # a subscriber added while the event is being delivered may or may not
        # hear this one
        late = [t for e, _, t in pending if e == event]
        g = [t for t in got if t not in late]
        require(g == want, "%s was delivered to %s, subscribers in order are %s",
                event, g, want)
        require(all(got.count(t) <= 1 for t in late), "delivered twice")
        delivered += len(want)
        model[event] = [x for x in model[event] if x[2] != "oneshot"]
        for e, i, t in pending:
            require(i not in used, "subscription id %s was given out twice", i)
            used.add(i)
            model[e].append((i, t, "reg", None))
        del pending[:]

    def resolve_adders(event):
        for j, x in enumerate(model[event]):
            if x[2] == "adder":
                model[event][j] = (x[0], x[1], "reg", None)

    for s in case["steps"]:
        k = s[0]
        if k in ("reg", "none", "oneshot", "adder"):
            e = names[s[1] % len(names)]
            t = next(tags)
            extra = names[s[2] % len(names)] if k == "adder" else None
            cell = [None, False]
            f = None if k == "none" else cb(t, k, e, extra, cell)
            i = p.register(e, f) if f is not None else p.register(e)
            cell[0] = i
            if k == "reg":
                fns[t] = f
            require(i not in used, "subscription id %s was given out twice", i)
            used.add(i)
            model[e].append((i, t, k, extra))
            nreg += 1
        elif k == "again":
            # one function, several subscriptions
            if not fns:
                continue
            t = sorted(fns)[s[2] % len(fns)]
            e = names[s[1] % len(names)]
            i = p.register(e, fns[t])
            require(i not in used, "subscription id %s was given out twice", i)
            used.add(i)
            model[e].append((i, t, "reg", None))
        elif k == "unreg":
            al = [(e, x) for e in names for x in model[e]]
            if not al:
                continue
            e, x = al[s[1] % len(al)]
            p.unregister(e, x[0])
            model[e].remove(x)
        elif k == "pub":
            e = names[s[1] % len(names)]
            del heard[:]
            p.publish(e)
            expect(e, list(heard))
            resolve_adders(e)
        elif k == "act":
            if any(x[2] == "adder" for e in BA for x in model[e]):
                continue
            del heard[:]
            mark = []
            r = p.act_and_publish_before_after(lambda: mark.append(
                list(heard)) or 42)
            require(r == 42 and len(mark) == 1, "the action ran %d times, "
                    "result %r", len(mark), r)
            expect(BA[0], mark[0])
            expect(BA[1], heard[len(mark[0]):])
        ctx.label(k)
    if sib is not None:
        require(not sib_heard, "a publisher's events %s reached the subscribers "
                "of another", sib_heard)
        require(all(len(sib.events[e]) == 1 for e in sib_names),
                "the subscriptions of another publisher changed")
    for f in (lambda: p.register("no such event", print),
              lambda: p.publish("no such event"),
              lambda: p.unregister("no such event", 0)):
        try:
            f()
        except Exception:
            pass
        else:
            raise Violation("an unknown event was accepted")
    for e in names:
        require(list(p.events[e]) == [x[0] for x in model[e]],
                "subscribers of %s: %s, expected %s", e, list(p.events[e]),
                [x[0] for x in model[e]])
    ctx.label("kind:" + case["kind"])
    ctx.evals(len(case["steps"]))
    ctx.nontrivial(delivered >= 2)


# ------------------------------------------------------------ acting operators
@st.composite
def act_st(draw):
    c = draw(op_st())
    c["what"] = draw(st.sampled_from(["operator", "selection", "creator",
                                      "elitism"]))
    c["n"] = draw(st.integers(1, 5))
    c["sel"] = draw(st.sampled_from(["tour", "tourx", "fp"]))
    return c


def act_body(case, ctx):
    seed_all(case["seed"])
    log = []
    if case["what"] == "operator":
        op = make_op(case["op"])
        inds = make_creator(case["r"]).create_individuals(
            arity_of(case["op"]), case["hib"])
        payload = inds

        def look():
            return [(genome(i), list(i.applied_operators)) for i in inds]
    elif case["what"] == "creator":
        op = make_creator(case["r"])
        payload = (case["n"], case["hib"])

        def look():
            return None
    else:
        if case["what"] == "elitism":
            op = ElitismSelection(num_elites=1, higher_is_better=case["hib"])
        else:
            op = make_sel({"k": case["sel"], "size": 1}, case["hib"])
        inds = make_creator(case["r"]).create_individuals(
            max(2, case["n"]), case["hib"])
        for i, ind in enumerate(inds):
            ind.fitness.set_fitness(1.0 + i)
        dest = []
        payload = (inds, dest)

        def look():
            return len(dest)
    start = look()
    for e in BA:
        op.register(e, lambda s, d, e=e: log.append((e, s, d, look())))
    res = op.act(payload)
    require([x[0] for x in log] == BA, "events of one act: %s",
            [x[0] for x in log])
    require(all(x[1] is op for x in log), "sender is not the operator")
    require(log[0][3] == start, "the operator worked before before_operator")
    require(log[1][3] == look(), "the operator worked after after_operator")
    if case["what"] == "operator":
        require(res is not None and len(res) == len(inds) and all(
            a is b for a, b in zip(res, inds)), "act returned %s", res)
        if [g for g, _ in look()] != [g for g, _ in start] or (
                case["op"]["op"] not in ("erc", "stx", "stm")):
            got = log[1][2]["applied_individuals"]
            require(got is not None and len(got) == len(inds) and all(
                a is b for a, b in zip(got, inds)),
                "after_operator reports %s, applied to %s", got, inds)
        else:
            ctx.label("found nothing to change")
        require(all(i.applied_operators for i in inds), "act did not apply")
    elif case["what"] == "creator":
        got = log[1][2]["created_individuals"]
        require(len(res) == case["n"] and len(got) == case["n"] and all(
            a is b for a, b in zip(got, res)),
            "after_operator reports %s, created %s", got, res)
    else:
        want = 1 if case["what"] == "elitism" else len(inds)
        require(len(dest) == want, "%d selected, expected %d", len(dest), want)
        told = []
        op.register("after_selection", lambda s, d: told.append(d))
        op.publish("after_selection")
        require(len(told) == 1 and len(told[0]["applied_individuals"]) == want
                and all(a is b for a, b in
                        zip(told[0]["applied_individuals"], dest)),
                "after_selection reports %s", told)
    # acting again reports the individuals of the second act
    if case["what"] in ("operator", "creator"):
        del log[:]
        if case["what"] == "operator":
            inds2 = make_creator(case["r"]).create_individuals(
                arity_of(case["op"]), case["hib"])
            was = [genome(i) for i in inds2]
            op.act(inds2)
            got = log[1][2]["applied_individuals"]
            if was == [genome(i) for i in inds2] and (
                    case["op"]["op"] in ("erc", "stx", "stm")):
                got = inds2      # found nothing to change
        else:
            inds2 = op.act((case["n"] + 1, case["hib"]))
            require(len(inds2) == case["n"] + 1, "%d created, %d asked for",
                    len(inds2), case["n"] + 1)
            got = log[1][2]["created_individuals"]
        require(len(log) == 2 and len(got) == len(inds2) and all(
            a is b for a, b in zip(got, inds2)), "the second act reports %s, "
            "it was applied to %s", got, inds2)
    # wrong number of operands: refused before anything is published
    if case["what"] == "operator":
        del log[:]
        before = look()
        try:
            op.act(inds + [inds[0]])
        except ValueError:
            pass
        else:
            raise Violation("too many operands were accepted")
        require(not log and look() == before, "refused act had effects")
        wrong = [[]]
        if arity_of(case["op"]) != 1:
            wrong += [inds[0], inds[:-1]]
        for w in wrong:
            try:
                op.act(w)
            except ValueError:
                pass
            else:
                raise Violation("operands %r were accepted" % (w,))
            require(not log and look() == before, "refused act had effects")
    ctx.label("what:" + case["what"])
    ctx.nontrivial()


# ----------------------------------------------------------- events during runs
@st.composite
def run_case(draw):
    moo = draw(st.integers(0, 3)) == 0
    return {"moo": draw(moo_run_st(max_gens=4, min_gens=0)) if moo else None,
            "run": None if moo else draw(run_st(max_gens=4, max_pop=8)),
            "pre": draw(st.integers(0, 2)), "stats": draw(st.integers(0, 2)),
            "late": draw(st.integers(0, 3)), "drop": draw(st.integers(0, 4)),
            "act": draw(st.booleans()),
            "own": draw(st.one_of(st.none(), st.lists(st.sampled_from(
                ["mine", "checkpoint", "x"]), min_size=1, max_size=2,
                unique=True))),
            "partial": draw(st.booleans())}


@st.composite
def pair_st(draw):
    algs = []
    for _ in range(draw(st.integers(2, 3))):
        moo = draw(st.booleans())
        algs.append(["moo", draw(moo_run_st(max_gens=2, max_pop=6))] if moo else
                    ["simple", dict(draw(run_st(max_gens=2, max_pop=6)),
                                    defaults=True)])
    return {"algs": algs, "order": draw(st.permutations(range(len(algs))))}


def pair_body(case, ctx):
    """the components that algorithms bring along are their own"""
    log = []
    algs = []
    for i, (k, r) in enumerate(case["algs"]):
        a = make_alg(r) if k == "simple" else moo_alg(r, default_breeder=True)
        algs.append(a)
        for name, comp in (("breeder", a.breeder),
                           ("evaluator", a.population_evaluator)):
            for e in BA:
                comp.register(e, lambda s, d, x=(i, name, e): log.append(x))
    for i in case["order"]:
        del log[:]
        algs[i].evolve()
        g = case["algs"][i][1]["gens"]
        want = [(i, "evaluator", e) for e in BA] + [
            (i, c, e) for _ in range(g) for c in ("breeder", "evaluator")
            for e in BA]
        require(log == want, "while algorithm %d ran, subscribers of components "
                "(algorithm, component, event) heard %s, expected %s", i, log,
                want)
    ctx.label("algorithms:%d" % len(algs),
              "kinds:" + "+".join(sorted({k for k, _ in case["algs"]})))
    ctx.nontrivial(any(r["gens"] for _, r in case["algs"]))


class Stat(BestAverageWorstStatistics):
    def __init__(self, log, i):
        super().__init__()
        self.log, self.i = log, i

    def write_statistics(self, sender, data_dict):
        self.log.append(("stat%d" % self.i, data_dict["generation_num"]))


def run_body(case, ctx):
    moo = case["moo"] is not None
    r = case["moo"] if moo else case["run"]
    log = []
    pre_log = []
    events = None
    if case["pre"]:
        events = {} if case["partial"] else {
            e: {} for e in BA + ALG + ["before_eval"]}
        events["after_generation"] = {
            k: (lambda s, d, k=k: pre_log.append((k, d["generation_num"])))
            for k in range(case["pre"])}
    stats = [Stat(log, i) for i in range(case["stats"])]
    over = dict(events=events, statistics=stats)
    own = case["own"]
    if own is not None:
        over["event_names"] = list(own)
    alg = moo_alg(r, MooEv(r["eval"], r["m"]), **over) if moo else make_alg(
        r, **over)
    gens = r["gens"]
    alg.breeder.register("before_operator", lambda s, d: log.append(
        ("breed<", alg.generation_num)))
    alg.breeder.register("after_operator", lambda s, d: log.append(
        ("breed>", alg.generation_num)))
    alg.population_evaluator.register("before_operator", lambda s, d: log.append(
        ("eval<", alg.generation_num)))
    alg.population_evaluator.register("after_operator", lambda s, d: log.append(
        ("eval>", alg.generation_num)))
    pop0, seen = alg.population, []

    def told(e, s, d):
        """the data that comes with an event is the algorithm's current state"""
        log.append((e, alg.generation_num))
        require(s is alg, "%s: the sender is not the algorithm", e)
        want = {"population": alg.population}
        if e == "init":
            want.update(statistics=alg.statistics, breeder=alg.breeder,
                        termination_checker=alg.termination_checker,
                        max_generation=gens, max_workers=r["workers"],
                        events=alg.events)
            require(list(d["statistics"]) == stats, "init reports statistics %s",
                    d["statistics"])
            require(set(ALG + BA) <= set(d["events"]), "init reports events %s",
                    list(d["events"]))
        else:
            want.update(best_of_run_=alg.best_of_run_,
                        best_of_gen=alg.best_of_gen,
                        generation_num=alg.generation_num)
            require(gens == 0 or d["best_of_run_"] is not None,
                    "%s reports no best of run", e)
        for k, v in want.items():
            require(k in d and (d[k] is v or k not in ("population", "breeder",
                                                       "best_of_run_")
                                and d[k] == v),
                    "%s reports %s=%r, it is %r", e, k, d.get(k), v)
        inds = d["population"].sub_populations[0].individuals
        require(d["population"] is pop0 and len(inds) == r["pop"],
                "%s reports %d individuals", e, len(inds))
        cur = [genome(i) for i in inds]
        if e == "evolution_finished" and seen:
            require(cur == seen[-1], "evolution_finished reports another "
                    "population than the last generation event")
        seen.append(cur)

    for e in ALG:
        alg.register(e, lambda s, d, e=e: told(e, s, d))
    late = []
    dropped = []
    own_log = []

    def on_gen(s, d):
        if d["generation_num"] == case["late"]:
            alg.register("after_generation", lambda s, d: late.append(
                d["generation_num"]))

    def on_drop(s, d):
        dropped.append(d["generation_num"])
        if d["generation_num"] == case["drop"]:
            alg.unregister("after_generation", did)

    alg.register("after_generation", on_gen)
    did = alg.register("after_generation", on_drop)
    if own is not None:
        # events of the user's own, published from within the run
        require(over["event_names"] == own, "the given event names changed")
        for e in own:
            alg.register(e, lambda s, d, e=e: own_log.append(
                (e, alg.generation_num, s is alg)))
        alg.register("after_generation", lambda s, d: [
            alg.publish(e) for e in own])
        try:
            alg.register("nonesuch", own_log.append)
        except KeyError:
            pass
        except ValueError:
            pass
        else:
            require(False, "an unknown event was accepted")
    if case["act"]:
        for e in BA:
            alg.register(e, lambda s, d, e=e: log.append((e, alg.generation_num)))
        alg.act()
    else:
        alg.evolve()
    if own is not None:
        require(own_log == [(e, g, True) for g in range(1, gens + 1)
                            for e in own],
                "subscribers of the user's events %s heard %s", own, own_log)
    want = [("eval<", 0), ("eval>", 0), ("init", 0)]
    extra = ()
    if moo:
        # parents and offspring are evaluated together, in one act
        pass
    for g in range(1, gens + 1):
        want += [("breed<", g), ("breed>", g), ("eval<", g), ("eval>", g),
                 ("after_generation", g)]
        want += [("stat%d" % i, g) for i in range(case["stats"])]
    want += [("evolution_finished", gens)] + list(extra)
    if case["act"]:
        want = [(BA[0], 0)] + want + [(BA[1], gens)]
    require(log == want, "events of the run: %s, expected %s", log, want)
    require(pre_log == [(k, g) for g in range(1, gens + 1)
                        for k in range(case["pre"])],
            "subscribers given at construction heard %s", pre_log)
    d = case["drop"]
    require(dropped == list(range(1, gens + 1 if d < 1 or d > gens else d + 1)),
            "a subscriber that left in generation %d heard %s", d, dropped)
    lt = case["late"]
    exp = list(range(lt + 1, gens + 1)) if 1 <= lt <= gens else []
    require([g for g in late if g != lt] == exp,
            "a subscriber that joined in generation %d heard %s", lt, late)
    ctx.label("moo" if moo else "simple", "pre" if case["pre"] else "no pre",
              "stats:%d" % case["stats"], "act" if case["act"] else "evolve",
              "own events" if own else "standard events")
    ctx.nontrivial(gens > 0)


SUBS = [
    Sub("subscriptions", bus_st, bus_body, 4000, 100000,
        "at least two notifications were delivered"),
    Sub("act", act_st, act_body, 2000, 30000, "every act"),
    Sub("pair", pair_st, pair_body, 500, 8000,
        "an algorithm with at least one generation"),
    Sub("runs", run_case, run_body, 1500, 20000, "at least one generation ran"),
]
ASSUMPTIONS = ["subscribers do not raise",
               "whether a subscriber added while an event is being delivered "
               "hears that very event is left open"]
