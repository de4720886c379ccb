"""Child process that loads what another process saved: reads pickled jobs from
stdin, continues them and writes what happened to stdout (see `elsewhere`)."""
import json
import os
import pickle
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
from lib import bootstrap  # noqa: E402
from lib import dom, moo  # noqa: E402
from lib.harness import Violation, require  # noqa: E402


def texts(inds):
    return [str(i) if hasattr(i, "tree") else str(list(i.vector)) for i in inds]


def new_ids(loaded):
    """ids that are handed out after loading individuals"""
    from eckity.fitness import SimpleFitness
    from eckity.genetic_encodings.ga import IntVector
    fresh = IntVector(SimpleFitness(), 1).id
    return [fresh, sorted(i.id for i in loaded)]


def id_clashes(h):
    """ids that several individuals of the run have"""
    owner, bad = {}, []
    for g in h.gens:
        for i in g["inds"]:
            if owner.setdefault(i.id, i) is not i:
                bad.append(i.id)
    return sorted(set(bad))


def evolve(alg, is_moo):
    h = moo.MooHist(alg) if is_moo else dom.Hist(alg)
    alg.evolve()
    t = moo.moo_traj_of(h, alg) if is_moo else dom.trajectory(h, alg)
    return {"traj": t, "clashes": id_clashes(h)}


def job(kind, arg, blob):
    got = pickle.loads(blob)
    if kind == "resume":
        r, kw = arg
        out = {"texts": texts(got), "ids": new_ids(got)}
        out.update(evolve(dom.make_alg(r, individuals=got, **kw), False))
        return out
    inds = [i for sp in got.population.sub_populations
            for i in sp.individuals or []]
    return {"texts": texts(inds), "ids": new_ids(inds),
            "settings": [got.random_seed, got.generation_seed,
                         got.generation_num, got.max_generation,
                         got.final_generation_, got.max_workers],
            **evolve(got, arg)}


def elsewhere(jobs, hash_seed, ambient):
    """what each job gives in a fresh interpreter"""
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__),
                        str(ambient)], input=pickle.dumps(jobs),
                       capture_output=True, env=env)
    if p.returncode:
        raise Violation("a saved experiment cannot be continued in a fresh "
                        "interpreter: " + p.stderr.decode()[-800:])
    text = p.stdout.decode()
    return json.loads(text[text.index('\x02') + 1:])


def check_elsewhere(here, there, what):
    """here/there: results of one job in this and in a fresh interpreter"""
    here = json.loads(json.dumps(here))
    require(here["texts"] == there["texts"], "%s: the individuals loaded are %s, "
            "saved were %s", what, there["texts"], here["texts"])
    require(here["ids"][1] == there["ids"][1], "%s: ids loaded %s, saved %s",
            what, there["ids"][1], here["ids"][1])
    require(here.get("settings") == there.get("settings"), "%s: settings "
            "loaded %s, saved %s", what, there.get("settings"),
            here.get("settings"))
    dom.same_traj(here["traj"], there["traj"], what)
    for where, x in (("this", here), ("a fresh", there)):
        fresh, loaded = x["ids"]
        require(fresh not in loaded, "%s: in %s interpreter a new individual "
                "gets the id %s of a loaded one", what, where, fresh)
        require(not x["clashes"], "%s: in %s interpreter several individuals "
                "of the run have the ids %s", what, where, x["clashes"])


if __name__ == "__main__":
    import logging
    logging.disable(logging.CRITICAL)
    ambient = int(sys.argv[1])
    dom.seed_all(ambient)
    for _ in range(ambient % 50):
        new_ids([])
    res = [job(*j) for j in pickle.load(sys.stdin.buffer)]
    real = os.fdopen(1, "w")
    real.write("\x02" + json.dumps(res))
    real.flush()
