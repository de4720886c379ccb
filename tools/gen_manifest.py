"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "whole runs; oracle recomputes every score from the genome",
 "C02": "whole runs; invariants over the history of object identities, genomes and scores",
 "C03": "whole runs, direct breeding with destructive operators, elite selection alone",
 "C04": "pairs of runs under different ambient state and in fresh interpreters",
 "C05": "differential: thread/process, workers, map/submit, delays and failing fitness functions against sequential",
 "C06": "differential: resumed run against the uninterrupted one, every interruption point",
 "C07": "differential: predicted stop from the history of an unlimited run; direct histories",
 "C08": "history model of events, evaluations, seeds and checker calls",
 "C09": "operator sequences; independent parser/type checker and exchange oracle",
 "C10": "independent parser; depth, shape and coverage predicates",
 "C11": "independent recursive evaluation; metamorphic row permutation and row-wise execution",
 "C12": "round trip: printed text is executed and compared",
 "C13": "scalar reference definitions, cell by cell",
 "C14": "bounds predicate, scripted attempt model, 7-sigma distribution checks",
 "C15": "origin-pattern oracle, 7-sigma cut point frequencies",
 "C16": "before/after state model, scripted operators, 7-sigma application frequencies",
 "C17": "stateful histories against a model of every individual",
 "C18": "reference order on exact scores",
 "C19": "brute-force reference and 7-sigma selection frequencies",
 "C20": "brute-force dominance, peeling and crowding",
 "C21": "pools reconstructed from the evaluator log, brute-force survival",
 "C22": "metric applied by hand to independent evaluation; differential estimator histories",
 "C23": "stateful histories against list / nested tree models",
 "C24": "stateful histories against a subscription table",
 "C25": "written text parsed and compared with recomputed values",
 "C26": "configurations generated with an independently computed verdict",
 "C30": "fault injection at every kind of user-written part; differential against the undisturbed run and a fresh algorithm",
 "C29": "metamorphic: used components against fresh ones; settings before and after",
 "C28": "recorded history of evaluations that wait for each other; processes and threads checked",
 "C27": "round trips, differential runs of original and copy",
}
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
m = {
    "version": 1,
    "setup_cmd": PY + " -B /verif/tools/setup_check.py",
    "checks": [{
        "property": i,
        "quick_cmd": "%s -B /verif/run_check.py %s --tier quick" % (PY, i),
        "thorough_cmd": "%s -B /verif/run_check.py %s --tier thorough" % (PY, i),
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing: hypothesis-generated cases against "
                     "an explicit oracle, shrunk replay files",
        "level": "exploration",
        "level_note": NOTE[i] + "; bounded by the generators in props/%s.py" % i,
    } for i in ids],
    "not_applicable": [],
    "notes": "No hooks in /repo: every check observes public API and published "
             "events. Replay a failure with run_check.py <ID> --replay <file>.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
