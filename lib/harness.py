"""Generated-input search driver.

A property module (props/<ID>.py) defines SUBS, a list of Sub objects.  A Sub is
 * a hypothesis strategy producing a *case*: a JSON-able value that fully
   determines one execution (all randomness of the code under test is seeded
   from a number inside the case), and
 * a body(case, ctx) that drives the real code and raises Violation when the
   oracle disagrees.
The driver runs every Sub in several forked workers with different seeds,
shrinks a failure with hypothesis, stores the shrunk case as a replay file, and
writes the evidence file.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

from lib.bootstrap import REPO, VERIF

warnings.simplefilter("ignore")

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import seed as hseed  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

if hasattr(_engine, "MAX_SHRINKING_SECONDS"):
    _engine.MAX_SHRINKING_SECONDS = 25

CASE_TIMEOUT_S = 150  # a case normally takes milliseconds


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """Something is wrong with the check itself; never a verdict."""


class CaseTimeout(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def binom_ok(m, n, p, tail=1e-12):
    """could m of n independent events of probability p have happened?  (both
    exact tails of the binomial distribution, about seven sigma)"""
    from scipy.special import bdtr, bdtrc

    p = min(max(p, 0.0), 1.0)
    if p in (0.0, 1.0):
        return m == n * p
    return bdtr(m, n, p) > tail and (m == 0 or bdtrc(m - 1, n, p) > tail)


class Ctx:
    """Per-case notes: labels for classification, non-triviality."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.units = 1

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def evals(self, n):
        """number of oracle evaluations this case stands for"""
        self.units = max(1, int(n))


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule,
                 shards=None, chunk=100, fixed=(), deterministic=True):
        self.name = name
        self.strategy = strategy      # callable -> hypothesis strategy
        self.body = body
        self.quick = quick            # number of generated cases
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.chunk = chunk
        self.fixed = list(fixed)      # cases that are always run first


def case_key(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


def _jsonable(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, tuple):
        return list(o)
    raise HarnessError("case is not JSON-able: %r" % (o,))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_body(sub, case, ctx):
    """Run one case; returns None or a failure description."""
    # a case must be replayable from its JSON text alone
    case = json.loads(case_key(case))
    random.seed(12345)
    np.random.seed(12345)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        sub.body(case, ctx)
        return None
    except Violation as e:
        return {"kind": "oracle", "message": str(e)}
    except (HarnessError, hypothesis.errors.HypothesisException):
        raise
    except CaseTimeout:
        return {"kind": "hang",
                "message": "no result within %d s" % CASE_TIMEOUT_S}
    except MemoryError:
        raise
    except Exception as e:  # an input of the documented domain must not crash
        tb = traceback.extract_tb(e.__traceback__)
        where = [
            "%s:%s" % (os.path.relpath(f.filename, REPO), f.name)
            for f in tb if f.filename.startswith(REPO + os.sep)
        ]
        return {
            "kind": "exception",
            "message": "%s: %s%s" % (
                type(e).__name__, str(e)[:300],
                " (in %s)" % where[-1] if where else ""),
            "traceback": traceback.format_exc()[-3000:],
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class _Fail(Exception):
    pass


def worker(sub, n, seed, budget, known):
    t0 = time.time()
    out = {
        "sub": sub.name, "cases": 0, "evaluations": 0, "nontrivial": [],
        "labels": {}, "samples": [], "fail": None, "known_hits": {},
        "error": None, "truncated": False,
    }
    seen = set()
    fails = []  # (len, key, case, info)

    def one(case):
        ctx = Ctx()
        info = run_body(sub, case, ctx)
        if info is not None:
            for kf in known:
                if kf_matches(kf, sub, case, info):
                    out["known_hits"][kf["id"]] = info["message"]
                    return None
            k = case_key(case)
            fails.append((len(k), k, case, info))
            return info
        out["cases"] += 1
        out["evaluations"] += ctx.units
        for lab in ctx.labels:
            out["labels"][lab] = out["labels"].get(lab, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.blake2b(case_key(case).encode(), digest_size=8).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(out["samples"]) < 3 or len(seen) % 50 == 0:
                    out["samples"] = (out["samples"] + [case])[-3:]
        return None

    try:
        for case in sub.fixed:
            if one(case) is not None:
                raise _Fail()
        strat = sub.strategy() if sub.strategy is not None else None
        done = 0
        rnd = 0
        while strat is not None and done < n:
            if time.time() - t0 > budget:
                out["truncated"] = True
                break
            m = min(sub.chunk, n - done)
            s = int.from_bytes(
                hashlib.blake2b(("%s/%d/%d" % (sub.name, seed, rnd)).encode(),
                                digest_size=8).digest(), "big")
            count = [0]

            @hseed(s)
            @settings(
                max_examples=m, deadline=None, database=None,
                derandomize=False, print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
            )
            @given(strat)
            def test(case):
                count[0] += 1
                if not fails and time.time() - t0 > budget:
                    out["truncated"] = True
                    return
                if one(case) is not None:
                    raise _Fail()

            try:
                test()
            except _Fail:
                raise
            except HarnessError:
                raise
            except MemoryError:
                raise
            except Exception:
                # e.g. hypothesis' Flaky: a failure was seen all the same
                if fails:
                    raise _Fail()
                raise
            except BaseExceptionGroup:
                if fails:
                    raise _Fail()
                raise
            done += max(m, 1)
            rnd += 1
    except _Fail:
        fails.sort(key=lambda f: f[:2])
        _, _, case, info = fails[0]
        ctx = Ctx()
        again = run_body(sub, case, ctx)
        out["fail"] = {"case": json.loads(case_key(case)), "info": info,
                       "reproduces": again is not None}
    except BaseException:
        out["error"] = traceback.format_exc()
    out["nontrivial"] = sorted(seen)
    out["wall"] = time.time() - t0
    return out


# ---------------------------------------------------------------- findings
def load_known(prop):
    """known_findings.jsonl: {"status": "open"|"fixed", "property", "id",
    "sub", "match": substring of the failure message, "case": subset, ...}
    Only "open" entries suppress anything."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "open" and k["property"] == prop:
                    res.append(k)
    return res


def kf_matches(kf, sub, case, info):
    if kf.get("sub") != sub.name:
        return False
    if kf.get("match") and kf["match"] not in info["message"]:
        return False
    for k, v in (kf.get("case") or {}).items():
        if case.get(k) != v:
            return False
    return True


# ------------------------------------------------------------------ driver
def spawn(fn, path):
    """fork a child that writes fn()'s JSON result to path"""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            res = fn()
            with open(path + ".tmp", "w") as f:
                json.dump(res, f, default=_jsonable)
            os.rename(path + ".tmp", path)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    return pid


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args(argv)
    try:
        return _main(a)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("CHECK-ERROR property=%s the check could not run" % a.prop)
        return 2


def _main(a):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("props." + a.prop)
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    if a.replay:
        rec = json.load(open(a.replay))
        sub = [s for s in mod.SUBS if s.name == rec["sub"]][0]
        info = run_body(sub, rec["case"], Ctx())
        if info is None:
            print("replay: property=%s held on %s" % (a.prop, a.replay))
            return 0
        print(info["message"])
        if info.get("traceback"):
            print(info["traceback"])
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1

    known = load_known(a.prop)
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    os.environ["VERIF_SCRATCH"] = scratch
    budget = float(os.environ.get(
        "VERIF_BUDGET", "90" if a.tier == "quick" else "2400"))
    tasks = []
    for s in subs:
        n = s.quick if a.tier == "quick" else s.thorough
        shards = s.shards if s.shards is not None else jobs
        if a.tier == "thorough" and s.shards is None:
            shards = jobs
        shards = max(1, min(shards, n)) if n else 1
        for i in range(shards):
            per = n // shards + (1 if i < n % shards else 0)
            tasks.append((s, per, seed * 1000003 + i, i))
    # longest first is unknown; interleave subs so that all get a slot
    tasks.sort(key=lambda t: t[3])
    running, results, errors, idx = {}, [], [], 0
    hard = budget + CASE_TIMEOUT_S + 120
    try:
        while idx < len(tasks) or running:
            while idx < len(tasks) and len(running) < jobs:
                s, per, sd, i = tasks[idx]
                path = os.path.join(scratch, "r%d.json" % idx)
                pid = spawn(
                    lambda s=s, per=per, sd=sd: worker(s, per, sd, budget, known),
                    path)
                running[pid] = (s, path, time.time())
                idx += 1
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid == 0:
                time.sleep(0.02)
                for p, (s, path, ts) in list(running.items()):
                    if time.time() - ts > hard:
                        os.killpg(p, signal.SIGKILL)
                continue
            if pid not in running:
                continue
            s, path, ts = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)  # helpers it left behind
            except OSError:
                pass
            if os.path.exists(path):
                r = json.load(open(path))
                results.append(r)
                if r["error"]:
                    errors.append("%s: %s" % (s.name, r["error"]))
                if r["fail"] and r["fail"]["reproduces"]:
                    break  # decided: the rest is not needed
            else:
                errors.append("%s: worker ended with status %s" % (s.name, status))
    finally:
        for p in running:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    fails = [r for r in results if r["fail"]]
    fails.sort(key=lambda r: (not r["fail"]["reproduces"],
                              len(json.dumps(r["fail"]["case"]))))
    write_evidence(a, mod, subs, results, fails, seed, time.time() - t0)
    hits = {}
    for r in results:
        hits.update(r["known_hits"])
    for k in known:
        # listed findings are always announced, whether generated or not
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    tot = sum(r["cases"] for r in results)
    print("property=%s tier=%s seed=%d cases=%d wall=%.1fs" % (
        a.prop, a.tier, seed, tot, time.time() - t0))
    if fails:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for r in fails[:1]:
            f = r["fail"]
            path = os.path.join(d, "%s-%s.json" % (a.prop, r["sub"]))
            with open(path, "w") as fh:
                json.dump({"property": a.prop, "sub": r["sub"],
                           "case": f["case"], "info": f["info"],
                           "reproduces": f["reproduces"]}, fh, indent=1)
            print("%s/%s: %s" % (a.prop, r["sub"], f["info"]["message"]))
            print("case: %s" % json.dumps(f["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        print("CHECK-ERROR property=%s" % a.prop)
        return 2
    return 0


def write_evidence(a, mod, subs, results, fails, seed, wall):
    per = {}
    samples = []
    distinct = 0
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        nt = set()
        for r in rs:
            nt.update(r["nontrivial"])
        labels = {}
        for r in rs:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        per[s.name] = {
            "cases": sum(r["cases"] for r in rs),
            "oracle_evaluations": sum(r["evaluations"] for r in rs),
            "distinct_nontrivial": len(nt),
            "rule": s.rule,
            "labels": dict(sorted(labels.items())),
            "truncated_by_time": any(r["truncated"] for r in rs),
        }
        distinct += len(nt)
        for r in rs:
            if r["samples"]:
                samples.extend({"sub": s.name, "case": c}
                               for c in r["samples"][-2:])
                break
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["cases"] for p in per.values()),
            "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples,
            "per_sub_check": per,
        },
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": [
            {"sub": r["sub"], "case": r["fail"]["case"],
             "message": r["fail"]["info"]["message"],
             "reproduces": r["fail"]["reproduces"]} for r in fails
        ],
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % a.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, a.prop + ".json"))
