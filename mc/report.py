"""Cases, verdicts, evidence.

A check is a list of named cases.  A case is a function case(rec) that explores something exhaustively and
tells `rec` what it covered and which violations it saw.  Cases run in parallel worker processes.
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import env
from .explore import HarnessError, Horizon

KNOWN = os.path.join(env.VERIF, "known_findings.jsonl")


class Recorder:
    """What one case explored."""

    def __init__(self, name):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.comparisons = 0
        self.outcomes = set()
        self.violations = []  # (key, message, replay)
        self.samples = []
        self.capped = []
        self.skipped = []

    def explored(self, ex):
        self.states += ex.states
        self.transitions += ex.transitions
        self.executions += ex.executions
        if ex.capped:
            self.capped.append(f"{self.name}: stopped after {ex.executions} executions")

    def state(self, n=1, transitions=None):
        self.states += n
        self.transitions += n if transitions is None else transitions

    def ran(self, n=1):
        self.executions += n

    def compared(self, n=1):
        self.comparisons += n

    def outcome(self, o):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hash(o) if not isinstance(o, (str, int)) else o)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text if isinstance(text, str) else json.loads(json.dumps(text, default=str)))

    def violation(self, key, message, replay=None):
        if len(self.violations) < 50:
            self.violations.append((f"{self.name}:{key}", message, replay))

    def expect(self, ok, key, message, replay=None):
        self.comparisons += 1
        if not ok:
            self.violation(key, message() if callable(message) else message, replay)
        return ok


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


_CASES = {}
_LIMIT = 300


def _from_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(env.REPO + os.sep):
            return True
    return False


def _run_case(name):
    rec = Recorder(name)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_LIMIT)
    t0 = time.time()
    try:
        _CASES[name](rec)
    except CaseTimeout:
        signal.alarm(0)
        where = traceback.format_exc(limit=-6)
        if _from_repo(sys.exc_info()[2]):
            rec.violation("hang", f"the code under test was still running after {_LIMIT} s\n{where}")
        else:
            err = f"{name}: case ran out of {_LIMIT} s\n{where}"
    except HarnessError:
        err = f"{name}: {traceback.format_exc(limit=-8)}"
    except Horizon as e:
        rec.violation("livelock", f"the code keeps making random draws without finishing: {e}")
    except Exception as e:
        if _from_repo(sys.exc_info()[2]):
            rec.violation(f"crash:{type(e).__name__}",
                          f"the code under test raised {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}")
        else:
            err = f"{name}: {traceback.format_exc(limit=-8)}"
    finally:
        signal.alarm(0)
    return rec, err, time.time() - t0


def load_known(pid):
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status", "open") == "open":
                for k in d["keys"]:
                    res[k] = d
    return res


def run_check(pid, mod, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--case")
    ap.add_argument("--replay", help="re-run the case of a replay file")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop at the first case with a violation (for trying out changes)")
    a = ap.parse_args(argv)
    global _CASES, _LIMIT
    t0 = time.time()
    _LIMIT = 240 if not env.THOROUGH else 3600
    _CASES = dict(mod.cases(env.TIER, env.SEED))
    names = list(_CASES)
    if a.replay:
        a.case = json.load(open(a.replay))["case"]
    if a.case:
        names = [n for n in names if n == a.case or n.startswith(a.case)]
    if a.list:
        print("\n".join(names))
        return 0
    if a.jobs > 1 and len(names) > 1:
        with mp.get_context("fork").Pool(min(a.jobs, len(names)), maxtasksperchild=50) as pool:
            results = []
            for res in pool.imap_unordered(_run_case, names, chunksize=1):
                results.append(res)
                if a.v:
                    print(f"  {res[0].name}: {res[0].executions} executions {len(res[0].violations)} violations {res[2]:.1f}s", file=sys.stderr, flush=True)
                if a.first and any(k not in load_known(pid) for k, _, _ in res[0].violations):
                    names = [r[0].name for r in results]
                    break
        results.sort(key=lambda r: names.index(r[0].name))
    else:
        results = [_run_case(n) for n in names]

    known = load_known(pid)
    states = trans = execs = comps = 0
    outcomes = set()
    samples, capped, skipped, errors = [], [], [], []
    fresh, hit = [], {}
    for rec, err, dt in results:
        states += rec.states
        trans += rec.transitions
        execs += rec.executions
        comps += rec.comparisons
        outcomes |= {(o) for o in rec.outcomes}
        if len(samples) < 8 and rec.samples:
            samples.append({"case": rec.name, "observed": rec.samples[0]})
        capped += rec.capped
        skipped += rec.skipped
        if err:
            errors.append(err)
        for key, msg, rep in rec.violations:
            if key in known:
                hit.setdefault(known[key]["what"], []).append(key)
            else:
                fresh.append((rec.name, key, msg, rep))
    wall = time.time() - t0
    cov = {"rule": getattr(mod, "RULE", "an execution is one complete run of the real code under one combination of "
                                        "environment answers; it counts as distinct by the result it observed"),
           "comparisons": comps, "cases": len(names), "exhaustive": not capped and not skipped, "distinct_outcomes": len(outcomes),
           "capped": capped, "skipped": skipped, "bounds": getattr(mod, "BOUNDS", ""), "samples": samples or [names[:3]]}
    if mod.LEVEL == "model_checking":
        cov.update(states=states, transitions=trans, traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=cov.pop("distinct_outcomes"))
    ev = {
        "property": pid, "tier": env.TIER, "seed": env.SEED, "level": mod.LEVEL, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if not a.case and not a.first:
        with open(os.path.join(env.VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    for what, keys in hit.items():
        print(f"KNOWN-FINDING: property={pid} {what} ({len(keys)} occurrences)")
    if fresh:
        rdir = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        fresh.sort(key=lambda v: len(json.dumps(v[3], default=str)))
        for i, (case, key, msg, rep) in enumerate(fresh[:int(os.environ.get("MC_SHOW", "5"))]):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "case": case, "key": key, "message": msg, "replay": rep,
                           "rerun": f"cd {env.VERIF} && ./check {pid} --replay {path}"}, f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {key}: {msg}")
        if len(fresh) > 5:
            print(f"  ... and {len(fresh) - 5} more")
    for e in errors:
        print("CHECK-ERROR", e, file=sys.stderr)
    print(f"{pid}: {len(names)} cases, {execs} executions, {states} states, {trans} transitions, {comps} comparisons, "
          f"{len(outcomes)} distinct outcomes, {len(fresh)} violations, {wall:.1f} s")
    if fresh:
        return 1
    return 2 if errors else 0
