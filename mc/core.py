"""
Bounded exhaustive exploration of the real code.

A check enumerates `cases(tier)`: a finite, completely enumerated list of JSON-able case
descriptors. `run_case(case, st)` explores everything below one descriptor (all operation
sequences, all argument combinations, all iteration orders ...) on the real code from
VERIF_REPO (default /repo) and compares every step with a reference model. It raises
Violation, or lets an exception of the code under test escape, when they disagree.

Replaying = running the same case again: exploration is deterministic.
"""
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RESEARCH = os.path.join(REPO, "Python", "research")
DEMO = os.path.join(RESEARCH, "scripts", "demo")

CASE_CPU_LIMIT = 240      # CPU seconds one case may take before it counts as "does not terminate"
CASE_MEMORY = 3500 << 20   # bytes of address space per worker
DEADLINE = {"quick": 780, "thorough": 6 * 3600}


class Violation(Exception):
    """The code under test disagrees with the property on one explored execution."""

    def __init__(self, message, trace=None):
        super().__init__(message)
        self.message = message
        self.trace = trace


class CaseTimeout(BaseException):
    pass


class Stats:
    """What one case covered. `states`: distinct canonical model states; `transitions`: real calls
    compared with the model; `traces`: complete executions of the real code compared with the model."""

    def __init__(self):
        self.seen = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}

    def state(self, key):
        h = hash(key)
        if h in self.seen:
            return False
        self.seen.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def require(cond, message, *trace):
    if not cond:
        raise Violation(message() if callable(message) else message, [short(t) for t in trace])


def equal(got, want, what, *trace):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}", [short(t) for t in trace])


def close(got, want, what, *trace):
    try:
        ok = abs(float(got) - float(want)) <= 1e-9 * abs(float(want)) + 1e-15
    except (TypeError, ValueError, OverflowError):
        ok = False
    if not ok:
        raise Violation(f"{what}: got {short(got)}, expected {float(want)!r}", [short(t) for t in trace])


def close_map(got, want, what, *trace):
    if set(got.keys()) != set(want.keys()):
        raise Violation(f"{what}: keys {short(set(got))}, expected {short(set(want))}", [short(t) for t in trace])
    for k, v in want.items():
        close(got[k], v, f"{what}[{k!r}]", *trace)


def short(o, limit=1500):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= limit else s[:limit] + "..."


def rejected(f):
    """True when the call is rejected (raises any ordinary exception). The result, if accepted, is in .value"""
    try:
        f()
        return False
    except Exception:
        return True


def attempt(f):
    """(accepted, result)"""
    try:
        return True, f()
    except Exception as e:  # rejection: the kind of exception is not part of any property
        return False, e


def _on_cpu_limit(signum, frame):
    raise CaseTimeout()


_check = None


def _run_one(arg):
    i, case = arg
    st = Stats()
    c0 = time.process_time()
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT * (1 if os.environ.get("VERIF_TIER") != "thorough" else 20))
    failure = None
    try:
        _check.run_case(case, st)
    except Violation as v:
        failure = {"message": v.message, "trace": v.trace}
    except CaseTimeout:
        failure = {"message": "the explored call does not terminate within the CPU limit of a case", "trace": None}
    except RecursionError:
        failure = {"message": "RecursionError in the code under test", "trace": None}
    except Exception as e:
        failure = {"message": f"unexpected {type(e).__name__}: {short(str(e), 500)}",
                   "trace": traceback.format_exc().splitlines()[-12:]}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if os.environ.get("VERIF_PROFILE"):
        print(f"PROFILE {time.process_time() - c0:8.2f} {short(case, 150)}", flush=True)
    return i, failure, len(st.seen), st.transitions, st.traces, st.samples, st.extra


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY, CASE_MEMORY))   # runaway code fails its case, not the run


def setup_paths():
    for p in (DEMO, RESEARCH):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.dont_write_bytecode = True


def interleaved(cases):
    """Some of every kind first: what breaks is found early. The cases are the same."""
    seen = {}

    def place(c):
        k = tuple(map(str, c[:2]))
        seen[k] = seen.get(k, -1) + 1
        return seen[k]
    return [c for _, c in sorted(((place(c), c) for c in cases), key=lambda x: x[0])]


def run(check, tier, seed):
    """Explore all cases of the check. Returns the process exit code."""
    global _check
    _check = check
    t0 = time.time()
    cases = interleaved(list(check.cases(tier)))
    n_proc = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
    totals = [0, 0, 0]
    samples, extra, failures, done = [], {}, [], 0
    deadline = t0 + DEADLINE[tier]
    complete = True

    def results():
        if n_proc == 1 or len(cases) == 1:
            for item in enumerate(cases):
                yield _run_one(item)
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(n_proc, initializer=_init_worker) as pool:
                chunk = 1 if len(cases) < 3000 else 8
                yield from pool.imap_unordered(_run_one, list(enumerate(cases)), chunksize=chunk)
                pool.terminate()

    known_seen = set()
    known = [k for k in load_known() if k.get("property") == check.ID and k.get("status") == "known"]
    gen = results()
    for i, failure, n_s, n_t, n_tr, smp, ext in gen:
        done += 1
        totals[0] += n_s
        totals[1] += n_t
        totals[2] += n_tr
        for s in smp:
            if len(samples) < 6:
                samples.append(s)
        for k, v in ext.items():
            extra[k] = extra.get(k, 0) + v
        if failure:
            k = match_known(known, cases[i], failure)
            if k is not None:
                known_seen.add(k["id"])
            else:
                failures.append((i, failure))
                break
        if time.time() > deadline:
            complete = done == len(cases)
            break
    gen.close()

    wall = time.time() - t0
    coverage = {
        "states": totals[0],
        "transitions": totals[1],
        "traces_validated_against_impl": totals[2],
        "cases": done,
        "cases_enumerated": len(cases),
        "exhaustive": bool(complete and not failures),
        "bounds": check.bounds(tier),
        "samples": samples or [short(c) for c in cases[:2]],
    }
    coverage.update(extra)
    evidence = {
        "property": check.ID, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": coverage, "wall_s": round(wall, 3), "violations": len(failures),
        "assumptions": check.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.ID}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for k in known:
        if k["id"] in known_seen:
            print(f"KNOWN-FINDING: property={check.ID} {k['what']}")
    if failures:
        i, failure = failures[0]
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{check.ID}.json")
        with open(path, "w") as f:
            json.dump({"property": check.ID, "case": cases[i], "failure": failure,
                       "replay_cmd": f"./replay {path}"}, f, indent=1, default=str)
        print(f"property {check.ID}: {failure['message']}")
        for line in failure["trace"] or []:
            print("   ", line)
        print(f"case: {short(cases[i], 2000)}")
        print(f"VIOLATION property={check.ID} replay={path}")
        return 1
    print(f"{check.ID} held: {totals[0]} states, {totals[1]} transitions, {totals[2]} traces, "
          f"{done}/{len(cases)} cases, {wall:.1f} s")
    return 0


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def match_known(known, case, failure):
    """A listed finding is identified by the exact case it fails on and by how it fails."""
    for k in known:
        if json.loads(json.dumps(case, default=str)) == k["case"] and k["message_contains"] in failure["message"]:
            return k
    return None
