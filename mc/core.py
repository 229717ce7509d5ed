"""Explorer core: deterministic sharded enumeration of bounded execution spaces of the real code.

A check module (mc/checks/cNN.py) exports

  PROPERTY      the property id
  BOUNDS        {tier: text}, what is enumerated exhaustively within which bounds
  cases(tier)   generator of JSON-able cases, in a deterministic order, simplest first
  run_case(case, rep)
                drives the real implementation through the case (a full history, schedule space or
                input), compares it step by step with the module's reference model and reports
                through `rep`
  ASSUMPTIONS   (optional) list of texts

`rep.state(key)` records one canonical model state (a set, counted once), `rep.step(n)` counts
transitions (one operation of the real code compared with the model), `rep.trace()` counts complete
executions compared with the model, and `rep.fail(msg, key=...)` reports a violation.
Every case runs to completion; nothing is sampled and no case is dropped.
"""
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 120
MAX_REPORTED = 5


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def canon_hash(key):
    return hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Reporter:
    def __init__(self, known=()):
        self.known = known
        self.listed = set()
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.violations = []  # (key, msg, case)
        self.outcomes = {}
        self.case = None

    def state(self, key):
        self.states.add(canon_hash(key))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        """count the distinct observed outcomes, to show that the exploration is not vacuous"""
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            if key in self.listed:
                return
            self.listed.add(key)
        if len(self.violations) < 200:
            self.violations.append((key, str(msg)[:3000], self.case))

    def expect(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond


def setup_env():
    os.environ["TZ"] = "UTC"
    time.tzset()
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import ics

    assert os.path.realpath(ics.__file__).startswith(os.path.realpath(src) + os.sep), ics.__file__
    warnings.simplefilter("ignore")


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded_case(mod, case, rep, timeout):
    rep.case = case
    rep.cases += 1
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        mod.run_case(case, rep)
    except CaseTimeout:
        rep.fail("execution did not terminate within %ss" % timeout, key="timeout")
    except Exception as e:  # the real code raised where the model says it must not
        tb = traceback.format_exc(limit=-6)
        rep.fail(f"unexpected {type(e).__name__}: {e}\n{tb}", key=f"exc:{type(e).__name__}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(mod, tier, k, n, out_fd):
    resource.setrlimit(resource.RLIMIT_AS, (3600 * 2**20,) * 2)
    signal.signal(signal.SIGALRM, _alarm)
    rep = Reporter(known_findings(mod.PROPERTY))
    prio = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != k:
                continue
            guarded_case(mod, case, rep, prio)
            if rep.cases in (1, 7, 60) and len(rep.samples) < 3:
                rep.samples.append(case)
            if len(rep.violations) >= 40 or (rep.violations and rep.violations[-1][0] == "timeout"):
                break  # only ever reached when reporting a violation
    except BaseException as e:
        rep.fail(f"enumeration raised {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", key="enum")
    import pickle

    with os.fdopen(out_fd, "wb") as f:
        pickle.dump(
            (rep.states, rep.steps, rep.traces, rep.cases, rep.samples, rep.violations, rep.outcomes), f
        )


def explore(mod, tier, jobs):
    import pickle

    children = []
    for k in range(jobs):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(mod, tier, k, jobs, w)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        children.append((pid, r))
    total = Reporter()
    for pid, r in children:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            total.violations.append(("worker", f"explorer process died with status {status}", None))
            continue
        st, steps, traces, cases, samples, viol, outc = pickle.loads(data)
        total.states |= st
        total.steps += steps
        total.traces += traces
        total.cases += cases
        total.samples += samples
        total.violations += viol
        for o, c in outc.items():
            total.outcomes[o] = total.outcomes.get(o, 0) + c
    return total


def known_findings(prop):
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split("key=", 1)[1].rstrip("\n")
                key, _, what = rest.partition(" ")
                res[key] = what
    return res


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def main(argv=None):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if args.selftest:
        return selftest()
    t0 = time.time()
    prop = args.property
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    sys.setrecursionlimit(3000)
    try:
        setup_env()
        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    except Exception:
        tb = traceback.format_exc(limit=-8)
        print(tb)
        return report(prop, None, tier, seed, t0, Reporter(), [("import", tb, None)])

    if args.replay:
        rec = json.load(open(args.replay))
        rep = Reporter()
        signal.signal(signal.SIGALRM, _alarm)
        guarded_case(mod, rec["case"], rep, 600)
        for key, msg, _ in rep.violations:
            print("REPRODUCED", key, msg)
        return 1 if rep.violations else 0

    rep = explore(mod, tier, args.jobs)
    return report(prop, mod, tier, seed, t0, rep, rep.violations)


def selftest():
    """every check module imports and enumerates cases; the files agree with each other"""
    import importlib

    setup_env()
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    assert props == [c["property"] for c in man["checks"]] + [n["property"] for n in man["not_applicable"]]
    for c in man["checks"]:
        mod = importlib.import_module("mc.checks." + c["property"].lower())
        assert mod.PROPERTY == c["property"] and {"quick", "thorough"} <= set(mod.BOUNDS)
        assert next(iter(mod.cases("quick"))) is not None
    print("ok:", " ".join(props))
    return 0


def report(prop, mod, tier, seed, t0, rep, violations):
    known = known_findings(prop)
    listed, fresh = {}, []
    for v in violations:
        if v[0] is not None and v[0] in known:
            listed.setdefault(v[0], v)
        else:
            fresh.append(v)
    for key in sorted(listed):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": len(rep.states),
        "transitions": rep.steps,
        "traces_validated_against_impl": rep.traces,
        "samples": [json.dumps(s, ensure_ascii=True)[:400] for s in rep.samples[:6]] or ["none"],
        "exhaustive": not fresh,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "distinct_outcomes": dict(sorted(rep.outcomes.items())[:60]),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    if not rep.cases and not fresh:
        print("no case was explored")
        return 2
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop} [{tier}] cases={rep.cases} states={len(rep.states)} transitions={rep.steps} "
        f"traces={rep.traces} outcomes={len(rep.outcomes)} known={len(listed)} "
        f"violations={len(fresh)} wall={ev['wall_s']}s"
    )
    if fresh:
        # shortest case first
        fresh.sort(key=lambda v: len(json.dumps(v[2], ensure_ascii=True)) if v[2] is not None else 10**9)
        for n, (key, msg, case) in enumerate(fresh[:MAX_REPORTED]):
            path = os.path.join(replay_dir(), f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "key": key, "message": msg, "case": case}, f, indent=1)
            print(f"--- {prop} {key}: {msg}\n    case: {json.dumps(case, ensure_ascii=True)[:600]}")
        path = os.path.join(replay_dir(), f"{prop}-0.json")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
