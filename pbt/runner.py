"""Runs one property's check: generates cases on several processes, shrinks a failure,
confirms it in a fresh process, writes the replay and the evidence file."""
import argparse
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != HERE]

from pbt import core  # noqa: E402
from pbt.core import Violation, HarnessError, Discard, VERIF  # noqa: E402
import check as entry  # noqa: E402

NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_SECONDS = 120          # a single case normally takes well under a second
SHRINK_SECONDS = {"quick": 60, "thorough": 240}
SOFT_SECONDS = {"quick": 240, "thorough": 2700}
HARD_SECONDS = {"quick": 780, "thorough": 4200}


class StopShrink(KeyboardInterrupt):
    "Leaves Hypothesis once the shrinking budget is used up."


def load(pid):
    "The property's module."
    core.bootstrap()
    return importlib.import_module("pbt.props.%s" % pid.lower())


class Overtime(BaseException):
    "A case took too long (not an Exception, so that gpkit cannot swallow it)."


class SolverStuck(BaseException):
    "One call of cvxopt, the external solver, does not return."


class alarm:
    """Bounds one case's wall time.

    cvxopt's line search can go on for ever once its numbers have overflowed; a case is
    abandoned (not judged) when one and the same call of it lasts over 8 seconds."""
    def __enter__(self):
        start, last = time.time(), [None]

        def ring(_, frame):
            call = None
            while frame is not None:
                if (frame.f_globals.get("__name__") or "").startswith("cvxopt"):
                    call = frame    # the outermost
                frame = frame.f_back
            if call is not None and call is last[0]:
                raise SolverStuck
            last[0] = call
            if time.time() - start > CASE_SECONDS:
                raise Overtime
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, 8, 8)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(module, name, case):
    "One case of sub-check `name`."
    sub = module.CHECKS[name]
    try:
        with alarm():
            return core.guarded(sub["run"], case)
    except SolverStuck:
        raise Discard from None
    except Overtime:
        raise Violation("no answer within %i s" % CASE_SECONDS) from None


def worker(pid, tier, seed, shard, outfile):
    "Generates and runs this shard's cases; writes a JSON summary."
    module = load(pid)
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    known = getattr(module, "KNOWN", {})
    start = time.time()
    res = {"evaluations": 0, "discarded": 0, "nontrivial": [], "labels": {}, "samples": [],
           "per_check": {}, "failure": None, "harness_error": None, "truncated": False,
           "known_hits": {}}
    history = []
    seen = set()
    rnd = random.Random("%s/%s/%s" % (pid, seed, shard))
    def drive(name, sub):
        "Generates and runs one sub-check's cases."
        n = sub.get(tier) or (sub["quick"] * 12 if tier == "thorough" else sub["quick"])
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
        count = {"evaluations": 0, "nontrivial": 0, "discarded": 0}
        res["per_check"][name] = count
        best = {"case": None, "size": None, "msg": None, "first": None, "deadline": None}

        def test(case):
            if best["deadline"] and time.time() > best["deadline"]:
                raise StopShrink
            if not best["deadline"] and time.time() - start > SOFT_SECONDS[tier]:
                res["truncated"] = True
                return
            text = core.canon(case)
            if not best["deadline"]:
                res["evaluations"] += 1
                count["evaluations"] += 1
                history.append((name, text))
            try:
                info = run_case(module, name, case)
            except Discard:
                res["discarded"] += 1
                count["discarded"] += 1
                return
            except Violation as v:
                for key, match in known.items():
                    if match(name, case, str(v)):
                        res["known_hits"][key] = res["known_hits"].get(key, 0) + 1
                        return
                if best["deadline"] is None:
                    best["deadline"] = time.time() + SHRINK_SECONDS[tier]
                    best["first"] = (text, len(history))
                if best["size"] is None or (len(text), text) < best["size"]:
                    best.update(case=case, size=(len(text), text), msg=str(v))
                raise
            if best["deadline"]:
                return
            for lab in info.labels:
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if info.nontrivial:
                h = core.digest([name, case])
                if h not in seen:
                    seen.add(h)
                    count["nontrivial"] += 1
                    if count["nontrivial"] <= 1 and shard == 0:
                        res["samples"].append({"check": name, "case": case,
                                               "observed": info.sample})
        wrapped = hypothesis.seed(rnd.getrandbits(64))(settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck))(
                hypothesis.given(sub["strategy"])(test)))
        try:
            wrapped()
        except HarnessError as exc:
            res["harness_error"] = "%s: %s" % (name, exc)
        except (Violation, StopShrink):
            pass
        except BaseException as exc:  # Flaky and the like: `best` has the failure, if any
            if best["case"] is None:
                res["harness_error"] = "%s: %s" % (name, "".join(
                    traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:])
        if best["case"] is not None and not res["harness_error"]:
            ftext, fpos = best["first"]
            res["failure"] = {"check": name, "case": best["case"], "msg": best["msg"],
                              "first_case": json.loads(ftext),
                              "history": [[n_, json.loads(t)] for n_, t in history[:fpos]]}

    for name, sub in module.CHECKS.items():
        if time.time() - start > SOFT_SECONDS[tier]:
            res["truncated"] = True
            break
        drive(name, sub)
        if res["failure"] or res["harness_error"]:
            break
    res["nontrivial"] = sorted(seen)
    with open(outfile, "w") as f:
        json.dump(res, f)


def spawn(args, hashseed, cwd, **kw):
    "Starts this runner again in a fresh process."
    env = entry.environment(hashseed)
    env["MPLCONFIGDIR"] = cwd
    env["TMPDIR"] = cwd
    return subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__)] + args,
                            env=env, cwd=cwd, start_new_session=True, **kw)


def kill(proc):
    "Ends a worker and everything it started."
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    proc.wait()


def replay_file(pid, path, verbose=True):
    "Runs a replay file's cases in this process. Returns the violation message or None."
    module = load(pid)
    with open(path) as f:
        rep = json.load(f)
    msg = None
    for name, case in rep.get("history", []):
        try:
            run_case(module, name, case)
        except (Violation, Discard):
            pass
    try:
        run_case(module, rep["check"], rep["case"])
    except Violation as v:
        msg = str(v)
    except Discard:
        msg = None
    if verbose:
        print("replay of %s: %s" % (path, msg or "holds"))
    return msg


def fresh_replay(pid, rep, scratch, timeout=300):
    "Does the replay still fail in a fresh process?"
    path = os.path.join(scratch, "candidate.json")
    with open(path, "w") as f:
        json.dump(rep, f)
    proc = spawn([pid, "--replay", path, "--quiet-replay"], rep.get("hashseed", 0), scratch,
                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(proc)
        return False
    return proc.returncode == 3


def minimise_history(pid, rep, scratch, seconds=150):
    "Shortens the history a failure needs, by halving and then by removing chunks."
    end = time.time() + seconds
    hist = rep["history"]
    k = 1
    while k < len(hist) and time.time() < end:
        if fresh_replay(pid, dict(rep, history=hist[-k:]), scratch):
            hist = hist[-k:]
            break
        k *= 2
    chunk = max(1, len(hist) // 2)
    while chunk >= 1 and time.time() < end:
        i = 0
        while i < len(hist) and time.time() < end:
            trial = hist[:i] + hist[i+chunk:]
            if fresh_replay(pid, dict(rep, history=trial), scratch):
                hist = trial
            else:
                i += chunk
        chunk //= 2
    return dict(rep, history=hist)


def known_findings(pid):
    "The committed list of findings for this property."
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def main():
    "Parses arguments and dispatches."
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--quiet-replay", action="store_true")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.worker is not None:
        worker(a.pid, a.tier, a.seed, a.worker, a.out)
        return 0
    if a.replay:
        msg = replay_file(a.pid, a.replay, verbose=not a.quiet_replay)
        if msg and not a.quiet_replay:
            print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
        if a.quiet_replay:
            return 3 if msg else 0
        return 1 if msg else 0
    return check(a.pid, a.tier, a.seed)


def check(pid, tier, seed):
    "The whole check; returns the exit status."
    start = time.time()
    core.bootstrap()
    module = load(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    procs = {}
    try:
        for shard in range(NWORKERS):
            cwd = os.path.join(scratch, "w%i" % shard)
            os.mkdir(cwd)
            out = os.path.join(scratch, "out%i.json" % shard)
            err = open(os.path.join(scratch, "err%i.txt" % shard), "w")
            procs[shard] = (spawn([pid, "--tier", tier, "--seed", str(seed), "--worker",
                                   str(shard), "--out", out], shard, cwd,
                                  stdout=err, stderr=err), out, err)
        results, failed = {}, None
        while len(results) < NWORKERS:
            time.sleep(0.05)
            for shard, (proc, out, err) in procs.items():
                if shard in results or proc.poll() is None:
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[shard] = json.load(f)
                else:
                    err.flush()
                    with open(err.name) as f:
                        results[shard] = {"harness_error": "worker %i ended with %s: %s" % (
                            shard, proc.returncode, f.read()[-2000:])}
                if results[shard].get("failure") and failed is None:
                    failed = shard
            if failed is not None:
                break
            if time.time() - start > HARD_SECONDS[tier]:
                break
        for shard, (proc, out, err) in procs.items():
            kill(proc)
            err.close()
        return report(pid, tier, seed, module, results, failed, scratch, start)
    finally:
        for proc, _, _ in procs.values():
            kill(proc)
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, tier, seed, module, results, failed, scratch, start):
    "Evidence, verdict lines and exit status from the workers' results."
    status, violations = 0, 0
    if failed is not None:
        fail = results[failed]["failure"]
        rep = {"property": pid, "check": fail["check"], "case": fail["case"],
               "hashseed": failed, "seed": seed, "message": fail["msg"], "history": []}
        if not fresh_replay(pid, rep, scratch):
            hist = dict(rep, case=fail["first_case"], history=fail["history"][:-1])
            if fresh_replay(pid, hist, scratch):
                rep = minimise_history(pid, hist, scratch)
            else:
                rep["note"] = ("seen during generation, but not reproduced in a fresh process"
                               " either alone or after its history")
                rep["history"] = fail["history"][:-1]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, core.digest(
            [rep["check"], rep["case"]])))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print("property %s fails (%s): %s" % (pid, rep["check"], rep["message"]))
        print("case: %s" % core.canon(rep["case"])[:4000])
        if rep["history"]:
            print("(after a history of %i earlier cases, in the replay file)"
                  % len(rep["history"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
        status, violations = 1, 1
    errors = [r["harness_error"] for r in results.values() if r.get("harness_error")]
    if not status and (errors or len(results) < NWORKERS):
        for e in errors[:3]:
            print("HARNESS ERROR: %s" % e)
        if len(results) < NWORKERS:
            print("HARNESS ERROR: %i of %i workers gave no answer"
                  % (NWORKERS - len(results), NWORKERS))
        status = 2
    ok = [r for r in results.values() if "evaluations" in r]
    nontrivial = set()
    labels, samples, per_check = {}, [], {}
    for r in ok:
        nontrivial.update(r["nontrivial"])
        samples += r["samples"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, c in r["per_check"].items():
            tot = per_check.setdefault(k, {})
            for f_, v in c.items():
                tot[f_] = tot.get(f_, 0) + v
    known_lines = []
    if status == 0:
        for ent in known_findings(pid):
            if ent["status"] == "known":
                rep = {"check": ent["check"], "case": ent["case"],
                       "hashseed": ent.get("hashseed", 0), "history": []}
                if fresh_replay(pid, rep, scratch):
                    line = "KNOWN-FINDING: property=%s %s" % (pid, ent["what"])
                    known_lines.append(line)
                    print(line)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in ok),
            "distinct_nontrivial": len(nontrivial),
            "rule": module.RULE,
            "samples": samples[:8],
            "discarded": sum(r["discarded"] for r in ok),
            "per_check": per_check, "labels": dict(sorted(labels.items())),
            "workers": NWORKERS, "hash_seeds": sorted(results),
            "truncated_by_time": any(r.get("truncated") for r in ok),
            "known_findings_seen": known_lines},
        "assumptions": list(getattr(module, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - start, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s seed=%i: %i cases, %i distinct non-trivial, %.1f s, exit %i" % (
        pid, tier, seed, evidence["coverage"]["evaluations"], len(nontrivial),
        evidence["wall_s"], status))
    return status


if __name__ == "__main__":
    sys.exit(main())
