"C18: saved solutions reload intact, and comparisons between solutions are truthful."
import atexit
import json
import math
import os
import pickle
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, HarnessError, Info, VERIF, require, scratch
from .. import digest as dg
from .. import solved, tables
from . import c07

RULE = ("saved: a solved model, saved and loaded by another process with other hashes, non-trivial with"
        " several variables; compared: two solutions differing in values, sensitivities or variables,"
        " non-trivial when the answer is not that of identical ones for every question.")
ASSUMPTIONS = ("closed-form optima of separable models", "the other process imports the same gpkit")
CHILD = []


def child():
    "The other process."
    if not CHILD or CHILD[0].poll() is not None:
        CHILD.clear()
        env = dict(os.environ, PYTHONHASHSEED="12345")
        CHILD.append(subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(VERIF, "pbt", "digest.py")], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        atexit.register(stop, CHILD[0])
    return CHILD[0]


def stop(proc):
    "Ends it."
    try:
        proc.stdin.close()
        proc.wait(5)
    except (OSError, subprocess.TimeoutExpired):
        proc.kill()


def ask(req):
    "Its answer."
    proc = child()
    try:
        proc.stdin.write(json.dumps(req) + "\n")
        proc.stdin.flush()
        line = proc.stdout.readline()
    except OSError as exc:
        raise HarnessError("the other process died") from exc
    if not line:
        raise HarnessError("the other process died")
    return json.loads(line)


@st.composite
def savings(draw):
    "A model and how its solution is saved."
    return {"model": draw(solved.models()), "how": draw(st.sampled_from(["plain", "compressed"])),
            "constraints": draw(st.booleans()), "bad": draw(st.integers(0, 5)) == 0,
            "default": draw(st.integers(0, 3)) == 0, "index": draw(st.integers(0, 4)),
            "protocol": draw(st.sampled_from([None, None, 2, 4, 5]))}


def run_saved(case):
    "Save, look again, load elsewhere, look there."
    from gpkit import Model
    from gpkit.constraints.relax import ConstraintsRelaxed
    s = solved.make(case["model"])
    sol = solved.solve(s)
    if case["index"] and len(sol) > 1:
        sol = sol.atindex(case["index"] % len(sol))
    # a fresh model to ask with: the solved one's variables no longer have their values
    fresh = solved.make(case["model"])
    full = dg.digest(sol, fresh)
    where = "%s, %s, %s" % (case["how"], "with constraints" if case["constraints"] else "without", sol.modelstr)
    kw = {} if case["default"] and case["constraints"] else {"saveconstraints": case["constraints"]}
    if case["protocol"]:
        kw["protocol"] = case["protocol"]
    save = sol.save if case["how"] == "plain" else sol.save_compressed
    with scratch() as d:
        if case["bad"]:
            try:
                save(os.path.join(d, "no", "such", "directory"), **kw)
                require(False, "%s: saving to a directory that does not exist succeeded", where)
            except OSError:
                pass
            sol.unsaveable = lambda: None
            try:
                save(os.path.join(d, "not"), **kw)
                require(False, "%s: saved what cannot be", where)
            except (pickle.PicklingError, AttributeError):
                pass
            del sol.unsaveable
        name = "solution.pkl" if case["how"] == "plain" else "solution.pgz"
        path = os.path.join(d, name)
        if case["default"]:
            save(**kw)
        else:
            save(path, **kw)
        diff = dg.compare(full, dg.digest(sol, fresh))
        require(diff is None, "%s: saving changed the solution: %s", where, diff)
        ans = ask({"file": path, "how": case["how"], "case": case["model"], "constraints": case["constraints"],
                   "drop": []})
    require("error" not in ans, "%s: in the other process: %s", where, ans.get("error"))
    mine = full if case["constraints"] else dg.digest(sol, fresh, False)
    diff = dg.compare(json.loads(json.dumps(mine)), ans["digest"])
    require(diff is None, "%s: loaded elsewhere %s", where, diff)
    # the model, too, is as usable as before
    again = Model(s.model.cost, [s.model])
    cost = again.solve(verbosity=0)["cost"]
    if not (case["index"] and len(s.points) > 1):
        require(np.allclose(np.log(getattr(cost/sol["cost"], "magnitude", cost/sol["cost"])), 0, atol=1e-6),
                "%s: afterwards the model's optimum is %s", where, cost)
    ConstraintsRelaxed(s.model)
    return Info(len(s.entries) > 1, [case["how"], "sweep" if len(s.points) > 1 else "point"], str(sol["cost"]))


# ---------------------------------------------------------------- comparisons

@st.composite
def comparisons(draw):
    "Two related models."
    case = draw(solved.models(sweep=True, fns=False))
    fixed = [i for i, v in enumerate(case["vars"]) if v["kind"] == "fixed"]
    changes = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 7), st.sampled_from(
        [0.0005, -0.0005, 0.002, -0.002, 0.009, 0.05, -0.2, 1.5, 1e-6])), max_size=3))
    return {"model": case, "changes": changes, "kind": draw(st.sampled_from(["values", "values", "free", "drop", "add"])),
            "which": draw(st.integers(0, 5)), "single": draw(st.integers(0, 3)) == 0,
            "reltol": draw(st.sampled_from([None, 1e-3, 1e-2, 1e-5, 0.3])),
            "senstol": draw(st.sampled_from([None, 0.01, 0.1, 0.5])),
            "dreltol": draw(st.sampled_from([None, 0.1, 1.0, 10.0, 0.0])),
            "abstol": draw(st.sampled_from([None, 0, 0.01, 1.0])),
            "dsenstol": draw(st.sampled_from([None, 0.1, 0.01])),
            "show": draw(st.booleans()), "file": draw(st.sampled_from([None, None, "pkl", "pgz"])),
            "nfixed": len(fixed)}


def other(case):
    "The other model's case."
    base = json.loads(json.dumps(case["model"]))
    many = base["vars"]
    for i, j, d in case["changes"]:
        targets = [v for v in many if v["kind"] == ("free" if case["kind"] == "free" else "fixed")]
        if targets:
            v = targets[i % len(targets)]
            v["vals"][j % len(v["vals"])] *= 1 + d
    if case["kind"] == "drop" and len(many) > 1:
        many.pop(case["which"] % len(many))
    if case["kind"] == "add":
        many.append({"name": "extra", "model": "A", "kind": "free" if case["which"] % 2 else "fixed", "shape": [3],
                     "vals": [1.0, 2.0, 3.0], "unit": "m", "label": "", "dep": -1, "hole": False})
    if case["single"]:
        base["sweep"] = 0
    return base


def values(sol, data):
    "{key: array}"
    return {k: np.asarray(v, dtype=float) for k, v in data.items()}


def aligned(a, b):
    "Two values' arrays, one of them swept perhaps (along its first axis)."
    return np.broadcast_arrays(a, b)


def run_compared(case):
    "almost_equal and diff, both ways round."
    s1, s2 = solved.make(case["model"]), solved.make(other(case))
    sol1, sol2 = solved.solve(s1), solved.solve(s2)
    if len(s1.points) != len(s2.points) and 1 not in (len(s1.points), len(s2.points)):
        raise Discard
    fresh1, fresh2 = solved.make(case["model"]), solved.make(other(case))
    before = dg.digest(sol1, fresh1), dg.digest(sol2, fresh2)
    where = "%s\n and %s" % (sol1.table(tables=("variables",)), sol2.table(tables=("variables",)))
    answers = set()
    for a, b, tag in ((sol1, sol2, "ab"), (sol2, sol1, "ba"), (sol1, sol1, "aa")):
        answers.add(almost(a, b, case, where + tag))
    labels = {case["kind"]}
    labels |= differences(sol1, sol2, case, where)
    for sol, s, d in ((sol1, fresh1, before[0]), (sol2, fresh2, before[1])):
        diff = dg.compare(d, dg.digest(sol, s))
        require(diff is None, "%s: comparing changed a solution: %s", where, diff)
    return Info(len(answers) > 1, sorted(labels), str(answers))


def almost(a, b, case, where):
    "Are they, by their values?"
    reltol = case["reltol"] or 1e-3
    senstol = case["senstol"] or 0.01
    kw = {}
    if case["reltol"]:
        kw["reltol"] = reltol
    if case["senstol"]:
        kw["sens_abstol"] = senstol
    va, vb = values(a, a["variables"]), values(b, b["variables"])
    want, unsure = True, False
    if set(va) != set(vb):
        want = False
    else:
        sa, sb = a["sensitivities"]["variables"], b["sensitivities"]["variables"]
        for k in va:
            x, y = aligned(va[k], vb[k])
            with np.errstate(all="ignore"):
                rel = np.where(x == y, 0.0, np.abs(x/y-1))
            rel = rel[~(np.isnan(x) & np.isnan(y))]
            p, q = aligned(np.asarray(sa.get(k, 0.0), dtype=float), np.asarray(sb.get(k, 0.0), dtype=float))
            d = np.abs(p-q)
            d = d[~np.isnan(d)]
            if (np.isnan(rel) | (rel >= reltol)).any() or (d >= senstol).any():
                want = False
            if (np.abs(rel/reltol-1) < 1e-2).any() or (np.abs(d/senstol-1) < 1e-2).any():
                unsure = True
    got = a.almost_equal(b, **kw)
    require(unsure or bool(got) == want, "%s: almost_equal with %s is %r, not %r", where, kw, got, want)
    return want


def shown(key):
    "(model, name) of a row."
    lineage = ".".join(n + (str(i) if i else "") for n, i in key.lineage or ())
    return lineage, key.name + ("[%s]" % ",".join(map(str, key.idx)) if key.idx else "")


def differences(a, b, case, where):
    "The text against the values."
    kw = {"reldiff": case["dreltol"] != 0.0, "absdiff": case["abstol"] is not None,
          "senssdiff": case["dsenstol"] is not None}
    if case["dreltol"]:
        kw["reltol"] = case["dreltol"]
    if case["abstol"] is not None:
        kw["abstol"] = case["abstol"]
    if case["dsenstol"] is not None:
        kw["sensstol"] = case["dsenstol"]
    va, vb = values(a, a["variables"]), values(b, b["variables"])
    if case["show"]:
        names = sorted({k.name for k in set(va) & set(vb)})[:2]
        if names:
            kw["showvars"] = names
            va = {k: v for k, v in va.items() if k.name in names}
            vb = {k: v for k, v in vb.items() if k.name in names}
    if case["file"]:
        with scratch() as d:
            path = os.path.join(d, "sol." + case["file"])
            (b.save if case["file"] == "pkl" else b.save_compressed)(path)
            text = a.diff(path, **kw)
    else:
        text = a.diff(b, **kw)
    where = "%s\n diff(%s):\n%s" % (where, kw, text)
    # variables of one side only
    for title, only in (("Variable(s) of this solution which are not in the argument:", set(va) - set(vb)),
                        ("Variable(s) of the argument which are not in this solution:", set(vb) - set(va))):
        require((title in text) == bool(only), "%s: %r shown, but those variables are %s", where, title, only)
        if only:
            part = text.split(title)[1].split("\n\n")[0]
            got = sorted(line.strip() for line in part.strip().split("\n"))
            require(got == sorted(str(k) for k in only), "%s: only on one side are %s, not %s", where, only, got)
    same = a.modelstr == b.modelstr
    require(("** no constraint differences **" in text) == same, "%s: models are %sthe same", where,
            "" if same else "not ")
    if not same:
        part = text.split("Constraint Differences\n**********************\n")[1].split("\n\n****")[0].split("\n")
        old, new = b.modelstr.split("\n"), a.modelstr.split("\n")
        for line in part:
            if line[:1] == "-":
                require(line[1:] in old, "%s: %r is no line of the argument's model", where, line)
            elif line[:1] == "+":
                require(line[1:] in new, "%s: %r is no line of this solution's model", where, line)
        for line in set(new) - set(old):
            require("+" + line in part, "%s: %r is not shown", where, line)
        for line in set(old) - set(new):
            require("-" + line in part, "%s: %r is not shown", where, line)
    secs = {t.split(" |")[0]: lines for t, lines in tables.sections(text)}
    shared = set(va) & set(vb)
    if kw["reldiff"]:
        check_section(secs.get("Relative Differences"), {k: (va[k], vb[k]) for k in shared},
                      lambda x, y: 100*(x/y-1), kw.get("reltol", 1.0), 0.051, where + "\n relative")
    else:
        require("Relative Differences" not in secs, "%s: relative differences were not asked for", where)
    if kw["absdiff"]:
        check_section(secs.get("Absolute Differences"), {k: (va[k], vb[k]) for k in shared},
                      lambda x, y: x-y, kw["abstol"], None, where + "\n absolute")
    if kw["senssdiff"]:
        sa, sb = (values(x, x["sensitivities"]["variables"]) for x in (a, b))
        zero = np.array(0.0)
        check_section(secs.get("Sensitivity Differences"), {k: (sa.get(k, zero), sb.get(k, zero)) for k in shared},
                      lambda x, y: x-y, kw["sensstol"], 0.0051, where + "\n sensitivity")
    return {k for k in ("reldiff", "absdiff", "senssdiff", "showvars") if kw.get(k)}


def check_section(lines, pairs, fn, tol, prec, where):
    "Exactly those exceeding the tolerance, with their differences."
    want, unsure = {}, set()
    for k, (x, y) in pairs.items():
        x, y = aligned(x, y)
        with np.errstate(all="ignore"):
            d = np.asarray(fn(x, y))
        near = np.abs(np.abs(d)-tol) <= 1e-9 + 1e-6*np.abs(d)
        top = np.nanmax(np.abs(d)) if not np.isnan(d).all() else -1
        if abs(top-tol) <= 1e-9 + 1e-6*abs(top):
            unsure.add(shown(k))
        if top > tol:
            want[shown(k)] = (d, near)
    if lines is None:
        require(not pairs or not want, "%s: no such table, but differences %s", where, want)
        return
    got = {}
    told = [line for line in lines if line.strip().startswith("The largest is ")]
    require(bool(told) == (not want) or unsure, "%s: lists %s and tells %r", where, sorted(want), told)
    if told and not unsure:   # what none of them exceeds
        require(len(told) == 1, "%s: tells %r", where, told)
        worst = []
        for x, y in pairs.values():
            with np.errstate(all="ignore"):
                d = np.asarray(fn(*aligned(x, y)))
            worst.append(float(np.abs(d).max()))
        if worst and not np.isnan(worst).any():
            val = float(told[0].split("The largest is ")[1].rstrip(".%"))
            require(abs(abs(val)-max(worst)) <= 1e-5*max(worst) + 1e-12, "%s: the largest difference is %r, but"
                    " told is %r", where, max(worst), told[0])
    for model, name, rest in tables.rows(lines):
        if name is None:
            continue
        require((model, name) not in got, "%s: %s is listed twice", where, (model, name))
        got[model, name] = rest
    require(set(got) - unsure == set(want) - unsure, "%s: lists %s, but what exceeds the tolerance is %s", where,
            sorted(got), sorted(want))
    for row, rest in got.items():
        if row in unsure:
            continue
        d, near = want[row]
        vals, vec, _ = tables.numbers(rest)
        require(vec == bool(d.shape) and len(vals) == d.size, "%s: %s has differences %s, not %s", where, row, vals, d)
        if d.ndim > 1:
            vals, d, near = sorted(vals, key=repr), d, near
            continue
        for v, x, n in zip(vals, d.flat, near.flat):
            if n:
                continue
            if v is None:
                require(np.isnan(x) or abs(x) <= tol, "%s: %s differs by %r, but a dash is shown", where, row, x)
            else:
                require(abs(x) > tol or not d.shape, "%s: %s differs by %r, but %r is shown", where, row, x, v)
                if math.isfinite(x):
                    ok = abs(v-x) <= prec if prec else tables.same(v, x, 2)
                    require(ok, "%s: %s differs by %r, but %r is shown", where, row, x, v)


CHECKS = {"saved": {"strategy": savings(), "run": run_saved, "quick": 100, "thorough": 2000},
          "compared": {"strategy": comparisons(), "run": run_compared, "quick": 200, "thorough": 3000}}
