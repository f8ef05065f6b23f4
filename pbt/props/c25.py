"C25: every solver back end gets the program as built, and its answer is used faithfully."
import math
import os
import stat
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, HarnessError, Info, quiet, require, scratch
from .. import gpgen
from . import c07, c08

RULE = ("a generated geometric program solved through a stand-in solver which reads nothing but what gpkit handed it (a function's"
        " arguments, an mskexpopt file, or the calls of a MOSEK task) and solves that; non-trivial when the program has a posynomial"
        " of several terms, couples variables, and either its optimum was reported and compared with the reference's or a failure of"
        " the solver was")
ASSUMPTIONS = ("the stand-ins read the interfaces as mskexpopt's and MOSEK's manuals describe them; MOSEK itself is not installed",
               "cvxopt solves the programs they decode")


# solving what was handed over ---------------------------------------------------------------

class Stuck(Exception):
    "The stand-in could not solve what it was given."


def independent(rows, rhs):
    "Indexes of rows that imply the others; raises Stuck if they contradict."
    kept = []
    for i in range(len(rows)):
        if np.linalg.matrix_rank(rows[kept+[i]], tol=1e-8) > len(kept):
            kept.append(i)
    there = np.linalg.lstsq(rows[kept], rhs[kept], rcond=None)[0]
    if np.abs(rows.dot(there)-rhs).max() > 1e-8*(1+np.abs(rhs).max()):
        raise Stuck("contradictory equalities")
    return kept


def pairs(rows, rhs):
    "Which inequalities are each other's opposites: ([(i, j)], the rest)."
    left, out = list(range(len(rows))), []
    for i in range(len(rows)):
        if i not in left:
            continue
        for j in left:
            if j > i and np.abs(rows[i]+rows[j]).max() <= 1e-9 and abs(rhs[i]+rhs[j]) <= 1e-9*(1+abs(rhs[i])):
                out.append((i, j))
                left = [k for k in left if k not in (i, j)]
                break
    return out, left


OPTS = {"show_progress": False, "abstol": 1e-9, "reltol": 1e-9, "feastol": 1e-9}


def solve_gp(posys, nvars):
    """Minimizes posys[0] such that the others are at most one; each is a list of
    (coefficient, row of exponents).  Returns cost, log values and one dual per posynomial."""
    from cvxopt import matrix, solvers
    lse = [0] + [i for i in range(1, len(posys)) if len(posys[i]) > 1]
    lin = [i for i in range(1, len(posys)) if len(posys[i]) == 1]
    F = matrix(np.array([e for i in lse for _, e in posys[i]], dtype=float).reshape(-1, nvars))
    g = matrix([math.log(c) for i in lse for c, _ in posys[i]])
    kw, eqs, kept = {}, [], []
    if lin:
        rows = np.array([posys[i][0][1] for i in lin], dtype=float)
        rhs = np.array([-math.log(posys[i][0][0]) for i in lin])
        eqs, ineqs = pairs(rows, rhs)
        if ineqs:
            kw["G"], kw["h"] = matrix(rows[ineqs]), matrix(rhs[ineqs])
        if eqs:
            first = [i for i, _ in eqs]
            kept = independent(rows[first], rhs[first])
            kw["A"], kw["b"] = matrix(rows[first][kept]), matrix(rhs[first][kept])
    try:
        sol = solvers.gp([len(posys[i]) for i in lse], F, g, options=OPTS, **kw)
    except (ValueError, ArithmeticError) as exc:
        raise Stuck("cvxopt: %s" % exc) from exc
    if sol["status"] != "optimal" and (sol["gap"] is None or abs(sol["gap"]) > 1e-7 or not (sol["primal infeasibility"] or 1) < 1e-7):
        raise Stuck("cvxopt: %s" % sol["status"])
    la = np.zeros(len(posys))
    la[lse] = [1.0] + list(sol["znl"])
    if lin:
        la[[lin[i] for i in ineqs]] = list(sol["zl"])
        for i, y in zip(kept, sol["y"]):
            one, other = eqs[i]
            la[lin[one if y > 0 else other]] = abs(y)
    x = np.ravel(sol["x"])
    return value(posys[0], x), x, la


def value(posy, x):
    "Of a posynomial."
    return sum(c*math.exp(np.dot(e, x)) for c, e in posy)


def termduals(posys, x, la):
    "One dual per term."
    out = []
    for posy, l in zip(posys, la):
        v = [c*math.exp(np.dot(e, x)) for c, e in posy]
        out.extend(l*t/sum(v) for t in v)
    return np.array(out)


# a solver function --------------------------------------------------------------------------

FORMS = ["nu", "nu list", "nu column", "la", "la list", "la column", "la short", "la short list", "both", "la matrix"]


class Function:
    "A solver function, for its name also a `__name__`."
    __name__ = "standin"

    def __init__(self, form, outcome="optimal", off=None):
        self.form, self.outcome, self.off = form, outcome, off
        self.failure = self.given = self.answer = None
        self.calls, self.kw = 0, {}

    def decode(self, c, A, k, p_idxs):
        "The program handed over."
        rows = np.asarray(A.tocoo().toarray(), dtype=float)
        require(len(k) >= 1 and sum(k) == len(c) == rows.shape[0] == len(p_idxs), "%i coefficients, %s rows, %i indices and %s terms"
                " were handed to the solver", len(c), rows.shape, len(p_idxs), list(k))
        require(tuple(A.shape) == rows.shape, "A's shape is %s, not %s", A.shape, rows.shape)
        require(list(p_idxs) == [i for i, n in enumerate(k) for _ in range(n)], "p_idxs %s disagree with k %s", list(p_idxs), list(k))
        posys, at = [], 0
        for n in k:
            posys.append([(float(c[j]), rows[j]) for j in range(at, at+n)])
            at += n
        return posys, rows.shape[1]

    def __call__(self, *, c, A, k, p_idxs, meq_idxs, **kw):
        from gpkit import exceptions
        self.calls += 1
        self.kw = kw
        print("stand-in at work")
        if self.outcome not in ("optimal", "no primal", "no dual", "short primal"):
            if self.outcome in ("KeyError", "ZeroDivisionError", "RuntimeWarning"):
                raise {"KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "RuntimeWarning": RuntimeWarning}[self.outcome]("!")
            raise getattr(exceptions, self.outcome)("because")
        posys, n = self.decode(c, A, k, p_idxs)
        starts = np.cumsum([0] + list(k))
        for i in meq_idxs.all:
            require(i in starts and k[list(starts).index(i)] == 1, "term %s is said to be an equality", i)
        try:
            cost, x, la = solve_gp(posys, n)
        except Stuck as exc:
            self.failure = exc
            raise
        nu = termduals(posys, x, la)
        if self.off:
            x = x + self.off[0]*np.cos(np.arange(len(x)))
            cost *= 1 + self.off[1]
        self.answer = cost, x, la, nu
        out = {"status": "optimal", "objective": cost, "primal": x if len(self.form) % 2 else list(x)}
        if self.form.startswith("nu") or self.form == "both":
            out["nu"] = nu
        if self.form.startswith("la") or self.form == "both":
            out["la"] = la[1:] if "short" in self.form else la
        for name in ("nu", "la"):
            if name in out:
                if "list" in self.form:
                    out[name] = [float(v) for v in out[name]]
                elif "column" in self.form:
                    out[name] = np.array(out[name]).reshape(-1, 1)
                elif "matrix" in self.form:
                    from cvxopt import matrix
                    out[name] = matrix(out[name])
        if self.outcome == "no primal":
            out["primal"] = []
        elif self.outcome == "short primal":
            out["primal"] = list(x)[:-1]
        elif self.outcome == "no dual":
            out.pop("la", None)
            out.pop("nu", None)
        return out


def facts(sol):
    "Everything reported, by name."
    out = {"cost": float(sol["cost"])}
    for table in ("variables", "freevariables", "constants"):
        for key, val in c07.expand(sol[table]).items():
            out[(table,)+key] = val
    for key, val in c07.expand(sol["sensitivities"]["variables"]).items():
        out[("sensitivity",)+key] = val
    for key, val in sol["sensitivities"]["cost"].items():
        out[("cost sensitivity", str(key))] = val
    for n, val in enumerate(sol["sensitivities"]["constraints"].values()):
        out["constraint", n] = val
    for key, val in sol["sensitivities"]["models"].items():
        out["model", key] = val
    return out


def same(one, other, where, tol):
    "Are all reported facts equal?"
    f, g = facts(one), facts(other)
    require(set(f) == set(g), "%s: different facts: %s", where, set(f) ^ set(g))
    for name in f:
        a, b = f[name], g[name]
        require(abs(a-b) <= tol*max(1, abs(a)), "%s: %s is %r, not %r", where, name, b, a)


FAULTS = {"PrimalInfeasible": "PrimalInfeasible", "DualInfeasible": "DualInfeasible", "UnknownInfeasible": "UnknownInfeasible",
          "InvalidLicense": "InvalidLicense", "KeyError": "UnknownInfeasible", "ZeroDivisionError": "UnknownInfeasible",
          "RuntimeWarning": "UnknownInfeasible", "no primal": "RuntimeWarning", "short primal": "RuntimeWarning",
          "no dual": "RuntimeWarning"}


def fresh(spec):
    "The program anew (values of variables are used up by the models they are in)."
    b = gpgen.build(spec)
    b.costmag = c07.costmag(b)
    return b


def fails(spec, solver, kind, where, **kw):
    "Does solving raise exactly this?"
    from gpkit import exceptions, Model
    b = fresh(spec)
    want = RuntimeWarning if kind == "RuntimeWarning" else getattr(exceptions, kind)
    m = Model(b.cost, b.constraints, b.subs)
    before = sys.stdout
    try:
        sol = m.solve(solver, verbosity=0, **kw)
    except HarnessError:
        raise
    except Exception as exc:
        require(type(exc) is want, "%s: %s raised: %s, not %s", where, type(exc).__name__, exc, want.__name__)
        require(sys.stdout is before, "%s: standard output was not restored", where)
        return m
    require(False, "%s: a solution with cost %s was reported", where, sol["cost"])


def shape(b):
    "Is the program worth it?"
    return (len(b.ref.cost) > 1 or any(len(p) > 1 for p in b.ref.posys)) and (
        bool(b.ref.eqs) or any(len({k for _, e in p for k in e}) > 1 for p in b.ref.posys))


def fncases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(0, 3)), "route": st.sampled_from(c07.ROUTES), "form": st.sampled_from(FORMS), "form2": st.sampled_from(FORMS),
        "fault": st.sampled_from([None, None, None] + sorted(FAULTS)),
        "off": st.one_of(st.none(), st.tuples(st.sampled_from([0.01, -0.3, 1e-6]), st.sampled_from([0.0, 0.001, -0.2])))})


def fnrun(case):
    "A solver function."
    b = fresh(case["spec"])
    where = "%s of\n%s\n with %s by a function answering with %s" % (case["route"], b.cost, b.subs, case["form"])
    labels = {case["form"]}
    if case["fault"]:
        fn = Function(case["form"], case["fault"])
        m = fails(case["spec"], fn, FAULTS[case["fault"]], where + " and failing with " + case["fault"])
        if fn.failure:
            raise Discard
        require(fn.calls == 1, "%s: it was called %i times", where, fn.calls)
        require("stand-in at work" in m.program.solve_log, "%s: what it printed is not in the log: %r", where, m.program.solve_log)
        return Info(shape(b), {case["fault"]})
    cost, _ = b.ref.solve()
    fn = Function(case["form"])
    try:
        sol = c07.solve(b, case["route"], fn, extra=3)
    except Exception:
        if fn.failure:
            raise Discard from None
        raise
    require(fn.calls == 1 and fn.kw == {"extra": 3}, "%s: called %i times with the options %s, not once with extra=3", where, fn.calls, fn.kw)
    c07.verify(b, sol, cost, where)
    big = c08.check_sensitivities(b, sol, where, cost)
    require(float(sol["cost"]) == float(fn.answer[0]), "%s: cost %r reported, but it returned %r", where, sol["cost"], fn.answer[0])
    require(sorted(c07.expand(sol["freevariables"]).values()) == sorted(np.exp(fn.answer[1])), "%s: %s reported, but it returned %s",
            where, sol["freevariables"], np.exp(fn.answer[1]))
    total = sum(sol["sensitivities"]["constraints"].values())
    require(abs(total - sum(fn.answer[2][1:])) <= 1e-6*(1+total), "%s: the constraints' sensitivities sum to %r, its duals to %r", where,
            total, sum(fn.answer[2][1:]))
    # in another form
    fn2 = Function(case["form2"])
    sol2 = c07.solve(fresh(case["spec"]), "model", fn2)
    same(sol, sol2, where + " rather than " + case["form2"], 1e-6)
    if case["off"]:
        # reported as it is, even if it is not quite right
        fn3 = Function(case["form"], off=case["off"])
        with quiet() as said:
            sol3 = c07.solve(fresh(case["spec"]), "model", fn3)
        cost3, x3 = fn3.answer[:2]
        free3 = c07.expand(sol3["freevariables"])
        require(float(sol3["cost"]) == float(cost3) and sorted(free3.values()) == sorted(np.exp(x3)),
                "%s: with its values off by %s, cost %r and %s were reported, not %r and %s", where, case["off"], sol3["cost"],
                sol3["freevariables"], cost3, np.exp(x3))
        for key, val in c07.expand(sol["freevariables"]).items():
            require(abs(math.log(free3[key]/val)) <= abs(case["off"][0])+1e-9, "%s: %s moved from %r to %r", where, key, val, free3[key])
        if case["off"][1]:
            require("olution check" in said.getvalue(), "%s: with the cost off by %s, there was no warning", where, case["off"])
        labels.add("off")
    return Info(shape(b) and bool(big), labels)


# mskexpopt ----------------------------------------------------------------------------------

def parse_file(text):
    "An mskexpopt input file: posynomials and the number of variables."
    words = [line.split("*")[0].split() for line in text.split("\n")]
    words = [w for w in words if w]
    numcon, numvar, numter = [int(w[0]) for w in words[:3]]
    coeffs = [float(w[0]) for w in words[3:3+numter]]
    idxs = [int(w[0]) for w in words[3+numter:3+2*numter]]
    rows = np.zeros((numter, numvar))
    seen = set()
    for w in words[3+2*numter:]:
        require(len(w) == 3, "a line of the exponents reads %r", w)
        t, j, a = int(w[0]), int(w[1]), float(w[2])
        require(0 <= t < numter and 0 <= j < numvar and (t, j) not in seen, "exponent %s of a %s x %s program, or there twice", w, numter, numvar)
        seen.add((t, j))
        rows[t, j] = a
    require(all(c > 0 for c in coeffs), "coefficients %s", coeffs)
    require(set(idxs) == set(range(numcon+1)), "indices %s for an objective and %s constraints", idxs, numcon)
    order = [[t for t in range(numter) if idxs[t] == i] for i in range(numcon+1)]
    require(idxs == sorted(idxs), "the terms are not ordered: %s", idxs)
    return [[(coeffs[t], rows[t]) for t in ts] for ts in order], numvar


def solution_file(cost, x, nu, status="PRIMAL_AND_DUAL_FEASIBLE", style=0):
    "An mskexpopt solution file."
    num = "%.17e" if style != 1 else "%.15e"
    lines = ["PROBLEM STATUS      : " + status, "SOLUTION STATUS     : " + ("OPTIMAL" if style != 2 else "NEAR_OPTIMAL"),
             "OBJECTIVE           : " + num % cost, "", "PRIMAL VARIABLES", "INDEX   ACTIVITY"]
    lines += [("%i       " + num + ("   " if style else "")) % (i+1, v) for i, v in enumerate(x)]
    lines += ["", "DUAL VARIABLES", "INDEX   ACTIVITY"]
    lines += [("%i       " + num + " ") % (i+1, v) for i, v in enumerate(nu)]
    return "\n".join(lines) + "\n" + ("\n" if style == 1 else "")


SCRIPT = """#!/bin/sh
# a stand-in for MOSEK's mskexpopt
if [ "$2" != "-sol" ] || [ ! -f "$1" ]; then exit 77; fi
cp "$1" "%(d)s/given"
echo "stand-in at work"
if [ -f "%(d)s/answer" ]; then cp "%(d)s/answer" "$3"; fi
exit $(cat "%(d)s/code")
"""

CLIFAULTS = ["PRIMAL_INFEASIBLE", "DUAL_INFEASIBLE", "UNKNOWN", "PRIMAL_FEASIBLE", "exit 1", "exit 233", "exit 240", "no file", "empty file",
             "cut file", "bad number", "not executable", "few primals", "killed"]


def clicases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(0, 2)), "route": st.sampled_from(["solve", "model", "gp", "update"]), "style": st.integers(0, 2),
        "fault": st.one_of(st.none(), st.none(), st.sampled_from(CLIFAULTS)), "path": st.booleans(), "default": st.booleans(),
        "cut": st.integers(1, 8)})


class Cli:
    "Puts the stand-in on the path, and all temporary files in one place."

    def __init__(self, d):
        self.d = d
        self.bin, self.tmp, self.keep = (os.path.join(d, sub) for sub in ("bin", "tmp", "keep"))

    def __enter__(self):
        from gpkit import settings
        for sub in (self.bin, self.tmp, self.keep):
            os.mkdir(sub)
        self.exe = os.path.join(self.bin, "mskexpopt")
        with open(self.exe, "w") as f:
            f.write(SCRIPT % {"d": self.d})
        os.chmod(self.exe, 0o700)
        self.code(0)
        self.path, self.tempdir, self.settings = os.environ["PATH"], tempfile.tempdir, dict(settings)
        tempfile.tempdir = self.tmp
        settings["mosek_bin_dir"] = self.bin
        return self

    def __exit__(self, *_):
        from gpkit import settings
        os.environ["PATH"], tempfile.tempdir = self.path, self.tempdir
        settings.clear()
        settings.update(self.settings)

    def code(self, code):
        "The exit code."
        self.put("code", str(code))

    def put(self, name, text):
        "A file for the script."
        with open(os.path.join(self.d, name), "w") as f:
            f.write(text)

    def given(self):
        "What it got."
        with open(os.path.join(self.d, "given")) as f:
            return f.read()

    def clean(self, where):
        "Nothing left behind?"
        left = [os.path.join(base, f) for base, dirs, files in os.walk(self.tmp) for f in dirs + files]
        require(not left, "%s: %s remain", where, [os.path.relpath(f, self.d) for f in left])


class Handed(Exception):
    "What a solver was called with."


def handed(case, **kw):
    "The coefficients and exponents that a function given as the solver is called with."
    def solver(c, A, k, **_):
        raise Handed(np.array(c, float), A.tocoo() if hasattr(A, "tocoo") else A, list(k))
    b = fresh(case["spec"])
    try:
        c07.solve(b, case["route"], solver)
    except Handed as exc:
        return exc.args
    except Exception as exc:
        while exc is not None:   # the way GPs wrap what their solvers raise
            if isinstance(exc, Handed):
                return exc.args
            exc = exc.__cause__ or exc.__context__
        raise
    raise Discard


def asgiven(posys, given, where):
    "What MOSEK got is what any solver gets, to the last digits that matter."
    c, A, k = given
    require(sorted(len(p) for p in posys) == sorted(k), "%s: MOSEK got %s terms per posynomial, not %s", where,
            [len(p) for p in posys], k)
    for what, got, want in [("coefficients", [t[0] for p in posys for t in p], c),
                            ("exponents", [a for p in posys for _, row in p for a in row if a], [a for a in A.data if a])]:
        got, want = np.sort(np.array(got, float)), np.sort(np.array(want, float))
        require(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=0), "%s: MOSEK got the %s\n%s\nnot\n%s",
                where, what, list(got), list(want))


def clirun(case):
    "MOSEK's command line tool."
    from gpkit import settings
    b = fresh(case["spec"])
    where = "%s of\n%s\n with %s by mosek_cli" % (case["route"], b.cost, b.subs)
    cost, _ = b.ref.solve()
    with scratch() as d, Cli(d) as cli:
        solver = "mosek_cli"
        if case["default"]:
            settings["default_solver"], solver = "mosek_cli", None
        kw = {"path": cli.keep} if case["path"] else {}
        cli.code(1)
        fails(case["spec"], solver, "UnknownInfeasible", where + ", exit code 1", **kw)
        cli.clean(where + ", exit code 1")
        text = cli.given()
        posys, n = parse_file(text)
        asgiven(posys, handed(case, **kw), where)
        try:
            cost1, x, la = solve_gp(posys, n)
        except Stuck as exc:
            raise Discard from exc
        nu = termduals(posys, x, la)
        cli.code(0)
        cli.put("answer", solution_file(cost1, x, nu, style=case["style"]))
        if case["fault"]:
            kind = clifault(case, cli, (cost1, x, nu))
            tag = "%s which fails: %s" % (where, case["fault"])
            fails(case["spec"], solver, kind, tag, **kw)
            cli.clean(tag)
            return Info(shape(b), {case["fault"]} | ({"path"} if case["path"] else set()))
        sol = c07.solve(b, case["route"], solver, **kw)
        require(cli.given() == text, "%s: a second solve wrote\n%s\nnot\n%s", where, cli.given(), text)
        cli.clean(where)
        if case["path"]:
            require(os.listdir(cli.keep), "%s: no files in the path it was given", where)
            if case["cut"] % 2:   # again, over the files there
                b = fresh(case["spec"])
                sol = c07.solve(b, case["route"], solver, **kw)
    c07.verify(b, sol, cost, where)
    big = c08.check_sensitivities(b, sol, where, cost)
    require(abs(sol["cost"]-cost1) <= 1e-14*cost1, "%s: cost %r reported, not %r", where, sol["cost"], cost1)
    got, want = sorted(c07.expand(sol["freevariables"]).values()), sorted(np.exp(x))
    require(np.allclose(got, want, rtol=1e-12, atol=0), "%s: values %s reported, not %s", where, got, want)
    return Info(shape(b) and bool(big), {"style %i" % case["style"]} | ({"path"} if case["path"] else set()))


def clifault(case, cli, answer):
    "Sets the fault up; what it should raise."
    cost, x, nu = answer
    fault = case["fault"]
    answerfile = os.path.join(cli.d, "answer")
    if fault.startswith("exit"):
        code = int(fault.split()[1])
        cli.code(code)
        return "InvalidLicense" if code in (233, 240) else "UnknownInfeasible"
    if fault == "killed":
        with open(cli.exe, "w") as f:
            f.write("#!/bin/sh\nkill -9 $$\n")
    elif fault == "no file":
        os.remove(answerfile)
        if case["path"]:   # (there is none from an earlier solve)
            for f in os.listdir(cli.keep):
                os.remove(os.path.join(cli.keep, f))
    elif fault == "empty file":
        cli.put("answer", "")
    elif fault == "cut file":
        text = open(answerfile).read().split("\n")
        at = min(case["cut"], text.index("DUAL VARIABLES")-1)
        cli.put("answer", "\n".join(text[:at]) + "\n")
    elif fault == "bad number":
        cli.put("answer", solution_file(cost, x, nu).replace("OBJECTIVE           : ", "OBJECTIVE           : x"))
    elif fault == "few primals":
        cli.put("answer", solution_file(cost, x[:-1], nu))
        return "RuntimeWarning"
    elif fault == "not executable":
        os.remove(cli.exe)
        os.environ["PATH"] = cli.bin
    else:
        cli.put("answer", solution_file(cost, x, nu, fault))
        return {"PRIMAL_INFEASIBLE": "PrimalInfeasible", "DUAL_INFEASIBLE": "DualInfeasible"}.get(fault, "UnknownInfeasible")
    return "UnknownInfeasible"


# MOSEK's optimizer API ----------------------------------------------------------------------

class Names:
    "An enumeration."

    def __init__(self, kind, names):
        for name in names.split():
            setattr(self, name, "%s.%s" % (kind, name))


class MosekError(Exception):
    "mosek.Error"

    def __init__(self, errno):
        Exception.__init__(self, errno)
        self.errno, self.msg = errno, "stand-in"


class Task:
    "A MOSEK task, which remembers the conic program and solves it when told to."

    def __init__(self, mosek, numcon, numvar):
        self.mosek, self.failure, self.closed = mosek, None, False
        self.nvar, self.ncon = numvar, numcon
        self.a, self.cones, self.c, self.sense = {}, [], {}, mosek.objsense.minimize
        self.vb = [(mosek.boundkey.fx, 0.0, 0.0)]*numvar
        self.cb = [(mosek.boundkey.fr, 0.0, 0.0)]*numcon
        self.stream = None
        self.solved = None
        mosek.tasks.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True

    def appendvars(self, num):
        "fixed at zero at first"
        self.vb = self.vb + [(self.mosek.boundkey.fx, 0.0, 0.0)]*int(num)
        self.nvar += int(num)

    def appendcons(self, num):
        "free at first"
        self.cb = self.cb + [(self.mosek.boundkey.fr, 0.0, 0.0)]*int(num)
        self.ncon += int(num)

    def bounds(self, table, sub, keys, lower, upper):
        "Sets some."
        sub, keys, lower, upper = list(sub), list(keys), list(lower), list(upper)
        require(len(sub) == len(keys) == len(lower) == len(upper), "bounds of different lengths: %s %s %s %s", sub, keys, lower, upper)
        for i, key, lo, hi in zip(sub, keys, lower, upper):
            require(0 <= int(i) < len(table), "a bound on %s of %s", i, len(table))
            require(key in vars(self.mosek.boundkey).values(), "bound key %s", key)
            if key == self.mosek.boundkey.fx:
                require(lo == hi, "fixed at %s and %s", lo, hi)
            table[int(i)] = (key, float(lo), float(hi))

    def putvarboundlist(self, sub, keys, lower, upper):
        "variables'"
        self.bounds(self.vb, sub, keys, lower, upper)

    def putconboundlist(self, sub, keys, lower, upper):
        "constraints'"
        self.bounds(self.cb, sub, keys, lower, upper)

    def putvarbound(self, i, key, lo, hi):
        "one"
        self.bounds(self.vb, [i], [key], [lo], [hi])

    def putconbound(self, i, key, lo, hi):
        "one"
        self.bounds(self.cb, [i], [key], [lo], [hi])

    def appendconesseq(self, types_, params, numbers, first):
        "consecutive ones"
        first = int(first)
        for kind, n, _ in zip(types_, numbers, params):
            self.appendcone(kind, 0.0, range(first, first+int(n)))
            first += int(n)

    def appendcone(self, kind, _, members):
        "one"
        members = [int(i) for i in members]
        require(kind == self.mosek.conetype.pexp and len(members) == 3, "cone %s of %s", kind, members)
        require(max(members) < self.nvar and not set(members) & {i for cone in self.cones for i in cone}, "cone of %s, others %s",
                members, self.cones)
        self.cones.append(members)

    def putaijlist(self, rows, cols, vals):
        "coefficients, which replace earlier ones"
        rows, cols, vals = list(rows), list(cols), list(vals)
        require(len(rows) == len(cols) == len(vals), "coefficients of different lengths")
        for i, j, v in zip(rows, cols, vals):
            self.putaij(i, j, v)

    def putaij(self, i, j, v):
        "one"
        require(0 <= int(i) < self.ncon and 0 <= int(j) < self.nvar, "coefficient of (%s, %s) of %s by %s", i, j, self.ncon, self.nvar)
        self.a[int(i), int(j)] = float(v)

    def putclist(self, cols, vals):
        "the objective"
        for j, v in zip(list(cols), list(vals)):
            self.putcj(j, v)

    def putcj(self, j, v):
        "one"
        require(0 <= int(j) < self.nvar, "objective coefficient of %s", j)
        self.c[int(j)] = float(v)

    def putobjsense(self, sense):
        "minimize or maximize"
        self.sense = sense

    def putintparam(self, *_):
        "does not matter"

    putdouparam = putintparam
    solutionsummary = putintparam

    def set_Stream(self, _, fn):
        "For the log."
        self.stream = fn

    def optimize(self):
        "Solves it."
        outcome = self.mosek.outcome
        if self.stream:
            self.stream("stand-in at work")
        if outcome.startswith("err"):
            raise MosekError(getattr(self.mosek.rescode, outcome))
        if outcome in vars(self.mosek.solsta):
            if outcome != "optimal":
                self.solved = {"status": outcome}
                return
        try:
            self.solved = dict(solve_conic(self), status="optimal")
        except Stuck as exc:
            self.failure = exc
            raise

    def getsolsta(self, which):
        "status"
        require(which == self.mosek.soltype.itr, "solution type %s", which)
        return getattr(self.mosek.solsta, self.solved["status"])

    def piece(self, name, which, first, last, out, size):
        "Copies into a buffer."
        first, last = int(first), int(last)
        require(which == self.mosek.soltype.itr, "solution type %s", which)
        require(0 <= first <= last <= size and len(out) == last-first, "%s %s to %s of %s into %s places", name, first, last, size, len(out))
        for i, v in enumerate(self.solved[name][first:last]):
            out[i] = float(v)
            if name != "xx" and abs(out[i]) < 1e-8:
                out[i] = -3e-9   # as an interior point method may leave it

    def getxxslice(self, which, first, last, out):
        "values"
        self.piece("xx", which, first, last, out, self.nvar)

    def getsuxslice(self, which, first, last, out):
        "duals of upper bounds of variables"
        self.piece("sux", which, first, last, out, self.nvar)

    def getsucslice(self, which, first, last, out):
        "duals of upper bounds of constraints"
        self.piece("suc", which, first, last, out, self.ncon)

    def getprimalobj(self, which):
        "objective"
        require(which == self.mosek.soltype.itr, "solution type %s", which)
        return self.solved["objective"]


def solve_conic(task):
    "Minimizes c'y within linear bounds, with y[a] >= y[b]*exp(y[c]/y[b]) for each cone, where y[b] is fixed."
    from cvxopt import matrix, solvers
    bk = task.mosek.boundkey
    n = task.nvar
    fixed = {j: lo for j, (key, lo, _) in enumerate(task.vb) if key == bk.fx}
    for a, b, _ in task.cones:
        if fixed.get(b) != 1.0 or a in fixed:
            raise HarnessError("only cones with the middle variable fixed at one are supported")
    cols = [j for j in range(n) if j not in fixed]
    at = {j: i for i, j in enumerate(cols)}
    full = np.zeros((task.ncon, n))
    for (i, j), v in task.a.items():
        full[i, j] = v
    const = full[:, sorted(fixed)].dot([fixed[j] for j in sorted(fixed)]) if fixed else np.zeros(task.ncon)
    part = full[:, cols]
    grows, grhs, gwhat, arows, arhs = [], [], [], [], []
    for i, (key, lo, hi) in enumerate(task.cb):
        if key == bk.fx:
            arows.append(part[i])
            arhs.append(lo-const[i])
        if key in (bk.up, bk.ra):
            grows.append(part[i])
            grhs.append(hi-const[i])
            gwhat.append(("suc", i))
        if key in (bk.lo, bk.ra):
            grows.append(-part[i])
            grhs.append(const[i]-lo)
            gwhat.append(("slc", i))
    for j, (key, lo, hi) in enumerate(task.vb):
        row = np.zeros(len(cols))
        if j in at:
            row[at[j]] = 1.0
        if key in (bk.up, bk.ra):
            grows.append(row)
            grhs.append(hi)
            gwhat.append(("sux", j))
        if key in (bk.lo, bk.ra):
            grows.append(-row)
            grhs.append(-lo)
            gwhat.append(("slx", j))
    c = np.array([task.c.get(j, 0.0) for j in cols])
    if task.sense != task.mosek.objsense.minimize:
        c = -c
    grows, grhs = np.array(grows).reshape(-1, len(cols)), np.array(grhs)
    opp, ineq = pairs(grows, grhs)
    allrows = np.array(arows + [grows[i] for i, _ in opp]).reshape(-1, len(cols))
    allrhs = np.array(arhs + [grhs[i] for i, _ in opp])
    kw, kept = {}, []
    if len(allrows):
        kept = independent(allrows, allrhs)
        kw["A"], kw["b"] = matrix(allrows[kept]), matrix(allrhs[kept])
    if ineq:
        kw["G"], kw["h"] = matrix(grows[ineq]), matrix(grhs[ineq])
    exps = [(at[a], at.get(e), fixed.get(e)) for a, _, e in task.cones]

    def F(x=None, z=None):
        if x is None:
            return len(exps), matrix(0.0, (len(cols), 1))
        if max([x[e] for _, e, _ in exps if e is not None] or [0]) > 300:
            return None
        f, Df, H = np.zeros(len(exps)), np.zeros((len(exps), len(cols))), np.zeros((len(cols), len(cols)))
        for r, (a, e, fx) in enumerate(exps):
            v = math.exp(x[e] if e is not None else fx)
            f[r] = v-x[a]
            Df[r, a] -= 1.0
            if e is not None:
                Df[r, e] += v
                if z is not None:
                    H[e, e] += z[r]*v
        if z is None:
            return matrix(f), matrix(Df)
        return matrix(f), matrix(Df), matrix(H)
    try:
        sol = solvers.cpl(matrix(c), F, options=OPTS, **kw)
    except (ValueError, ArithmeticError) as exc:
        raise Stuck("cvxopt: %s" % exc) from exc
    if sol["status"] != "optimal" and (sol["gap"] is None or abs(sol["gap"]) > 1e-7 or not (sol["primal infeasibility"] or 1) < 1e-7):
        raise Stuck("cvxopt: %s" % sol["status"])
    y = np.zeros(n)
    y[cols] = np.ravel(sol["x"])
    for j, v in fixed.items():
        y[j] = v
    out = {"xx": y, "suc": np.zeros(task.ncon), "slc": np.zeros(task.ncon), "sux": np.zeros(n), "slx": np.zeros(n)}
    for i, z in zip(ineq, sol["zl"]):
        out[gwhat[i][0]][gwhat[i][1]] = z
    for r, z in zip(kept, sol["y"]):
        if r >= len(arows):
            one, other = opp[r-len(arows)]
            which, i = gwhat[one if z > 0 else other]
            out[which][i] = abs(z)
    out["objective"] = sum(v*y[j] for j, v in task.c.items())
    return out


class Mosek(types.ModuleType):
    "The stand-in module."

    def __init__(self, outcome):
        types.ModuleType.__init__(self, "mosek")
        self.outcome, self.tasks, self.envs = outcome, [], []
        self.boundkey = Names("boundkey", "lo up fx fr ra")
        self.conetype = Names("conetype", "quad rquad pexp dexp ppow dpow zero")
        self.objsense = Names("objsense", "minimize maximize")
        self.streamtype = Names("streamtype", "log msg err wrn")
        self.iparam = Names("iparam", "infeas_report_auto log_presolve log num_threads")
        self.dparam = Names("dparam", "intpnt_tol_pfeas")
        self.onoffkey = Names("onoffkey", "on off")
        self.rescode = Names("rescode", "ok err_missing_license_file err_license_version err_license_expired err_space err_license")
        self.soltype = Names("soltype", "itr bas itg")
        self.solsta = Names("solsta", "unknown optimal prim_feas dual_feas prim_and_dual_feas prim_infeas_cer dual_infeas_cer")
        self.Error = MosekError
        stub = self

        class Env:
            "mosek.Env"

            def __init__(self, *_, **__):
                self.closed = False
                stub.envs.append(self)

            def Task(self, numcon=0, numvar=0):
                "A new one."
                return Task(stub, numcon, numvar)

            def __enter__(self):
                return self

            def __exit__(self, *_):
                self.closed = True

            def set_Stream(self, *_):
                "For the log."
        self.Env = Env

    def __enter__(self):
        self.before = {name: sys.modules.get(name) for name in ("mosek", "gpkit.solvers.mosek_conif")}
        sys.modules["mosek"] = self
        sys.modules.pop("gpkit.solvers.mosek_conif", None)
        return self

    def __exit__(self, *_):
        import gpkit.solvers as package
        for name, module in self.before.items():
            sys.modules.pop(name, None)
            if module is not None:
                sys.modules[name] = module
        if self.before["gpkit.solvers.mosek_conif"] is None and hasattr(package, "mosek_conif"):
            del package.mosek_conif


CONIFFAULTS = {"prim_infeas_cer": "PrimalInfeasible", "dual_infeas_cer": "DualInfeasible", "unknown": "UnknownInfeasible",
               "prim_feas": "UnknownInfeasible", "err_missing_license_file": "InvalidLicense", "err_license_version": "InvalidLicense",
               "err_license_expired": "InvalidLicense", "err_space": "UnknownInfeasible"}


def conifcases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(0, 2)), "route": st.sampled_from(["solve", "model", "gp", "update"]), "verbose": st.booleans(),
        "fault": st.one_of(st.none(), st.none(), st.none(), st.sampled_from(sorted(CONIFFAULTS))), "default": st.booleans()})


def conifrun(case):
    "MOSEK's optimizer API."
    from gpkit import settings
    b = fresh(case["spec"])
    where = "%s of\n%s\n with %s by mosek_conif" % (case["route"], b.cost, b.subs)
    cost, _ = b.ref.solve()
    kw = {} if case["verbose"] else {"verbose": False}
    old = dict(settings)
    with Mosek(case["fault"] or "optimal") as mosek:
        try:
            solver = "mosek_conif"
            if case["default"]:
                settings["default_solver"], solver = "mosek_conif", None
            if case["fault"]:
                fails(case["spec"], solver, CONIFFAULTS[case["fault"]], "%s which fails: %s" % (where, case["fault"]), **kw)
                return Info(shape(b), {case["fault"]})
            try:
                sol = c07.solve(b, case["route"], solver, **kw)
            except Exception:
                if mosek.tasks and mosek.tasks[-1].failure:
                    raise Discard from None
                raise
        finally:
            settings.clear()
            settings.update(old)
    task = mosek.tasks[-1]
    require(len(mosek.tasks) == 1 and task.closed and all(env.closed for env in mosek.envs), "%s: %i tasks made, or not closed", where,
            len(mosek.tasks))
    c07.verify(b, sol, cost, where)
    big = c08.check_sensitivities(b, sol, where, cost)
    least = min([float(v) for v in sol["sensitivities"]["constraints"].values()], default=0.0)
    require(least >= 0, "%s: a constraint's sensitivity is %r", where, least)
    require(abs(sol["cost"]-math.exp(task.solved["objective"])) <= 1e-12*sol["cost"], "%s: cost %r reported, not %r", where, sol["cost"],
            math.exp(task.solved["objective"]))
    values = set(np.exp(task.solved["xx"]))
    for key, val in c07.expand(sol["freevariables"]).items():
        require(val in values, "%s: %s is reported as %r, which is none of the task's values", where, key, val)
    return Info(shape(b) and bool(big), {"verbose" if case["verbose"] else "quiet"} | ({"equality"} if b.ref.eqs else set()))


CHECKS = {"function": {"strategy": fncases(), "run": fnrun, "quick": 200, "thorough": 6000},
          "cli": {"strategy": clicases(), "run": clirun, "quick": 140, "thorough": 4000},
          "conif": {"strategy": conifcases(), "run": conifrun, "quick": 140, "thorough": 4000}}
