"C24: results don't depend on what was built, solved or printed before."
import math
import os
import pickle
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require, scratch
from .. import gpgen
from . import c10
from .c11 import zeroable

RULE = ("a history of two to eight operations on one to three models sharing their constraints, each model then compared with one"
        " built afresh; non-trivial when one of the operations was an earlier solve under other circumstances (other values, options,"
        " a failure, a sweep, relaxation or debugging) and the comparison was of optimal solutions")
ASSUMPTIONS = ("cvxopt is deterministic up to its tolerance for the same program in the same or another order of rows and columns",
               "both models' variables' values are given as substitutions")
FILES = ["savemat", "savecsv", "savetxt", "save", "save_compressed", "table", "summary", "diff", "plot"]
FACTORS = [0.5, 2.0, 1.3, 0.7, 1.0]


def op(sp):
    "An operation: [name, model, ...]."
    i, k = st.integers(0, 2), st.integers(0, 2)
    f = st.sampled_from(FACTORS)
    common = [
        st.tuples(st.just("probe"), i), st.tuples(st.just("probe"), i), st.tuples(st.just("set"), i, k, f), st.tuples(st.just("set"), i, k, f),
        st.tuples(st.just("element"), i, k, f), st.tuples(st.just("restore"), i), st.tuples(st.just("free"), i, k),
        st.tuples(st.just("badsolver"), i, st.sampled_from(["raise", "interrupt", "nothing", "primal", "nodual", "infeasible", "print"])),
        st.tuples(st.just("print"), i, st.sampled_from(["str", "latex", "repr", "without", "sol", "table", "lines", "debugstr"])),
        st.tuples(st.just("other"), st.integers(0, 4)), *[st.tuples(st.just("files"), i, st.sampled_from([True, True, False]), st.sampled_from(FILES))]*2, st.tuples(st.just("pickle"), i), st.tuples(st.just("verbose"), i, st.integers(1, 4)),
        st.tuples(st.just("temporary"), i, k, f), st.tuples(st.just("cost"), i, st.sampled_from([2, 3, 1])),
        st.tuples(st.just("link"), i, k, f), st.tuples(st.just("zero"), i, k), st.tuples(st.just("solution"), i),
        st.tuples(st.just("bad substitution"), i, k)]
    gp = [
        st.tuples(st.just("extreme"), i, k, st.sampled_from([1e4, 1e-4]), st.integers(0, 1)),
        st.tuples(st.just("options"), i, st.sampled_from(["maxiters", "feastol", "kktsolver", "abstol", "refinement", "unknown"])),
        st.tuples(st.just("sweep"), i, k, st.lists(st.sampled_from(FACTORS + [1e4]), min_size=1, max_size=3), st.booleans(), st.booleans()),
        st.tuples(st.just("debug"), i), st.tuples(st.just("relax"), i, st.sampled_from(["all", "each", "constants", "bounded"])),
        st.tuples(st.just("program"), i, st.sampled_from(["gp", "nobounds", "noresult", "noprocess", "twice"])),
        st.tuples(st.just("autosweep"), i, k), st.tuples(st.just("embed"), i), st.tuples(st.just("context"), i)]
    local = [
        st.tuples(st.just("local"), i, st.sampled_from(["x0", "limit", "reltol", "nopccp", "penalty", "results", "twice", "gp"]),
                 st.integers(0, 3)),
        st.tuples(st.just("local"), i, st.sampled_from(["x0", "limit", "reltol", "nopccp"]), st.integers(0, 3)),
        st.tuples(st.just("debug"), i)]
    return st.one_of(common + (local if sp else gp))


def cases(sp=False):
    "Strategy."
    return st.fixed_dictionaries({
        "spec": c10.cases() if sp else gpgen.specs(nfixed=(1, 3)), "sp": st.just(sp),
        "ops": st.lists(op(sp), min_size=2, max_size=8), "shared": st.booleans(),
        "groups": st.sampled_from([["", "", ""], ["", "A", "A.B"], ["A", "A", "A.B"], ["A.B", "A.B", ""]])})


class World:
    "Models and what they should be like: `values` of fixed variables and the cost's `power`."

    def __init__(self, case):
        self.case = case
        self.b = self.built()
        self.fixed = sorted(k for k in self.b.used if k in self.b.ref.fixed)
        if not self.fixed:
            raise Discard
        n = 3 if case["shared"] else 1
        self.values = [{k: self.b.ref.fixed[k] for k in self.fixed} for _ in range(n)]
        self.power = [1, 2, 1][:n]
        self.models = [self.make(self.b, self.values[i], self.power[i]) for i in range(n)]
        self.kept = []

    def built(self):
        "The variables and constraints."
        if self.case["sp"]:
            return c10.build(self.case["spec"])
        groups = self.case["groups"]
        if not any(groups):
            return gpgen.build(self.case["spec"])
        from gpkit import NamedVariables
        NamedVariables.reset_modelnumbers()   # the same names each time
        return gpgen.build(self.case["spec"], groups=((lambda k: groups[k % 3]), (lambda j: groups[j % 3])))

    def make(self, b, values, power):
        "A model of them."
        from gpkit import Model
        m = Model(b.cost**power, b.constraints)
        for k in self.fixed:
            if k in values:
                m.substitutions[b.vars[k]] = values[k]
            elif b.vars[k] in m.substitutions:
                del m.substitutions[b.vars[k]]
        return m

    def solve(self, m, **kw):
        "By its kind's method."
        kw.setdefault("verbosity", 0)
        return m.localsolve(**kw) if self.case["sp"] else m.solve(**kw)

    def outcome(self, b, m, **kw):
        "What a solve results in."
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                sol = self.solve(m, **kw)
            except Exception as exc:   # pylint: disable=broad-except
                return {"raised": type(exc).__name__, "message": str(exc)[:200]}, None
        out = summary(b, sol)
        out["short"] = m.str_without(["unnecessary lineage"]) + "\n" + m.latex(["unnecessary lineage"])
        out["warned"] = sorted({str(w.message)[:20] for w in caught if "SGP" in str(w.message) or "slacken" in str(w.message)})
        return out, sol


def scalars(kd):
    "{ident: value} of a KeyDict."
    out = {}
    for key, val in kd.items():
        if key.shape and not key.idx:
            for el in np.ndindex(*key.shape):
                if not np.isnan(val[el]):
                    out[(key.name, key.lineage, el)] = float(val[el])
        else:
            out[(key.name, key.lineage, key.idx)] = float(val)
    return out


def summary(b, sol):
    "Of a solution, comparable across builds."
    senss = sol["sensitivities"]
    out = {"cost": float(sol["cost"]), "variables": scalars(sol["variables"]), "freevariables": scalars(sol["freevariables"]),
           "constants": scalars(sol["constants"]), "s variables": scalars(senss["variables"]),
           "s cost": {ident_of(k): float(v) for k, v in senss["cost"].items()}, "s models": {str(k): float(v) for k, v in senss["models"].items()},
           "s constraints": {i: float(senss["constraints"][c]) for i, c in enumerate(b.constraints) if c in senss["constraints"]},
           "modelstr": sol.modelstr}
    out["n constraints"] = len(senss["constraints"])
    return out


def ident_of(k):
    "As `ident`, of a key."
    return (k.name, k.lineage, k.idx)


def same(a, b, sp):
    "The first difference, or None."
    if set(a) != set(b) or a.get("raised") != b.get("raised"):
        if {a.get("raised"), b.get("raised")} <= {"UnknownInfeasible", "PrimalInfeasible", "DualInfeasible"}:
            return None   # its solver's failures depend on the order
        return "%s, not %s" % (a.get("raised") and a or "solved", b.get("raised") and b or "solved")
    if "raised" in a:
        return None
    if a["warned"] != b["warned"]:
        return "warned %s, not %s" % (a["warned"], b["warned"])
    if a["modelstr"] != b["modelstr"]:
        return "the model is printed\n%s\nnot\n%s" % (a["modelstr"], b["modelstr"])
    if a["short"] != b["short"]:
        return "without unnecessary lineage, it is printed\n%s\nnot\n%s" % (a["short"], b["short"])
    if a["warned"]:
        return None
    if abs(a["cost"]-b["cost"]) > 1e-4*abs(b["cost"]):
        return "cost %r, not %r" % (a["cost"], b["cost"])
    if a["n constraints"] != b["n constraints"]:
        return "%i constraints' sensitivities, not %i" % (a["n constraints"], b["n constraints"])
    for sec in a:
        if not isinstance(a[sec], dict):
            continue
        if set(a[sec]) != set(b[sec]) and sec not in ("s cost", "s variables"):
            return "%s of %s, not of %s" % (sec, sorted(map(str, a[sec])), sorted(map(str, b[sec])))
        for k in set(a[sec]) | set(b[sec]):
            va, vb = a[sec].get(k, 0.0), b[sec].get(k, 0.0)
            tol = 1e-9 if sec == "constants" else (2e-2 if sp else 4e-3)
            if sec.startswith("s "):
                ok = abs(va-vb) <= tol*(1 + abs(vb))
            else:
                ok = abs(va-vb) <= tol*max(1e-3, abs(va), abs(vb))
            if not (ok or math.isnan(va) and math.isnan(vb)):
                return "%s: %s is %r, not %r" % (sec, k, va, vb)
    return None


def settings_now():
    "What is set for the whole process."
    import cvxopt
    import gpkit
    from gpkit.constraints import gp as gpmod
    return {"stdout": id(sys.stdout), "stderr": id(sys.stderr), "options": repr(sorted(cvxopt.solvers.options.items())),
            "errstate": repr(np.geterr()), "settings": repr(sorted(gpkit.settings.items(), key=str)), "filters": repr(warnings.filters),
            "defaults": repr(gpmod.DEFAULT_SOLVER_KWARGS), "print": repr(np.get_printoptions()), "recursion": sys.getrecursionlimit()}


def probe(w, i, where):
    "Model i and a fresh one."
    fresh = w.built()
    got, sol = w.outcome(w.b, w.models[i])
    want, _ = w.outcome(fresh, w.make(fresh, w.values[i], w.power[i]))
    diff = same(got, want, w.case["sp"])
    require(diff is None, "%s\na fresh model's solution differs: %s", where, diff)
    if sol is not None:
        w.kept.append((sol, got))
    return "raised" not in got


class Oops(Exception):
    "A solver's."


def badsolver(kind):
    "A solver function that doesn't work out."
    from gpkit.exceptions import PrimalInfeasible
    from gpkit.solvers.cvxopt import optimize

    def solver(**kw):
        print("a solver's output")
        if kind == "raise":
            raise Oops("no")
        if kind == "interrupt":
            raise KeyboardInterrupt
        if kind == "infeasible":
            raise PrimalInfeasible()
        if kind == "nothing":
            return {}
        out = optimize(**kw)
        if kind == "primal":
            out["primal"] = []
        if kind == "nodual":
            out.pop("nu")
            out.pop("la", None)
        return out
    return solver


def do(w, o):
    "An operation other than a probe; returns whether it solved something otherwise."
    name, b = o[0], w.b
    i = o[1] % len(w.models)
    m, values = w.models[i], w.values[i]
    key = w.fixed[o[2] % len(w.fixed)] if len(o) > 2 and isinstance(o[2], int) else None
    var = b.vars[key] if key is not None else None
    if name == "set":
        values[key] = b.ref.fixed[key]*o[3]
        m.substitutions[var] = values[key]
        return False
    if name == "element":
        values[key] = b.ref.fixed[key]*o[3]
        m.substitutions.update({var.key: values[key]})
        return False
    if name == "restore":
        for k in w.fixed:
            values[k] = b.ref.fixed[k]
            m.substitutions[b.vars[k]] = values[k]
        return False
    if name == "free":
        if key in values:
            del m.substitutions[var]
            del values[key]
        return False
    if name == "cost":
        w.power[i] = o[2]
        m.cost = b.cost**o[2]
        return False
    before = dict(values)
    if name in ("extreme", "temporary", "link", "zero", "bad substitution"):
        def put(k, v):
            m.substitutions[b.vars[k]] = v
        if name == "link":
            others = [k for k in w.fixed if k != key and k in values]
            if not others or key not in values:
                return False
            base = b.vars[others[0]]
            put(key, lambda c: c[base]*o[3]*values[key]/values[others[0]])
        elif name == "zero":
            if w.case["sp"] or not zeroable(b, key):
                return False
            put(key, 0.0)
        elif name == "bad substitution":
            put(key, "nonsense")
        elif name == "temporary":
            put(key, b.ref.fixed[key]*o[3])
        else:
            put(key, b.ref.fixed[key]*o[3])
            if o[4]:
                for k in w.fixed:
                    put(k, b.ref.fixed[k]*o[3]**(-1)**k)
        w.outcome(b, m)
        for k in w.fixed:
            if k in before:
                put(k, before[k])
            elif b.vars[k] in m.substitutions:
                del m.substitutions[b.vars[k]]
        return True
    if name == "badsolver":
        try:
            w.solve(m, solver=badsolver(o[2]))
        except KeyboardInterrupt:
            pass
    elif name == "verbose":
        w.solve(m, verbosity=o[2])
    elif name == "print":
        if o[2] in ("sol", "table"):
            sol = w.solve(m)
            str(sol.table() if o[2] == "sol" else sol.summary())
            str(sol)
        elif o[2] == "debugstr":
            m.program and str(m.program)
            str(m.bounded)
        else:
            {"str": lambda: str(m), "latex": m.latex, "repr": lambda: repr(m), "lines": lambda: m.lines_without(["lineage"]),
             "without": lambda: m.str_without(["units", "unnecessary lineage"])}[o[2]]()
            return False
    elif name == "solution":
        sol = w.solve(m)
        sol["variables"][b.vars[sorted(b.used)[0]]] = 17.0
        sol["cost"] = -1.0
        sol["sensitivities"]["variables"].clear()
        sol["constants"].clear()
    elif name == "pickle":
        pickle.loads(pickle.dumps(m))
        sol = w.solve(m)
        sol = pickle.loads(pickle.dumps(sol))
        sol.table()
    elif name == "other":
        other(w, o[1])
    elif name == "files":
        files(w, m, o[2], o[3])
    elif name == "debug":
        m.debug(verbosity=1)
    elif name == "local":
        local(w, m, o)
    else:
        gpop(w, m, o, var)
    return True


def files(w, m, more, kind):
    "A solution saved, of a model whose variables' names may be those of others, too."
    from gpkit import Model, Variable
    b = w.b
    if more:
        ys = [Variable(b.vars[j].key.name) for j in sorted(b.used)]
        cost = b.cost
        for y in ys:
            if y.key not in {b.vars[j].key for j in b.used}:
                cost = cost*y
        m = Model(cost, [b.constraints] + [y >= 0.1 for y in ys], {b.vars[k]: b.ref.fixed[k] for k in w.fixed})
    sol = w.solve(m)
    with scratch() as d:
        name = os.path.join(d, "file")
        if kind == "table":
            sol.table(tables=("cost", "freevariables", "tightest constraints"))
        elif kind == "summary":
            sol.summary()
        elif kind == "diff":
            sol.diff(sol, reltol=1e-9, senssdiff=True, absdiff=True)
        elif kind == "plot":
            sol.name_collision_varkeys()
        else:
            getattr(sol, kind)(filename=name)


def other(w, kind):
    "Another model of the same variables."
    from gpkit import Model, Variable, units
    b = w.b
    k = sorted(b.used)[0]
    unit = w.case["spec"]["spec" if w.case["sp"] else "var"]
    unit = (unit["var"] if w.case["sp"] else unit)[k]["u"]
    x = b.vars[k]/units(unit) if unit else b.vars[k]
    if kind == 0:
        Model(x, [x >= 2]).solve(verbosity=0)
    elif kind == 1:
        y = Variable(b.vars[k].key.name)
        Model(y, [y >= 3, y <= 1]).solve(verbosity=0)
    elif kind == 4:   # a name that's in more than one model
        y = [Variable(b.vars[j].key.name) for j in b.used]
        m = Model(b.cost, [b.constraints, [yj >= 1 for yj in y]])
        str(m)
        m.latex()
    elif kind == 2:
        w.solve(Model(b.cost, b.constraints[:-1], dict(w.models[0].substitutions)))
    else:
        w.solve(Model(b.cost, list(b.constraints) + [x >= 1e-9], {b.vars[k]: 1.1*b.ref.fixed[k] for k in w.fixed}))


def local(w, m, o):
    "Something with a local solve."
    spec = w.case["spec"]
    point = {w.b.vars[k]: spec["points"][o[3] % len(spec["points"])][k] for k in range(spec["spec"]["n"]) if k in w.b.used}
    if o[2] == "x0":
        m.localsolve(verbosity=0, x0=point)
    elif o[2] == "limit":
        m.localsolve(verbosity=0, iteration_limit=o[3])
    elif o[2] == "reltol":
        m.localsolve(verbosity=0, reltol=10.**-(o[3]+1))
    elif o[2] == "nopccp":
        m.sp(use_pccp=False).localsolve(verbosity=0)
    elif o[2] == "penalty":
        m.localsolve(verbosity=0, pccp_penalty=10.**o[3])
    elif o[2] == "gp":
        m.sp().gp(point)
    else:
        sp = m.sp()
        sp.localsolve(verbosity=0, x0=point)
        if o[2] == "twice":
            sp.localsolve(verbosity=0)
        else:
            str(sp.results)


def gpop(w, m, o, var):
    "Something with a global solve."
    from gpkit import Model
    from gpkit.constraints.bounded import Bounded
    from gpkit.constraints.loose import Loose
    from gpkit.constraints.relax import ConstantsRelaxed, ConstraintsRelaxed, ConstraintsRelaxedEqually
    from gpkit.constraints.tight import Tight
    b, name = w.b, o[0]
    if name == "options":
        kw = {"maxiters": {"maxiters": 2}, "feastol": {"feastol": 1e-2, "abstol": 1.}, "kktsolver": {"kktsolver": "chol"},
              "abstol": {"abstol": 1e-1, "reltol": 1e-1}, "refinement": {"refinement": 2}, "unknown": {"nonesuch": 3}}[o[2]]
        w.solve(m, **kw)
    elif name == "sweep":
        vals = [b.ref.fixed[w.fixed[o[2] % len(w.fixed)]]*f for f in o[3]]
        if o[5]:
            m.sweep({var: vals}, verbosity=0, skipsweepfailures=o[4])
        else:
            had = m.substitutions[var] if var in m.substitutions else None
            m.substitutions[var] = ("sweep", vals)
            try:
                m.solve(verbosity=0, skipsweepfailures=o[4])
            finally:
                if had is None:
                    del m.substitutions[var]
                else:
                    m.substitutions[var] = had
    elif name == "autosweep":
        x = b.ref.fixed[w.fixed[o[2] % len(w.fixed)]]
        m.autosweep({var: (x, 1.1*x)}, tol=0.1, samplepoints=3, verbosity=0)
    elif name == "relax":
        rel = {"all": ConstraintsRelaxedEqually, "each": ConstraintsRelaxed, "constants": ConstantsRelaxed, "bounded": Bounded}[o[2]](m)
        cost = m.cost
        if o[2] != "bounded":
            cost = cost*(rel.relaxvar if o[2] == "all" else rel.relaxvars.prod())**20
        Model(cost, rel).solve(verbosity=0)
    elif name == "program":
        if o[2] == "gp":
            m.gp().solve(verbosity=0)
        elif o[2] == "nobounds":
            m.gp(checkbounds=False).check_bounds()
        elif o[2] == "noresult":
            out = m.gp().solve(verbosity=0, gen_result=False)
            out["primal"][0] = 5
        elif o[2] == "noprocess":
            m.solve(verbosity=0, process_result=False)
        else:
            gp = m.gp()
            gp.solve(verbosity=0)
            gp.solve(verbosity=0)
    elif name == "embed":
        Model(m.cost, [m, Tight([b.constraints[0]])]).solve(verbosity=0)
    elif name == "context":
        Model(m.cost, [Loose([b.constraints[0]]), list(b.constraints)], dict(m.substitutions)).solve(verbosity=0)


def run(case):
    "A history."
    w = World(case)
    where = "minimising %s subject to %s with %s" % (w.b.cost, w.b.constraints, {str(w.b.vars[k]): v for k, v in w.values[0].items()})
    before = settings_now()
    done, otherwise, solved = [], False, False
    for o in case["ops"]:
        done.append(o)
        here = "%s\nafter %s" % (where, done)
        if o[0] == "probe":
            solved = probe(w, o[1] % len(w.models), here) and otherwise or solved
        else:
            # what it does is for other checks to judge
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    otherwise = do(w, o) or otherwise
                except Exception:   # pylint: disable=broad-except
                    otherwise = True
        now = settings_now()
        require(now == before, "%s\nsettings are %s, not %s", here, {k: v for k, v in now.items() if v != before[k]},
                {k: v for k, v in before.items() if v != now[k]})
    here = "%s\nafter %s" % (where, done)
    for i in range(len(w.models)):
        solved = probe(w, i, "%s, model %i" % (here, i)) or solved
    for sol, had in w.kept:   # earlier solutions are what they were
        now = summary(w.b, sol)
        now["short"], now["warned"] = had["short"], had["warned"]
        require(repr(now) == repr(had), "%s\nan earlier solution became\n%s\ninstead of\n%s", here, now, had)
    return Info(otherwise and solved, sorted({o[0] for o in case["ops"]}), here)


CHECKS = {"geometric": {"strategy": cases(), "run": run, "quick": 250, "thorough": 4000},
          "signomial": {"strategy": cases(True), "run": run, "quick": 80, "thorough": 1500}}
