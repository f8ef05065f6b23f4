"C29: a solver's answer that does not solve the program is always told, and no other is."
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, quiet, require
from .. import gpgen
from . import c25

RULE = ("a geometric program, its true optimum and duals from a stand-in solver, and a fault of some size put into one part of that"
        " answer (values, cost, a term's or a constraint's dual); non-trivial when the fault clearly is beyond the tolerance of the"
        " solver so named, or is there but clearly within it")
ASSUMPTIONS = ("a solver function called as one of the known solvers is held to that solver's tolerance",
               "faults within a factor of two of the tolerance may go either way")
TOLS = {"standin": 1e-5, "cvxopt": 1e-3, "mosek_cli": 1e-4, "mosek_conif": 1e-3}
SIZES = [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 4e-6, 3e-5, 1e-4, 4e-4, 3e-3, 0.02, 0.3, 2.0]
KINDS = ["none", "x", "x", "xcost", "xcost", "cost", "nu", "nu", "nushift", "neg", "negsmall", "scalecost", "scalecon", "scaleall",
         "zero", "allzero", "drop", "scale", "only", "only", "only", "only"]


def cases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(0, 2)), "name": st.sampled_from(sorted(TOLS)), "form": st.sampled_from(["nu", "nu", "la", "la short"]),
        "kind": st.sampled_from(KINDS), "size": st.sampled_from(SIZES), "sign": st.sampled_from([1, -1]),
        "which": st.integers(0, 30), "along": st.integers(0, 3),
        "route": st.sampled_from(["solve", "solve", "gp", "later", "nodual", "sweep"]), "point": st.integers(0, 2),
        "verbosity": st.sampled_from([0, 0, 1]), "unitcost": st.booleans()})


class Faulty:
    "A solver function whose answers have a fault, on some calls."

    def __init__(self, case, on):
        self.__name__ = case["name"]
        self.case, self.on = case, on
        self.calls, self.failure, self.judged = 0, None, []

    def __call__(self, *, c, A, k, p_idxs, meq_idxs, **_):
        case = self.case
        inner = c25.Function("nu")
        posys, n = inner.decode(c, A, k, p_idxs)
        try:
            cost, x, la = c25.solve_gp(posys, n)
        except c25.Stuck as exc:
            self.failure = exc
            raise
        nu = c25.termduals(posys, x, la)
        starts = np.cumsum([0] + [len(p) for p in posys])
        kind, size = case["kind"], case["size"]*case["sign"]
        if self.on is not None and self.calls not in self.on:
            kind = "none"
        self.calls += 1
        x, nu, la = x.copy(), nu.copy(), la.copy()
        if kind in ("x", "xcost"):
            step = np.cos(np.arange(n)*case["along"])
            if case["along"] == 3:
                step = np.eye(n)[case["which"] % n]
            x = x + size*step
            if kind == "xcost":
                cost = c25.value(posys[0], x)
        elif kind == "cost":
            cost *= 1+size if size > -1 else 0.1
        elif kind == "scalecost":
            nu[:starts[1]] *= 1+size
            la[0] *= 1+size
        elif kind == "scalecon" and len(posys) > 1:
            i = 1 + case["which"] % (len(posys)-1)
            nu[starts[i]:starts[i+1]] *= abs(1+size)
            la[i] *= abs(1+size)
        elif kind == "scaleall":
            nu[starts[1]:] *= abs(1+size)
            la[1:] *= abs(1+size)
        elif kind in ("nu", "nushift", "neg", "negsmall", "zero"):
            i = case["which"] % len(nu)
            nu[i] = {"nu": nu[i]*abs(1+size), "nushift": nu[i]+abs(size), "neg": -abs(size),
                     "negsmall": -abs(size)*1e-4, "zero": 0.0}[kind]
        elif kind == "scale":
            nu *= abs(1+size)
            la *= abs(1+size)
        elif kind == "only":
            nu = only(posys, nu, size, case["which"])
        elif kind == "allzero":
            nu[starts[1]:] = 0.0
            la[1:] = 0.0
        elif kind == "drop":   # a constraint said not to matter
            i = case["which"] % len(posys)
            nu[starts[i]:starts[i+1]] = 0.0
            la[i] = 0.0
        form = "nu" if kind == "only" else case["form"]
        if form.startswith("la"):
            if "short" in form:
                la[0] = 1.0
            nu = c25.termduals(posys, x, la)
        out = {"status": "optimal", "objective": cost, "primal": x}
        if form == "nu":
            out["nu"] = nu
            la = np.array([sum(nu[a:b]) for a, b in zip(starts, starts[1:])])
        else:
            out["la"] = la[1:] if "short" in form else la
        self.judged.append(judge(posys, cost, x, nu, la, TOLS[case["name"]]))
        self.answer = cost, x
        return out


def only(posys, nu, size, which):
    "Duals for which one of the conditions fails and the others hold, to first order."
    rows = np.array([e for p in posys for _, e in p], dtype=float)
    starts = np.cumsum([0] + [len(p) for p in posys])
    las = np.concatenate([[sum(nu[a:b])]*(b-a) for a, b in zip(starts, starts[1:])])
    cs = np.array([c for p in posys for c, _ in p])
    active = nu > 3*abs(size)
    if not active.any():
        return nu
    conditions = np.vstack([rows.T, np.arange(len(nu)) < starts[1], np.log(cs) - np.log(np.where(active, nu, 1)/np.where(active, las, 1))])
    conditions = conditions[:, active]
    wanted = np.zeros(len(conditions))
    wanted[which % len(wanted)] = size
    step = np.linalg.lstsq(conditions, wanted, rcond=1e-9)[0]
    out = nu.copy()
    out[active] += step
    return out if (out[active] > 0).all() else nu


def judge(posys, cost, x, nu, la, tol):
    "{what should hold: by how many tolerances it doesn't}"
    def ratio(a, b):
        return abs(a-b)/abs(a+b)/tol if a != b else 0.0
    out = {"Primal cost": ratio(c25.value(posys[0], x), cost)}
    out["Primal constraints"] = max([(c25.value(p, x)-1)/tol for p in posys[1:]], default=0.0)
    starts = np.cumsum([0] + [len(p) for p in posys])
    out["Dual sum"] = ratio(sum(nu[:starts[1]]), 1.0) if sum(nu[:starts[1]]) > -0.5 else math.inf
    out["Dual negative"] = max(-min(nu), 0.0)/(tol/1000)
    rows = np.array([e for p in posys for _, e in p], dtype=float)
    out["Dual stationarity"] = np.abs(rows.T.dot(nu)).max()/tol if rows.shape[1] else 0.0
    total, odd = 0.0, False
    for i, p in enumerate(posys):
        for (c, _), v in zip(p, nu[starts[i]:starts[i+1]]):
            if v > 0 and la[i] > 0:
                total += v*(math.log(c) - math.log(v/la[i]))
            elif v > 0 or la[i] < 0:
                odd = True   # no logarithm
    out["Dual cost"] = (ratio(math.exp(total), cost) if total < 700 else math.inf) if not odd else None
    return out


def run(case):
    "Are faults told, and only they?"
    from gpkit import Model
    b = c25.fresh(case["spec"])
    route = case["route"]
    fixed = sorted(b.ref.fixed)
    if route == "sweep" and not fixed:
        route = "solve"
    fn = Faulty(case, {case["point"]} if route == "sweep" else None)
    cost = b.cost
    if case["unitcost"]:   # scaled such that its optimum is one
        cost = cost*(1/b.ref.solve()[0])
    m = Model(cost, b.constraints, b.subs)
    where = "%s of\n%s\n with %s by a function called %s whose answer has a fault: %s of %g" % (
        route, m, b.subs, case["name"], case["kind"], case["size"]*case["sign"])
    dual = True
    with quiet() as said:
        try:
            if route == "sweep":
                k = fixed[case["which"] % len(fixed)]
                v = b.ref.fixed[k]
                m.substitutions[b.vars[k]] = ("sweep", [v, v*1.01, v*0.99])
                sol = m.solve(fn, verbosity=case["verbosity"])
            elif route == "solve":
                sol = m.solve(fn, verbosity=case["verbosity"])
            elif route == "gp":
                sol = m.gp().solve(fn, verbosity=case["verbosity"])
            else:
                gp = m.gp()
                gp.solve(fn, verbosity=0, gen_result=False)
                require("heck warning" not in said.getvalue(), "%s: checked already", where)
                dual = route != "nodual"
                sol = gp.generate_result(gp.solver_out, **({} if dual else {"dual_check": False}))
        except Exception as exc:
            from gpkit.exceptions import Infeasible
            if fn.failure or route == "sweep" and isinstance(exc, (RuntimeWarning, Infeasible)):
                raise Discard from exc
            raise
    lines = [l for l in said.getvalue().split("\n") if "olution check warning" in l]
    require(len(fn.judged) == (3 if route == "sweep" else 1), "%s: %i calls", where, len(fn.judged))
    # what has to be told, of each call
    kinds, atleast, atmost = [], 0, 0
    for verdict in fn.judged:
        primal = [v for n, v in verdict.items() if n[0] == "P"]
        duals = [v for n, v in verdict.items() if n[0] == "D"] if dual else []
        known = [v for v in duals if v is not None]
        bad_p, bad_d = any(v > 2 for v in primal), any(v > 2 for v in known)
        fine = all(v < 0.5 for v in primal + known) and None not in duals
        kinds.append("Primal" if bad_p else "Dual" if bad_d and all(v < 0.5 for v in primal) else None)
        atleast += bad_p or bad_d
        atmost += not fine
    require(atleast <= len(lines) <= atmost, "%s: %i warnings, not %i to %i:\n%s\n by how many tolerances: %s", where, len(lines),
            atleast, atmost, "\n".join(lines), fn.judged)
    if len(fn.judged) == 1 and kinds[0]:
        require(("warning: " + kinds[0]) in lines[0], "%s: told %r, but what is wrong is the %s solution: %s", where, lines[0], kinds[0],
                fn.judged)
    if route != "sweep":   # it's reported as it is all the same
        require(float(sol["cost"]) == float(fn.answer[0]), "%s: cost %r, not %r", where, sol["cost"], fn.answer[0])
        from .c07 import expand
        require(sorted(expand(sol["freevariables"]).values()) == sorted(np.exp(fn.answer[1])), "%s: values %s", where,
                sol["freevariables"])
    clear = atleast == atmost
    return Info(clear and (case["kind"] != "none" or route == "sweep"), [case["kind"], route, "told" if atleast else "untold" if clear
                                                                        else "unclear"], str(lines))


CHECKS = {"faults": {"strategy": cases(), "run": run, "quick": 700, "thorough": 12000}}
