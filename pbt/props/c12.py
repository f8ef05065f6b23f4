"C12: autosweep bounds bracket the true optimal cost to the requested tolerance."
import contextlib
import io
import math
import os
import pickle
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Info, Discard, require, scratch
from .. import gpgen
from . import c07, c11

RULE = ("A case is a geometric program autoswept over one of its fixed values; non-trivial when"
        " the cost changes over the interval and it took more than two solves.")
ASSUMPTIONS = ("the reference optimum of c07 is the true cost",
               "bounds and true costs are compared to within 2e-5 in the log, the accuracy of"
               " cvxopt's costs and sensitivities at its default tolerances, plus 1e-3 of the"
               " distance in the log of the swept value to the nearest solve")


def cases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(1, 3)), "which": st.integers(0, 2),
        "lo": st.sampled_from([0.2, 0.5, 0.9, 1.0, 0.99]), "hi": st.sampled_from([1.01, 1.1, 1.5, 3, 10]),
        "verbosity": st.integers(0, 1), "tol": st.sampled_from([1e-1, 1e-2, 1e-2, 3e-3, 1e-3]),
        "how": st.sampled_from(["var", "key", "name", "direct", "two"]),
        "n": st.integers(2, 9), "at": st.lists(st.floats(0, 1), min_size=1, max_size=5),
        "was": st.sampled_from(["given", "zero", "absent"]), "save": st.booleans()})


def log(b, cost):
    "Of a cost, in the reference's terms."
    return math.log(float(getattr(cost, "magnitude", cost))/b.costmag)


def run(case):
    "Against reference solves."
    from gpkit import Model
    from gpkit.exceptions import Infeasible
    from gpkit.tools.autosweep import autosweep_1d
    spec = case["spec"]
    b = gpgen.build(spec)
    usable = sorted(b.ref.fixed)
    if not usable:
        raise Discard
    k = usable[case["which"] % len(usable)]
    x0 = b.ref.fixed[k]
    lo, hi = x0*case["lo"], x0*case["hi"]

    def truth(v):
        "Log of the true cost."
        cost, _ = b.ref.solve({k: v})
        return math.log(cost) if cost < math.inf else math.inf
    m = Model(b.cost, b.constraints, b.subs)
    b.costmag = c07.costmag(b)
    var = b.vars[k]
    key = var.key
    if case["was"] == "zero":
        m.substitutions[key] = 0
    elif case["was"] == "absent" and not key.veckey:
        del m.substitutions[key]
    before = c11.snapshot(m.substitutions)
    where = "autosweep of %s over [%r, %r] to %r (by %s) of\n%s\n subject to %s\n with %s" % (
        var, lo, hi, case["tol"], case["how"], b.cost, b.constraints, b.subs)
    tol, n = case["tol"], case["n"]
    how, out = case["how"], io.StringIO()
    if how == "name" and key.veckey:
        how = "key"
    try:
        ends = [truth(lo), truth(hi)]
    except Discard:
        ends = [math.inf]    # most likely infeasible
    sweepkey = {"key": key, "name": key.name}.get(how, var)
    try:
        if how == "direct":
            with contextlib.redirect_stdout(out):
                bst = autosweep_1d(m, tol, key, [lo, hi], verbosity=case["verbosity"])
            oracles = [bst.sample_at(np.linspace(lo, hi, n))]
        elif how == "two" and len(usable) > 1:
            other = usable[(case["which"]+1) % len(usable)]
            if case["was"] != "given" or key.veckey and key.veckey == b.vars[other].key.veckey:
                raise Discard
            xo = b.ref.fixed[other]
            oracles = m.autosweep({b.vars[other]: (xo*0.999, xo*1.001), sweepkey: (lo, hi)}, tol,
                                  samplepoints=n, verbosity=0)
            require(len(oracles) == 2, "%s: %r for two sweeps", where, oracles)
            oracles = oracles[1:]
            bst = oracles[0].bst
        else:
            with contextlib.redirect_stdout(out):
                oracle = m.autosweep({sweepkey: (lo, hi)}, tol, samplepoints=n, verbosity=case["verbosity"])
            oracles, bst = [oracle], oracle.bst
    except Infeasible as exc:
        require(max(ends) == math.inf, "%s: raised %r", where, exc)
        bst = None
    require(c11.snapshot(m.substitutions) == before, "%s: the substitutions were\n%s\n and are\n%s",
            where, before, c11.snapshot(m.substitutions))
    if bst is None:
        return Info(False, ["infeasible end"])
    if max(ends) == math.inf:
        raise Discard
    if case["save"]:
        with scratch() as d:
            name = os.path.join(d, "sweep.p")
            bst.save(name)
            with open(name, "rb") as f:
                again = pickle.load(f)
        for v in (lo, math.sqrt(lo*hi), hi):
            v = min(max(v, lo), hi)
            require(again.cost_at("cost", v) == bst.cost_at("cost", v), "%s: saved and loaded, the"
                    " cost differs", where)
    sols = bst.sollist
    solved = [float(s["variables"][key]) for s in sols]
    require(solved == sorted(solved) and len(set(solved)) == len(solved) and len(solved) == bst.nsols,
            "%s: %i solves at %s", where, bst.nsols, solved)
    require(abs(solved[0]/lo-1) < 1e-12 and abs(solved[-1]/hi-1) < 1e-12, "%s: solves at %s", where,
            solved)
    # how far from the truth it says it might be
    worst, stack = 0.0, [bst]
    while stack:
        node = stack.pop()
        stack += node.splits or []
        if node.splits:
            below, inner = [], list(node.splits)
            while inner:
                leaf = inner.pop()
                inner += leaf.splits or []
                if not leaf.splits:
                    below.append((leaf.splitub-leaf.splitlb)/2)
            said = getattr(node, "tol", None)
            require(said is None or abs(said-max(below)) <= 1e-12, "%s: a tolerance of %r said to be reached where it is %r", where,
                    said, max(below))
            worst = max(worst, *below)
    worst = worst if bst.splits else (bst.splitub-bst.splitlb)/2
    require(worst < tol, "%s: a tolerance of %r was reached", where, worst)
    told = re.findall(r"cost logtol \+/-(\S+)", out.getvalue())
    require(all(abs(float(t)-worst) <= 1e-2*abs(worst) + 1e-7 for t in told), "%s: says %s, but %r was reached", where, told, worst)
    # the points it solved
    for v, s in zip(solved, sols):
        t = truth(v)
        got = log(b, s["cost"])
        require(abs(got-t) <= 2e-5, "%s: log cost %r at solved point %r, not %r", where, got, v, t)
    # everywhere else, whatever way it is asked for
    points = [lo + (hi-lo)*t for t in case["at"]] + [lo*(hi/lo)**t for t in case["at"]]
    points += list(np.linspace(lo, hi, n))
    for i in range(len(solved)-1):
        if len(points) < 40:
            points.append(math.sqrt(solved[i]*solved[i+1]))
    points = [min(max(p, lo), hi) for p in points]
    sampled = bst.sample_at(points)
    lbs, ubs, mids = sampled.cost_lb(), sampled.cost_ub(), sampled["cost"]
    again = sampled(b.cost)
    require(np.allclose(again, mids, rtol=1e-12), "%s: the cost expression is %r, but the cost %r",
            where, again, mids)
    for p, lb, ub, mid in zip(points, lbs, ubs, mids):
        near = min(abs(math.log(p/v)) for v in solved)
        eps = 2e-5 + 1e-3*near
        lb, ub, mid, t = log(b, lb), log(b, ub), log(b, mid), truth(p)
        require(lb <= mid+2e-5 and mid <= ub+2e-5, "%s: log cost %r is not between its bounds %r,"
                " %r at %r", where, mid, lb, ub, p)
        require(lb <= t+eps, "%s: lower bound %r is above the log cost %r at %r", where, lb, t, p)
        require(ub >= t-eps, "%s: upper bound %r is below the log cost %r at %r", where, ub, t, p)
        require(ub-mid <= tol+1e-12 and mid-lb <= tol+1e-12, "%s: bounds %r, %r are not within %r"
                " of %r at %r", where, lb, ub, tol, mid, p)
        require(abs(mid-t) <= tol+eps, "%s: log cost %r instead of %r at %r", where, mid, t, p)
    # what its table of samples says
    for oracle in oracles:
        grid = list(oracle.sampled_at)
        require(len(grid) == n and np.allclose(grid, np.linspace(lo, hi, n)), "%s: sampled at %s",
                where, grid)
        for p, c in zip(grid, oracle["cost"]):
            require(abs(log(b, c)-log(b, bst.sample_at([p])["cost"][0])) < 1e-12, "%s: %r at %r",
                    where, c, p)
        for p, v in zip(grid, oracle(var)):
            v = float(getattr(v, "magnitude", v))
            require(abs(v/p-1) < 1e-6, "%s: the swept value is %r at %r", where, v, p)
    # other expressions at solved points
    free = [j for j in sorted(b.used) if j not in b.ref.fixed]
    exprs = [b.vars[j] for j in sorted(b.used)] + [gpgen.operand(b, j)**2*gpgen.operand(b, k) + 1
                                                   if not b.spec["var"][k]["u"] == "percent" else
                                                   b.vars[j]*b.vars[k] for j in free[:1]]
    at_solved = bst.sample_at(solved)
    for e in exprs:
        got = at_solved(e)
        u = getattr(sols[0](e), "units", None)
        require(getattr(got, "units", None) == u or not u or u.dimensionless and not got.dtype == object, "%s: %s in %s, not %s", where, e,
                getattr(got, "units", None), u)
        for g, s, v in zip(getattr(got, "magnitude", got), sols, solved):
            want = s(e)
            want = getattr(want, "magnitude", want)
            require(abs(g-want) <= 1e-6*abs(want), "%s: %s is %r at the solved point %r, but %r was"
                    " the solution", where, e, g, v, want)
    arr = bst.solarray
    require(len(arr) == len(solved) and np.allclose(arr["cost"], [float(getattr(
        s["cost"], "magnitude", s["cost"])) for s in sols], rtol=1e-12), "%s: .solarray differs", where)
    for p in (lo*0.99, hi*1.01):
        try:
            bst.sample_at([p])["cost"]
            require(False, "%s: extrapolates to %r", where, p)
        except ValueError:
            pass
    if case["was"] == "given":
        cost, _ = b.ref.solve()
        got = m.solve(verbosity=0)["cost"]
        require(abs(math.log(got/b.costmag/cost)) < 1e-4, "%s: afterwards the optimum is %r", where, got)
    labels = [how, case["was"], "%s solves" % ("2" if len(solved) == 2 else "3-9" if len(solved) < 10
                                              else "10+")]
    return Info(len(solved) > 2 and abs(ends[0]-ends[1]) > 1e-3, labels, "%i solves" % len(solved))


CHECKS = {"autosweep": {"strategy": cases(), "run": run, "quick": 150, "thorough": 2500}}
