"C07: solving a geometric program returns its global optimum."
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Info, require
from .. import gpgen
from .. import unitsys as us

RULE = ("A case is a bounded, strictly feasible geometric program with units, vectors, fixed"
        " values and equalities, built and solved one of several ways; non-trivial when it has a"
        " posynomial constraint or cost of several terms, a coupling constraint or equality, and"
        " the optimum is not the generating point.")
ASSUMPTIONS = ("cvxopt's interior-point method, run on an independently compiled program with"
               " tolerances of 1e-9, attains the optimum whenever it reports one",)
ROUTES = ["model", "subskwarg", "update", "gp", "direct", "constset", "nested", "setitem"]


def cases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(), "route": st.sampled_from(ROUTES),
        "solver": st.sampled_from([None, "cvxopt"])})


def expand(keydict):
    "{scalar key: value} of a KeyDict, without the empty places of vectors."
    out = {}
    for key, val in keydict.items():
        if key.shape and not key.idx:
            for el in np.ndindex(*key.shape):
                if not np.isnan(val[el]):
                    out[(key.name, key.lineage, el)] = float(val[el])
        else:
            out[(key.name, key.lineage, key.idx)] = float(val)
    return out


def ident(v):
    "What `expand` calls this variable."
    return (v.key.name, v.key.lineage, v.key.idx)


def solve(b, route, solver=None, **kw):
    "Solves a built program; returns (solution, something to call for values)."
    from gpkit import Model
    from gpkit.constraints.set import ConstraintSet
    from gpkit.constraints.gp import GeometricProgram
    from gpkit.nomials import parse_subs
    cons, subs = b.constraints, b.subs
    if route == "constset":
        cons = ConstraintSet([cons])
    elif route == "nested":
        k = len(cons)//2
        cons = [ConstraintSet(cons[:k], {k_: v for k_, v in subs.items() if not isinstance(k_, str)}), {"rest": cons[k:]}]
    if route in ("update", "setitem"):
        m = Model(b.cost, cons)
        if route == "update":
            m.substitutions.update(subs)
        else:
            for k, v in subs.items():
                m.substitutions[k] = v
    elif route == "model":
        m = Model(b.cost, cons, subs)
    elif route == "nested":
        m = Model(b.cost, cons, {k: v for k, v in subs.items() if isinstance(k, str)})
    else:
        m = Model(b.cost, cons, substitutions=subs)
    b.model = m
    if route == "gp":
        return m.gp().solve(solver, verbosity=0, **kw)
    if route == "direct":
        constants, _, _ = parse_subs(m.varkeys, m.substitutions)
        return GeometricProgram(b.cost, m, constants).solve(solver, verbosity=0, **kw)
    return m.solve(solver, verbosity=0, **kw)


def verify(b, sol, cost, where, tol=1e-4):
    "Is this solution feasible, optimal, and reported as it should be?"
    used = sorted(b.used)
    free, consts = expand(sol["freevariables"]), expand(sol["constants"])
    allv = expand(sol["variables"])
    want_free = {ident(b.vars[k]) for k in used if k not in b.ref.fixed}
    want_const = {ident(b.vars[k]): v for k, v in b.ref.fixed.items()}
    require(set(free) == want_free, "%s: free variables %s reported, not %s", where, sorted(free),
            sorted(want_free))
    require(set(consts) == set(want_const), "%s: fixed variables %s reported, not %s", where,
            sorted(consts), sorted(want_const))
    require(set(allv) == set(free) | set(consts), "%s: variables %s reported", where, sorted(allv))
    for k, v in want_const.items():
        require(abs(consts[k]-v) <= 1e-12*v and allv[k] == consts[k], "%s: %s fixed at %r but"
                " reported at %r / %r", where, k, v, consts[k], allv[k])
    values = {}
    for k in used:
        values[k] = allv[ident(b.vars[k])]
        if k not in b.ref.fixed:
            require(values[k] == free[ident(b.vars[k])], "%s: %s is %r and %r", where, b.vars[k],
                    values[k], free[ident(b.vars[k])])
        got = sol(b.vars[k])
        u = b.vars[k].key.units
        require(abs(getattr(got, "magnitude", got) - values[k]) <= 1e-12*values[k]
                and (not u or got.units == u.units), "%s: %s is %r by call, %r in the table", where,
                b.vars[k], got, values[k])
    for i, p in enumerate(b.ref.posys):
        v = b.ref.value(p, values)
        require(v <= 1+1e-5, "%s: constraint %i (%s) is violated: %r > 1 at %s", where, i,
                [c for c, kd in zip(b.constraints, b.kinds) if kd[0] != "eq" and kd[1] == i], v, values)
    for i, q in enumerate(b.ref.eqs):
        v = b.ref.value([q], values)
        require(abs(v-1) <= 1e-5, "%s: equality %i is violated: %r at %s", where, i, v, values)
    got = sol["cost"]
    there = b.ref.value(b.ref.cost, values)
    require(abs(got/b.costmag - there) <= 1e-5*there, "%s: cost %r reported, but it is %r (times %r)"
            " at the reported values", where, got, there, b.costmag)
    expr = sol(b.cost)
    mag = getattr(expr, "magnitude", expr)
    require(abs(mag-got) <= 1e-5*got, "%s: cost %r reported, but the cost expression is %r there",
            where, got, expr)
    if b.costunit:
        si = mag*float((1*expr.units).to_base_units().magnitude)
        require(abs(si-there*us.factor(b.costunit)) <= 1e-5*abs(si), "%s: the cost is %r, not %r %s",
                where, expr, there, b.costunit)
    require(there <= cost*(1+tol), "%s: cost %r, but %r is attainable", where, there, cost)
    require(there >= cost*(1-tol), "%s: cost %r at a feasible point, below the reference optimum %r",
            where, there, cost)
    return values


def costmag(b):
    "The factor between the cost in its own units and in the spec's terms."
    u = b.cost.units if hasattr(b.cost, "units") else None
    if not u:
        return us.factor(b.costunit) if b.costunit else 1.0
    return (us.factor(b.costunit) if b.costunit else 1.0)/us.si(u)


def run(case):
    "Against the reference."
    spec = case["spec"]
    b = gpgen.build(spec)
    b.costmag = costmag(b)
    cost, xs = b.ref.solve()
    where = "%s of\n%s\n with %s" % (case["route"], b.cost, b.subs)
    sol = solve(b, case["route"], case["solver"])
    verify(b, sol, cost, where)
    coupled = bool(b.ref.eqs) or any(len({k for _, e in p for k in e}) > 1 for p in b.ref.posys)
    moved = any(abs(math.log(xs[k]/b.point[k])) > 1e-2 for k in xs)
    labels = {case["route"]}
    labels |= {"equality"} if b.ref.eqs else set()
    labels |= {"fixed"} if spec["m"] else set()
    labels |= {"vector"} if spec["nvec"] else set()
    labels |= {"part-fixed vector"} if spec["mix"] else set()
    multi = len(b.ref.cost) > 1 or any(len(p) > 1 for p in b.ref.posys)
    return Info(multi and coupled and moved, labels, "cost %.6g (reference %.6g)" % (sol["cost"], cost))


CHECKS = {"optimum": {"strategy": cases(), "run": run, "quick": 700, "thorough": 12000}}
