"C30: a local solution's sensitivities are the multipliers at that point."
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Info, Discard, require
from .. import gpgen
from . import c10
from .c07 import costmag, ident, expand

RULE = ("A case is a boxed program with one or more signomial inequalities that hold strictly at a"
        " known point, starting values and penalty settings; non-trivial when a real signomial"
        " inequality is sensitive at the solution.")
ASSUMPTIONS = ("the first-order conditions of the written program, computed from its terms at the"
               " reported point; judged where the solve finished without warnings and the point is"
               " a clear one: every constraint either tight or insensitive",)


@st.composite
def cases(draw):
    "Strategy: as for C10."
    case = draw(c10.cases("signomial"))
    case["given"] = draw(st.sampled_from(["all", "none", "optimum"]))
    case["again"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        case["sigs"][0].update(form="eq", t=1.0)
        first = case["spec"]["var"][0]
        if not first["u"] and draw(st.integers(0, 2)) == 0:   # constant about the default guess
            first["x"] = 2.0
            case["sigs"][0].update(pos=[[1.0, []]], neg=[[4.0, [[0, 1]]], [1.0, [[0, -1]]]])
    return case


def dlog(terms, values, k):
    "k times the derivative with respect to it."
    return sum(c*e.get(k, 0)*math.prod(values[j]**x for j, x in e.items()) for c, e in terms)


def merged(refs, fixed):
    "The negative terms of pos - neg once fixed values are substituted, and the constant left."
    out = {}
    for terms, s in ((refs[0], 1), (refs[1], -1)):
        for c, e in terms:
            key = tuple(sorted((k, x) for k, x in e.items() if k not in fixed))
            c *= math.prod(fixed[k]**x for k, x in e.items() if k in fixed)
            out[key] = out.get(key, 0.0) + s*c
    return out


def gradient(terms, divisor, const, values, keys):
    "Of a posynomial <= 1 whose constants are on the other side."
    return {k: dlog(terms, values, k)/divisor/(1-const) for k in keys}


def run(case):
    "One local solve."
    from gpkit import Model
    from gpkit.exceptions import Infeasible
    b = c10.build(case)
    spec, n = case["spec"], case["spec"]["n"]
    fixed = b.ref.fixed
    isgp = [s["form"] != "eq" and c10.is_gp(b, refs) for s, refs in zip(case["sigs"], b.sigs)]
    if all(isgp):
        return Info(False, ["geometric after all"])
    m = Model(b.cost, b.constraints, b.subs)
    where = "minimising %s subject to %s with %s" % (b.cost, b.constraints, b.subs)
    kw = {"use_pccp": False} if not case["pccp"] else {"pccp_penalty": max(case["penalty"], 20.)}
    given = {"all": range(n), "optimum": range(n), "none": []}[case["given"]]
    x0 = {k: (spec["var"][k]["x"] if case["given"] == "optimum" else case["x0"][k]) for k in given}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            if kw == {"pccp_penalty": 200.}:
                sol = m.localsolve(verbosity=0, x0=c10.start(b, case, x0) or None, reltol=1e-9,
                                   iteration_limit=200)
            else:
                sol = m.sp(**kw).localsolve(verbosity=0, x0=c10.start(b, case, x0) or None,
                                            reltol=1e-9, iteration_limit=200)
            if case["again"]:   # the same model, from there
                sol = m.sp(**kw).localsolve(verbosity=0, x0=sol["freevariables"], reltol=1e-9,
                                            iteration_limit=200)
        except Infeasible:
            return Info(False, ["not solved"])
    messages = " ".join(str(w.message) for w in caught)
    if "slacken" in messages or "not convergent" in messages:
        return Info(False, ["warned"])
    allv = expand(sol["variables"])
    values = {k: allv[ident(b.vars[k])] for k in b.used}
    free = [k for k in b.used if k < n]
    senss = sol["sensitivities"]
    # the gradient of each constraint, as it was loosened
    grads = []
    for con, (kind, i) in zip(b.constraints, b.kinds):
        terms = [b.ref.eqs[i]] if kind == "eq" else b.ref.posys[i]
        const = 0.0 if kind == "eq" else sum(
            c*math.prod(fixed[k]**x for k, x in e.items()) for c, e in terms if all(k in fixed for k in e))
        if all(k in fixed for _, e in terms for k in e):
            continue
        if const > 0.97:
            raise Discard
        grads.append([con, kind == "eq", gradient(terms, 1.0, const, values, b.used),
                      b.ref.value(terms, values)])
    for con, refs, gp, s in zip(b.constraints[-len(b.sigs):], b.sigs, isgp, case["sigs"]):
        diff = list(refs[0]) + [(-c, e) for c, e in refs[1]]
        ratio = b.ref.value(refs[0], values)/b.ref.value(refs[1], values)
        if gp:
            out = merged(refs, fixed)
            neg = [(e, -c) for e, c in out.items() if c < 0]
            if len(neg) != 1 or all(c < 0 for c in out.values()):
                continue   # always true
            (e, c), = neg
            div = c*math.prod(values[k]**x for k, x in e)
            const = max(out.get(e, 0.0), 0)/c
            if const > 0.97:
                raise Discard
            grads.append([con, False, gradient(diff, div, const, values, b.used), ratio])
            continue
        if s["form"] == "eq":
            if abs(ratio - 1) > 1e-4:   # ended by the cost, before the equality held
                return Info(False, ["equality not met"])
            if all(k in fixed for _, e in refs[0] + refs[1] for k in e):
                return Info(False, ["degenerate equality"])
            con = con[0]
            grads.append([con, True, gradient(diff, b.ref.value(refs[1], values), 0.0, values, b.used), ratio])
            continue
        # constants arise only where a term is what the others are approximated by
        for _, e in c10.condense(refs, {**values}):
            if sum(abs(x) for k, x in e.items() if k not in fixed) < 1e-6:
                raise Discard
        grads.append([con, False, gradient(diff, b.ref.value(refs[1], values), 0.0, values, b.used),
                      ratio])
    # reported for exactly these
    known = {id(g[0]) for g in grads} | {id(con) for con in b.constraints}
    for con in senss["constraints"]:
        require(id(con) in known, "%s: a sensitivity for %s, which is no constraint of it", where, con)
    lam, big = [], 0
    for con, eq, grad, ratio in grads:
        s = senss["constraints"].get(con, 0.0)
        require(np.ndim(s) == 0 and s >= -1e-6, "%s: sensitivity %r of %s", where, s, con)
        lam.append(float(s))
        if eq and s > 100 and not any(abs(x) > 0.01 for k, x in grad.items() if k < n):
            return Info(False, ["degenerate equality"])   # flat here: nothing determines it
        if not eq and s > 1e-3 and ratio < 1-1e-3:
            require(s < 0.05, "%s: %s has the sensitivity %r, but is not tight (%r)", where, con, s, ratio)
            raise Discard
    cost = b.ref.value(b.ref.cost, values)
    grad0 = {k: dlog(b.ref.cost, values, k)/cost for k in b.used}
    eqs = [i for i, g in enumerate(grads) if g[1]]
    best = None
    for signs in range(2**len(eqs)):
        sg = [1]*len(grads)
        for j, i in enumerate(eqs):
            sg[i] = 1 if signs >> j & 1 else -1
        total = {k: grad0[k] + sum(s*x*g[2][k] for s, x, g in zip(sg, lam, grads)) for k in b.used}
        scale = {k: 1 + abs(grad0[k]) + sum(abs(x*g[2][k]) for x, g in zip(lam, grads)) for k in b.used}
        off = max([abs(total[k])/scale[k] for k in free] or [0])
        if best is None or off < best[0]:
            best = off, total, scale
    off, total, scale = best
    require(off <= 1e-2, "%s: at %s the sensitivities %s leave the gradients %s", where, values,
            [(str(g[0]), x) for g, x in zip(grads, lam)], {k: total[k] for k in free})
    reported = expand(senss["variables"])
    for k in b.used:
        got = reported.get(ident(b.vars[k]), 0.0)
        want = total[k] if k >= n else 0.0
        require(abs(got - want) <= 1e-2*scale[k], "%s: at %s the sensitivity of %s is %r, but should"
                " be %r (constraints' are %s)", where, values, b.vars[k], got, want,
                [(str(g[0]), x) for g, x in zip(grads, lam)])
    incost = expand(senss["cost"])
    for k in b.used:
        require(abs(incost.get(ident(b.vars[k]), 0.0) - grad0[k]) <= 1e-2*scale[k], "%s: at %s the cost's"
                " sensitivity to %s is %r, but should be %r", where, values, b.vars[k],
                incost.get(ident(b.vars[k])), grad0[k])
    require(set(incost) <= {ident(b.vars[k]) for k in b.used}, "%s: the cost's sensitivities are to"
            " %s", where, sorted(incost))
    names = {ident(v) for k, v in enumerate(b.vars) if v is not None}
    require({k for k in reported} <= names | set(allv), "%s: sensitivities of %s", where,
            sorted(set(reported) - names))
    # models': the sums of what they contain, here all in none
    rep = senss["models"]
    want = sum(lam) + sum(abs(reported.get(ident(b.vars[k]), 0.0)) for k in b.used)
    require(abs(rep.get("", 0) - want) <= 1e-2*(1+want), "%s: the model's sensitivity is %r, but should"
            " be %r, the sum of its constraints' and variables'", where, rep, want)
    require(set(rep) <= {""}, "%s: sensitivities of models %s", where, rep)
    sig = sum(lam[-len(b.sigs):])
    fix = max([abs(total[k]) for k in b.used if k >= n] or [0])
    labels = ["pccp" if case["pccp"] else "no slack"]
    if fix > 0.05:
        labels.append("fixed variable in it")
    if case["sigs"][0]["form"] == "eq":
        labels.append("equality")
    return Info(sig > 0.05, labels, "sensitivities %s" % ["%.3g" % x for x in lam])


CHECKS = {"local": {"strategy": cases(), "run": run, "quick": 400, "thorough": 6000}}
