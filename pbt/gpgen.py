"""Generated geometric programs with a known strictly feasible point, and an independent
reference for their optimum.

A spec is JSON.  Variables 0..n-1 are free, n..n+m-1 fixed; every variable has a unit, an
alternative unit its operand is expressed in, and a value at the feasible point (for fixed
variables: the given value).  Terms are [weight, {var: exponent}] and are scaled so that each
constraint has the stated slack at that point.
"""
import math
import random

import numpy as np
from hypothesis import strategies as st

from .core import Discard, HarnessError
from . import unitsys as us

UNITS = ["", "", "ft", "kg", "hour", "N", "m/s", "percent"]
ALTS = {"": ["", ""], "ft": ["ft", "inch", "m"], "kg": ["kg", "g"], "hour": ["hour", "minute"],
        "N": ["N", "lbf"], "m/s": ["m/s", "knot"], "percent": ["percent", "percent"]}
EXPS = [1, 1, 1, -1, -1, 2, -2, 0.5, -0.5, 3, 1.5]
CU = [["", ""], ["", ""], ["m", "ft"], ["J", "kWh"], ["ft", "inch"], ["USD", "USD"]]


def nums(lo, hi):
    "Tame positive numbers, exactly representable in print."
    return st.floats(lo, hi).map(lambda v: float("%.3g" % v))


def exps_over(nv, minsize=0, maxsize=3, pool=None):
    "A sparse exponent vector over the variables, as a list of pairs."
    return st.lists(st.tuples(st.integers(0, nv-1), st.sampled_from(pool or EXPS)),
                    min_size=minsize, max_size=maxsize, unique_by=lambda p: p[0]).map(
                        lambda l: sorted([list(p) for p in l]))


@st.composite
def specs(draw, nfree=(1, 4), nfixed=(0, 3), nposys=(0, 4), neqs=(0, 2), units=True,
          vectors=True, boxed_by_fixed=True):
    "Strategy for specs."
    n = draw(st.integers(*nfree))
    m = draw(st.integers(*nfixed))
    nv = n + m
    unit = st.sampled_from(UNITS if units else [""])
    nvec = draw(st.integers(0, n)) if vectors else 0
    vecu = draw(unit)
    var = []
    nfvec = draw(st.sampled_from([0, 0, 2])) if vectors and m >= 2 else 0
    fvecu = draw(unit)
    for k in range(nv):
        u = draw(unit)
        if k < nvec and nvec > 1:
            u = vecu
        if n <= k < n + nfvec:
            u = fvecu
        var.append({"u": u, "alt": draw(st.integers(0, 2)), "x": draw(nums(0.2, 5))})
    nvec = nvec if nvec > 1 else 0
    mix = bool(nvec and nfvec and draw(st.booleans()))
    if mix:   # one vector, its last elements fixed
        for k in range(n, n+nfvec):
            var[k]["u"] = var[0]["u"]
    term = st.tuples(nums(0.1, 2), exps_over(nv))
    freeterm = st.tuples(nums(0.1, 2), exps_over(nv, 1))
    posys = draw(st.lists(st.fixed_dictionaries({
        "terms": st.lists(term, min_size=1, max_size=4), "mono": exps_over(nv, 0, 2),
        "t": st.sampled_from([0.9, 0.5, 0.7, 0.3]), "flip": st.booleans(),
        "cu": st.sampled_from(CU if units else [["", ""]])}),
                          min_size=nposys[0], max_size=nposys[1]))
    eqs = draw(st.lists(st.fixed_dictionaries({
        "exps": exps_over(nv, 2, 3), "split": st.integers(0, 3),
        "cu": st.sampled_from(CU if units else [["", ""]])}),
                        min_size=neqs[0], max_size=neqs[1] if n > 1 else neqs[0]))
    cost = draw(st.lists(freeterm, min_size=1, max_size=3))
    fixedidx = st.integers(n, nv-1) if m and boxed_by_fixed else st.just(-1)
    box = [{"lo": draw(nums(0.1, 0.6)), "hi": draw(nums(2, 10)),
            "by": [draw(fixedidx) if draw(st.booleans()) else -1 for _ in range(2)],
            "flip": draw(st.booleans())} for _ in range(n)]
    return {"n": n, "m": m, "nvec": nvec, "nfvec": nfvec, "mix": mix, "var": var, "posys": posys, "eqs": eqs,
            "cost": cost, "cu": draw(st.sampled_from(CU if units else [["", ""]])), "box": box,
            "how": [draw(st.integers(0, 4)) for _ in range(nv)],
            "order": draw(st.integers(0, 10**6))}


class Ref:
    """The mathematical program: each posynomial a list of (coefficient, {var: exponent}) in the
    variables' declared units, `names` saying what it stands for."""

    def __init__(self, n, fixed, cost, posys, eqs):
        self.n, self.fixed, self.cost, self.posys, self.eqs = n, dict(fixed), cost, posys, eqs

    def fold(self, terms, fixed, scale=1.0):
        "Fixed values folded in, like terms combined: {exponents over free: coefficient}."
        out = {}
        for c, e in terms:
            c = c*scale
            free = {}
            for k, x in e.items():
                if k in fixed:
                    c *= fixed[k]**x
                elif x:
                    free[k] = x
            key = tuple(sorted(free.items()))
            out[key] = out.get(key, 0.0) + c
        return out

    def value(self, terms, values):
        "A posynomial's value."
        return sum(c*math.prod(values[k]**x for k, x in e.items()) for c, e in terms)

    def solve(self, changes=None, loosen=None, loosen_eq=None, freed=(), cost=None, extra=()):
        """Optimal cost, optimal values of the free variables; raises Discard if the reference
        solver itself does not reach an optimum."""
        from cvxopt import matrix, spmatrix, solvers
        fixed = dict(self.fixed)
        fixed.update(changes or {})
        for k in freed:
            fixed.pop(k, None)
        free = sorted((set(range(self.n)) | set(freed)) - set(fixed))
        col = {k: j for j, k in enumerate(free)}
        loosen, loosen_eq = loosen or {}, loosen_eq or {}
        lse, lin, leq = [self.fold(cost or self.cost, fixed)], [], []
        for i, p in enumerate(list(self.posys) + list(extra)):
            h = self.fold(p, fixed)
            if i in loosen:   # all but what is constant
                h = {e: c*math.exp(-loosen[i]) if e else c for e, c in h.items()}
            if set(h) == {()}:
                if h[()] > 1 + 1e-9:
                    return math.inf, None
                continue
            (lin if len(h) == 1 else lse).append(h)
        for i, (c, e) in enumerate(self.eqs):
            h = self.fold([(c, e)], fixed, math.exp(-loosen_eq.get(i, 0.0)))
            if set(h) == {()}:
                if abs(h[()] - 1) > 1e-9:
                    return math.inf, None
                continue
            leq.append(h)
        used = {k for h in lse + lin + leq for e in h for k, _ in e}
        if used != set(free):
            raise HarnessError("variables %s do not occur" % (set(free) - used))

        def mats(hs):
            rows, cols, vals, logc, r = [], [], [], [], 0
            for h in hs:
                for e, c in h.items():
                    logc.append(math.log(c))
                    for k, x in e:
                        rows.append(r)
                        cols.append(col[k])
                        vals.append(float(x))
                    r += 1
            return spmatrix(vals, rows, cols, (r, len(free)), tc="d"), matrix(logc)
        kw = {}
        if lin:
            G, h = mats(lin)
            kw["G"], kw["h"] = G, -h
        if leq:
            kept = []   # without those implied by the others
            full = np.array([[dict(next(iter(h))).get(k, 0.0) for k in free] for h in leq])
            rhs = np.array([-math.log(next(iter(h.values()))) for h in leq])
            for i in range(len(leq)):
                if np.linalg.matrix_rank(full[kept+[i]], tol=1e-8) > len(kept):
                    kept.append(i)
            there = np.linalg.lstsq(full[kept], rhs[kept], rcond=None)[0]
            if np.abs(full.dot(there)-rhs).max() > 1e-9*(1+np.abs(rhs).max()):
                return math.inf, None
            kw["A"], b = mats([leq[i] for i in kept])
            kw["b"] = -b
        F, g = mats(lse)
        opts = {"show_progress": False, "abstol": 1e-9, "reltol": 1e-9, "feastol": 1e-9}
        try:
            sol = solvers.gp([len(h) for h in lse], F, g, options=opts, **kw)
        except (ValueError, ArithmeticError) as exc:
            raise Discard from exc
        if sol["status"] != "optimal":
            if sol["gap"] is None or abs(sol["gap"]) > 1e-7 or not (
                    sol["primal infeasibility"] or 1 < 1e-7):
                raise Discard
        x = np.exp(np.ravel(sol["x"]))
        return math.exp(sol["primal objective"][0] if hasattr(sol["primal objective"], "__len__")
                        else sol["primal objective"]), {k: x[col[k]] for k in free}

class Built:
    "A spec's gpkit objects and its reference."


def build(spec, prefix="", constants="how", groups=None):
    """Makes the variables, constraints and reference of a spec.

    `groups` may say which model each variable and constraint belongs to: a pair of functions
    from indices to "" (none), "A" or "A.B", whose naming environments they are then made in.

    Returns Built: vars (scalar gpkit variables), constraints (in order), kinds
    [("posy"|"eq"|"box", reference index)], subs (what has to be substituted), cost, ref,
    used (the variables that occur), varname/conname (their models' names).
    """
    from gpkit import NamedVariables
    b = Built()
    b.spec, b.prefix = spec, prefix
    nv = spec["n"] + spec["m"]
    b.how = [(spec["how"][k] if constants == "how" else constants) for k in range(nv)]
    b.alts = [ALTS[v["u"]][v["alt"] % len(ALTS[v["u"]])] for v in spec["var"]]
    b.subs, b.vars, b.varname = {}, [None]*nv, [""]*nv
    b.vec = b.fvec = None
    vgroup, cgroup = groups or ((lambda k: ""), (lambda j: ""))
    plan = []
    make_variables(b, vgroup, "")
    if groups:
        with NamedVariables("A"):
            make_variables(b, vgroup, "A")
            with NamedVariables("B"):
                make_variables(b, vgroup, "A.B")
                plan = plan_constraints(b)
                made = make_constraints(b, plan, cgroup, "A.B")
            made += make_constraints(b, plan, cgroup, "A")
    else:
        plan, made = plan_constraints(b), []
    made += make_constraints(b, plan, cgroup, "")
    random.Random(spec["order"]).shuffle(made)
    b.constraints = [con for con, _, _, _ in made]
    b.kinds = [(kind, i) for _, kind, i, _ in made]
    b.conname = {id(con): group for con, _, _, group in made}
    finish(b)
    return b


def make_variables(b, vgroup, group):
    "Those of one group."
    from gpkit import Variable, VectorVariable
    from gpkit.units import Quantity
    spec, how, alts, prefix = b.spec, b.how, b.alts, b.prefix
    n, var, nvec, nfvec = spec["n"], spec["var"], spec["nvec"], spec["nfvec"]
    nv = n + spec["m"]
    vals = [var[n+i]["x"] for i in range(nfvec)]
    if nvec and vgroup(0) == group:
        size = nvec + (nfvec if spec["mix"] else 0)
        b.vec = VectorVariable(size, prefix+"v", var[0]["u"] or "-", "a vector")
        for k in range(nvec):
            b.vars[k], b.varname[k] = b.vec[k], group
        if spec["mix"]:
            for i, x in enumerate(vals):
                b.vars[n+i], b.varname[n+i] = b.vec[nvec+i], group
                if how[n] % 2:
                    b.subs[b.vars[n+i]] = x
            if not how[n] % 2:
                b.subs[b.vec if how[n] else b.vec.key] = np.array([np.nan]*nvec + vals)
    if nfvec and not spec["mix"] and vgroup(n) == group:
        name, u = prefix+"c", var[n]["u"] or "-"
        if how[n] == 0:
            b.fvec = VectorVariable(nfvec, name, vals, u)
        else:
            b.fvec = VectorVariable(nfvec, name, u)
            if how[n] == 1:
                b.subs[b.fvec] = vals
            elif how[n] == 2:
                b.subs[b.fvec[0]] = vals[0]
                b.subs[b.fvec[1].key] = vals[1]
            elif how[n] == 3 and alts[n]:
                b.subs[b.fvec] = Quantity(np.array(vals)*us.factor(var[n]["u"])
                                          / us.factor(alts[n]), alts[n])
            else:
                b.subs[b.fvec.key] = np.array(vals)
        for i in range(nfvec):
            b.vars[n+i], b.varname[n+i] = b.fvec[i], group
    for k in range(nvec, n):
        if vgroup(k) == group:
            b.vars[k] = Variable("%sx%i" % (prefix, k), var[k]["u"], "free variable")
            b.varname[k] = group
    for k in range(n+nfvec, nv):
        if vgroup(k) != group:
            continue
        name, u, x = "%sf%i" % (prefix, k), var[k]["u"], var[k]["x"]
        b.varname[k] = group
        if how[k] == 0:
            b.vars[k] = Variable(name, x, u)
            continue
        v = b.vars[k] = Variable(name, u)
        if how[k] == 1:
            b.subs[v] = x
        elif how[k] == 2:
            b.subs[v.key] = x
        elif how[k] == 3 and alts[k]:
            b.subs[v] = Quantity(x*us.factor(u)/us.factor(alts[k]), alts[k])
        else:
            b.subs[name] = x


def operand(b, k):
    "Variable k over one of its alternative unit."
    from gpkit import units
    u = b.spec["var"][k]["u"]
    if u == "percent":
        return b.vars[k]*1
    return b.vars[k]/units(b.alts[k]) if u else b.vars[k]


def expr(b, c, e):
    "A monomial of the variables' operands."
    out = c
    for k, x in e:
        out = out*operand(b, k)**x
    return out


def united(e1, e2, cu):
    "Both sides in (different) units."
    from gpkit import units
    if cu[0]:
        f = us.factor(cu[0])/us.factor(cu[1])
        return e1*units(cu[0]), e2*units(cu[1])*f
    return e1, e2


def over(t, mono):
    "A reference term over a reference monomial."
    d = dict(t[1])
    for k, x in mono[1].items():
        d[k] = d.get(k, 0) - x
        if not d[k]:
            del d[k]
    return (t[0]/mono[0], d)


def refterm(b, c, e):
    "A reference term."
    d = {}
    for k, x in e:
        d[k] = d.get(k, 0) + x
        c *= b.fac[k]**x
    return (c, d)


def plan_constraints(b):
    "Coefficients and references of every constraint: [(kind, reference index, maker)]."
    spec, var = b.spec, b.spec["var"]
    n, m = spec["n"], spec["m"]
    nv = n + m
    b.fac = [us.factor(var[k]["u"]) if var[k]["u"] == "percent" else
             us.factor(var[k]["u"])/us.factor(b.alts[k]) for k in range(nv)]
    at = [var[k]["x"]*b.fac[k] for k in range(nv)]

    def val(e):
        return math.prod(at[k]**x for k, x in e)
    plan, used, posys, eqs = [], set(), [], []

    def add(kind, i, lesser, greater, cu, flip):
        "lesser, greater: lists of (coefficient, exponents)"
        def make():
            left = right = 0
            for c, e in lesser:
                left = left + expr(b, c, e)
            for c, e in greater:
                right = right + expr(b, c, e)
            left, right = united(left, right, cu)
            if not hasattr(left, "hmap"):
                left, right = right, left
                if kind != "eq":
                    return left >= right
            if kind == "eq":
                return left == right
            return (right >= left) if flip else (left <= right)
        plan.append((kind, i, make))
        for _, e in list(lesser) + list(greater):
            used.update(k for k, _ in e)
    for p in spec["posys"]:
        total = sum(w for w, _ in p["terms"])
        gval = val(p["mono"])
        lesser = [(w/total*p["t"]*gval/val(e), e) for w, e in p["terms"]]
        rterms = [over(refterm(b, c, e), refterm(b, 1.0, p["mono"])) for c, e in lesser]
        if all(not d for _, d in rterms):
            continue   # a constant fact
        add("posy", len(posys), lesser, [(1.0, p["mono"])], p["cu"], p["flip"])
        posys.append(rterms)
    for q in spec["eqs"]:
        row = [0.0]*n
        for k, x in q["exps"]:
            if k < n:
                row[k] = x
        if not any(row):
            continue   # a constant fact
        left = q["exps"][:q["split"]]
        right = [[k, -x] for k, x in q["exps"][q["split"]:]]
        c = val(right)/val(left)
        add("eq", len(eqs), [(c, left)], [(1.0, right)], q["cu"], False)
        eqs.append(over(refterm(b, c, left), refterm(b, 1.0, right)))
    for k in range(n):
        box = spec["box"][k]
        for side, edge in ((0, box["lo"]), (1, box["hi"])):
            by = box["by"][side]
            mono = [[by, 1]] if by >= 0 else []
            lim, x = (edge*at[k]/val(mono), mono), (1.0, [[k, 1]])
            lesser, greater = (lim, x) if side == 0 else (x, lim)
            add("box", len(posys), [lesser], [greater], ["", ""], box["flip"])
            posys.append([over(refterm(b, *lesser), refterm(b, *greater))])
    b.costterms = [(w/val(e), e) for w, e in spec["cost"]]
    for _, e in b.costterms:
        used.update(k for k, _ in e)
    b.used = used
    b.ref = Ref(n, {k: var[k]["x"] for k in range(n, nv) if k in used},
                [refterm(b, c, e) for c, e in b.costterms], posys, eqs)
    return plan


def make_constraints(b, plan, cgroup, group):
    "Those of one group."
    return [(make(), kind, i, group) for j, (kind, i, make) in enumerate(plan)
            if cgroup(j) == group]


def finish(b):
    "Cost and bookkeeping."
    from gpkit import units
    spec = b.spec
    b.cost = 0
    for c, e in b.costterms:
        b.cost = b.cost + expr(b, c, e)
    if spec["cu"][0]:
        b.cost = b.cost*units(spec["cu"][0])
    b.costunit = spec["cu"][0]
    b.point = [v["x"] for v in spec["var"]]
    for k in set(range(spec["n"], len(b.vars))) - b.used:   # nothing is called that
        b.subs.pop("%sf%i" % (b.prefix, k), None)
