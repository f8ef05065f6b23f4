"C09: unbounded and infeasible programs are reported, never given an answer."
import math
import re
import sys

from hypothesis import strategies as st

from ..core import Info, Discard, Violation, require
from .. import gpgen
from .. import unitsys as us
from .c07 import solve, verify, costmag

RULE = ("bounds: a random program without guaranteed bounds; non-trivial when at least one pair is"
        " missing or a bound is transmitted through an equality.  infeasible/zero: a program made"
        " infeasible, or with a ray along which its cost vanishes, behind complete bounds.")
ASSUMPTIONS = ("cvxopt gives no certificates, so its 'unknown' status is accepted for infeasible"
               " and zero-cost programs that only the solver could diagnose",)
EXPS = [1, 1, -1, -1, 2, -2, 0.5, -0.5]
DIRS = [0, 1, -1, 1, -1, 2, 0.5]


def exps(nv, lo, hi):
    "Exponents as sorted pairs."
    return gpgen.exps_over(nv, lo, hi, EXPS)


@st.composite
def unboxed(draw):
    "A program in which anything may be missing."
    n, m = draw(st.integers(1, 5)), draw(st.integers(0, 2))
    nv = n + m
    return {"n": n, "m": m, "vec": draw(st.booleans()),
            "units": draw(st.lists(st.sampled_from(["", "", "ft", "kg"]), min_size=nv, max_size=nv)),
            "x": draw(st.lists(gpgen.nums(0.2, 5), min_size=nv, max_size=nv)),
            "zero": draw(st.booleans()),
            "cost": draw(st.lists(exps(nv, 1, 3), min_size=1, max_size=3)),
            "posys": draw(st.lists(st.tuples(st.lists(exps(nv, 0, 3), min_size=1, max_size=3),
                                             exps(nv, 0, 2), st.booleans()), max_size=5)),
            "eqs": draw(st.lists(st.tuples(exps(nv, 1, 4), st.integers(0, 3)), max_size=4)),
            "route": draw(st.sampled_from(["solve", "gp", "direct", "nocheck"]))}


def missing(n, occurs, ineqs, eqs):
    "Least fixed point: the (variable, direction) pairs that have no bound."
    have = set()
    for e in ineqs:
        for k, x in e.items():
            have.add((k, "upper" if x > 0 else "lower"))
    transmitted, grew = False, True
    while grew:
        grew = False
        for e in eqs:
            for k, x in e.items():
                for d in ("upper", "lower"):
                    if (k, d) in have:
                        continue
                    # k is bounded above if its allies are bounded below and rivals above
                    other = "lower" if d == "upper" else "upper"
                    if all((j, other if (y > 0) == (x > 0) else d) in have
                           for j, y in e.items() if j != k):
                        have.add((k, d))
                        grew = transmitted = True
    return {(k, d) for k in occurs for d in ("upper", "lower")} - have, transmitted


def combine(*parts):
    "Sum of exponent lists with signs, without zeros."
    out = {}
    for e, s in parts:
        for k, x in e:
            out[k] = out.get(k, 0) + s*x
            if not out[k]:
                del out[k]
    return out


def run_bounds(case):
    "The pairs an unbounded program is rejected for."
    from gpkit import Variable, VectorVariable, Model, units
    from gpkit.constraints.gp import GeometricProgram
    from gpkit.exceptions import UnboundedGP, Infeasible
    from gpkit.nomials import parse_subs
    n, m = case["n"], case["m"]
    nv = n + m
    us_ = list(case["units"])
    if case["vec"] and n > 1:
        us_[1] = us_[0]
        v = VectorVariable(2, "v", us_[0] or "-")
        xs = [v[0], v[1]]
    else:
        xs = []
    xs += [Variable("x%i" % k, us_[k]) for k in range(len(xs), nv)]
    ops = [x/units(u) if u else x for x, u in zip(xs, us_)]
    val = list(case["x"])
    zero = nv-1 if case["zero"] and m else None    # a constant that is zero makes terms vanish
    if zero is not None:
        val[zero] = 0.0

    def mon(e, c=1.0):
        out = c
        for k, x in e:
            out = out*ops[k]**x
        return out

    def at(e):
        return math.prod(val[k]**x for k, x in e)

    def clean(e):
        "A zero constant only ever multiplies."
        return [[k, abs(x) if k == zero else x] for k, x in e]
    subs = {xs[k]: val[k] for k in range(n, nv)}
    ineqs, eqs, cons = [], [], []
    nozero = [(k, x) for e in case["cost"] for k, x in e if k != zero]
    if not nozero:
        raise Discard
    cost = 0
    for i, e in enumerate(case["cost"]):
        e = clean(e)
        cost = cost + mon(e)
    costexps = [clean(e) for e in case["cost"] if not any(k == zero for k, _ in e)]
    if not costexps:
        raise Discard
    ineqs += [combine(([p for p in e if p[0] < n], 1)) for e in costexps]
    for terms, mono, flip in case["posys"]:
        mono = [p for p in mono if p[0] != zero]
        terms = [clean(t) for t in terms]
        total = sum(at(t) for t in terms) or 1.0
        c = 0.5*at(mono)/total
        lesser, greater = 0, mon(mono)
        for t in terms:
            lesser = lesser + mon(t, c)
        if not hasattr(lesser, "hmap") and not hasattr(greater, "hmap"):
            continue
        diffs = [combine((t, 1), (mono, -1)) for t in terms]
        if all(not d for d in diffs):
            continue
        con = (lesser <= greater) if hasattr(lesser, "hmap") and not flip else (greater >= lesser)
        cons.append(con)
        kept = [d for d in diffs if zero is None or d.get(zero, 0) <= 0]
        ineqs += [{k: x for k, x in d.items() if k < n} for d in kept]
    for e, split in case["eqs"]:
        e = [p for p in e if p[0] != zero]
        if not combine(([p for p in e if p[0] < n], 1)):
            continue
        left, right = e[:split], [[k, -x] for k, x in e[split:]]
        c = at(right)/at(left)
        a, b = mon(left, c), mon(right)
        if not hasattr(a, "hmap"):
            a, b = b, a
        cons.append(a == b)
        eqs.append({k: x for k, x in e if k < n})
    occurs = {k for e in ineqs + eqs for k in e}
    want, transmitted = missing(n, occurs, ineqs, eqs)
    name = {str(x.key): k for k, x in enumerate(xs)}
    model = Model(cost, cons, subs)
    before = dict(model.substitutions)
    where = "minimising %s subject to %s with %s" % (cost, [str(c) for c in cons], subs)

    def make(checkbounds=True):
        if case["route"] == "direct" or not checkbounds:
            constants, _, _ = parse_subs(model.varkeys, model.substitutions)
            return GeometricProgram(cost, model, constants, checkbounds=checkbounds)
        return model.gp()
    try:
        if case["route"] == "solve":
            try:
                model.solve(verbosity=0)
            except Infeasible as exc:
                if isinstance(exc, UnboundedGP):
                    raise
        elif case["route"] == "nocheck":
            gp = make(False)
            got = {(name[str(vk)], d) for vk, d in gp.check_bounds()}
            require(got == want, "%s: check_bounds found %s missing, should be %s", where, got, want)
            require(set(gp.varlocs) == {xs[k].key for k in occurs}, "%s: the program has variables"
                    " %s", where, list(gp.varlocs))
            gp.check_bounds(err_on_missing_bounds=True)
        else:
            make()
        require(not want, "%s was accepted, though %s are missing", where,
                [(str(xs[k]), d) for k, d in sorted(want)])
    except UnboundedGP as exc:
        got = set()
        for part in str(exc).split("\n\n"):
            match = re.match(r"(.+?) has no (upper|lower) bound", part)
            require(match and match.group(1) in name, "unreadable message %r", part)
            got.add((name[match.group(1)], match.group(2)))
        require(got == want, "%s: %s were named as missing, should be %s", where,
                [(str(xs[k]), d) for k, d in sorted(got)], [(str(xs[k]), d) for k, d in sorted(want)])
    require(dict(model.substitutions) == before, "the model's substitutions were changed")
    return Info(bool(want) or transmitted, [case["route"]] + (["transmitted"] if transmitted else [])
                + (["unbounded"] if want else ["bounded"]), where[:200])


@st.composite
def impossible(draw):
    "A boxed program and what makes it infeasible."
    spec = draw(gpgen.specs(nfree=(1, 4), nfixed=(0, 2), nposys=(0, 3), neqs=(0, 1)))
    n = spec["n"]
    return {"spec": spec, "kind": draw(st.sampled_from(["posy", "eq", "constant", "sum", "twoeqs"])),
            "exps": draw(gpgen.exps_over(n, 1, 3)), "by": draw(st.sampled_from([1.02, 1.5, 10, 1e4])),
            "flip": draw(st.booleans()), "at": draw(st.integers(0, 9)),
            "solver": draw(st.sampled_from([None, "cvxopt"])),
            "route": draw(st.sampled_from(["model", "gp", "direct", "nested"])),
            "again": draw(st.booleans())}


def run_impossible(case):
    "Infeasible programs end in the right error; the model is as before."
    from gpkit import Variable
    from gpkit.exceptions import Infeasible, PrimalInfeasible, UnknownInfeasible, DualInfeasible
    spec = case["spec"]
    b = gpgen.build(spec)
    b.costmag = costmag(b)
    cost, _ = b.ref.solve()    # what it is without the culprit
    # the largest value of the monomial over the boxes (at the fixed values)
    top, mono = 1.0, 1.0
    refm = {}
    edges = {}
    for i, p in enumerate(b.ref.posys):
        if len(p) == 1:
            (c, e), = p
            free = {k: x for k, x in e.items() if k < spec["n"]}
            if len(free) == 1:
                (k, x), = free.items()
                c *= math.prod(b.ref.fixed[j]**y for j, y in e.items() if j >= spec["n"])
                lim = c**(-1/x)     # x_k <= lim if x > 0 else >= lim
                lo, hi = edges.get(k, (0, math.inf))
                edges[k] = (lo, min(hi, lim)) if x > 0 else (max(lo, lim), hi)
    from .. import gpgen as g
    for k, x in case["exps"]:
        lo, hi = edges[k]
        top *= (hi if x > 0 else lo)**x*b.fac[k]**x
        mono = mono*g.operand(b, k)**x
    sure = False
    limit = Variable("limit")
    culprit, extra = [], {}
    if case["kind"] == "posy":
        culprit = [mono >= top*case["by"]] if case["flip"] else [top*case["by"]/mono <= 1]
    elif case["kind"] == "eq":
        culprit = [mono == top*case["by"]]
    elif case["kind"] == "sum":   # a + b <= c where even half of it is too much
        culprit = [1 >= top*case["by"]/mono/2 + top*case["by"]/mono/2.0 + mono/top*1e-3]
    elif case["kind"] == "constant":   # folded away: no solver needed
        culprit = [limit >= 1.0 + mono*1e-9/top]
        extra = {limit: 1/case["by"]}
        sure = True
    elif case["kind"] == "twoeqs":
        culprit = [mono == top*0.9, mono**2 == (top*0.9)**2*case["by"]]
    b.constraints.insert(case["at"] % (len(b.constraints)+1), culprit)
    b.subs.update(extra)
    where = "minimising %s subject to %s with %s" % (b.cost, b.constraints, b.subs)
    out = sys.stdout
    kinds = (PrimalInfeasible,) if sure or case["kind"] == "twoeqs" else (
        PrimalInfeasible, UnknownInfeasible, DualInfeasible)
    try:
        sol = solve(b, case["route"], case["solver"])
    except Infeasible as exc:
        require(isinstance(exc, kinds), "%s ended with %s %s", where, type(exc).__name__, exc)
        label = type(exc).__name__
    else:
        raise Violation("%s has no feasible point, but was given the answer %s at %s" % (
            where, sol["cost"], sol["variables"]))
    require(sys.stdout is out, "stdout was not restored")
    # the same variables make a solvable model without the culprit
    if case["again"]:
        b = gpgen.build(spec)
        b.costmag = costmag(b)
        sol = solve(b, case["route"], case["solver"])
        verify(b, sol, cost, "after a failed solve: %s" % where)
    return Info(True, [case["kind"], label, case["route"]], where[:200])


@st.composite
def vanishing(draw):
    "A ray, and constraints and costs that do not increase along it."
    n = draw(st.integers(2, 4))
    d = draw(st.lists(st.sampled_from(DIRS), min_size=n, max_size=n).filter(any))
    return {"n": n, "d": d, "units": draw(st.lists(st.sampled_from(["", "ft", "kg"]), min_size=n,
                                                   max_size=n)),
            "posys": draw(st.lists(st.lists(exps(n, 1, 3), min_size=1, max_size=3), min_size=1,
                                   max_size=6)),
            "cost": draw(st.lists(exps(n, 1, 3), min_size=1, max_size=2)),
            "eq": draw(st.one_of(st.none(), st.tuples(st.integers(0, n-1), st.integers(0, n-1)))),
            "x": draw(st.lists(gpgen.nums(0.2, 5), min_size=n, max_size=n)),
            "route": draw(st.sampled_from(["solve", "gp", "checkless"]))}


def run_vanishing(case):
    "No answer for a program whose cost can be driven to zero."
    from gpkit import Variable, Model, units
    from gpkit.exceptions import Infeasible, DualInfeasible, UnknownInfeasible, UnboundedGP
    from gpkit.constraints.gp import GeometricProgram
    n, d, at = case["n"], case["d"], case["x"]
    xs = [Variable("x%i" % k, u) for k, u in enumerate(case["units"])]
    ops = [x/units(u) if u else x for x, u in zip(xs, case["units"])]

    def slope(e):
        return sum(x*d[k] for k, x in e)

    def down(e, strict):
        e = [list(p) for p in e]
        if slope(e) > 0:
            e = [[k, -x] for k, x in e]
        if strict and slope(e) == 0:
            k = max(range(n), key=lambda j: abs(d[j]))
            e = [p for p in e if p[0] != k]
            e = [[j, -x] for j, x in e] if slope(e) > 0 else e
            e = e + [[k, -1 if d[k] > 0 else 1]]
        return e

    def mon(e, c):
        out = c/math.prod(at[k]**x for k, x in e)
        for k, x in e:
            out = out*ops[k]**x
        return out
    cons, ineqs, eqs = [], [], []
    for terms in case["posys"]:
        terms = [down(t, False) for t in terms]
        lesser = sum(mon(t, 0.7/len(terms)) for t in terms)
        cons.append(lesser <= 1)
        ineqs += [dict(map(tuple, t)) for t in terms]
    costs = [down(t, True) for t in case["cost"]]
    cost = sum(mon(t, 1.0) for t in costs)
    ineqs += [dict(map(tuple, t)) for t in costs]
    if case["eq"] and case["eq"][0] != case["eq"][1]:
        i, j = case["eq"]
        e = [p for p in ([i, d[j]], [j, -d[i]]) if p[1]]
        if e:
            cons.append(mon(e, 1.0) == 1)
            eqs.append(dict(map(tuple, e)))
    occurs = {k for e in ineqs + eqs for k in e}
    want, _ = missing(n, occurs, ineqs, eqs)
    model = Model(cost, cons)
    where = "minimising %s subject to %s" % (cost, [str(c) for c in cons])
    try:
        if case["route"] == "solve":
            sol = model.solve(verbosity=0)
        elif case["route"] == "gp":
            sol = model.gp().solve(verbosity=0)
        else:
            want = set()
            sol = GeometricProgram(cost, model, {}, checkbounds=False).solve(verbosity=0)
    except UnboundedGP:
        require(want, "%s was called unbounded", where)
        return Info(False, ["bounds missing"])
    except Infeasible as exc:
        require(not want, "%s got past the bounds check", where)
        require(isinstance(exc, (DualInfeasible, UnknownInfeasible)), "%s ended with %s", where,
                type(exc).__name__)
        return Info(True, [type(exc).__name__, case["route"]], where[:200])
    raise Violation("%s: the cost vanishes along %s, but the answer %s at %s was given" % (
        where, d, sol["cost"], sol["variables"]))


CHECKS = {"bounds": {"strategy": unboxed(), "run": run_bounds, "quick": 800, "thorough": 15000},
          "infeasible": {"strategy": impossible(), "run": run_impossible, "quick": 150,
                         "thorough": 4000},
          "vanishing": {"strategy": vanishing(), "run": run_vanishing, "quick": 200,
                        "thorough": 4000}}
