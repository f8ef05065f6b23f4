"C06: normalised constraints are equivalent to the constraints as written."
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Info, Violation, Discard, require
from .. import algebra as al
from .. import unitsys as us

RULE = ("A case is posynomial <= monomial or monomial == monomial over quantities and vector"
        " elements, scaled so that a random point lies just inside or outside, normalised with a"
        " sequence of random fixed subsets; non-trivial when fixing made terms alike or constant"
        " while something stayed free, or a verdict of tautology/infeasibility was due.")
UNITS = ["ft", "", "kg", "hour", ""]
NV = 5
ALT = {"ft": [("ft", 1.0), ("inch", 12.0), ("m", 0.3048)], "kg": [("kg", 1.0), ("g", 1000.0)],
       "hour": [("hour", 1.0), ("minute", 60.0)], "": [("", 1.0)]}
vals = st.one_of(st.floats(0.2, 5), st.sampled_from([1.0, 2.0, 0.5])).map(
    lambda v: float("%.4g" % v))


def cases():
    "Strategy."
    return st.fixed_dictionaries({
        "prog": al.programs(signomial=False, nvars=NV, min_ops=1, max_ops=8, numpy=False, zero=False),
        "mono": st.lists(st.sampled_from([0, 0, 1, -1, 2, 0.5]), min_size=NV, max_size=NV),
        "kind": st.sampled_from(["le", "ge", "le", "ge", "eq"]),
        "point": st.lists(vals, min_size=NV, max_size=NV),
        "scale": st.sampled_from([1.0, 1.004, 0.996, 1.3, 0.7, 4.0, 0.2]),
        "funits": st.sampled_from([("ft", "inch"), ("m", "ft"), ("", ""), ("kWh", "J"), ("N", "lbf")]),
        "near": st.one_of(st.none(), st.none(), st.tuples(
            st.sampled_from([0.9995, 0.9999, 0.998, 1-1e-6, 0.5, 0.9991]), st.integers(0, NV-1),
            st.sampled_from([0, 1, -1, 2])).map(list)),
        "stages": st.lists(st.fixed_dictionaries({
            "fixed": st.lists(st.integers(0, NV-1), unique=True, max_size=NV),
            "values": st.lists(vals, min_size=NV, max_size=NV),
            "atpoint": st.booleans(),
            "negate": st.one_of(st.none(), st.none(), st.integers(0, NV-1)),
            "qty": st.integers(0, 3)}), min_size=1, max_size=4),
        "points": st.lists(st.lists(vals, min_size=NV, max_size=NV), min_size=1, max_size=3)})


def run(case):
    "Both directions of the equivalence at several points, for several substitutions."
    from gpkit import Variable, VectorVariable, units
    from gpkit.exceptions import PrimalInfeasible, InvalidGPConstraint
    from gpkit.units import Quantity
    vec = VectorVariable(2, "v")
    xs = [Variable("x", "ft"), vec[0], Variable("z", "kg"), Variable("t", "hour"), vec[1]]
    index = {x.key: i for i, x in enumerate(xs)}
    operands = [x/units(u) if u else x for x, u in zip(xs, UNITS)]
    prog = case["prog"]
    refs = al.reference(prog)
    regs = al.execute(prog, operands)
    i = max(k for k, r in enumerate(regs) if hasattr(r, "hmap"))
    lesser, lref = regs[i], refs[i]
    if case["kind"] == "eq" and not lref.is_mono():
        i = max(k for k, r in enumerate(regs) if hasattr(r, "hmap") and refs[k].is_mono())
        lesser, lref = regs[i], refs[i]
    gexp = {(k, F(e)) for k, e in enumerate(case["mono"]) if e}
    point = case["point"]
    gval = math.prod(point[k]**float(e) for k, e in gexp)
    lval, _ = lref.evaluate(point)
    if not 1e-12 < lval/gval < 1e12:
        raise Discard
    coef = lval/gval*case["scale"]   # lesser/greater is 1/scale at the point
    greater = coef
    for k, e in sorted(gexp):
        greater = greater*operands[k]**float(e)
    if not hasattr(greater, "hmap"):
        greater = greater*units("dimensionless")
    u1, u2 = case["funits"]
    if u1:
        lesser = lesser*units(u1)
        greater = greater*units(u2)*(us.factor(u1)/us.factor(u2))
    ratio = {}
    for e, c in lref.items():
        d = dict(e)
        for k, x in gexp:
            d[k] = d.get(k, 0) - x
            if not d[k]:
                del d[k]
        ratio[tuple(sorted(d.items()))] = float(c)/coef

    if case["near"] and case["kind"] != "eq":
        # a term that all but equals the greater side, at once or when its variable is fixed
        k, n, x = case["near"]
        lesser = lesser + greater*(k*(operands[n]/point[n])**x)
        e = ((n, F(x)),) if x else ()
        ratio[e] = ratio.get(e, 0) + k/point[n]**x

    def rho(values):
        "lesser/greater at a point; and its constant part after fixing."
        return sum(c*math.prod(values[k]**float(x) for k, x in e) for e, c in ratio.items())
    k0 = ratio.get((), 0.0)
    # making it
    try:
        if case["kind"] == "eq":
            con = (lesser == greater)
            if con is False:
                require(set(ratio) == {()} and abs(k0-1) > 1e-12, "%s == %s gave False", lesser, greater)
                return Info(False, ["constant equality"])
        else:
            con = (lesser <= greater) if case["kind"] == "le" else (greater >= lesser)
    except PrimalInfeasible as exc:
        require(k0 >= 1 + (1e-3*0.999 if len(ratio) == 1 else -1e-12), "%s <= %s raised %s, though"
                " its constant part is %r", lesser, greater, exc, k0)
        return Info(True, ["never possible"])
    require(hasattr(con, "as_hmapslt1"), "%s %s %s gave %r", lesser, case["kind"], greater, con)
    if case["kind"] != "eq" and len(ratio) == 1 and () in ratio:
        require(k0 <= 1 + 1.001e-3, "%s <= %s was accepted", lesser, greater)
    nontrivial, labels = False, {case["kind"]}
    for stage in case["stages"]:
        fixed = {k: (point[k] if stage["atpoint"] else stage["values"][k]) for k in stage["fixed"]}
        neg = stage["negate"]
        if neg is not None:
            # a negative constant, where the greater side stays positive
            exps = [float(x) for e in ratio for k, x in e if k == neg]
            if neg in fixed and exps and all(x == int(x) for x in exps) and not \
                    float(case["mono"][neg]) % 2 and any(x % 2 for x in exps):
                fixed[neg] = -fixed[neg]
                labels.add("negative constant")
            else:
                neg = None
        subs = {}
        for k, v in fixed.items():
            alts = ALT[UNITS[k]]
            u, f = alts[stage["qty"] % len(alts)]
            subs[xs[k].key] = Quantity(v*f, u) if u and stage["qty"] < 3 else v
        before = dict(subs)
        const, nfree, folded, seen, sums, sizes = 0.0, 0, False, set(), {}, {}
        for e, c in ratio.items():
            rest = tuple((k, x) for k, x in e if k not in fixed)
            val = c*math.prod(fixed[k]**float(x) for k, x in e if k in fixed)
            sums[rest] = sums.get(rest, 0) + val
            sizes[rest] = sizes.get(rest, 0) + abs(val)
            if rest:
                nfree += 1
                folded |= rest in seen
                seen.add(rest)
            else:
                const += val
                folded |= bool(e)
        signomial = None
        if neg is not None:
            if case["kind"] == "eq" or any(abs(v) < 1e-9*sizes[r] for r, v in sums.items()):
                continue   # (one side of an equality would be negative; or terms that cancel)
            signomial = any(v < 0 for r, v in sums.items() if r)
        try:
            hmaps = list(con.as_hmapslt1(subs))
            infeasible = None
        except InvalidGPConstraint:
            require(signomial, "with %s fixed, %s is a posynomial inequality, but was rejected",
                    subs, con)
            nontrivial = True
            labels.add("signomial")
            continue
        except PrimalInfeasible as exc:
            hmaps, infeasible = [], exc
        require(subs == before, "the substitutions were changed")
        require(not signomial or infeasible, "with %s fixed, %s is no posynomial inequality, but"
                " became %s", subs, con, hmaps)
        if signomial:
            continue
        free = {vk for h in hmaps for e in h for vk in e}
        require(not free & set(subs), "fixed variables %s left in the normal form of %s",
                free & set(subs), con)
        require(all(vk in index for vk in free), "unknown variables in %s", hmaps)
        require(all(c > 0 for h in hmaps for c in h.values()), "nonpositive coefficient in %s", hmaps)
        where = "with %s fixed, %s (ratio %s)" % (subs, con, ratio)
        if case["kind"] == "eq":
            if not nfree:
                if abs(const-1) > 2e-3:
                    require(infeasible is not None, "%s: impossible, but accepted as %s", where, hmaps)
                    labels.add("infeasible")
                    nontrivial = True
                elif abs(const-1) < 0.9e-3:
                    require(infeasible is None and not hmaps, "%s: always true, but became %s %s",
                            where, hmaps, infeasible)
                    labels.add("tautology")
                    nontrivial = True
                continue
        elif nfree and abs(const-1) < 1e-12:
            continue   # rounding decides
        elif const >= 1 and (nfree or const > 1.001e-3 + 1):
            require(infeasible is not None, "%s: impossible, but accepted as %s", where, hmaps)
            labels.add("infeasible")
            nontrivial = True
            continue
        elif not nfree and const <= 1 - 1e-12:
            require(infeasible is None and not hmaps, "%s: always true, but became %s %s", where,
                    hmaps, infeasible)
            labels.add("tautology")
            nontrivial = True
            continue
        elif not nfree or const > 1 - 1e-12:
            continue   # within the feasibility tolerance: either is fine
        require(infeasible is None, "%s: possible, but rejected with %s", where, infeasible)
        nontrivial |= folded
        labels.add("folded" if folded else "plain")
        # the same points
        for base in [point] + case["points"]:
            values = [fixed.get(k, base[k]) for k in range(NV)]
            vkvals = {x.key: values[k] for k, x in enumerate(xs)}
            r = rho(values)
            got = [sum(c*math.prod(vkvals[vk]**float(x) for vk, x in e.items())
                       for e, c in h.items()) for h in hmaps]
            if case["kind"] == "eq":
                require(len(got) == 2, "%s: an equality became %s", where, hmaps)
                for g, w in zip(sorted(got), sorted([r, 1/r])):
                    require(abs(g-w) <= 1e-9*w, "%s: the normal form %s is %s at %s, where the"
                            " sides' ratio is %r", where, hmaps, got, values, r)
            else:
                if abs(r-1) < 1e-9*max(1, 1/(1-const)):
                    continue
                require(all(g <= 1 for g in got) == (r <= 1), "%s: the normal form %s is %s at %s,"
                        " where the sides' ratio is %r", where, hmaps, got, values, r)
                # walk to the boundary: it must be the normal form's boundary too
                direction = [0.0 if k in fixed else math.log(case["points"][0][k]) + 0.1*(k+1)
                             for k in range(NV)]
                edge = boundary(rho, values, direction)
                if edge is not None:
                    vkvals = {x.key: edge[k] for k, x in enumerate(xs)}
                    worst = max(sum(c*math.prod(vkvals[vk]**float(x) for vk, x in e.items())
                                    for e, c in h.items()) for h in hmaps)
                    require(abs(worst-1) <= 1e-6*max(1, 1/(1-const)), "%s: the normal form %s is %r at %s,"
                            " where the sides are equal", where, hmaps, worst, edge)
                    labels.add("boundary")
    return Info(nontrivial, labels, str(con))


def boundary(rho, values, direction):
    "A point on the line through values where rho is one, if there is one nearby."
    def at(t):
        return [v*math.exp(t*d) for v, d in zip(values, direction)]
    prev = None
    for step in range(-20, 21):
        t = step*0.2
        sign = rho(at(t)) <= 1
        if prev is not None and sign != prev[1]:
            lo, hi = prev[0], t
            for _ in range(80):
                mid = (lo+hi)/2
                if (rho(at(mid)) <= 1) == prev[1]:
                    lo = mid
                else:
                    hi = mid
            return at(lo)
        prev = (t, sign)
    return None


CHECKS = {"normalise": {"strategy": cases(), "run": run, "quick": 900}}
