"C02: unit invariance and dimensional checking."
import contextlib
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Info, Violation, require
from .. import unitsys as us

RULE = ("A case is a straight-line program over 1-4 quantities, run under two different choices"
        " of units, with mismatched pairs tried afterwards; non-trivial when at least one"
        " addition, subtraction or relation combined two different units of one dimension.")
ASSUMPTIONS = ["raw pint quantities appear only as right operands (on the left, the operator"
               " that runs is pint's own, not gpkit's)",
               "pint's conversion of a single unit to base units is right (checked against the"
               " harness's own table for every unit used)",
               "offset units such as degC are out of scope (gpkit units are multiplicative)"]
RTOL = 1e-9
vals = st.sampled_from([1, 2, 3, 0.5, 10, 2.5, 7, 0.1, 40])
points = st.floats(0.05, 20).map(lambda v: float("%.4g" % v))


@st.composite
def cases(draw):
    "Programs with dimensions."
    sig = draw(st.booleans())
    k = draw(st.integers(1, 4))
    pool = draw(st.lists(st.sampled_from(us.DIMS), min_size=1, max_size=2))
    var_dims = [draw(st.sampled_from(pool)) for _ in range(k)]
    units = [[draw(us.unit_in(d)) for d in var_dims] for _ in range(2)]
    prog = [["var", i] for i in range(k)]
    ds = [tuple(F(x) for x in d) for d in var_dims]
    size = [1]*k        # number of terms, at most
    pos = [True]*k
    kinds = ["nom"]*k   # nom | num (plain number or quantity)
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["add", "add", "add", "mul", "div", "pow", "to", "const"]
                                  + (["sub"] if sig else [])))
        n = len(prog)
        idx = st.integers(0, n-1).map(lambda i, n=n: n-1-i)
        if op == "const":
            d = draw(st.sampled_from(pool + [us.ZERO]))
            u = draw(us.unit_in(d))
            kind = draw(st.sampled_from(["mon", "qty"])) if u else "num"
            if kind == "qty" and u == "dimensionless":
                kind = "mon"
            prog.append(["const", draw(vals), u, kind])
            ds.append(tuple(F(x) for x in d))
            size.append(1)
            pos.append(True)
            kinds.append("num" if kind != "mon" else "nom")
            continue
        i, j = draw(idx), draw(idx)
        if kinds[i] == "num":   # raw pint quantities only as right operands: see ASSUMPTIONS
            continue
        if op in ("add", "sub"):
            same = [m for m in range(n) if ds[m] == ds[i]]
            j = draw(st.sampled_from(same[::-1]))
            if kinds[i] == kinds[j] == "num":
                continue
            ins, d, s, p = [op, i, j], ds[i], size[i]+size[j], pos[i] and pos[j] and op == "add"
        elif op == "mul":
            if kinds[i] == kinds[j] == "num":
                continue
            ins, d, s, p = [op, i, j], tuple(a+b for a, b in zip(ds[i], ds[j])), size[i]*size[j], pos[i] and pos[j]
        elif op == "div":
            j = draw(st.sampled_from([m for m in range(n) if size[m] == 1 and pos[m]]))
            if kinds[i] == kinds[j] == "num":
                continue
            ins, d, s, p = [op, i, j], tuple(a-b for a, b in zip(ds[i], ds[j])), size[i], pos[i]
        elif op == "pow":
            if kinds[i] == "num":
                continue
            e = draw(st.sampled_from([2, 3, 0.5, -1, 1.5, 1, 0] if size[i] == 1 and pos[i] else [2, 1]))
            ins, d, s, p = [op, i, e], tuple(a*F(e) for a in ds[i]), size[i]**max(1, math.ceil(abs(e))), pos[i]
        else:
            if kinds[i] == "num":
                continue
            d = ds[i]
            if d not in us.CLASSES:
                continue
            us_ = [u for u in us.CLASSES[d] if u]
            ins, s, p = ["to", i, draw(st.sampled_from(us_))], size[i], pos[i]
        if s > 20 or any(abs(x) > 6 for x in d):
            continue
        prog.append(ins)
        ds.append(d)
        size.append(s)
        pos.append(p)
        kinds.append("nom")
    return {"sig": sig, "dims": [list(map(int, d)) for d in var_dims], "units": units,
            "prog": prog, "point": [draw(points) for _ in range(k)],
            "pairs": draw(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12)),
                                   min_size=1, max_size=4)),
            "subunits": [draw(us.unit_in(d)) for d in var_dims]}


def build(ins, regs, xs):
    "One instruction."
    import gpkit
    from gpkit.units import Quantity
    op = ins[0]
    if op == "var":
        return xs[ins[1]]
    if op == "const":
        _, v, u, kind = ins
        if kind == "num":
            return v
        return v*gpkit.units(u) if kind == "mon" else Quantity(v, u)
    if op == "add":
        return regs[ins[1]] + regs[ins[2]]
    if op == "sub":
        return regs[ins[1]] - regs[ins[2]]
    if op == "mul":
        return regs[ins[1]] * regs[ins[2]]
    if op == "div":
        return regs[ins[1]] / regs[ins[2]]
    if op == "pow":
        return regs[ins[1]] ** ins[2]
    return regs[ins[1]].to(ins[2])


def oracle(case):
    "(SI value, sum of magnitudes of terms, dimensions, number of unit names met) per register."
    out = []
    for ins in case["prog"]:
        op = ins[0]
        if op == "var":
            v = case["point"][ins[1]]
            r = (v, v, tuple(map(F, case["dims"][ins[1]])))
        elif op == "const":
            v = ins[1]*us.factor(ins[2])
            r = (v, v, us.dims(ins[2]))
        elif op == "to":
            r = out[ins[1]]
        elif op == "pow":
            v, m, d = out[ins[1]]
            r = (v**ins[2], m**ins[2] if ins[2] > 0 else abs(v**ins[2]), tuple(x*F(ins[2]) for x in d))
        else:
            (v1, m1, d1), (v2, m2, d2) = out[ins[1]], out[ins[2]]
            if op == "add":
                r = (v1+v2, m1+m2, d1)
            elif op == "sub":
                r = (v1-v2, m1+m2, d1)
            elif op == "mul":
                r = (v1*v2, m1*m2, tuple(a+b for a, b in zip(d1, d2)))
            else:
                r = (v1/v2, m1/abs(v2), tuple(a-b for a, b in zip(d1, d2)))
        out.append(r)
    return out


def hmap_value(hmap, values):
    "Plain evaluation of a map from exponents to coefficients."
    return sum(c*math.prod(values[vk]**float(x) for vk, x in exp.items())
               for exp, c in hmap.items())


def si_value(nom, values):
    "SI value of an expression, variables taking `values` in their own units."
    if not hasattr(nom, "hmap"):
        if hasattr(nom, "units"):
            return float(nom.to_base_units().magnitude)
        return float(nom)
    return hmap_value(nom.hmap, values)*us.si(nom.units)


def holds(constraint, values):
    "Whether the solver-facing form of the constraint holds."
    from gpkit.exceptions import PrimalInfeasible
    try:
        return all(hmap_value(h, values) <= 1 for h in constraint.as_hmapslt1({}))
    except PrimalInfeasible:
        return False


def raises_dimensionality(what, func):
    "func must raise DimensionalityError."
    from gpkit import DimensionalityError
    try:
        out = func()
    except DimensionalityError:
        return
    except Exception as exc:
        raise Violation("%s raised %s (%s) instead of a DimensionalityError" % (
            what, type(exc).__name__, exc)) from exc
    raise Violation("%s succeeded with mismatched dimensions, giving %s" % (what, out))


def run(case):
    "Same program under two unit choices, against SI values."
    from gpkit import Variable, SignomialsEnabled
    from gpkit.units import Quantity
    want = oracle(case)
    mixed = False
    for which in (0, 1):
        units = case["units"][which]
        xs = [Variable("x%i" % i, u) if u else Variable("x%i" % i) for i, u in enumerate(units)]
        values = {}
        for x, u, p in zip(xs, units, case["point"]):
            values[x.key] = p/us.factor(u)
            require(abs(us.si(x.units) - us.factor(u)) <= 1e-12*us.factor(u),
                    "unit %s has SI factor %r", u, us.si(x.units))
        with (SignomialsEnabled() if case["sig"] else contextlib.nullcontext()):
            regs = []
            for n, ins in enumerate(case["prog"]):
                r = build(ins, regs, xs)
                regs.append(r)
                v, m, d = want[n]
                got = si_value(r, values)
                require(abs(got - v) <= RTOL*m, "with units %s, register %i %s = %s is %r in SI,"
                        " should be %r", units, n, ins, r, got, v)
                if hasattr(r, "hmap") and abs(v) > 1e-12*m:
                    require(us.pint_dims(r.units) == d, "with units %s, %s has dimensions %s",
                            units, r, us.pint_dims(r.units))
                if ins[0] == "to":
                    f = us.factor(ins[2])
                    require(abs(hmap_value(r.hmap, values)*f - v) <= RTOL*m, "%s.to(%s) = %s",
                            regs[ins[1]], ins[2], r)
                if ins[0] in ("add", "sub"):
                    a, b = regs[ins[1]], regs[ins[2]]
                    mixed |= str(getattr(a, "units", 1)) != str(getattr(b, "units", 1))
            # earlier registers still denote what they denoted
            for n, r in enumerate(regs):
                got = si_value(r, values)
                require(abs(got - want[n][0]) <= RTOL*want[n][1], "register %i %s changed", n, r)
            mixed |= relations(case, regs, want, values)
            substitutions(case, regs, want, xs, Quantity)
        mismatches(case, regs, want, xs)
    return Info(mixed, {i[0] for i in case["prog"]} | ({"mixed"} if mixed else set()),
                str(regs[-1]))


def relations(case, regs, want, values):
    "Relations between registers of the same dimensions hold exactly when they do in SI."
    from gpkit.exceptions import PrimalInfeasible
    mixed = False
    n = len(regs)
    for a, b in case["pairs"]:
        i, j = a % n, b % n
        (vi, mi, di), (vj, mj, dj) = want[i], want[j]
        if di != dj or vi <= 1e-6*mi or vj <= 1e-6*mj or not hasattr(regs[i], "hmap"):
            continue
        if any(c <= 0 for c in regs[i].hmap.values()):
            continue
        if hasattr(regs[j], "hmap") and (len(regs[j].hmap) > 1 or regs[j].any_nonpositive_cs):
            continue
        ratio = vi/vj
        for slack in (1.02, 0.98):
            for form in ("le", "ge", "eq"):
                lhs, rhs = regs[i], regs[j]*(ratio*slack)
                if form != "le" and not hasattr(rhs, "hmap"):
                    continue
                if form == "eq" and len(regs[i].hmap) > 1:
                    continue
                try:
                    con = {"le": lambda: lhs <= rhs, "ge": lambda: rhs >= lhs,
                           "eq": lambda: lhs == rhs}[form]()
                except PrimalInfeasible as exc:  # impossible at every point
                    require(slack < 1, "%s %s %s raised %s", lhs, form, rhs, exc)
                    continue
                if form == "eq":
                    if con is False:   # constants that differ
                        require(slack != 1 and not lhs.vks - rhs.vks, "%s == %s is False", lhs, rhs)
                        continue
                require(hasattr(con, "as_hmapslt1"), "%s %s %s gave %s", lhs, form, rhs, con)
                want_ = slack > 1 and form != "eq"
                require(holds(con, values) == want_, "%s is %s at a point where the sides' ratio"
                        " is %r", con, "violated" if want_ else "satisfied", 1/slack)
        mixed |= str(getattr(regs[i], "units", 1)) != str(getattr(regs[j], "units", 1))
    return mixed


def substitutions(case, regs, want, xs, Quantity):
    "Substituting quantities in yet other units gives the same physical quantity."
    subs = {}
    for x, u, p in zip(xs, case["subunits"], case["point"]):
        subs[x] = Quantity(p/us.factor(u), u) if u else p
        if not u and x.units is not None:
            subs[x] = Quantity(p, "dimensionless")
    for i in (len(regs)-1, case["pairs"][0][0] % len(regs)):
        if not hasattr(regs[i], "hmap"):
            continue
        s = regs[i].sub(subs, require_positive=False)
        v, m, _ = want[i]
        got = si_value(s, {})
        require(not s.vks, "%s left after substituting everything in %s", s, regs[i])
        require(abs(got - v) <= RTOL*m, "%s substituted with %s is %r in SI, should be %r",
                regs[i], subs, got, v)


def mismatches(case, regs, want, xs):
    "Combining different dimensions always raises."
    from gpkit import SignomialsEnabled
    from gpkit.units import Quantity
    n = len(regs)
    tried = 0
    for a, b in case["pairs"] + [(0, len(regs)-1)]:
        i, j = a % n, b % n
        (vi, mi, di), (vj, mj, dj) = want[i], want[j]
        if di == dj or abs(vi) <= 1e-6*mi or abs(vj) <= 1e-6*mj:
            continue
        A, B = regs[i], regs[j]
        if not hasattr(A, "hmap"):
            A, B, i, j = B, A, j, i
        if not hasattr(A, "hmap") or not A.vks:
            continue
        if any(c == 0 for c in A.hmap.values()):
            continue
        tried += 1
        with SignomialsEnabled():
            raises_dimensionality("%s + %s" % (A, B), lambda: A + B)
            if hasattr(B, "hmap"):
                raises_dimensionality("%s + %s" % (B, A), lambda: B + A)
            raises_dimensionality("%s - %s" % (A, B), lambda: A - B)
            if not (hasattr(B, "magnitude")):
                raises_dimensionality("%s <= %s" % (A, B), lambda: A <= B)
                raises_dimensionality("%s >= %s" % (A, B), lambda: A >= B)
            eq = (A == B)
            require(not eq and not hasattr(eq, "as_hmapslt1"), "%s == %s gave %s", A, B, eq)
        units = getattr(B, "units", None)
        if units is not None:
            raises_dimensionality("%s.to(%s)" % (A, units), lambda: A.to(units))
    for x, u, d in zip(xs, case["units"][1], case["dims"]):
        other = "kg" if d != [0, 1, 0, 0] else "s"
        raises_dimensionality("%s.sub(3 %s)" % (x, other), lambda: (x*2).sub({x: Quantity(3, other)}))
        raises_dimensionality("%s.to(%s)" % (x, other), lambda: x.to(other))
        raises_dimensionality("%s + 3 %s" % (x, other), lambda: x + Quantity(3, other))
        if any(d):
            raises_dimensionality("%s + 1" % x, lambda: x + 1)
            raises_dimensionality("%s >= 1" % x, lambda: x >= 1)
    return tried


CHECKS = {"program": {"strategy": cases(), "run": run, "quick": 700}}
