"C04: derivatives and monomial approximations are exact."
import contextlib
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Info, Discard, require
from .. import algebra as al
from .. import unitsys as us

RULE = ("A case is an expression program over scalars with units and vector elements, differentiated"
        " by every variable and (for posynomials) approximated about a random positive point and"
        " compared at others; non-trivial when the expression has at least two terms and one"
        " derivative has at least two; or a many-termed expression over all elements of an array,"
        " differentiated by each and approximated about a point.")
UNITS = ["ft", "", "kg", "hour"]
posfloat = st.one_of(st.floats(0.02, 50), st.sampled_from([1.0, 0.5, 2.0, 4.0]),
                     st.floats(-7, 7).map(lambda v: 10**v)).map(
    lambda v: float("%.5g" % v))


def cases():
    "Strategy."
    return st.builds(
        lambda p, outer, pts, form, extra, frac: dict(p, outer=outer, points=pts, form=form,
                                                      extra=extra, frac=frac),
        al.programs(nvars=4, min_ops=2, max_ops=9, numpy=False, zero=False),
        st.sampled_from(["", "N", "ft", "kWh"]),
        st.lists(st.lists(posfloat, min_size=4, max_size=4), min_size=2, max_size=4),
        st.sampled_from(["obj", "key", "name", "qty", "keydict"]), st.booleans(),
        st.lists(st.sampled_from([0.5, -0.5, 1/3, -1.7, 2.35, 1, 3, -2]), min_size=4, max_size=4))


def x0_mapping(xs, point, form, extra):
    "A point, its variables named in one of the admissible ways."
    from gpkit import Variable
    from gpkit.keydict import KeyDict
    from gpkit.units import Quantity
    out = {}
    for x, u, p in zip(xs, UNITS, point):
        if form == "qty" and u:
            alt = {"ft": ("inch", 12.0), "kg": ("g", 1000.0), "hour": ("minute", 60.0)}[u]
            out[x] = Quantity(p*alt[1], alt[0])
        elif form == "key":
            out[x.key] = p
        elif form == "name":
            out[str(x.key)] = p
        else:
            out[x] = p
    if extra:
        out[Variable("unrelated")] = 5.0
    return KeyDict(out) if form == "keydict" else out


def run(case):
    "Exact derivative, and approximation at a point."
    from gpkit import Variable, VectorVariable, SignomialsEnabled, Posynomial, Monomial, units
    v = VectorVariable(2, "v")
    xs = [Variable("x", "ft"), v[1], Variable("z", "kg"), Variable("t", "hour")]
    index = {x.key: i for i, x in enumerate(xs)}
    operands = [x/units(u) if u else x for x, u in zip(xs, UNITS)]
    refs = al.reference(case)
    nontrivial = False
    labels = set()
    with (SignomialsEnabled() if case["sig"] else contextlib.nullcontext()):
        regs = al.execute(case, operands)
        i = max(k for k, r in enumerate(regs) if hasattr(r, "hmap"))
        nom, ref = regs[i], refs[i]
        # fractional exponents: multiply by a monomial of them
        if any(case["frac"]):
            for x, e, k in zip(operands, case["frac"], range(4)):
                if k == case["form"].__len__() % 4:
                    nom = nom*x**e
                    ref = ref.mul(al.Poly({((k, F(e)),): F(1)}))
                    if len(ref) == 0:
                        raise Discard
        factor = 1.0
        if case["outer"]:
            nom = nom*units(case["outer"])
            factor = us.factor(case["outer"])
        exps_before = {frozenset(e.items()): float(c) for e, c in nom.hmap.items()}
    # the derivative needs no signomial environment
    for k, (x, u) in enumerate(zip(xs, UNITS)):
        for key in (x, x.key):
            d = nom.diff(key)
            want = {}
            for e, c in ref.items():
                e = dict(e)
                if k in e:
                    c = float(c)*float(e[k])
                    e[k] -= 1
                    if abs(e[k]) < F(1, 10**12):
                        del e[k]
                    want[tuple(sorted(e.items()))] = c
            got = {}
            for e, c in al.term_list(d, index):
                if c == 0 and e == ():
                    continue
                e = tuple((w, F(float(x_)).limit_denominator(10**6)) for w, x_ in e)
                require(e not in got, "like terms in the derivative %s", d)
                got[e] = c
            scale = us.si(d.units)*us.factor(u)/factor
            want = {tuple((w, x_.limit_denominator(10**6)) for w, x_ in e): c
                    for e, c in want.items()}
            for e in set(got) | set(want):
                require(abs(got.get(e, 0)*scale - want.get(e, 0)) <= 1e-9*abs(want.get(e, 0)),
                        "d(%s)/d(%s) = %s; coefficient of %s is %r in the units %s, should be %r",
                        nom, x, d, e, got.get(e, 0), d.units, want.get(e, 0)/scale)
            if want:
                dn, dx = us.pint_dims(nom.units), us.pint_dims(x.units)
                require(us.pint_dims(d.units) == tuple(a-b for a, b in zip(dn, dx)),
                        "d(%s)/d(%s) has units %s", nom, x, d.units)
            nontrivial |= len(want) >= 2
    require(exps_before == {frozenset(e.items()): float(c) for e, c in nom.hmap.items()},
            "%s was changed by differentiating it", nom)
    # approximation
    if isinstance(nom, Posynomial) and ref.is_posy():
        x0 = x0_mapping(xs, case["points"][0], case["form"], case["extra"])
        where = case["points"][0]

        def logval(hm, p):
            "log of the expression at a point, and log-derivatives."
            logs = [(math.log(c) + sum(float(x)*math.log(p[index[vk]]) for vk, x in e.items()),
                     {index[vk]: float(x) for vk, x in e.items()}) for e, c in hm.items()]
            top = max(l for l, _ in logs)
            w = [math.exp(l-top) for l, _ in logs]
            tot = sum(w)
            grad = [sum(wi*g.get(k, 0) for wi, (_, g) in zip(w, logs))/tot for k in range(4)]
            mags = [sum(wi*abs(g.get(k, 0)) for wi, (_, g) in zip(w, logs))/tot for k in range(4)]
            return top + math.log(tot), grad, mags
        lv, grad, mags = logval(nom.hmap, where)
        biggest = max(abs(math.log(c) + 0) + sum(abs(float(x)*math.log(where[index[vk]]))
                                                 for vk, x in e.items())
                      for e, c in nom.hmap.items())
        if biggest < 300:
            for m in (nom.mono_approximation(x0), nom.mono_lower_bound(x0)
                      if hasattr(nom, "mono_lower_bound") else None):
                if m is None:
                    continue
                require(isinstance(m, Monomial), "%s is not a monomial", m)
                require(str(m.units) == str(nom.units), "%s approximated as %s", nom, m)
                mv, mg, _ = logval(m.hmap, where)
                require(abs(mv-lv) <= 1e-9*(1+biggest), "%s approximates %s with value e^%r instead"
                        " of e^%r at %s", m, nom, mv, lv, where)
                for k in range(4):
                    require(abs(mg[k]-grad[k]) <= 1e-8*mags[k], "%s approximates %s with"
                            " log-derivative %r instead of %r along %s at %s", m, nom, mg[k],
                            grad[k], xs[k], where)
                for p in case["points"][1:]:
                    pv, _, _ = logval(nom.hmap, p)
                    av, _, _ = logval(m.hmap, p)
                    require(av <= pv + 1e-8*(1+abs(pv)+biggest), "%s (about %s) exceeds %s at %s",
                            m, where, nom, p)
            labels.add("approximated")
            labels.add(case["form"])
    if case["sig"]:
        labels.add("signomial")
    return Info(nontrivial and len(ref) >= 2, labels, str(nom))


def vector_cases():
    "Many-termed expressions over the elements of an array."
    coef = st.sampled_from([1.0, 1.0, 2.0, 0.5, 3.25, 1e-3, 40.0])
    exps = st.sampled_from([1, 1, 1, 2, 0.5, -1, -0.5, 3, 1/3])

    def build(shape):
        n = shape[0]*(shape[1] if len(shape) > 1 else 1)
        return st.fixed_dictionaries({
            "shape": st.just(list(shape)),
            "terms": st.lists(st.tuples(coef, st.integers(0, n-1), exps, st.integers(-1, n-1), exps,
                                        st.sampled_from([0, 0, 1, -1, 2])).map(list),
                              min_size=0, max_size=20),
            "base": st.sampled_from(["sum", "weighted", "powers", "none"]),
            "signs": st.one_of(st.none(), st.lists(st.booleans(), min_size=20, max_size=20)),
            "form": st.sampled_from(["array", "elements", "keys", "mixed"]),
            "unit": st.sampled_from(["", "ft"]),
            "point": st.lists(posfloat, min_size=n+1, max_size=n+1),
            "others": st.lists(st.lists(posfloat, min_size=n+1, max_size=n+1), min_size=1,
                               max_size=2)})
    return st.one_of(st.integers(2, 14).map(lambda n: (n,)),
                     st.tuples(st.integers(1, 4), st.integers(1, 4))).flatmap(build)


def run_vector(case):
    "Derivative by each element, and approximation at a point given for the array."
    import numpy as np
    from gpkit import Variable, VectorVariable, SignomialsEnabled
    shape = tuple(case["shape"])
    vec = VectorVariable(shape, "v", case["unit"])
    y = Variable("y")
    flat = [vec[i] for i in np.ndindex(*shape)]
    n = len(flat)
    x = [f/case_unit(case["unit"]) if case["unit"] else f for f in flat]
    ref = {}

    def term(c, powers):
        "Adds to the reference."
        merged = {}
        for k, e in powers:
            merged[k] = merged.get(k, 0) + F(float(e)).limit_denominator(1000)
        key = tuple(sorted((k, e) for k, e in merged.items() if e))
        ref[key] = ref.get(key, 0) + c
    signs = case["signs"]
    with (SignomialsEnabled() if signs else contextlib.nullcontext()):
        expr = y**0.5
        term(1.0, [(n, 0.5)])
        if case["base"] == "sum":
            expr = expr + sum(x) if case["unit"] else expr + vec.sum()
            for i in range(n):
                term(1.0, [(i, 1)])
        elif case["base"] == "weighted":
            for i in range(n):
                expr = expr + (i+1)*x[i]*y
                term(i+1.0, [(i, 1), (n, 1)])
        elif case["base"] == "powers":
            for i in range(n):
                expr = expr + x[i]**2*x[i-1]
                term(1.0, [(i, 2), ((i-1) % n, 1)])
        for j, (c, a, ea, b, eb, ey) in enumerate(case["terms"]):
            t = c*x[a]**ea
            powers = [(a, ea), (n, ey)]
            if b >= 0:
                t = t*x[b]**eb
                powers.append((b, eb))
            if ey:
                t = t*y**ey
            if signs and signs[j]:
                expr = expr - t
                term(-c, powers)
            else:
                expr = expr + t
                term(c, powers)
        if any(0 < abs(v) < 1e-9 for v in ref.values()):
            raise Discard
        ref = {k: v for k, v in ref.items() if v}
        if len(ref) < 2 or not hasattr(expr, "diff"):
            raise Discard
    index = {f.key: i for i, f in enumerate(flat)}
    index[y.key] = n

    def terms(nom):
        "The terms as a dictionary."
        out = {}
        for e, c in nom.hmap.items():
            if not c and not e:
                continue
            k = tuple(sorted((index[vk], F(float(p)).limit_denominator(1000))
                             for vk, p in e.items()))
            require(k not in out, "like terms in %s", nom)
            out[k] = float(c)
        return out
    most = 0
    for k, var in enumerate(flat + [y]):
        d = expr.diff(var if k % 2 else var.key)
        want = {}
        for key, c in ref.items():
            e = dict(key)
            if k in e:
                c = c*float(e[k])
                e[k] -= 1
                new = tuple(sorted((i, p) for i, p in e.items() if p))
                want[new] = want.get(new, 0) + c
        got = terms(d)
        most = max(most, len(want))
        for e in set(got) | set(want):
            require(abs(got.get(e, 0)-want.get(e, 0)) <= 1e-9*(abs(want.get(e, 0)) + 1e-3),
                    "d(%s)/d(%s) = %s; coefficient of %s should be %r", expr, var, d, e,
                    want.get(e, 0))
    labels = {case["base"], "%i-d" % len(shape)}
    if len(ref) > 8:
        labels.add("many terms")
    if all(c > 0 for c in ref.values()) and not signs:
        point = case["point"]
        arr = np.array(point[:n]).reshape(shape)
        if case["form"] == "array":
            x0 = {vec: arr, y: point[n]}
        elif case["form"] == "keys":
            x0 = {f.key: p for f, p in zip(flat, point)}
            x0[y.key] = point[n]
        elif case["form"] == "mixed":
            x0 = {vec.key: arr, "y": point[n]}
        else:
            x0 = {f: p for f, p in zip(flat + [y], point)}
        m = expr.mono_lower_bound(x0)

        def value(hm, p):
            "log of the value, and of the largest intermediate."
            logs = [math.log(c) + sum(float(e)*math.log(p[index[vk]]) for vk, e in ex.items())
                    for ex, c in hm.items()]
            top = max(logs)
            return top + math.log(sum(math.exp(l-top) for l in logs))
        scale = max(abs(math.log(c)) + sum(abs(float(e)*math.log(point[i])) for i, e in k)
                    for k, c in ref.items())
        if scale < 200:
            pv, mv = value(expr.hmap, point), value(m.hmap, point)
            require(abs(pv-mv) <= 1e-8*(1+scale), "%s approximates %s as e^%r, not e^%r, at %s", m,
                    expr, mv, pv, point)
            for p in case["others"]:
                pv, mv = value(expr.hmap, p), value(m.hmap, p)
                require(mv <= pv + 1e-8*(1+abs(pv)+scale), "%s (about %s) exceeds %s at %s", m,
                        point, expr, p)
            logs = {k: math.log(c) + sum(float(e)*math.log(point[i]) for i, e in k)
                    for k, c in ref.items()}
            top = max(logs.values())
            weights = {k: math.exp(v-top) for k, v in logs.items()}
            total = sum(weights.values())
            (mexp,) = m.hmap
            for i, var in enumerate(flat + [y]):
                grad = sum(w*float(dict(k).get(i, 0)) for k, w in weights.items())/total
                mag = sum(w*abs(float(dict(k).get(i, 0))) for k, w in weights.items())/total
                require(abs(float(mexp.get(var.key, 0))-grad) <= 1e-8*mag, "%s approximates %s at"
                        " %s with log-derivative %r along %s instead of %r", m, expr, point,
                        mexp.get(var.key, 0), var, grad)
            labels.add("approximated")
            labels.add(case["form"])
    return Info(len(ref) >= 3 and most >= 2, labels, str(expr)[:200])


def case_unit(unit):
    "One of a unit."
    from gpkit import units
    return units(unit)


CHECKS = {"diff": {"strategy": cases(), "run": run, "quick": 700},
          "vector": {"strategy": vector_cases(), "run": run_vector, "quick": 500}}
