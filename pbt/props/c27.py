"C27: the Taylor-expansion helpers give the exact truncated series."
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..algebra import Poly
from ..core import Info, require

RULE = ("an argument (a number, variable, monomial, posynomial, signomial or array of those, with or without units) and a number of"
        " terms; non-trivial when the argument is no plain variable and three or more terms are asked for")
ASSUMPTIONS = ("the rational power series of exp, sec = 1/cos and tan = sin/cos are computed by long division",)

UNITS = ["", "", "", "m/ft", "percent", "ft/m", "m/m", "rad"]
FACTOR = {"": F(1), "m/m": F(1), "rad": F(1), "m/ft": F(10000, 3048), "ft/m": F(3048, 10000), "percent": F(1, 100)}
COEFFS = [1, 1, 2, 0.5, 3, 0.25, 1.7, 0.01, 40]
LIMIT = {"exp": 25, "sec": 30, "tan": 15}


def quotient(num, den):
    "Of two power series, den[0] == 1."
    out = []
    for i, n in enumerate(num):
        out.append(n - sum(den[i-j]*out[j] for j in range(i)))
    return out


N = 64
COS = [F((-1)**(i//2), math.factorial(i)) if i % 2 == 0 else F(0) for i in range(N)]
SIN = [F((-1)**(i//2), math.factorial(i)) if i % 2 else F(0) for i in range(N)]
SEC, TAN = quotient([F(1)] + [F(0)]*(N-1), COS), quotient(SIN, COS)
SERIES = {"exp": lambda n: {i: F(1, math.factorial(i)) for i in range(1, n+1)},
          "sec": lambda n: {2*i: SEC[2*i] for i in range(n+1)},
          "tan": lambda n: {2*i-1: TAN[2*i-1] for i in range(1, n+1)}}


@st.composite
def cases(draw):
    "Strategy."
    which = draw(st.sampled_from(["exp", "sec", "tan"]))
    kind = draw(st.sampled_from(["number", "npnumber", "variable", "varkey monomial", "monomial", "monomial", "posynomial", "posynomial",
                                 "signomial", "vector", "array", "quantity"]))
    top = LIMIT[which]
    nterms = 1
    if kind in ("posynomial", "signomial", "array"):
        nterms = draw(st.integers(2, 3))
        top = {("exp", 2): 12, ("exp", 3): 7, ("sec", 2): 6, ("sec", 3): 3, ("tan", 2): 6, ("tan", 3): 3}[which, nterms]
    n = draw(st.one_of(st.integers(0, min(4, top)), st.integers(0, top), st.just(top)))
    term = st.tuples(st.sampled_from(COEFFS), st.lists(st.tuples(st.integers(0, 2), st.sampled_from([1, 2, -1, 0.5, 3])), max_size=2,
                                                       unique_by=lambda p: p[0]))
    return {"which": which, "kind": kind, "n": n, "npint": draw(st.booleans()), "unit": draw(st.sampled_from(UNITS)),
            "terms": draw(st.lists(term, min_size=nterms, max_size=nterms)), "signs": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            "shape": draw(st.sampled_from([[2], [3], [1], [2, 2]])), "over": draw(st.integers(0, 9)) == 0}


def reference(which, n, arg):
    "Series of a Poly."
    out, power, at = Poly(), Poly.const(1), 0
    for i, c in sorted(SERIES[which](n).items()):
        while at < i:
            power, at = power.mul(arg), at + 1
        out = out.add(power.mul(Poly.const(c)))
    return out


def compare(got, ref, size, tag):
    "Is this the polynomial?  `size` is that of the terms that went into each."
    from gpkit.units import Quantity
    if not hasattr(got, "hmap"):
        if isinstance(got, Quantity):
            got = got.to("dimensionless").magnitude
        want = float(ref.get((), 0))
        require(not set(ref) - {()}, "%s: the number %r", tag, got)
        require(abs(got-want) <= 1e-12*float(size.get((), 1)), "%s: %r instead of %r", tag, got, want)
        return
    hmap = got.hmap
    factor = float((1*hmap.units).to("dimensionless").magnitude) if hmap.units else 1.0
    found = {}
    for exp, c in hmap.items():
        key = tuple(sorted((vk.name, F(x)) for vk, x in exp.items() if x))
        require(key not in found, "%s: %s is there twice", tag, key)
        found[key] = c*factor
    for key in set(found) | set(ref):
        want = float(ref.get(key, 0))
        require(abs(found.get(key, 0) - want) <= 1e-11*float(size.get(key, 0)), "%s: the coefficient of %s is %r, not %r", tag, key,
                found.get(key, 0), want)


def run(case):
    "One call."
    from gpkit import SignomialsEnabled, Variable, VectorVariable, units
    from gpkit.nomials import NomialArray
    from gpkit.tools import tools
    from gpkit.units import Quantity
    which, n, unit, kind = case["which"], case["n"], case["unit"], case["kind"]
    fn = {"exp": tools.te_exp_minus1, "sec": tools.te_secant, "tan": tools.te_tangent}[which]
    factor = FACTOR[unit]
    u = units(unit) if unit else 1
    names = ["x", "y", "z"]
    xs = [Variable(name) for name in names]

    def poly(terms, signs=(), scale=factor):
        "(exact, the same without signs)"
        out, size = Poly(), Poly()
        for i, (c, e) in enumerate(terms):
            mono = Poly({tuple(sorted((names[k], F(x)) for k, x in e)): F(c)*scale})
            size = size.add(mono)
            out = out.add(mono, -1 if i < len(signs) and signs[i] else 1)
        return out, size
    terms = case["terms"]
    refs = shape = None
    if kind in ("number", "npnumber", "quantity"):
        c = terms[0][0]
        if kind == "quantity" and not unit:
            kind = "number"
        scale = factor if kind == "quantity" else F(1)
        arg = Quantity(c, unit) if kind == "quantity" else np.float64(c) if kind == "npnumber" else c
        refs = [(Poly.const(F(c)*scale),)*2]
    elif kind == "variable":
        arg = Variable("x", unit or "-")
        refs = [poly([(1, [(0, 1)])])]
    elif kind == "vector":
        shape = tuple(case["shape"])
        arg = VectorVariable(shape, "x", unit or "-")
        refs = [poly([(1, [(0, 1)])])]*math.prod(shape)
    else:
        def make(ts, signs=()):
            out = 0
            for i, (c, e) in enumerate(ts):
                t = c*u
                for k, x in e:
                    t = t*xs[k]**x
                out = out - t if i < len(signs) and signs[i] else out + t
            if not hasattr(out, "hmap"):
                out = xs[0]**0*out
            return out
        if kind == "signomial":
            with SignomialsEnabled():
                arg = make(terms, case["signs"])
            refs = [poly(terms, case["signs"])]
        elif kind == "array":
            shape = (len(terms),)
            arg = NomialArray([make([t]) for t in terms])
            refs = [poly([t]) for t in terms]
        else:
            terms = terms if kind == "posynomial" else terms[:1]
            arg = make(terms)
            refs = [poly(terms)]
    before = str(arg)
    m = np.int64(n) if case["npint"] else n
    tag = "%s(%s, %s)" % (fn.__name__, before, n)
    if which == "tan" and case["over"]:
        try:
            fn(arg, 16 + n)
        except NotImplementedError:
            return Info(False, {"beyond"})
        require(False, "%s gives an expansion of %s terms, though only fifteen are supported", fn.__name__, 16 + n)
    if kind == "signomial":
        with SignomialsEnabled():
            got = fn(arg, m)
    else:
        got = fn(arg, m)
    require(str(arg) == before, "%s changed its argument into %s", tag, arg)
    wants = [(reference(which, n, ref), reference(which, n, size)) for ref, size in refs]
    if shape and n:
        got = np.asarray(got)
        require(got.shape == shape, "%s has shape %s", tag, got.shape)
        results = list(got.flat)
    else:
        results = [got]
    if kind == "vector":
        for i, (g, (want, size)) in enumerate(zip(results, wants)):
            if n:
                require({vk.idx for vk in g.vks} == {np.unravel_index(i, shape)}, "%s: element %i is %s", tag, i, g)
    for g, (want, size) in zip(results, wants):
        compare(g, want, size, tag)
    return Info(kind not in ("number", "npnumber", "variable", "quantity") and n >= 3, {which, kind, "%i terms" % n})


CHECKS = {"series": {"strategy": cases(), "run": run, "quick": 600, "thorough": 20000}}
