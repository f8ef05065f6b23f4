"C01: symbolic arithmetic is exact algebra."
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Info, require
from .. import algebra as al

RULE = ("A case is a straight-line program of arithmetic on 1-5 variables (registers may be"
        " reused, so operands alias) plus evaluation points; non-trivial when some result has"
        " at least two terms or three distinct factors and at least two operators were applied.")
ASSUMPTIONS = ["'program' cases use dyadic constants, for which float arithmetic is exact, so"
               " results are compared exactly; 'float' cases compare values to 1e-9 relative"]


def compare(nom, ref, index, what):
    "The expression's terms are exactly the reference's."
    terms = al.term_list(nom, index)
    got = {}
    for e, c in terms:
        require(e not in got, "%s: like terms not combined: %s", what, nom)
        require(all(x for _, x in e), "%s: zero exponent kept in %s", what, terms)
        got[e] = F(c)
    if got == {(): 0}:
        got = {}
    require(all(c for c in got.values()), "%s: cancelled term kept: %s", what, terms)
    require(got == dict(ref), "%s: got %s, algebra gives %s", what, got, dict(ref))


def snapshot(reg):
    "Everything observable about an expression's value."
    if not hasattr(reg, "hmap"):
        return ("num", float(reg))
    return (type(reg).__name__, dict(zip(reg.exps, map(float, reg.cs))), str(reg.units), hash(reg))


def from_terms(ref, variables, order, sig):
    "Another construction of the same polynomial: a sum of products in another order."
    items = sorted(ref.items())
    perm = sorted(range(len(items)), key=lambda i: (order[i % len(order)] if order else 0, i))
    total = None
    for i in perm:
        e, c = items[i]
        t = None
        for v, x in reversed(e):
            f = variables[v]**float(x)
            t = f if t is None else f*t
        t = float(c) if t is None else (t*float(c) if c > 0 or sig else None)
        total = t if total is None else t + total
    return total


def run_program(case):
    "Build, compare every register, check operands, equality and hashing."
    from gpkit import Variable, SignomialsEnabled
    import contextlib
    variables = [Variable(n) for n in al.NAMES[:case["nvars"]]]
    index = {v.key: i for i, v in enumerate(variables)}
    refs = al.reference(case)
    env = SignomialsEnabled() if case["sig"] else contextlib.nullcontext()
    with env:
        regs, snaps = [], []

        # execute step by step so that every register is checked when it is made
        for i in range(len(case["prog"])):
            sub = {"prog": case["prog"][i:i+1]}
            ins = case["prog"][i]
            if ins[0] in ("var", "num"):
                r, = al.execute(sub, variables)
            else:
                r = step(ins, regs)
            compare(r, refs[i], index, "register %i %s" % (i, ins))
            regs.append(r)
            snaps.append(snapshot(r))
        for i, (r, s) in enumerate(zip(regs, snaps)):
            require(snapshot(r) == s, "register %i %s was changed by later operations:"
                    " %s -> %s", i, case["prog"][i], s, snapshot(r))
            compare(r, refs[i], index, "register %i (at the end)" % i)
        # equality and hashing across registers
        n = len(regs)
        pairs = [(i, j) for i in range(n) for j in range(i) if hasattr(regs[i], "hmap")][-40:]
        for i, j in pairs:
            same = refs[i] == refs[j]
            require(bool(regs[i] == regs[j]) == same, "register %i (%s) == register %i (%s) is %s",
                    i, regs[i], j, regs[j], not same)
            if hasattr(regs[j], "hmap"):
                require(bool(regs[j] == regs[i]) == same, "equality is not symmetric: %s, %s",
                        regs[i], regs[j])
                if same:
                    require(hash(regs[i]) == hash(regs[j]), "equal but hash differently: %s, %s",
                            regs[i], regs[j])
                    require(regs[j] in {regs[i]: 1}, "equal but not found in a dict: %s", regs[i])
                require((regs[i] != regs[j]) != same, "%s != %s is wrong", regs[i], regs[j])
        # another construction of the last polynomial
        last = refs[-1]
        if last and hasattr(regs[-1], "hmap"):
            other = from_terms(last, variables, case.get("order") or [0], case["sig"])
            if hasattr(other, "hmap"):
                require(bool(other == regs[-1]), "%s built from its terms does not equal it", regs[-1])
                require(hash(other) == hash(regs[-1]), "%s built from its terms hashes differently",
                        regs[-1])
    ops = [i[0] for i in case["prog"] if i[0] not in ("var", "num")]
    big = any(len(r) >= 2 or any(len(e) >= 3 for e in r) for r in refs)
    labels = set(ops)
    if any(len(r) == 0 for r in refs):
        labels.add("zero")
    if case["sig"]:
        labels.add("signomial")
    return Info(big and len(ops) >= 2, labels, str(regs[-1]))


def step(ins, regs):
    "One operator applied to registers."
    op = ins[0]
    if op == "pow":
        return regs[ins[1]] ** al.KINDS[ins[3]](ins[2])
    if op == "neg":
        return -regs[ins[1]]
    a, b = regs[ins[1]], regs[ins[2]]
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
            "div": lambda: a / b}[op]()


# -- arbitrary floats: compare by value ------------------------------------------------------
finite = st.floats(0.01, 100, allow_nan=False).map(lambda v: float("%.6g" % v))
constant = st.tuples(finite, st.sampled_from([0]*9 + [-13, -11, 9, 14])).map(
    lambda t: float("%.6ge%i" % t))
expos = st.one_of(st.sampled_from([1, 2, 3, -1, -2, 0.5, 1/3, -0.7, 1.1, 0]),
                  st.floats(-4, 4).map(lambda v: float("%.4g" % v)))


def trees(sig):
    "Nested expression trees with arbitrary float constants and exponents."
    mono = st.recursive(
        st.one_of(st.tuples(st.just("v"), st.integers(0, 2)), st.tuples(st.just("n"), constant)),
        lambda s: st.one_of(st.tuples(st.just("*"), s, s), st.tuples(st.just("/"), s, s),
                            st.tuples(st.just("**"), s, expos)), max_leaves=5)
    def extend(s):
        opts = [st.tuples(st.just("+"), s, s), st.tuples(st.just("*"), s, s),
                st.tuples(st.just("/"), s, mono),
                st.tuples(st.just("**"), s, st.integers(1, 3))]
        if sig:
            opts += [st.tuples(st.just("-"), s, s), st.tuples(st.just("neg"), s)]
        return st.one_of(*opts)
    return st.recursive(mono, extend, max_leaves=9)


def ev(t, xs, point):
    "(object, value, magnitude) of a tree."
    op = t[0]
    if op == "v":
        return xs[t[1]], point[t[1]], abs(point[t[1]])
    if op == "n":
        return t[1], t[1], abs(t[1])
    if op == "neg":
        o, v, m = ev(t[1], xs, point)
        return -o, -v, m
    if op == "**":
        o, v, m = ev(t[1], xs, point)
        e = t[2]
        if not hasattr(o, "hmap"):
            return o**e, v**e, abs(v**e)
        return o**e, v**e, (m**e if isinstance(e, int) and e > 0 else abs(v**e))
    (o1, v1, m1), (o2, v2, m2) = ev(t[1], xs, point), ev(t[2], xs, point)
    if op == "+":
        return o1 + o2, v1 + v2, m1 + m2
    if op == "-":
        return o1 - o2, v1 - v2, m1 + m2
    if op == "*":
        return o1*o2, v1*v2, m1*m2
    return o1/o2, v1/v2, m1/abs(v2)


def tame(t, point):
    "Value of a tree all of whose intermediate magnitudes are; else None."
    op = t[0]
    if op == "v":
        return point[t[1]]
    if op == "n":
        return abs(t[1])
    vals = [tame(s, point) for s in (t[1:2] if op in ("**", "neg") else t[1:])]
    if None in vals:
        return None
    if op == "**" and abs(t[2]*math.log(vals[0])) > 150:
        return None
    out = (vals[0]**t[2] if op == "**" else vals[0] if op == "neg" else
           vals[0] + vals[1] if op in "+-" else vals[0]*vals[1] if op == "*" else vals[0]/vals[1])
    return out if 1e-60 < out < 1e60 else None


def run_float(case):
    "Pointwise agreement with ordinary evaluation."
    from gpkit import Variable, SignomialsEnabled
    import contextlib
    xs = [Variable(n) for n in al.NAMES[:3]]
    index = {v.key: i for i, v in enumerate(xs)}
    with (SignomialsEnabled() if case["sig"] else contextlib.nullcontext()):
        obj = None
        for point in case["points"]:
            if tame(case["tree"], point) is None or tame(case["tree"], [1]*3) is None:
                continue
            obj, val, mag = ev(case["tree"], xs, point)
            if not (1e-100 < mag < 1e100):
                continue
            got = sum(c*math.prod(point[v]**float(x) for v, x in e)
                      for e, c in al.term_list(obj, index))
            require(abs(got - val) <= 1e-9*mag, "%s at %s is %r, should be %r",
                    obj, point, got, val)
            if hasattr(obj, "hmap"):
                sub = obj.sub(dict(zip(xs, point)), require_positive=False)
                sval = float(sub.value) if hasattr(sub, "value") else float(sub)
                require(abs(sval - val) <= 1e-9*mag, "%s substituted at %s is %r, should be %r",
                        obj, point, sval, val)
    text = repr(case["tree"])
    return Info(text.count("(") + text.count("[") >= 4 and hasattr(obj, "hmap"), ["float"], str(obj))


def float_cases():
    "Strategy for float cases."
    pts = st.lists(st.lists(finite, min_size=3, max_size=3), min_size=1, max_size=3)
    return st.booleans().flatmap(lambda sig: st.fixed_dictionaries(
        {"sig": st.just(sig), "tree": trees(sig), "points": pts}))


CHECKS = {
    "program": {"strategy": st.builds(lambda c, o: dict(c, order=o), al.programs(),
                                      st.lists(st.integers(0, 9), min_size=1, max_size=6)),
                "run": run_program, "quick": 700},
    "float": {"strategy": float_cases(), "run": run_float, "quick": 400},
}
