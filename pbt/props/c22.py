"C22: operations on arrays are those on their elements."
import functools
import math
import operator

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, quiet, require

RULE = ("a chain of operations on arrays of variables, monomials, posynomials, numbers and zeros, non-trivial when some array has"
        " at least two different kinds of elements, or units, and more than one element")
ASSUMPTIONS = ("operations on scalar expressions are right (C01 and C04 decide that)",
               "raw pint Quantities are no elements or left operands of arrays")
CONSTS = [2, 3, 5.0, 0.25, 12, 1, 1.5, 0, 0, 0.0, 7]
UNITSETS = [("", "", ""), ("", "", ""), ("m", "m", "m"), ("m", "ft", "inch"), ("m", "1/ft", "ft"), ("m", "s", ""), ("kg", "lb", "1/g"),
            ("m", "", ""), ("percent", "", "m")]
SHAPES = [(1,), (2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (1, 3), (2, 1), (3, 1), (2, 2, 2), (1, 1), (2, 1, 3)]


def element():
    "An element, as JSON."
    i, e = st.integers(0, 2), st.sampled_from([1, 2, -1, 0.5, 1])
    mono = st.tuples(st.just("m"), st.sampled_from([1, 2, 0.5, 3.0]), i, e)
    return st.one_of(st.tuples(st.just("v"), i), st.tuples(st.just("v"), i), st.tuples(st.just("n"), st.sampled_from(CONSTS)), mono,
                     st.tuples(st.just("p"), st.lists(mono, min_size=2, max_size=3)),
                     st.tuples(st.just("s"), i, st.sampled_from([1, 2, 0.25])),   # like terms: i's variable times that, and another
                     st.tuples(st.just("u"), st.sampled_from([1, 2, 0.5]), i))


@st.composite
def spec(draw, shapes=tuple(SHAPES), kind=None):
    "An operand of an array."
    kind = kind or draw(st.sampled_from(["array", "array", "list", "ndarray", "scalar", "number", "vecvar"]))
    shape = draw(st.sampled_from(list(shapes)))
    elements = [draw(element()) for _ in range(min(4, math.prod(shape)))]
    return {"kind": kind, "shape": shape, "elements": elements}


def op():
    "An operation on the current array."
    arith = st.tuples(st.sampled_from(["add", "sub", "mul", "div", "add", "mul"]), st.booleans(), spec())
    compare = st.tuples(st.sampled_from(["le", "ge", "eq"]), st.booleans(), spec())
    axis = st.sampled_from([None, None, 0, 1, -1])
    return st.one_of(
        arith, arith, arith, compare,
        st.tuples(st.just("pow"), st.sampled_from([2, 3, 0, 1, -1, 0.5, -2, [2, 1, 0], [0.5, 3, 1]])), st.tuples(st.just("neg")),
        st.tuples(st.sampled_from(["sum", "prod"]), axis, st.booleans()), st.tuples(st.sampled_from(["sum", "prod"]), axis, st.booleans()),
        st.tuples(st.sampled_from(["dot", "matmul", "outer", "npdot"]), spec(kind="array")),
        st.tuples(st.sampled_from(["dot", "outer"]), spec()),
        st.tuples(st.just("idx"), st.sampled_from(["0", "-1", "1:", "::-1", ":,0", "...,0", "mask", "newaxis", "list", "0,1", ":1"])),
        st.tuples(st.sampled_from(["T", "ravel", "flatten", "copy", "reshape"])),
        st.tuples(st.just("set"), st.integers(0, 7), element()),
        st.tuples(st.just("subst"), st.lists(st.tuples(st.integers(0, 2), st.sampled_from([1, 2, 0.5, 3])), min_size=1, max_size=3),
                  st.booleans()),
        st.tuples(st.just("vectorize"), st.sampled_from([2, 0.5])))


@st.composite
def cases(draw):
    "An array and what is done to it."
    return {"units": draw(st.sampled_from(UNITSETS)), "first": draw(spec(kind=draw(st.sampled_from(["array", "array", "vecvar"])))),
            "ops": draw(st.lists(op(), min_size=1, max_size=3)), "signomials": draw(st.booleans()),
            "after": draw(st.booleans())}


class World:
    "The variables of a case."

    def __init__(self, case):
        from gpkit import Variable, units
        self.units = case["units"]
        self.x = [Variable("xyz"[i], u) if u else Variable("xyz"[i]) for i, u in enumerate(self.units)]
        self.one = [getattr(units, u)*1 if u and u.isalpha() else 1/units.ft if u == "1/ft" else 1/units.g if u else None
                    for u in self.units]
        self.vecs = 0

    def element(self, e):
        "From its specification."
        if e[0] == "v":
            return self.x[e[1]]
        if e[0] == "n":
            return e[1]
        if e[0] == "m":
            return e[1]*self.x[e[2]]**e[3]
        if e[0] == "p":
            first = self.element(e[1][0])
            out = first
            for t in e[1][1:]:
                # homogeneous, so that it can be added up
                out = out + first*t[1]*(self.x[t[2]]*2/self.x[t[2]] if t[2] == e[1][0][2] else self.dimless(t[2])**t[3])
            return out
        if e[0] == "s":
            return e[2]*self.x[e[1]] + self.x[e[1]]*self.dimless((e[1]+1) % 3)
        return e[1] if self.one[e[2]] is None else e[1]*self.one[e[2]]

    def dimless(self, i):
        "Variable i without its units."
        return self.x[i] if self.one[i] is None else self.x[i]/self.one[i]

    def operand(self, sp):
        "(what gpkit is given, its elements)"
        from gpkit import NomialArray, VectorVariable
        shape = tuple(sp["shape"])
        els = sp["elements"]
        if sp["kind"] == "scalar":
            obj = next((self.element(e) for e in els if e[0] != "n"), self.x[0])
            return obj, obj
        if sp["kind"] == "number":
            num = next((e[1] for e in els if e[0] in "nu"), 2)
            return num, num
        if sp["kind"] == "vecvar":
            self.vecs += 1
            obj = VectorVariable(shape if len(shape) > 1 else shape[0], "v%i" % self.vecs, self.units[0] or "-")
            return obj, obj.view(np.ndarray).copy()
        if sp["kind"] == "ndarray":
            nums = np.resize([e[1] if isinstance(e[1], (int, float)) else 2 for e in els], shape)
            ref = np.empty(shape, dtype=object)
            for i in np.ndindex(shape):
                ref[i] = nums[i].item()
            return nums, ref
        ref = np.empty(shape, dtype=object)
        flat = [self.element(e) for e in els]
        for k, i in enumerate(np.ndindex(shape)):
            ref[i] = flat[k % len(flat)]
        if not any(hasattr(f, "hmap") for f in flat) and sp["kind"] == "array":
            ref[(0,)*len(shape)] = self.x[0]
        if sp["kind"] == "list":
            return ref.tolist(), ref
        return NomialArray(ref.tolist()), ref


def each(fn, *args):
    "Over broadcast elements."
    arrs = [a if isinstance(a, np.ndarray) else _zerod(a) for a in args]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    out = np.empty(shape, dtype=object)
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    for i in np.ndindex(shape):
        out[i] = fn(*[a[i] for a in arrs])
    return out


def _zerod(a):
    "As an array."
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def terms(x):
    "{exponents: SI coefficient}, None for units if it's zero."
    if isinstance(x, (bool, np.bool_)):
        return {"bool": bool(x)}
    if not hasattr(x, "hmap"):
        x = float(x)
        return {(): x} if x else {}
    k = float(x.units.to_base_units().magnitude) if x.units else 1.0
    dims = tuple(sorted((d, round(float(p), 6)) for d, p in x.units.dimensionality.items())) if x.units else ()
    out = {}
    for e, c in x.hmap.items():
        if c:
            key = (dims, tuple(sorted((str(v), round(float(p), 6)) for v, p in e.items() if p)))
            if key == ((), ()):
                key = ()
            out[key] = out.get(key, 0) + c*k
    return out


def same(a, b):
    "Up to rounding."
    if type(a).__name__ != type(b).__name__ and (hasattr(a, "oper") or hasattr(b, "oper")):
        return False
    if hasattr(a, "oper"):
        def sides(c):
            return (c.left, c.right) if c.oper != ">=" else (c.right, c.left)
        (al, ar), (bl, br) = sides(a), sides(b)
        return (a.oper == "=") == (b.oper == "=") and (same(al, bl) and same(ar, br)
                                                       or a.oper == "=" and same(al, br) and same(ar, bl))
    ta, tb = terms(a), terms(b)
    scale = max([abs(v) for v in list(ta.values()) + list(tb.values())] + [0])
    return all(abs(ta.get(k, 0)-tb.get(k, 0)) <= 1e-9*scale for k in set(ta) | set(tb))


def agree(obj, ref, where):
    "gpkit's result and that of the elements."
    if isinstance(ref, np.ndarray) and ref.shape:
        from gpkit import NomialArray
        from gpkit.constraints import ArrayConstraint
        if isinstance(obj, ArrayConstraint):
            cons = obj.constraints
            require(np.shape(cons) == ref.shape, "%s: constraints of shape %s, not %s", where, np.shape(cons), ref.shape)
            listed = list(obj)
            require(len(listed) == ref.size and all(a is b for a, b in zip(listed, np.asarray(cons, dtype=object).flat)),
                    "%s: iterates over %s", where, listed)
            obj = cons
        else:
            require(isinstance(obj, NomialArray), "%s: made a %s", where, type(obj))
        require(np.shape(obj) == ref.shape, "%s: shape %s, not %s", where, np.shape(obj), ref.shape)
        arr = np.asarray(obj, dtype=object).view(np.ndarray)
        for i in np.ndindex(ref.shape):
            require(same(arr[i], ref[i]), "%s: element %s is %r, not %r", where, i, arr[i], ref[i])
    else:
        ref = ref[()] if isinstance(ref, np.ndarray) else ref
        if isinstance(obj, np.ndarray) and not obj.shape:
            obj = obj[()]
        require(same(obj, ref), "%s: is %r, not %r", where, obj, ref)


FNS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "le": operator.le, "ge": operator.ge,
       "eq": operator.eq}


def reduced(fn, arr, axis, keepdims=False):
    "One after the other."
    if axis is None:
        out = functools.reduce(fn, list(arr.flat))
        return out
    arr = np.moveaxis(arr, axis, 0)
    out = np.empty(arr.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = functools.reduce(fn, [arr[(k,) + i] for k in range(arr.shape[0])])
    return np.expand_dims(out, axis) if keepdims else out


def product(a, b):
    "numpy's dot, of one or two dimensions."
    if not isinstance(b, np.ndarray) or not b.shape:
        return each(operator.mul, a, b)
    if a.ndim > 2 or b.ndim > 2 or a.shape[-1] != b.shape[0]:
        raise ValueError("shapes")
    aa, bb = (a[None] if a.ndim == 1 else a), (b[:, None] if b.ndim == 1 else b)
    out = np.empty((aa.shape[0], bb.shape[1]), dtype=object)
    for i, j in np.ndindex(out.shape):
        out[i, j] = functools.reduce(operator.add, [aa[i, k]*bb[k, j] for k in range(aa.shape[1])])
    if b.ndim == 1:
        out = out[:, 0]
    return out[0] if a.ndim == 1 else out


def index(name, arr):
    "For an array of that shape."
    return {"0": 0, "-1": -1, "1:": slice(1, None), "::-1": slice(None, None, -1), ":,0": (slice(None), 0), "...,0": (Ellipsis, 0),
            "mask": np.arange(arr.size).reshape(arr.shape) % 2 == 0, "newaxis": (None, Ellipsis), "list": [0, -1, 0], "0,1": (0, 1),
            ":1": slice(0, 1)}[name]


def apply(o, obj, ref, world):
    "(thunk of gpkit's operation, thunk of the elements')"
    kind = o[0]
    arr = isinstance(ref, np.ndarray)
    if kind in FNS:
        other, els = world.operand(o[2])
        fn = FNS[kind]
        if o[1]:
            return (lambda: fn(other, obj)), (lambda: each(fn, els, ref))
        return (lambda: fn(obj, other)), (lambda: each(fn, ref, els))
    if kind == "neg":
        return (lambda: -obj), (lambda: each(operator.neg, ref))
    if kind == "pow":
        e = o[1] if not isinstance(o[1], (list, tuple)) else np.resize(o[1], ref.shape[-1:] if arr and ref.shape else (1,))
        els = e
        if isinstance(e, np.ndarray):
            els = np.empty(e.shape, dtype=object)
            for i in np.ndindex(e.shape):
                els[i] = e[i].item()
        return (lambda: obj**e), (lambda: each(operator.pow, ref, els))
    if not arr:
        return None
    if kind in ("sum", "prod"):
        axis, keep, fn = o[1], o[2] and o[1] is not None, operator.add if kind == "sum" else operator.mul
        if axis is not None and not -ref.ndim <= axis < ref.ndim:
            return None
        if axis is None:
            return (lambda: getattr(obj, kind)()), (lambda: reduced(fn, ref, None))
        if keep:
            return (lambda: getattr(obj, kind)(axis=axis, keepdims=True)), (lambda: reduced(fn, ref, axis, True))
        return (lambda: getattr(obj, kind)(axis)), (lambda: reduced(fn, ref, axis))
    if kind in ("dot", "matmul", "outer", "npdot"):
        other, els = world.operand(o[1])
        if kind == "outer":
            if not isinstance(els, np.ndarray):
                els = each(lambda x: x, els).reshape(1)
            return (lambda: obj.outer(other)), (lambda: each(operator.mul, ref.reshape(-1, 1), els.reshape(1, -1)))
        if ref.ndim > 2 or isinstance(els, np.ndarray) and els.ndim > 2 or kind == "matmul" and not (isinstance(els, np.ndarray) and els.ndim <= 2):
            return None
        fn = {"dot": lambda: obj.dot(other), "matmul": lambda: obj @ other, "npdot": lambda: np.dot(obj, other)}[kind]
        return fn, lambda: product(ref, els)
    if kind == "idx":
        i = index(o[1], ref)
        return (lambda: obj[i]), (lambda: ref[i])
    if kind in ("T", "ravel", "flatten", "copy", "reshape"):
        fn = {"T": lambda a: a.T, "ravel": lambda a: a.ravel(), "flatten": lambda a: a.flatten(), "copy": lambda a: a.copy(),
              "reshape": lambda a: a.reshape(a.shape[::-1])}[kind]
        return (lambda: fn(obj)), (lambda: fn(ref))
    if kind == "set":
        el = world.element(o[2])
        i = tuple(np.unravel_index(o[1] % ref.size, ref.shape))

        def assign(a):
            a = a.copy()
            a[i] = el
            return a
        return (lambda: assign(obj)), (lambda: assign(ref))
    if kind == "subst":
        subs = {world.x[i]: v for i, v in o[1]}
        if o[2]:
            subs = {v.key: x for v, x in subs.items()}
        return (lambda: obj.sub(subs)), (lambda: each(lambda n: n.sub(subs) if hasattr(n, "hmap") else n, ref))
    if kind == "vectorize":
        return (lambda: obj.vectorize(lambda n, k: n*k, o[1])), (lambda: each(lambda n: n*o[1], ref))
    raise ValueError(kind)


def attempt(fn):
    "(result, None) or (None, exception)."
    try:
        with quiet(), np.errstate(all="ignore"):
            out = fn()
            if any(e is NotImplemented for e in (out.flat if isinstance(out, np.ndarray) else [out])):
                raise TypeError("not implemented")   # without SignomialsEnabled
            return out, None
    except Exception as exc:   # pylint: disable=broad-except
        return None, exc


def run(case):
    "Each operation."
    from gpkit import SignomialsEnabled
    if case["signomials"]:
        with SignomialsEnabled():
            return _run(case)
    return _run(case)


def _run(case):
    world = World(case)
    obj, ref = world.operand(case["first"])
    agree(obj, ref, "the array of %s" % case["first"])
    kinds = {type(e).__name__ for e in ref.flat}
    where, done = "%r" % obj, 0
    for o in case["ops"]:
        if not isinstance(ref, np.ndarray) or not ref.shape:
            break
        pair = apply(o, obj, ref, world)
        if pair is None:
            continue
        if not any(hasattr(e, "hmap") for e in ref.flat):
            break   # plain numbers are numpy's business
        want, failed = attempt(pair[1])
        if isinstance(want, np.ndarray) and not want.size:
            break
        def now():
            return [[terms(e) for e in np.asarray(a, dtype=object).flat] for a in (obj, ref)]   # pylint: disable=cell-var-from-loop
        before = now()
        if failed is not None and o[0] in ("dot", "npdot"):
            break   # numpy's own dot loses track of exceptions in its elements' operations
        got, exc = attempt(pair[0])
        where = "%s, then %s" % (where, o)
        if failed is not None:
            require(exc is not None, "%s: an element's raised %r, but the array's is %r", where, failed, got)
            break
        require(exc is None, "%s: raised %r instead of %s", where, exc, want)
        agree(got, want, where)
        require(before == now(),
                "%s: changed its operand", where)
        done += 1
        if o[0] in ("le", "ge", "eq"):
            break
        obj, ref = got, want
        if isinstance(ref, np.ndarray) and not ref.shape:
            ref = ref[()]
        if isinstance(obj, np.ndarray) and not obj.shape:
            obj = obj[()]
        if hasattr(ref, "hmap") and case["after"]:
            after(obj, ref, where)
        if isinstance(ref, np.ndarray):
            kinds |= {type(e).__name__ for e in ref.flat}
            if max(len(terms(e)) for e in ref.flat) > 40:
                break
    if not done:
        raise Discard
    return Info(len(kinds) > 1 or any(case["units"]), [case["ops"][0][0], "united" if any(case["units"]) else "plain"], where)


def after(obj, ref, where):
    "It can be used as the elements' result can."
    for name, fn in (("+ 1", lambda n: n + 1), ("* itself", lambda n: n*n), ("1/", lambda n: 1/n), ("<= 1", lambda n: n <= 1)):
        want, failed = attempt(lambda: fn(ref))
        got, exc = attempt(lambda: fn(obj))
        require((failed is None) == (exc is None), "%s, then %s: %r, or of its elements %r", where, name, exc or got, failed or want)
        if failed is None:
            agree(got, want, "%s, then %s" % (where, name))


CHECKS = {"operations": {"strategy": cases(), "run": run, "quick": 1500, "thorough": 60000}}
