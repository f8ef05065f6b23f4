"C20: printed expressions and constraints mean what they denote."
import math
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require
from .. import text as tx

RULE = ("expressions, arrays: an expression tree of at least three operations printed and read back, non-trivial when"
        " operations of different precedence are nested; substituted: a printed substitution result, non-trivial with"
        " several terms; models: the text of models sharing constraints, non-trivial when names collide in one of them.")
ASSUMPTIONS = ("ordinary precedence: powers bind from the right, then negation, products from the left, sums",
               "numbers are printed to three digits, multiples of pi to 1%", "two random points determine an expression")
NAMES = ["x", "y", "z_1", "V_{inf}", "\\rho", "e", "x_2"]
MODELS = ["", "", "", "A", "A.B", "W1"]
CONSTS = [2, 3, 5.0, 0.25, 12, 100, -2, -1, 1.7, 3.7e-4, 5e5, 1, 1.0, 1000, math.pi, 2*math.pi, math.pi/4, 1.5*math.pi]
UNITS = {"m": 1.0, "ft": 0.3048, "inch": 0.0254}
PRINTED = {"m": 1.0, "ft": 0.3048, "in": 0.0254, "inch": 0.0254}


def trees(leaves, depth):
    "Expression trees."
    sub = st.deferred(lambda: trees(leaves, depth-1)) if depth > 1 else leaves
    expo = st.sampled_from([2, 3, 2, 4, 9, 10, -1, 0.5, -2, 1.5, -1.25, 1, 0, 2.0, 1/3])
    return st.one_of(
        leaves if depth > 1 else sub,
        st.tuples(st.just("add"), sub, sub), st.tuples(st.just("sub"), sub, sub), st.tuples(st.just("mul"), sub, sub),
        st.tuples(st.just("mul"), sub, sub), st.tuples(st.just("div"), sub, sub), st.tuples(st.just("pow"), sub, expo),
        st.tuples(st.just("pow"), sub, expo), st.tuples(st.just("neg"), sub))


def variables(united=False):
    "Distinct names, some of a model."
    return st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(MODELS),
                              st.sampled_from(["m", "ft", "inch", ""]) if united else st.just("")),
                    min_size=2, max_size=5, unique_by=lambda t: t[:2])


VALS = st.lists(st.integers(20, 300).map(lambda n: n/97), min_size=10, max_size=10)
EXCLUDED = [(), ("units",), ("lineage",), ("unnecessary lineage", "units"), ("modelnums",), ("vec",), ("idx",)]


@st.composite
def scalars(draw):
    "A tree over scalar variables, perhaps with units."
    united = draw(st.integers(0, 3)) == 0
    leaf = st.one_of(st.tuples(st.just("v"), st.integers(0, 4)), st.tuples(st.just("v"), st.integers(0, 4)),
                     st.tuples(st.just("n"), st.sampled_from(CONSTS)))
    if united:
        leaf = st.one_of(leaf, st.tuples(st.just("q"), st.sampled_from(CONSTS), st.sampled_from(sorted(UNITS))))
    return {"vars": draw(variables(united)), "tree": draw(trees(leaf, 4)), "right": draw(trees(leaf, 3)), "vals": draw(VALS),
            "oper": draw(st.sampled_from(["<=", ">=", "="])), "united": united,
            "prints": draw(st.lists(st.integers(0, len(EXCLUDED)-1), min_size=1, max_size=4))}


def fullname(v):
    "As printed."
    return (v[1] + "." if v[1] else "") + v[0]


def declare(case, vec=None):
    "The variables."
    from gpkit import NamedVariables, Variable, VectorVariable
    out = []
    for i, (name, model, unit) in enumerate(case["vars"]):
        lineage = tuple(("W", 1) if m == "W1" else (m, 0) for m in model.split(".")) if model else ()
        before = NamedVariables.lineage
        NamedVariables.lineage = lineage
        try:
            if vec and i in vec:
                out.append(VectorVariable(vec[i], name, unit or "-"))
            else:
                out.append(Variable(name, unit or "-"))
        finally:
            NamedVariables.lineage = before
    return out


PREC = {"v": 9, "n": 9, "q": 9, "add": 1, "sub": 1, "mul": 2, "div": 2, "neg": 3, "pow": 4}


def nested(t):
    "Numbers of operations, and whether those within bind less."
    if t[0] in ("v", "n", "q"):
        return 0, False
    n, mixed = 1, False
    for c in t[1:]:
        if isinstance(c, (tuple, list)) and c and c[0] in PREC:
            m, x = nested(c)
            n, mixed = n+m, mixed or x or PREC[c[0]] < PREC[t[0]]
    return n, mixed


class Skip(Exception):
    "gpkit has no such operation."


def build(t, objs, points):
    """(object, [value at each point]); operations gpkit doesn't have (and those of two numbers) are left out."""
    from gpkit.small_classes import Quantity
    kind = t[0]
    if kind == "v":
        i = t[1] % len(objs)
        return objs[i], [p[i] for p in points]
    if kind == "n":
        return t[1], [tx.Iv(t[1])]*len(points)
    if kind == "q":
        return Quantity(t[1], t[2]), [tx.Iv(t[1])*UNITS[t[2]]]*len(points)
    a, va = build(t[1], objs, points)
    if kind == "pow":
        if not hasattr(a, "hmap"):
            return a, va
        try:
            return a**t[2], [v**t[2] for v in va]
        except TypeError:
            return a, va
    if kind == "neg":
        if not hasattr(a, "hmap"):
            return a, va
        return -a, [-v for v in va]
    b, vb = build(t[2], objs, points)
    if not hasattr(a, "hmap") and not hasattr(b, "hmap"):
        return a, va
    if isinstance(a, Quantity):   # on the left these are pint's
        a, va, b, vb = b, vb, a, va
    fn = {"add": lambda x, y: x+y, "sub": lambda x, y: x-y, "mul": lambda x, y: x*y, "div": lambda x, y: x/y}[kind]
    from gpkit.exceptions import DimensionalityError
    try:
        out = fn(a, b)
    except (TypeError, DimensionalityError):
        return a, va
    return out, [fn(x, y) for x, y in zip(va, vb)]


def points(case, n=2):
    "Values of the variables, in SI."
    out = []
    for p in range(n):
        out.append([tx.Iv(case["vals"][(i + 5*p) % 10])*(UNITS[u] if u else 1.0) for i, (_, _, u) in enumerate(case["vars"])])
    return out


def rounded(t):
    "Has it constants of more than three digits?"
    return isinstance(t, float) and float("%.3g" % t) != t or isinstance(t, (tuple, list)) and t[0] != "pow" and any(
        map(rounded, t)) or isinstance(t, (tuple, list)) and t[0] == "pow" and rounded(t[1])


def readback(text, case, vals, where, what, tree):
    "The text's value at each point is that value."
    digits = rounded(tree)
    for p, val in zip(points(case), vals):
        val = tx.lift(val)
        if not np.isfinite(val.hi).all() or (np.abs(val.hi) > 1e200).any():
            raise Discard
        try:
            got = tx.read(text, {fullname(v): x for v, x in zip(case["vars"], p)}, digits=digits, unit=lambda u: PRINTED[u])
        except tx.Imprecise:
            continue
        except (tx.Unreadable, KeyError) as exc:
            require(False, "%s: %s is printed as %r, which can't be read: %s", where, what, text, exc)
        require(got.meets(val), "%s: %s is printed as %r, which is %s, not %s", where, what, text, got, val)


def run_expressions(case):
    "Scalar expressions and constraints."
    from gpkit import SignomialsEnabled
    with SignomialsEnabled():
        objs = declare(case)
        pts = points(case)
        try:
            obj, vals = build(case["tree"], objs, pts)
        except (tx.Imprecise, tx.Unreadable, OverflowError) as exc:
            raise Discard from exc
        where = "tree %s of %s" % (case["tree"], case["vars"])
        if not hasattr(obj, "hmap"):
            raise Discard
        terms = {e: c for e, c in obj.hmap.items()}
        key = hash(obj)
        # each way of printing is as if it were the only one
        for n in case["prints"]:
            ex = EXCLUDED[n]
            got = obj.str_without(ex)
            alone, _ = build(case["tree"], declare(case), pts)
            require(got == alone.str_without(ex), "%s: without %s it's printed as %r, and if that's first, as %r", where, ex,
                    got, alone.str_without(ex))
            obj.latex(ex)
        require(terms == dict(obj.hmap.items()) and hash(obj) == key, "%s: printing changed it", where)
        plain = obj.str_without(("units",))
        readback(plain, case, vals, where, "the expression", case["tree"])
        require(str(obj).startswith(plain), "%s: printed as %r and, without units, %r", where, str(obj), plain)
        if case["united"]:
            check_unit(str(obj)[len(plain):], obj, where)
            # constraints are printed without units
        else:
            try:
                other, ovals = build(case["right"], objs, pts)
            except (tx.Imprecise, tx.Unreadable, OverflowError) as exc:
                raise Discard from exc
            trees_ = [case["tree"], case["right"]]
            if not hasattr(other, "hmap") and other < 0:
                trees_[1], other, ovals = ("v", 0), objs[0], [p[0] for p in pts]
            constraint(case, trees_, obj, other, vals, ovals, where)
    n, mixed = nested(case["tree"])
    return Info(n >= 3 and mixed, ["united" if case["united"] else "plain", case["tree"][0]], plain)


def check_unit(text, obj, where):
    "The unit it is in is what is printed after it."
    from gpkit import ureg
    if not obj.units:
        require(text == "", "%s: has no units, but is printed with %r", where, text)
        return
    require(text[:2] == " [" and text[-1] == "]", "%s: unit text %r", where, text)
    got = ureg.parse_expression(text[2:-1])
    ratio = got/obj.units
    off = max([abs(e) for e in dict(ratio.dimensionality).values()] + [0])
    if 0 < off < 1e-2:
        return   # a rounded exponent
    require(off == 0 and abs(ratio.to("dimensionless").magnitude-1) < 1e-9,
            "%s: in %s, but printed with %r", where, obj.units, text)


SYMBOLS = {"<=": "≤", ">=": "≥", "=": "="}


def constraint(case, trees, left, right, lvals, rvals, where):
    "Its text relates its sides, perhaps mirrored."
    from gpkit.exceptions import DimensionalityError, InvalidPosynomial, PrimalInfeasible
    try:
        con = {"<=": lambda: left <= right, ">=": lambda: left >= right, "=": lambda: left == right}[case["oper"]]()
    except (DimensionalityError, InvalidPosynomial, PrimalInfeasible, TypeError, ValueError):
        return
    if isinstance(con, (bool, np.bool_)) or not hasattr(con, "oper"):
        return
    text = str(con)
    sym = [s for s in SYMBOLS.values() if " %s " % s in text]
    require(len(sym) == 1 and text.count(" %s " % sym[0]) == 1, "%s: constraint %r", where, text)
    a, b = text.split(" %s " % sym[0])
    want = SYMBOLS[case["oper"]]
    if sym[0] != want:
        require({sym[0], want} == {"≤", "≥"}, "%s: %s is printed as %r", where, case["oper"], text)
        a, b = b, a
    swap = False
    if want == "=":
        try:
            readback(a, case, lvals, where, "the left side", trees[0])
        except Exception:   # pylint: disable=broad-except
            swap = True
    if swap:
        a, b = b, a
    readback(a, case, lvals, where, "the left side", trees[0])
    readback(b, case, rvals, where, "the right side", trees[1])


# ---------------------------------------------------------------- arrays

def index_specs():
    "Indices, as JSON."
    one = st.one_of(st.integers(-2, 2), st.tuples(st.just("s"), st.sampled_from([None, 0, 1, -1]),
                                                  st.sampled_from([None, 2, -1, 3, 0]), st.sampled_from([None, None, 1, 2, -1])))
    return st.one_of(one, one, st.lists(st.one_of(one, st.just("...")), min_size=1, max_size=2),
                     st.lists(st.integers(0, 1), min_size=1, max_size=3).map(lambda l: ("l", l)))


def arraytrees(depth):
    "Trees over arrays and scalars."
    leaf = st.one_of(st.tuples(st.just("v"), st.integers(0, 4)), st.tuples(st.just("v"), st.integers(0, 1)),
                     st.tuples(st.just("n"), st.sampled_from(CONSTS)),
                     st.tuples(st.just("list"), st.lists(st.tuples(st.just("v"), st.integers(2, 4)), min_size=3, max_size=3)))
    if depth <= 1:
        return leaf
    sub = arraytrees(depth-1)
    expo = st.sampled_from([2, 3, -1, 0.5, 1.5, -2, 10, ("a", 2, 3, 1), ("a", 0.5, 2, -1)])
    return st.one_of(leaf, st.tuples(st.just("add"), sub, sub), st.tuples(st.just("sub"), sub, sub),
                     st.tuples(st.just("mul"), sub, sub), st.tuples(st.just("div"), sub, sub),
                     st.tuples(st.just("pow"), sub, expo), st.tuples(st.just("neg"), sub),
                     st.tuples(st.just("sum"), sub), st.tuples(st.just("prod"), sub),
                     st.tuples(st.just("sum"), sub, st.integers(0, 1)),
                     st.tuples(st.just("idx"), sub, index_specs()), st.tuples(st.just("idx"), sub, index_specs()),
                     st.tuples(st.just("outer"), sub, sub), st.tuples(st.just("T"), sub))


@st.composite
def arrays(draw):
    "A tree over vectors (the first two variables) and scalars."
    shape = draw(st.sampled_from([[3], [3], [2, 2], [2, 3]]))
    return {"vars": draw(variables()), "shape": shape, "tree": draw(arraytrees(4)), "vals": draw(VALS), "united": False,
            "set": draw(st.one_of(st.none(), st.none(), st.integers(0, 2))),
            "prints": draw(st.lists(st.integers(0, len(EXCLUDED)-1), min_size=1, max_size=3))}


def toindex(spec):
    "Python's."
    def one(x):
        if x == "...":
            return Ellipsis
        if isinstance(x, (tuple, list)) and x and x[0] == "s":
            return slice(*x[1:])
        return x
    if isinstance(spec, (tuple, list)) and spec and spec[0] == "l":
        return list(spec[1])
    if isinstance(spec, (tuple, list)) and not (spec and spec[0] == "s"):
        return tuple(one(x) for x in spec)
    return one(spec)


def abuild(t, objs, pts):
    "(object, [values])"
    from gpkit import NomialArray
    kind = t[0]
    if kind == "v":
        i = t[1] % len(objs)
        return objs[i], [p[i] for p in pts]
    if kind == "n":
        return t[1], [tx.Iv(t[1])]*len(pts)
    if kind == "list":
        parts = [abuild(("v", 2 + (e[1] % max(1, len(objs)-2))) if len(objs) > 2 else ("n", 2), objs, pts) for e in t[1]]
        if not all(hasattr(o, "hmap") for o, _ in parts):
            return 2, [tx.Iv(2)]*len(pts)
        return NomialArray([o for o, _ in parts]), [tx.stack([v[k] for _, v in parts]) for k in range(len(pts))]
    a, va = abuild(t[1], objs, pts)
    isnum = not hasattr(a, "hmap") and not isinstance(a, np.ndarray)
    if kind in ("sum", "prod", "idx", "T"):
        if not isinstance(a, NomialArray) or not a.shape:
            return a, va
        if kind == "T":
            return (a.T, [v.T for v in va]) if a.ndim > 1 else (a, va)
        if kind == "idx":
            idx = toindex(t[2])
            try:
                vals = [v[idx] for v in va]
            except IndexError:
                return a, va
            if not vals[0].size:
                return a, va
            return a[idx], vals
        if kind == "sum" and len(t) == 3:
            if t[2] >= a.ndim:
                return a, va
            return a.sum(t[2]), [v.sum(t[2]) for v in va]
        return getattr(a, kind)(), [getattr(v, kind)() for v in va]
    if kind == "neg":
        return (a, va) if isnum else (-a, [-v for v in va])
    if kind == "pow":
        if isnum:
            return a, va
        e = t[2]
        if isinstance(e, (tuple, list)):
            e = np.array(e[1:])
            if va[0].shape != e.shape or not isinstance(a, NomialArray):
                return a, va
        try:
            with np.errstate(all="ignore"):
                return a**e, [v**tx.Iv(e) for v in va]
        except TypeError:
            return a, va
    b, vb = abuild(t[2], objs, pts)
    if isnum and not hasattr(b, "hmap") and not isinstance(b, np.ndarray):
        return a, va
    if kind == "outer":
        if not isinstance(a, NomialArray) or not isinstance(b, NomialArray) or len(va[0].shape)*len(vb[0].shape) != 1:
            return a, va
        return a.outer(b), [tx.Iv(x.lo[:, None], x.hi[:, None])*y for x, y in zip(va, vb)]
    if va[0].shape and vb[0].shape and va[0].shape != vb[0].shape:
        return a, va
    fn = {"add": lambda x, y: x+y, "sub": lambda x, y: x-y, "mul": lambda x, y: x*y, "div": lambda x, y: x/y}[kind]
    try:
        out = fn(a, b)
    except TypeError:
        return a, va
    with np.errstate(all="ignore"):
        return out, [fn(x, y) for x, y in zip(va, vb)]


def run_arrays(case):
    "Array expressions."
    from gpkit import NomialArray, SignomialsEnabled
    with SignomialsEnabled():
        shape = tuple(case["shape"])
        size = math.prod(shape)
        vec = {i: (shape if len(shape) > 1 else shape[0]) for i in (0, 1)}
        pts, envs = [], []
        for p in range(2):
            row, env = [], {}
            for i, v in enumerate(case["vars"]):
                if i in vec:
                    val = np.array([case["vals"][(3*i + 5*p + j) % 10]*(1 + 0.1*j) for j in range(size)]).reshape(shape)
                    env[fullname(v) + "[:]"] = val
                    env[fullname(v)] = val
                else:
                    val = np.array(case["vals"][(i + 5*p) % 10])
                    env[fullname(v)] = val
                row.append(tx.Iv(val))
            pts.append(row)
            envs.append(env)
        try:
            obj, vals = abuild(case["tree"], declare(case, vec), pts)
            again = lambda: abuild(case["tree"], declare(case, vec), pts)[0]
        except (tx.Imprecise, tx.Unreadable, ZeroDivisionError, OverflowError) as exc:
            raise Discard from exc
        if not hasattr(obj, "hmap") and not isinstance(obj, NomialArray):
            raise Discard
        where = "tree %s of %s, shape %s" % (case["tree"], case["vars"], shape)
        for n in case["prints"]:
            ex = EXCLUDED[n]
            got, alone = obj.str_without(ex), again().str_without(ex)
            require(got == alone, "%s: without %s it's printed as %r, and if that's first, as %r", where, ex, got, alone)
        if case["set"] is not None and isinstance(obj, NomialArray) and not hasattr(obj, "key") and obj.size > 1:
            new = declare(case, vec)[-1] if len(case["vars"]) > 2 else 2
            obj = obj if obj.flags.writeable else obj.copy()
            idx = tuple(np.unravel_index(case["set"] % obj.size, obj.shape))
            obj[idx] = new
            vals = [tx.Iv(v.lo.copy(), v.hi.copy()) for v in vals]
            for v, row in zip(vals, pts):
                at = row[-1] if len(case["vars"]) > 2 else tx.Iv(2)
                v.lo[idx], v.hi[idx] = at.lo, at.hi
        text = str(obj)
        for val, env in zip(vals, envs):
            if not np.isfinite(val.hi).all() or (np.abs(val.hi) > 1e200).any():
                raise Discard
            try:
                with np.errstate(all="ignore"):
                    got = tx.read(text, env, digits=rounded(case["tree"]))
            except tx.Imprecise:
                continue
            except tx.Unreadable as exc:
                require(False, "%s: printed as %r, which can't be read: %s", where, text, exc)
            require(got.meets(val), "%s: printed as %r, which is %s, not %s", where, text, got, val)
    def count(t):
        return 1 + sum(count(c) for c in t[1:] if isinstance(c, (tuple, list)) and c and isinstance(c[0], str)) if t[0] in (
            "add", "sub", "mul", "div", "pow", "neg", "sum", "prod", "idx", "outer", "T") else 0
    return Info(count(case["tree"]) >= 3, [case["tree"][0]], text)



# ---------------------------------------------------------------- expressions without a history

@st.composite
def substituted(draw):
    "A tree, some of whose variables are then substituted, or which is differentiated."
    leaf = st.one_of(st.tuples(st.just("v"), st.integers(0, 4)), st.tuples(st.just("v"), st.integers(0, 4)),
                     st.tuples(st.just("n"), st.sampled_from(CONSTS + [1.004, 0.9996, 123456])))
    return {"vars": draw(variables(draw(st.integers(0, 2)) == 0)), "tree": draw(trees(leaf, 4)), "vals": draw(VALS),
            "sub": draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from([abs(c) for c in CONSTS] + [1.004])), max_size=2)),
            "diff": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))), "factor": draw(st.sampled_from([1, -1, 1.002, 2, 1e-7]))}


def texname(v):
    "A scalar variable's, in LaTeX."
    return "{%s}_{%s}" % (v[0], v[1]) if v[1] else v[0]


def run_substituted(case):
    "Results of substitution and differentiation have no history to print."
    from gpkit import SignomialsEnabled
    from gpkit.exceptions import DimensionalityError
    with SignomialsEnabled():
        objs = declare(case)
        try:
            obj, _ = build(case["tree"], objs, points(case))
        except (tx.Imprecise, tx.Unreadable, OverflowError) as exc:
            raise Discard from exc
        if not hasattr(obj, "hmap"):
            raise Discard
        obj = case["factor"]*obj
        subs = {objs[i % len(objs)].key: x for i, x in case["sub"]}
        try:
            out = obj.sub(subs) if case["diff"] is None else obj.sub(subs).diff(objs[case["diff"] % len(objs)])
            out = out.sub({})
        except (ZeroDivisionError, OverflowError, DimensionalityError) as exc:
            raise Discard from exc
        where = "tree %s of %s, times %s, with %s, d/d%s" % (case["tree"], case["vars"], case["factor"], subs, case["diff"])
        if not out.hmap:
            raise Discard
        terms = [(float(c), [(fullname_of(k, case, objs), x) for k, x in e.items()]) for e, c in out.hmap.items()]
        if any(not np.isfinite(c) or abs(c) > 1e200 or abs(c) < 1e-200 for c, _ in terms):
            raise Discard
        text = out.str_without(("units",))
        tex = out.latex(("units",))
        if case["diff"] is not None or out.units:
            check_unit(str(out)[len(text):], out, where)
        for p in range(2):
            env = {fullname(v): case["vals"][(i + 5*p) % 10] for i, v in enumerate(case["vars"])}
            texenv = {texname(v): case["vals"][(i + 5*p) % 10] for i, v in enumerate(case["vars"])}
            val = tx.stack([math.prod([tx.Iv(env[n])**x for n, x in e], start=tx.Iv(c)) for c, e in terms]).sum()
            try:
                got = tx.read(text, env, digits=True, expos=True, coefs=True)
                require(got.meets(val), "%s: %s is printed as %r, %s, not %s", where, terms, text, got, val)
            except tx.Unreadable as exc:
                require(False, "%s: printed as %r, which can't be read: %s", where, text, exc)
            except tx.Imprecise:
                pass
            try:
                got = tx.read_tex(tex, texenv)
            except (tx.Unreadable, ValueError) as exc:
                require(False, "%s: printed in LaTeX as %r, which can't be read: %s", where, tex, exc)
            require(got.meets(val), "%s: %s in LaTeX is %r, %s, not %s", where, terms, tex, got, val)
    return Info(len(terms) > 1, ["diff" if case["diff"] is not None else "sub", "united" if out.units else "plain"], text)


def fullname_of(key, case, objs):
    "As declared."
    return next(fullname(v) for v, o in zip(case["vars"], objs) if o.key == key)


# ---------------------------------------------------------------- models

@st.composite
def submodels(draw, depth=2):
    "Variables, constraints among them and those of models within, and these."
    names = draw(st.lists(st.sampled_from(["x", "y", "z_1", "S"]), min_size=1, max_size=3, unique=True))
    vecs = draw(st.lists(st.sampled_from(["x", "y", "v", "S_2"]), max_size=1))
    kids = draw(st.lists(submodels(depth-1), max_size=2)) if depth else []
    mono = st.one_of(st.tuples(st.just("v"), st.integers(0, 9)), st.tuples(st.just("v"), st.integers(0, 9)),
                     st.tuples(st.just("n"), st.sampled_from([2, 3.0, 0.5, 100])))
    mono = st.one_of(mono, st.tuples(st.just("mul"), mono, mono), st.tuples(st.just("pow"), mono, st.sampled_from([2, -1, 0.5])))
    posy = st.one_of(mono, st.tuples(st.just("add"), mono, mono), st.tuples(st.just("mul"), mono, st.tuples(st.just("add"), mono, mono)))
    return {"cls": draw(st.integers(0, 2)), "names": names, "vecs": [v for v in vecs if v not in names], "kids": kids,
            "cons": draw(st.lists(st.tuples(posy, st.sampled_from(["<=", ">="]), posy), min_size=1, max_size=3)),
            "arr": draw(st.booleans()), "form": draw(st.sampled_from(["list", "dict", "nested", "kidlast", "kiddict"]))}


@st.composite
def models(draw):
    "A model of models, and a sequence of things to print."
    top = draw(submodels())
    kinds = st.tuples(st.sampled_from(["top", "kid", "part", "con", "table", "expr", "cost"]), st.integers(0, 9),
                      st.sampled_from([None, None, ["lineage", "units"], ["units"], ["unnecessary lineage", "units", "modelnums"]]))
    return {"top": top, "vals": draw(VALS), "prints": draw(st.lists(kinds, min_size=1, max_size=6))}


CLASSES = ["Wing", "Tail", "Wing2"]


def assemble(case):
    "(the model, [every model, outermost first], [(constraint, left values, right values)], {varkey: value}, [vectors])"
    from gpkit import Model, Variable, VectorVariable
    from gpkit.exceptions import PrimalInfeasible
    found, cons, values, vectors = [], [], {}, []

    def make(spec, outer):
        def setup(self):
            objs = [Variable(n) for n in spec["names"]]
            for o in objs:
                values[o.key] = case["vals"][len(values) % 10]*(1 + 0.01*len(values))
            for name in spec["vecs"]:
                v = VectorVariable(2, name)
                vectors.append(v)
                for o in v.flat:
                    values[o.key] = case["vals"][len(values) % 10]*(1 + 0.01*len(values))
                objs.extend(v.flat)
            own = list(objs)
            found.append(self)
            kids = [make(k, self) for k in spec["kids"]]
            for kid in kids:
                objs.extend(kid.mine)
            self.mine = objs
            pts = [[tx.Iv(values[o.key]) for o in objs]]
            mine = []
            for left, oper, right in spec["cons"]:
                (a, va), (b, vb) = build(left, objs, pts), build(right, objs, pts)
                if not hasattr(a, "hmap"):
                    a, va = own[0]*a, [pts[0][0]*va[0]]
                if not hasattr(b, "hmap"):
                    b, vb = own[-1], [tx.Iv(values[own[-1].key])]
                if oper == "<=" and not hasattr(b, "exp"):
                    b, vb = own[0], [tx.Iv(values[own[0].key])]
                if oper == ">=" and not hasattr(a, "exp"):
                    a, va = own[0], [tx.Iv(values[own[0].key])]
                try:
                    con = a <= b if oper == "<=" else a >= b
                except PrimalInfeasible:
                    continue
                if isinstance(con, (bool, np.bool_)):
                    continue
                cons.append((con, oper, va[0], vb[0]))
                mine.append(con)
            if spec["arr"] and spec["vecs"]:
                mine.append(vectors[-1] <= objs[-1]*vectors[-1]**2 if not kids else vectors[-1] >= objs[-1])
            self.cost = own[0]
            form = spec["form"]
            if form == "dict":
                return {"first": mine, "second": kids}
            if form == "nested":
                return [kids[:1], [mine, kids[1:]]]
            if form == "kidlast":
                return [mine, kids]
            if form == "kiddict":
                return {"kids": kids, "all of them": mine}
            return kids + mine
        return type(CLASSES[spec["cls"]], (Model,), {"setup": setup})()
    top = make(case["top"], None)
    return top, found, cons, values, vectors


def show(what, which, excluded, built):
    "Text of one of the things of a model, and the thing."
    from gpkit import Model
    top, found, cons, _, vectors = built
    if what == "top":
        obj = top
    elif what == "kid":
        obj = found[which % len(found)]
    elif what == "part":
        obj = Model(cons[0][0].left + 1 if hasattr(cons[0][0].left, "exp") else top.cost,
                    [c for i, (c, _, _, _) in enumerate(cons) if (i+which) % 2 or not i])
    elif what == "con":
        obj = cons[which % len(cons)][0]
    elif what == "expr":
        obj = cons[which % len(cons)][0].left
    elif what == "cost":
        obj = found[which % len(found)].cost
    elif what == "table":
        return "%s %s" % (top.latex(), [str(v) for v in vectors]), None
    return (str(obj) if excluded is None else obj.str_without(tuple(excluded))), obj


def run_models(case):
    "Names resolve, constraints are complete and in order, and nothing depends on what was printed before."
    from gpkit import NamedVariables
    built = assemble(case)
    if not built[2]:
        raise Discard
    collides = False
    for what, which, excluded in case["prints"]:
        text, obj = show(what, which, excluded, built)
        NamedVariables.reset_modelnumbers()
        fresh, _ = show(what, which, excluded, assemble(case))
        where = "%s %s of %s, after printing %s" % (what, which, case["top"], case["prints"])
        require(text == fresh, "%s: printed as\n%s\nand, if that is printed first,\n%s", where, text, fresh)
        require(not any("necessarylineage" in k.descr for k in built[3]), "%s: necessary lineage left behind", where)
        if what in ("top", "kid", "part") and excluded in (None, ["units"]):
            collides = read_model(text, obj, built, where, excluded is None) or collides
    return Info(collides, [case["top"]["form"], "vecs" if built[4] else "scalars"], text)


def read_model(text, model, built, where, brief):
    "Each constraint's line, in order."
    _, found, cons, values, vectors = built
    here = {id(c) for c in model.flat()}
    keys = set(model.varkeys)
    env, names, named = {}, {}, {}
    for k, val in values.items():
        lineage = ".".join(n + (str(i) if i else "") for n, i in k.lineage)
        idx = "[%s]" % ",".join(map(str, k.idx)) if k.idx else ""
        env[lineage + "." + k.name + idx] = val
        if k in keys:
            names.setdefault(k.name + idx, []).append(val)
            named.setdefault(k.name, set()).add(lineage)
    if brief:
        # a name alone stands for a variable only if there is just one so called in the model
        env.update({n: v[0] for n, v in names.items() if len(v) == 1})
    lines = [l.strip() for l in text.split("\n") if any(" %s " % s in l for s in SYMBOLS.values())]
    # each model within has its heading, once
    heads = [l.strip() for l in text.split("Constraints\n-----------\n")[-1].split("\n")
             if re.match("(%s)[0-9]*$" % "|".join(CLASSES), l.strip())]
    within = [m.lineage for m in found if any(x is model for x in found) and m is not model and
              m.lineage[:len(model.lineage)] == model.lineage]
    require(heads == [n + (str(i) if i else "") for *_, (n, i) in within], "%s: the models within are %s, but headed"
            " are %s in\n%s", where, within, heads, text)
    total = sum(1 for c in cons if id(c[0]) in here)
    seen = 0
    flat = [c for c in model.flat() if any(c is con for con, _, _, _ in cons)]
    order = {id(c): (c, oper, a, b) for c, oper, a, b in cons}
    others = [l for l in lines if "[:]" in l]
    body = iter([l for l in lines if l not in others])
    for c in flat:
        _, oper, left, right = order[id(c)]
        line = next(body, None)
        require(line is not None, "%s: %s constraints printed:\n%s", where, seen, text)
        seen += 1
        sym = next(s for s in SYMBOLS.values() if " %s " % s in line)
        require(sym != "=", "%s: %s printed as %r", where, oper, line)
        # Python may have mirrored it
        for side, val in zip(line.split(" %s " % sym), (left, right) if sym == SYMBOLS[oper] else (right, left)):
            try:
                got = tx.read(side, env)
            except tx.Unreadable as exc:
                require(False, "%s: %r, in\n%s\ncan't be read: %s", where, side, text, exc)
            require(got.meets(val), "%s: %r, in\n%s\nis %s, not %s", where, side, text, got, val)
    require(next(body, None) is None, "%s: more constraints printed than its %s:\n%s", where, total, text)
    if brief:
        # lineage is left out wherever it's unnecessary
        for n, v in named.items():
            if len(v) == 1:
                require(not any(("." + n + sep) in l + " " for l in lines for sep in (" ", "·", "^", ")", "[")),
                        "%s: unnecessary lineage of %s in\n%s", where, n, text)
    return any(len(v) > 1 for v in names.values())


CHECKS = {"expressions": {"strategy": scalars(), "run": run_expressions, "quick": 600, "thorough": 20000},
          "substituted": {"strategy": substituted(), "run": run_substituted, "quick": 400, "thorough": 10000},
          "models": {"strategy": models(), "run": run_models, "quick": 300, "thorough": 8000},
          "arrays": {"strategy": arrays(), "run": run_arrays, "quick": 400, "thorough": 10000}}
