"""Generated models whose solutions are known in closed form, for what is done with solutions.

Every free variable's element is bounded below by a number, perhaps times, over or plus a fixed
variable's element; the cost is their product.  A case is JSON.
"""
import math

import numpy as np
from hypothesis import strategies as st

NAMES = ["x", "y", "W", "S_{ref}", "c", "V"]
MODELS = ["", "", "A", "A.B", "C"]
UNITS = ["", "", "m", "ft", "kg", "N/m^2", "hr", "percent"]
ALT = {"": "", "m": "ft", "ft": "inch", "kg": "lb", "N/m^2": "lbf/inch^2", "hr": "min", "percent": ""}
LABELS = ["", "", "a label", "mass, dry", "50% rule", "see [1]"]
SHAPES = [[], [], [], [3], [1], [6], [2, 3], [3, 2], [2, 2, 2], [2, 3, 2], [3, 2, 2], [3, 2, 1], [1, 4]]


def numbers():
    "Positive numbers of various magnitudes, with few digits."
    return st.tuples(st.integers(100, 999), st.sampled_from([-5, -3, -2, -2, -1, 0, 2])).map(
        lambda p: float("%ie%i" % p))


@st.composite
def models(draw, nvars=(1, 6), sweep=True, zero=True, units=True, holes=True, fns=True):
    "Strategy."
    out, taken = [], set()
    kinds = draw(st.sampled_from([["free", "free", "fixed"], ["free", "free", "fixed"], ["free", "fixed", "fixed"]]))
    for _ in range(draw(st.integers(*nvars))):
        name, model = draw(st.sampled_from(NAMES)), draw(st.sampled_from(MODELS))
        if (name, model) in taken:
            continue
        taken.add((name, model))
        kind = draw(st.sampled_from(kinds))
        shape = draw(st.sampled_from(SHAPES))
        size = math.prod(shape)
        vals = draw(st.lists(numbers(), min_size=size, max_size=size))
        if kind == "fixed" and zero and draw(st.integers(0, 5)) == 0:
            vals[draw(st.integers(0, size-1))] = 0.0
        out.append({"name": name, "model": model, "kind": kind, "shape": shape, "vals": vals,
                    "unit": draw(st.sampled_from(UNITS if units else [""])), "label": draw(st.sampled_from(LABELS)),
                    "dep": draw(st.integers(-1, 5)), "over": draw(st.sampled_from([0, 0, 1, 2])),
                    "hole": bool(holes and kind == "free" and size > 1 and draw(st.integers(0, 5)) == 0)})
    case = {"vars": out, "costunit": draw(st.sampled_from(UNITS[:6] if units else [""])),
            "sweep": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])) if sweep else 0,
            "fn": draw(st.sampled_from([None, None, 2.0, -1.0])) if fns else None,
            "setup": draw(st.booleans())}
    return case


class Solved:
    "What was made: `entries` (all variables' data), `model`, `points`, `cost`."


def make(case, values=None):
    """Builds the model; `values` may replace fixed variables' values: {index: list}."""
    from gpkit import Model, NamedVariables, Variable, VectorVariable, units
    NamedVariables.reset_modelnumbers()   # so that the same variables result each time
    s = Solved()
    s.case = case
    s.entries = [dict(v) for v in case["vars"]]
    for i, e in enumerate(s.entries):
        if values and i in values:
            e["vals"] = values[i]
    objs = [None]*len(s.entries)
    with_models = {e["model"] for e in s.entries}

    def declare(model):
        for i, e in enumerate(s.entries):
            if e["model"] != model:
                continue
            args = [e["name"]]
            fixed = e["kind"] == "fixed"
            if not e["shape"]:
                if fixed:
                    args.append(e["vals"][0])
                objs[i] = Variable(*args, e["unit"] or "-", e["label"])
            else:
                if fixed:
                    args.append(np.array(e["vals"]).reshape(e["shape"]))
                shape = e["shape"][0] if len(e["shape"]) == 1 else tuple(e["shape"])
                objs[i] = VectorVariable(shape, *args, e["unit"] or "-", e["label"])
    declare("")
    if with_models & {"A", "A.B"}:
        with NamedVariables("A"):
            declare("A")
            with NamedVariables("B"):
                declare("A.B")
    if "C" in with_models:
        with NamedVariables("C"):
            declare("C")
    s.objs = objs
    fixed = [i for i, e in enumerate(s.entries) if e["kind"] == "fixed"]
    used = {i: set() for i in fixed}
    cons, s.cost, s.elements = [], 1.0, {}

    def elem(i, j):
        "(object, its unit)"
        e = s.entries[i]
        v = objs[i].flat[j] if e["shape"] else objs[i]
        return v, (units(e["unit"]) if e["unit"] else 1)
    # (free index, element) -> [constant, fixed index, fixed element, "times"/"plus"/None]
    for i, e in enumerate(s.entries):
        if e["kind"] == "fixed":
            continue
        size = math.prod(e["shape"])
        for j in range(size - e["hole"]):
            v, u = elem(i, j)
            a = e["vals"][j]
            low = a
            how = [a, None, None, None]
            if e["dep"] >= 0 and fixed:
                k = fixed[e["dep"] % len(fixed)]
                fsize = math.prod(s.entries[k]["shape"])
                jj = j % fsize
                f, fu = elem(k, jj)
                zero = not s.entries[k]["vals"][jj] or not case["vars"][k]["vals"][jj]
                over = e["over"] == 2 or e["over"] == 1 and j % 2
                how = [a, k, jj, "plus" if zero else "over" if over else "times"]
                low = a + f/fu if zero else a*fu/f if over else a*f/fu
                used[k].add(jj)
            s.elements[i, j] = how
            cons.append(v/u >= low)
            s.cost = s.cost*(v/u)
    s.rest = [(k, jj) for k in fixed for jj in range(math.prod(s.entries[k]["shape"])) if jj not in used[k]]
    top = Variable("K_{top}", "-", "holds the rest")
    low = 1.0
    for k, jj in s.rest:
        f, fu = elem(k, jj)
        low = low + f/fu
    cons.append(top >= low)
    s.cost = s.cost*top
    if case["costunit"]:
        s.cost = s.cost*units(case["costunit"])
    s.top = top
    s.swept, s.points = None, [None]
    subs = {}
    if case["sweep"]:
        can = [i for i in fixed if not s.entries[i]["shape"] and s.entries[i]["vals"][0]]
        if can:
            s.swept = can[0]
            s.points = [s.entries[s.swept]["vals"][0]*(1 + 0.25*n) for n in range(case["sweep"])]
            subs[objs[s.swept]] = ("sweep", np.array(s.points))
    s.fnvar = None
    if case["fn"]:
        power = case["fn"]
        s.fnvar = Variable("p_{fn}", "-", "computed", evalfn=lambda vals, t=top, p=power: vals[t]**p)
    s.constraints = cons
    s.model = Model(s.cost, cons, subs)
    if s.fnvar is not None:
        s.model.unique_varkeys = set([s.fnvar.key])
    return s


def value(s, i, j, point):
    "What element j of variable i is at a point (NaN for what is in no constraint)."
    e = s.entries[i]
    if e["kind"] == "fixed":
        return s.points[point] if i == s.swept else e["vals"][j]
    if (i, j) not in s.elements:
        return math.nan
    a, k, jj, how = s.elements[i, j]
    if k is None:
        return a
    f = value(s, k, jj, point)
    return a*f if how == "times" else a/f if how == "over" else a + f


def topvalue(s, point):
    "What the rest's bound is."
    return 1 + sum(value(s, k, jj, point) for k, jj in s.rest)


def costvalue(s, point):
    "In its unit."
    return math.prod(value(s, i, j, point) for i, j in s.elements)*topvalue(s, point)


def sensitivity(s, k, jj, point):
    "Of a fixed element."
    tot = 0.0
    for i, j in s.elements:
        a, kk, jjj, how = s.elements[i, j]
        if (kk, jjj) == (k, jj):
            tot += 1.0 if how == "times" else -1.0 if how == "over" else value(s, k, jj, point)/value(s, i, j, point)
    if (k, jj) in s.rest:
        tot += value(s, k, jj, point)/topvalue(s, point)
    return tot


def solve(s):
    "Its solution."
    return s.model.solve(verbosity=0)
