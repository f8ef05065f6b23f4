"C15: composing, grouping and vectorizing models; values given at several levels."
import contextlib
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require
from .. import gpgen
from . import c07

RULE = ("grouping: constraints in a tree of containers, non-trivial with two levels or a shared"
        " constraint; values: variables given values by several containers, non-trivial when some"
        " variable is given two different ones; vectorized: a program declared in a vectorized block,"
        " non-trivial when the copies differ or share something.")
ASSUMPTIONS = ("cvxopt on an independently compiled program attains the optimum",)
KINDS = ["list", "list", "tuple", "dict", "set", "setofdict", "model", "setup", "setupdict", "array"]


# ---------------------------------------------------------------- grouping

@st.composite
def groupings(draw):
    "A program and a tree for its constraints."
    paths = draw(st.lists(st.lists(st.integers(0, 2), max_size=3), min_size=1, max_size=12))
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=8, max_size=8))
    return {"spec": draw(gpgen.specs()), "paths": paths, "kinds": kinds,
            "dups": draw(st.lists(st.tuples(st.integers(0, 30), st.lists(st.integers(0, 2), max_size=2)),
                                  max_size=2)),
            "empty": draw(st.booleans()), "subs": draw(st.sampled_from(["model", "update", "inner"]))}


def tree(items):
    "[(path, constraint)] as nested lists of constraints and (id, [..])."
    out, groups = [], {}
    for path, con in items:
        if not path:
            out.append(con)
        else:
            if path[0] not in groups:
                groups[path[0]] = []
                out.append((path[0], groups[path[0]]))
            groups[path[0]].append((path[1:], con))
    return [(e[0], tree(e[1])) if isinstance(e, tuple) and isinstance(e[1], list) else e for e in out]


def container(kind, parts, empty, **kw):
    "These constraints, in a container."
    from gpkit import Model, Variable
    from gpkit.constraints.set import ConstraintSet
    if empty:
        parts = parts[:1] + [[]] + parts[1:]
    named = {"part%i" % i: p for i, p in enumerate(parts)}
    if kind == "tuple":
        return tuple(parts)
    if kind == "dict":
        return named
    if kind == "set":
        return ConstraintSet(parts)
    if kind == "setofdict":
        return ConstraintSet(named)
    if kind == "model":
        return Model(None, parts)
    if kind == "setup":
        return type("Grouped", (Model,), {"setup": lambda self: parts})()
    if kind == "setupdict":
        return type("Named", (Model,), {"setup": lambda self: named})()
    if kind == "array" and not empty and not any(isinstance(p, (list, tuple, dict, np.ndarray)) for p in parts):
        arr = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            arr[i] = p
        return arr
    return parts


def contained(node, case, depth=0, count=None):
    "A tree as gpkit's containers."
    count = count if count is not None else [0]
    out = []
    for e in node:
        if isinstance(e, tuple):
            mine = count[0]
            count[0] += 1
            out.append(container(case["kinds"][mine % len(case["kinds"])],
                                 contained(e[1], case, depth+1, count), case["empty"] and mine % 2))
        else:
            out.append(e)
    return out


def run_grouping(case):
    "Against the flat model and the reference."
    from gpkit import Model
    spec = case["spec"]
    b = gpgen.build(spec, constants="how")
    b.costmag = c07.costmag(b)
    items = [(case["paths"][i % len(case["paths"])], con) for i, con in enumerate(b.constraints)]
    items += [(path, b.constraints[i % len(b.constraints)]) for i, path in case["dups"]]
    cost, _ = b.ref.solve()
    names = {k.eqstr for con in b.constraints for k in con.vks} | {k.eqstr for k in b.cost.vks}
    grouped = contained(tree(items), case)
    where = "grouped as %s" % (show(grouped),)
    if case["subs"] == "model":
        m = Model(b.cost, grouped, b.subs)
    else:
        m = Model(b.cost, grouped)
        m.substitutions.update(b.subs)
    if case["subs"] == "inner":
        m = Model(m.cost, [m])
    require({k.eqstr for k in m.vks} == names, "%s: variables %s, not %s", where, m.vks, names)
    have = {}
    for con in m.flat():
        have[id(con)] = have.get(id(con), 0) + 1
    want = {}
    for _, con in items:
        want[id(con)] = want.get(id(con), 0) + 1
    require(have == want, "%s: the single constraints are\n%s\n not\n%s", where,
            [str(c) for c in m.flat()], [str(c) for _, c in items])
    sol = m.solve(verbosity=0)
    c07.verify(b, sol, cost, where)
    for i, (path, con) in enumerate(items):
        if not path:
            require(any(c is con for c in list.__iter__(m if case["subs"] != "inner" else m[0])),
                    "%s: constraint %i is not at the top", where, i)
    deep = any(len(p) > 1 for p, _ in items)
    labels = {k for k in case["kinds"] if any(p for p, _ in items)}
    return Info((deep or bool(case["dups"])) and any(p for p, _ in items), sorted(labels))


def show(x):
    "Shape of a grouping."
    from gpkit.constraints.set import ConstraintSet
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)) and not hasattr(x, "oper"):
        inner = [show(e) for e in x]
        return (type(x).__name__ if not isinstance(x, ConstraintSet) else "Set", inner)
    return str(x)


# ---------------------------------------------------------------- values

# name, unit, alternative unit and its factor, shape
VARS = [("a", "", "percent", 100., ()), ("p", "m", "ft", 1/0.3048, ()), ("k", "kg", "g", 1000., ()),
        ("v", "", "percent", 100., (3,)), ("w", "ft", "inch", 12., (2,))]


def elems(i):
    "Elements of one of VARS."
    return [(i, j) for j in range(VARS[i][4][0])] if VARS[i][4] else [(i, None)]


ALL = [e for i in range(len(VARS)) for e in elems(i)]
VALS = st.sampled_from([1.5, 2.0, 3.0, 4.0, 5.0, 7.0])


@st.composite
def subset(draw):
    "Values for some variables."
    out = []
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(VARS)-1))
        size = (VARS[i][4] or (1,))[0]
        form = draw(st.sampled_from(["var", "key", "name", "qty"]))
        part = draw(st.sampled_from(["whole", "whole", "elem", "nan", "fill"])) if VARS[i][4] else "whole"
        vals = [draw(VALS) for _ in range(size)]
        out.append([i, part, form, vals, draw(st.integers(0, size-1))])
    return out


@st.composite
def node(draw, depth):
    "[kind, children, values]; a child is a node or an element index."
    kind = draw(st.sampled_from(["list", "dict", "set", "model", "setup", "setup", "late"]))
    children = []
    for _ in range(draw(st.integers(1, 3))):
        if depth and draw(st.booleans()):
            children.append(draw(node(depth-1)))
        else:
            children.append(draw(st.integers(0, sum(len(elems(i)) for i in range(len(VARS)))-1)))
    return [kind, children, draw(subset()) if kind not in ("list", "dict") else []]


@st.composite
def values(draw):
    "A tree of containers with values."
    decl = [draw(st.one_of(st.none(), st.none(), VALS)) for _ in VARS]
    return {"tree": draw(node(3)), "decl": decl, "values": draw(subset()), "late": draw(subset()),
            "incost": draw(st.lists(st.integers(0, len(ALL)-1), max_size=3, unique=True))}


class Tree:
    "Builds a tree, and what it says about each element's value."
    def __init__(self, case):
        from gpkit import Variable, VectorVariable
        self.case, self.vars, self.tops = case, [], []
        for (name, unit, _, _, shape), d in zip(VARS, case["decl"]):
            args = [name, unit or "-"]
            if shape:
                args += [[d+j for j in range(shape[0])]] if d else []
                self.vars.append(VectorVariable(shape[0], *args))
            else:
                args += [d] if d else []
                self.vars.append(Variable(*args))
        self.names = {i: 0 for i in range(len(VARS))}

    def elem(self, e):
        v = self.vars[e[0]]
        return v if e[1] is None else v[e[1]]

    def declared(self, i):
        d = self.case["decl"][i]
        return {e: ("default", {d + (e[1] or 0)}) for e in elems(i)} if d else {}

    def given(self, values, present):
        "(gpkit's dict or list of items, the model's dict), of variables that are present."
        items, model = [], {}
        for i, part, form, vals, j in values:
            _, unit, alt, fac, shape = VARS[i]
            here = [e for e in elems(i) if e in present]
            if not here or (form == "name" and len(here) < len(elems(i))):
                continue  # a name stands for what is there
            v = self.vars[i]
            if part == "elem":
                e = elems(i)[j]
                if e not in present:
                    continue
                key = v[j] if form != "key" else v[j].key
                val, new = vals[0], {e: vals[0]}
            elif shape:
                key = {"key": v.key, "name": VARS[i][0]}.get(form, v)
                if part == "fill":
                    val, new = vals[0], {e: vals[0] for e in elems(i)}
                else:
                    val = np.array(vals)
                    if part == "nan" and len(vals) > 1:
                        val[j] = np.nan
                    new = {e: x for e, x in zip(elems(i), val) if not np.isnan(x)}
                    if form != "qty" and part == "whole":
                        val = list(val)
            else:
                key = {"key": v.key, "name": VARS[i][0]}.get(form, v)
                val, new = vals[0], {(i, None): vals[0]}
            if form == "qty":
                from gpkit.units import Quantity
                val = Quantity(val*fac, alt)
            items.append((key, val))
            model.update(new)
        return items, model

    def con(self, e):
        "A constraint on an element whose own variable shows the value it was given."
        from gpkit import Variable, units
        top = Variable("t%i" % len(self.tops))
        x = self.elem(e)
        self.tops.append((top, e))
        u = VARS[e[0]][1]
        return top >= (x/units(u) if u else x)

    def build(self, t):
        "(gpkit's object, {element: (kind, values)}, elements present)"
        from gpkit import Model
        from gpkit.constraints.set import ConstraintSet
        kind, children, values = t
        objs, state, present = [], {}, set()
        for c in children:
            if isinstance(c, int):
                e = ALL[c]
                objs.append(self.con(e))
                d = self.declared(e[0])
                sub, there = ({e: d[e]} if d else {}), {e}
            else:
                obj, sub, there = self.build(c)
                objs.append(obj)
            fold(state, sub)
            present |= there
        items, given = self.given(values, present)
        for e, v in given.items():
            state[e] = ("given", {v})
        if kind == "list":
            obj = objs
        elif kind == "dict":
            obj = {"part%i" % i: o for i, o in enumerate(objs)}
        elif kind == "set":
            obj = self.sub(lambda subs: ConstraintSet(objs, subs), items)
        elif kind == "model":
            obj = self.sub(lambda subs: Model(None, objs, subs), items)
        elif kind == "late":
            obj = Model(None, objs)
            for k, v in items:
                obj.substitutions[k] = v
        else:
            obj = self.sub(lambda subs: type("Part", (Model,), {"setup": lambda this: (objs, subs)})(), items)
        return obj, state, present

    @staticmethod
    def sub(make, items):
        "With those items that can be in one dict; vectors cannot be keys of a plain one twice."
        subs, later = {}, []
        for k, v in items:
            if later or k in subs or any(same(k, o) for o in subs):
                later.append((k, v))
            else:
                subs[k] = v
        obj = make(subs)
        for k, v in later:
            obj.substitutions[k] = v
        return obj


def same(a, b):
    "Might these be keys to something in common (so their order is that of the dict)?"
    def names(x):
        return x if isinstance(x, str) else getattr(x, "key", x).name
    return names(a) == names(b)


def fold(state, new):
    "A later part's values."
    for e, (kind, vals) in new.items():
        if kind == "default" and e in state and state[e][0] == "given":
            state[e] = ("given", state[e][1] | vals)  # either
        else:
            state[e] = (kind, set(vals))


def run_values(case):
    "Which values do variables get?"
    from gpkit import Model
    t = Tree(case)
    obj, state, present = t.build(case["tree"])
    cost = 1
    for top, _ in t.tops:
        cost = cost*top
    lows = []
    from gpkit import units
    for e in sorted(present):
        u = VARS[e[0]][1]
        lows.append(t.elem(e) >= (1*units(u) if u else 1))
        fold(state, {k: v for k, v in t.declared(e[0]).items() if k == e})
    for e in (ALL[i] for i in case["incost"]):   # variables of the cost, some of them nowhere else
        if e in present or e in t.declared(e[0]):
            u = VARS[e[0]][1]
            cost = cost*(t.elem(e)/units(u) if u else t.elem(e))
            if e not in present:
                fold(state, {e: t.declared(e[0])[e]})
                present.add(e)
    items, given = t.given(case["values"], present)
    m = t.sub(lambda subs: Model(cost, [obj, lows], subs), items)
    late, latevals = t.given(case["late"], present)
    for k, v in late:
        m.substitutions[k] = v
    for new in (given, latevals):
        for e, v in new.items():
            state[e] = ("given", {v})
    overridden = 0
    for e in ALL:
        key = t.elem(e).key
        if e not in present:
            continue
        has = key in m.substitutions
        if e not in state:
            require(not has, "%s has the value %s, which nobody gave it", key,
                    m.substitutions[key] if has else None)
            continue
        require(has, "%s has no value; it should have one of %s", key, state[e][1])
        got = float(m.substitutions[key])
        require(any(abs(got-v) <= 1e-12*v for v in state[e][1]), "%s has the value %r; it should have %s",
                key, got, sorted(state[e][1]))
    sol = m.solve(verbosity=0)
    for top, e in t.tops:
        key = t.elem(e).key
        want = float(m.substitutions[key]) if e in state else 1.0
        got = float(sol["variables"][top.key])
        require(abs(got-want) <= 1e-4*want, "an occurrence of %s was solved as %r instead of %r", key, got,
                want)
        whole = sol["variables"][key.veckey if key.idx else key]
        val = float(whole[key.idx] if key.idx else whole)
        require(abs(val-want) <= 1e-4*want, "%s is %r instead of %r", key, val, want)
        where = "constants" if e in state else "freevariables"
        there = sol[where][key.veckey if key.idx else key]
        require(not np.isnan(there[key.idx] if key.idx else there), "%s is not among the %s", key, where)
    seen = {}

    def collect(n):
        for i, _, _, vals, _ in n[2]:
            seen.setdefault(i, set()).add(tuple(vals))
        for c in n[1]:
            if not isinstance(c, int):
                collect(c)
    collect(case["tree"])
    for i, _, _, vals, _ in case["values"] + case["late"]:
        seen.setdefault(i, set()).add(tuple(vals))
    overridden = [i for i, s in seen.items() if len(s) + bool(case["decl"][i]) > 1
                  and any(e in present for e in elems(i))]
    return Info(bool(overridden), ["overridden"] if overridden else [])


# ---------------------------------------------------------------- vectorized

@st.composite
def vectorized(draw):
    "A program, a shape, and what is outside."
    spec = draw(gpgen.specs(nfree=(1, 3), nposys=(0, 2), neqs=(0, 1)))
    spec["mix"] = False
    shape = draw(st.sampled_from([[2], [3], [1], [2, 2], [3, 2]]))
    nv = spec["n"] + spec["m"]
    size = math.prod(shape)
    return {"spec": spec, "shape": shape, "outside": draw(st.lists(st.integers(0, nv-1), max_size=2)),
            "mults": [[draw(st.sampled_from([1.0, 1.0, 0.9, 1.1])) for _ in range(size)] for _ in range(nv)],
            "form": [draw(st.integers(0, 5)) for _ in range(nv)],
            "route": draw(st.sampled_from(["setup", "block", "nested"]))}


def run_vectorized(case):
    "Against one program of all the copies."
    from gpkit import Model, Variable, VectorVariable, Vectorize
    from gpkit.units import Quantity
    spec, shape = case["spec"], tuple(case["shape"])
    n, nv = spec["n"], spec["n"] + spec["m"]
    for p in spec["posys"] + spec["eqs"]:
        p["cu"] = ["", ""]
    nvec, nfvec = spec["nvec"], spec["nfvec"]
    outside = {k for k in case["outside"] if not (k < nvec or n <= k < n+nfvec)}
    copies = list(np.ndindex(*shape))
    full = shape[::-1]  # the innermost environment comes first
    b = gpgen.Built()
    b.spec, b.prefix, b.subs = spec, "", {}
    b.alts = [gpgen.ALTS[v["u"]][v["alt"] % len(gpgen.ALTS[v["u"]])] for v in spec["var"]]
    b.vars = [None]*nv
    fixed = {}  # (variable, copy): value
    for k in range(n, nv):
        for c in copies:
            same_ = k in outside or case["form"][k] in (0, 1)
            if n <= k < n+nfvec:
                same_ = case["form"][n] in (0, 1)
            mult = 1.0 if same_ else case["mults"][k][copies.index(c)]
            fixed[k, c] = spec["var"][k]["x"]*mult

    def per_copy(k):
        arr = np.empty(full)
        for c in copies:
            arr[c[::-1]] = fixed[k, c]
        return arr

    def declare(ks):
        "Variables; values are given in various ways."
        for k in ks:
            u, x, form = spec["var"][k]["u"], spec["var"][k]["x"], case["form"][k]
            name = "x%i" % k
            if k < nvec or n <= k < n+nfvec:
                first, size = (0, nvec) if k < nvec else (n, nfvec)
                if k != first:
                    continue
                if first == 0:
                    vec = VectorVariable(nvec, "v", u or "-")
                else:
                    vals = [spec["var"][n+i]["x"] for i in range(nfvec)]
                    arrs = np.array([per_copy(n+i) for i in range(nfvec)])
                    form = case["form"][n]
                    if form == 0:
                        vec = VectorVariable(nfvec, "c", vals, u or "-")
                    elif form == 1:
                        vec = VectorVariable(nfvec, "c", np.array(vals), u or "-")
                    elif form == 2:
                        vec = VectorVariable(nfvec, "c", arrs, u or "-")
                    else:
                        vec = VectorVariable(nfvec, "c", u or "-")
                        late.append((vec if form < 5 else vec.key, arrs))
                for i in range(size):
                    b.vars[first+i] = vec[i]
                require(np.shape(vec) == (size,) + np.shape(probe()), "a vector of %i has shape %s", size,
                        np.shape(vec))
                continue
            if k < n:
                b.vars[k] = Variable(name, u)
            elif k in outside:
                b.vars[k] = Variable(name, x, u)
            elif form == 0:
                b.vars[k] = Variable(name, x, u)
            elif form == 1:
                b.vars[k] = Variable(name, Quantity(x, u) if u else x, u)
            elif form == 2:
                b.vars[k] = Variable(name, per_copy(k), u)
            elif form == 3:
                b.vars[k] = Variable(name, u)
                for ix in np.ndindex(*full):
                    late.append((b.vars[k][ix], per_copy(k)[ix]))
            else:
                b.vars[k] = Variable(name, u)
                late.append((b.vars[k] if form == 4 else b.vars[k].key, per_copy(k)))

    def probe():
        return np.empty(full)
    late = []
    declare(sorted(outside))

    def make(this=None):
        declare([k for k in range(nv) if k not in outside])
        plan = gpgen.plan_constraints(b)
        cons = [maker() for _, _, maker in plan]
        b.costterms = [(w, e) for w, e in b.costterms]
        cost = 0
        for c, e in b.costterms:
            cost = cost + gpgen.expr(b, c, e)
        b.cost = cost
        if this is not None:
            for k in range(n):
                if k not in outside:
                    setattr(this, "x%i" % k, b.vars[k])
        return cons
    with contextlib.ExitStack() as stack:
        for size in shape:
            stack.enter_context(Vectorize(size))
        if case["route"] == "block":
            part = make()
        else:
            cls = type("Copied", (Model,), {"setup": lambda this: make(this)})
            if case["route"] == "nested":
                def outer(this):
                    this.part = cls()
                    return this.part
                top = type("Outer", (Model,), {"setup": outer})()
                part, inst = top, top.part
            else:
                part = inst = cls()
    cost = b.cost.sum() if np.shape(b.cost) else b.cost*len(copies)
    m = Model(cost, [part])
    for k, v in late:
        key = getattr(k, "key", k)
        if key in m.varkeys or getattr(key, "shape", None) and any(
                vk.veckey == key for vk in m.vks if vk.veckey):
            m.substitutions[k] = v
    # reference: variables of all copies
    number = {}
    for k in list(range(n)):
        for c in copies:
            number[k, c] = number[k, copies[0]] if k in outside and c != copies[0] else len(set(
                number.values()))
    nfree = len(set(number.values()))
    for k in range(n, nv):
        for c in copies:
            number[k, c] = nfree + k*len(copies) + copies.index(c)
    bigfixed = {number[key]: v for key, v in fixed.items() if key[0] in b.used}

    def moved(terms, c):
        return [(w, {number[k, c]: x for k, x in e.items()}) for w, e in terms]
    posys = [moved(p, c) for c in copies for p in b.ref.posys]
    eqs = [moved([q], c)[0] for c in copies for q in b.ref.eqs]
    ref = gpgen.Ref(nfree, bigfixed, [t for c in copies for t in moved(b.ref.cost, c)], posys, eqs)
    best, _ = ref.solve()
    if best == math.inf:
        raise Discard
    where = "vectorized by %s, %s" % (shape, case["route"])
    try:
        sol = m.solve(verbosity=0)
    except Exception:
        raise
    values_ = {}
    for k in range(nv):
        if k not in b.used:
            continue
        for c in copies:
            v = b.vars[k] if k in outside else b.vars[k][c[::-1]]
            val = sol["variables"][v.key.veckey if v.key.idx else v.key]
            values_[number[k, c]] = float(val[v.key.idx] if v.key.idx else val)
            if k >= n:
                require(abs(values_[number[k, c]]-fixed[k, c]) <= 1e-12*fixed[k, c], "%s: %s was given"
                        " %r in copy %s but has %r", where, v, fixed[k, c], c, values_[number[k, c]])
    for p in ref.posys:
        require(ref.value(p, values_) <= 1+1e-5, "%s: a copy's constraint %s is violated at %s", where, p,
                values_)
    for q in ref.eqs:
        require(abs(ref.value([q], values_)-1) <= 1e-5, "%s: a copy's equality %s is violated at %s", where,
                q, values_)
    there = ref.value(ref.cost, values_)
    require(abs(there-best) <= 1e-4*best, "%s: the copies' costs add up to %r at the values reported; the"
            " optimum is %r", where, there, best)
    if case["route"] != "block":
        views(inst, case, b, outside, copies, n)
        require(len({k for k in m.vks if not k.idx}) == len([k for k in outside if k in b.used
                                                             or k >= 10**6]), "%s: variables %s", where, m.vks)
    differ = any(fixed[k, c] != fixed[k, copies[0]] for k in range(n, nv) for c in copies)
    return Info(len(copies) > 1 and (differ or bool(outside)), ["%s" % (shape,), case["route"]])


def views(inst, case, b, outside, copies, n):
    "A model's views are the copies."
    for k in range(n):
        if k in outside:
            continue
        for c in copies:
            view = inst.as_view()
            for i in c:
                view = view[i]
            got, want = getattr(view, "x%i" % k), b.vars[k][c[::-1]]
            require(got.key == want.key, "the view of copy %s has %s for %s", c, got, want)


CHECKS = {"grouping": {"strategy": groupings(), "run": run_grouping, "quick": 500, "thorough": 6000},
          "values": {"strategy": values(), "run": run_values, "quick": 900, "thorough": 12000},
          "vectorized": {"strategy": vectorized(), "run": run_vectorized, "quick": 400, "thorough": 5000}}
