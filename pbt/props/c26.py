"C26: querying a solution evaluates any expression there, with correct units."
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require
from .. import solved, unitsys as us

RULE = ("a solved model with a closed-form solution (single or swept; scalars, vectors and arrays with units in several models) and up to"
        " four queries of it; non-trivial when an expression of at least two variables, or with units to convert or variables to keep,"
        " was among them and the solution has at least two variables")
ASSUMPTIONS = ("cvxopt reaches the closed-form optimum to within 1e-3; queries are then compared with the solution's tables to 1e-9",
               "a name that several variables share stands for all of them, as a dictionary")
SI = {"": 1.0, "m": 1.0, "ft": 0.3048, "inch": 0.0254, "kg": 1.0, "lb": us.LB, "N/m^2": 1.0, "lbf/inch^2": us.LB*us.G/0.0254**2,
      "hr": 3600.0, "min": 60.0, "percent": 0.01, "m/ft": 1/0.3048}
SUMUNITS = [["", ""], ["", ""], ["m", "ft"], ["ft", "inch"], ["kg", "lb"], ["m/ft", "percent"], ["percent", ""], ["hr", "min"]]
ABSENT = [["q_a", ""], ["q_b", "ft"], ["x", "inch"], ["q_c", "percent"]]


@st.composite
def queries(draw):
    "One thing to ask for: picks are taken modulo what there is."
    pick = st.tuples(st.integers(0, 5), st.integers(0, 7))
    factor = st.tuples(pick, st.sampled_from([1, 1, 2, -1, 0.5, -2, 3]))
    absent = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, len(ABSENT)-1), st.sampled_from([1, 2, -1])),
                                                          min_size=1, max_size=2, unique_by=lambda p: p[0]))
    term = st.fixed_dictionaries({"c": st.sampled_from([1, 2, 0.5, 3.7, 1e3, 0.01]), "sign": st.sampled_from([1, 1, 1, -1]),
                                  "factors": st.lists(factor, min_size=0, max_size=3), "absent": absent, "unit": st.integers(0, 1)})
    kind = draw(st.sampled_from(["variable", "variable", "vector", "element", "mono", "mono", "sum", "sum", "array", "vectorop", "cost",
                                 "constant", "nothing", "slice", "name"]))
    return {"kind": kind, "var": draw(st.integers(0, 5)), "elem": draw(st.integers(0, 7)), "how": draw(st.integers(0, 5)),
            "terms": draw(st.lists(term, min_size=1, max_size=3)), "units": draw(st.sampled_from(SUMUNITS)),
            "op": draw(st.sampled_from(["sum", "prod", "square", "times", "over", "plus", "half", "dot", "sum0"])),
            "size": draw(st.integers(1, 3))}


def cases():
    "Strategy."
    return st.fixed_dictionaries({"model": solved.models(), "queries": st.lists(queries(), min_size=1, max_size=4),
                                  "repeat": st.booleans()})


class World:
    "A solution and its table of values."

    def __init__(self, case):
        self.s = solved.make(case["model"])
        self.sol = solved.solve(self.s)
        self.n = len(self.s.points)
        self.table = {}
        for i, e in enumerate(self.s.entries):
            size = math.prod(e["shape"])
            for j in range(size):
                self.table[i, j] = [self.lookup(i, j, p) for p in range(self.n)]

    def lookup(self, i, j, p):
        "From the solution's own table, checked against the closed form."
        s, e = self.s, self.s.entries[i]
        want = solved.value(s, i, j, p)
        if math.isnan(want):
            return want
        obj = s.objs[i]
        got = self.sol["variables"][obj.flat[j] if e["shape"] else obj]
        got = np.asarray(got, dtype=float)
        if self.n > 1:
            require(got.shape == (self.n,) or got.shape == (), "the table has %s for %s of %s points", got, obj, self.n)
        got = float(got.flat[p if got.size > 1 else 0])
        require(abs(got-want) <= 1e-3*abs(want), "the table has %r for %s, not %r", got, obj, want)
        return got

    def name(self, i, j):
        "What an element is called when looking for it among an expression's variables."
        obj = self.s.objs[i]
        return (obj.flat[j] if self.s.entries[i]["shape"] else obj).key


def plain(x):
    "(value, SI factor of its units) of a constant result."
    if hasattr(x, "hmap"):
        require(not x.vks, "%s is no constant", x)
        vals = list(x.hmap.values())
        require(len(vals) <= 1, "constant %s has several terms", x)
        return (float(vals[0]) if vals else 0.0), us.si(x.hmap.units)
    if hasattr(x, "magnitude"):
        return x.magnitude, float((1*x.units).to_base_units().magnitude)
    return x, 1.0


def check(got, terms, p, units, tag, wantunits=True):
    """One point's result against {kept variables: [SI values per point, SI sizes]}."""
    hmap = getattr(got, "hmap", None)
    kept = {e for e, (want, size) in terms.items() if e and abs(want[p]) > 1e-9*size[p]}
    if not kept and not getattr(got, "vks", None):
        val, factor = plain(got)
        want, size = terms.get((), ([0]*99, [0]*99))
        require(abs(val*factor-want[p]) <= 1e-9*size[p] or (math.isnan(val) and math.isnan(want[p])),
                "%s is %r, or %r in SI units; it should be %r", tag, got, val*factor, want[p])
        if wantunits and (want[p] or hasattr(got, "magnitude")):
            gu = getattr(got, "units", None)
            gotsi = factor
            require(abs(gotsi/us.si(units)-1) <= 1e-12, "%s is in %s, not in %s", tag, gu, units)
        return
    require(hmap is not None, "%s is %r, without the variables %s", tag, got, kept)
    factor = us.si(hmap.units)
    found = {}
    for exp, c in hmap.items():
        key = tuple(sorted((vk.name, str(vk.idx), float(x)) for vk, x in exp.items() if x))
        found[key] = found.get(key, 0.0) + c*factor
    for key in set(found) | set(terms):
        want, size = terms.get(key, ([0]*99, [0]*99))
        require(abs(found.get(key, 0.0)-want[p]) <= 1e-9*size[p], "%s is %s: the coefficient of %s is %r in SI units, not %r", tag, got,
                key, found.get(key, 0.0), want[p])


class Term:
    "Value of a product over all points."

    def __init__(self, w):
        self.vals, self.kept = np.ones(w.n), {}

    def by(self, vals, x):
        "Times this power."
        with np.errstate(all="ignore"):
            self.vals = self.vals*np.asarray(vals, dtype=float)**x

    def keep(self, name, idx, x):
        "A variable that stays."
        key = (name, str(idx))
        self.kept[key] = self.kept.get(key, 0.0) + x

    def key(self):
        "What stays."
        return tuple(sorted(k + (x,) for k, x in self.kept.items() if x))


def collect(terms):
    "Like terms."
    out = {}
    for t in terms:
        vals, size = out.get(t.key(), (0.0, 0.0))
        out[t.key()] = vals + t.vals, size + abs(t.vals)
    return out


def element(w, pick):
    "A variable's element for this pick: (i, j), object, unit."
    i = pick[0] % len(w.s.entries)
    e = w.s.entries[i]
    if not e["shape"]:
        return i, 0, w.s.objs[i], e["unit"]
    j = pick[1] % math.prod(e["shape"])
    return i, j, w.s.objs[i].flat[j], e["unit"]


def product(w, spec, normal, absentvars):
    "(expression, Term), of normalized or of raw variables."
    from gpkit import units
    expr, term = spec["c"]*spec["sign"], Term(w)
    term.by([abs(expr)]*w.n, 1)
    term.vals = term.vals*spec["sign"]
    done = {}
    for pick, x in spec["factors"]:
        i, j, obj, unit = element(w, pick)
        if (i, j) in done:
            continue
        done[i, j] = True
        vals = w.table[i, j]
        if any(v == 0 for v in vals):   # (only as such)
            x = abs(x)
        f = SI[unit]
        if normal and unit:
            alt = solved.ALT[unit]
            if alt:
                obj, f = obj/units(alt), SI[unit]/SI[alt]
            else:
                obj, f = obj/units(unit), 1.0
        expr = expr*obj**x
        term.by([f]*w.n, x)
        if any(math.isnan(v) for v in vals):
            term.keep(obj.key.name if hasattr(obj, "key") else w.name(i, j).name, w.name(i, j).idx, x)
        else:
            term.by(vals, x)
    for k, x in spec["absent"]:
        obj, unit = absentvars[k], ABSENT[k][1]
        f = SI[unit]
        if normal and unit:
            obj, f = obj/units(unit), 1.0
        expr = expr*obj**x
        term.by([f]*w.n, x)
        term.keep(ABSENT[k][0], None, x)
    return expr, term


def points(w, got, tag, shape=()):
    "A query's result at each point, as arrays of that shape."
    if w.n == 1:
        return [got]
    u = getattr(got, "units", None) if hasattr(got, "magnitude") else None
    arr = got.magnitude if u is not None else got
    require(len(arr) == w.n, "%s is %s for a sweep of %i points", tag, got, w.n)
    return [arr[p]*u if u is not None else arr[p] for p in range(w.n)]


def elements(x, shape, tag):
    "An array-shaped result's elements."
    if not shape:
        return [x]
    if hasattr(x, "magnitude"):
        require(np.shape(x.magnitude) == shape, "%s has shape %s, not %s", tag, np.shape(x.magnitude), shape)
        return [v*x.units for v in x.magnitude.flat]
    require(np.shape(x) == shape, "%s has shape %s, not %s", tag, np.shape(x), shape)
    return list(np.asarray(x).flat)


def ask(w, what, terms, units, tag, shape=(), wantunits=True):
    "Asks, in three ways, and compares."
    sol = w.sol
    for how in ("call", "subinto", "atindex"):
        if how == "atindex":
            if w.n == 1:
                continue
            got = [sol.atindex(p)(what) for p in range(w.n)]
        else:
            got = sol(what) if how == "call" else sol.subinto(what)
            got = points(w, got, tag)
        for p, g in enumerate(got):
            for k, (one, want) in enumerate(zip(elements(g, shape, tag), terms)):
                check(one, want, p, units[k] if isinstance(units, list) else units,
                      "%s [%s, point %i, element %i]" % (tag, how, p, k), wantunits)


def run(case):
    "Queries of one solution."
    from gpkit import SignomialsEnabled, Variable, units as gunits
    from gpkit.nomials import NomialArray
    if not case["model"]["vars"]:
        raise Discard
    w = World(case)
    s, sol = w.s, w.sol
    absent = [Variable(name, unit or "-") for name, unit in ABSENT]
    if any(e["name"] == "x" and not e["model"] and e["unit"] == "inch" and not e["shape"] for e in s.entries):
        raise Discard
    before = tables(sol)
    labels, deep = set(), False
    for q in case["queries"]:
        kind = q["kind"]
        labels.add(kind)
        if kind == "vectorop":
            labels.add(q["op"])
        i = q["var"] % len(s.entries)
        e, obj = s.entries[i], s.objs[i]
        shape = tuple(e["shape"])
        size = math.prod(shape)
        own = [collect([single(w, i, j)]) for j in range(size)]
        ku = obj.key.units if not shape else obj.flat[0].key.units
        tag = "%s of %s" % (kind, e["name"])
        if kind in ("variable", "vector", "name"):
            used = [j for j in range(size) if not math.isnan(w.table[i, j][0])]
            if not used:
                continue
            own = [o if j in used else {(): (np.full(w.n, math.nan),)*2} for j, o in enumerate(own)]
            key = obj.key if not shape else obj.flat[0].key.veckey
            names = [obj, key, key.name]
            if e["model"]:
                names.append(key.str_without(["modelnums", "vec"]))
            what = names[q["how"] % len(names)]
            if what == key.name and isinstance(what, str):
                others = [k for k, o in enumerate(s.entries) if o["name"] == e["name"]]
                others = [k for k in others if any(not math.isnan(w.table[k, j][0]) for j in range(math.prod(s.entries[k]["shape"])))]
                if len(others) > 1:
                    got = sol(what)
                    keys = {keyof(w, k) for k in others}
                    require(isinstance(got, dict) and set(got) == keys, "%r stands for %s, but the result is %s", what, keys, got)
                    for k in others:
                        v = got[keyof(w, k)]
                        oshape = tuple(s.entries[k]["shape"])
                        for p, g in enumerate(points(w, v, what)):
                            for j, one in enumerate(elements(g, oshape, what)):
                                want = w.table[k, j][p]
                                val, f = plain(one)
                                require(abs(val*f-want*SI[s.entries[k]["unit"]]) <= 1e-9*abs(val*f) or math.isnan(want) and math.isnan(val),
                                        "%r: %s is %r, not %r", what, keyof(w, k), one, want)
                    labels.add("shared name")
                    deep = True
                    continue
            if isinstance(what, str):
                ask_string(w, what, own, ku, tag, shape)
            else:
                ask(w, what, own, ku, tag + " as " + type(what).__name__, shape)
        elif kind == "slice":
            if not shape:
                continue
            part = obj[:q["size"]]
            idx = np.arange(size).reshape(shape)[:q["size"]]
            ask(w, part, [own[j] for j in idx.flat], ku, tag, idx.shape)
            deep = True
        elif kind == "element":
            j = q["elem"] % size
            if not shape:
                continue
            v = obj.flat[j]
            ask(w, v if q["how"] % 2 or math.isnan(w.table[i, j][0]) else v.key, [own[j]], ku, tag + " %i" % j)
        elif kind == "cost":
            val = sol["cost"]
            u = s.cost.units if hasattr(s.cost, "units") and s.cost.units else None
            costs = np.asarray(getattr(val, "magnitude", val), dtype=float).reshape(-1)*us.si(u)
            for p, g in enumerate(points(w, sol(s.model.cost), "cost")):
                v, f = plain(g)
                require(abs(v*f-costs[p]) <= 1e-3*abs(v*f), "the cost expression is %r at point %i, but the cost is %r", g, p, costs)
            deep = True
        elif kind in ("mono", "sum", "array"):
            with SignomialsEnabled():
                if kind == "mono":
                    spec = dict(q["terms"][0], sign=1)
                    expr, term = product(w, spec, False, absent)
                    if not hasattr(expr, "hmap"):
                        continue
                    what, terms, u, shp = expr, [collect([term])], expr.units, ()
                else:
                    exprs, terms = [], []
                    for spec in q["terms"]:
                        ex, t = product(w, spec, True, absent)
                        unit = q["units"][spec["unit"]]
                        if unit:
                            ex = ex*gunits(unit)
                        t.vals = t.vals*SI[unit]
                        exprs.append(ex)
                        terms.append(t)
                    if not all(hasattr(ex, "hmap") for ex in exprs):
                        continue
                    if kind == "sum":
                        what = exprs[0]
                        for ex in exprs[1:]:
                            what = what + ex
                        if not hasattr(what, "hmap") or not what.hmap:
                            continue
                        terms, u, shp = [collect(terms)], what.units, ()
                    else:
                        what, terms, u, shp = NomialArray(exprs), [collect([t]) for t in terms], [ex.units for ex in exprs], (len(exprs),)
            ask(w, what, terms, u, "%s %s" % (kind, what), shp)
            if len({p for t in q["terms"] for p, _ in t["factors"]}) > 1 or any(t["absent"] for t in q["terms"]):
                deep = True
            if any(t["absent"] for t in q["terms"]):
                labels.add("kept")
        elif kind == "vectorop":
            if not shape or any(v == 0 for j in range(size) for v in w.table[i, j]):
                continue
            if any(math.isnan(w.table[i, j][0]) for j in range(size)):
                continue
            deep = True
            vecask(w, q, i, obj, shape, size, ku)
        elif kind == "constant":
            expr = obj/obj*2.5 if not shape else obj.flat[0]/obj.flat[0]*2.5
            t = Term(w)
            t.by([2.5]*w.n, 1)
            ask(w, expr, [collect([t])], None, "constant", wantunits=False)
        else:
            for nothing in ("nonesuch", "x_{nonesuch}"):
                try:
                    got = sol(nothing)
                except (ValueError, KeyError):
                    continue
                require(False, "there is no variable %r, but it is %s", nothing, got)
        if case["repeat"]:
            labels.add("repeated")
    if s.fnvar is not None:
        for p, g in enumerate(points(w, sol(s.fnvar), "computed")):
            top = np.asarray(sol["variables"][s.top], dtype=float).reshape(-1)
            top = top[p if top.size > 1 else 0]
            v, f = plain(g)
            require(abs(v*f-top**case["model"]["fn"]) <= 1e-9*abs(v*f), "the computed variable is %r, not %r", g, top**case["model"]["fn"])
        labels.add("computed")
    after = tables(sol)
    require(set(before) == set(after) and all(np.array_equal(before[k], after[k], equal_nan=True) for k in before),
            "the solution changed when queried")
    if w.n > 1:
        labels.add("sweep")
    return Info(deep and len(w.table) > 1, labels)


def keyof(w, k):
    "The key a table has for it."
    obj = w.s.objs[k]
    return obj.flat[0].key.veckey if w.s.entries[k]["shape"] else obj.key


def single(w, i, j):
    "One element, in SI units."
    t = Term(w)
    vals = w.table[i, j]
    f = SI[w.s.entries[i]["unit"]]
    t.by([f]*w.n, 1)
    if math.isnan(vals[0]):
        t.keep(w.s.entries[i]["name"], w.name(i, j).idx, 1)
    else:
        t.vals = t.vals*np.asarray(vals, dtype=float)
    return t


def ask_string(w, what, own, ku, tag, shape):
    "By name."
    ask(w, what, own, ku, tag + " as %r" % what, shape)


def vecask(w, q, i, obj, shape, size, ku):
    "An operation on a whole array."
    unit = SI[w.s.entries[i]["unit"]]
    vals = np.array([w.table[i, j] for j in range(size)], dtype=float)*unit
    op = q["op"]
    k, j, other, ounit = element(w, (q["var"]+1, q["elem"]))
    ovals = np.array(w.table[k, j], dtype=float)*SI[ounit]
    if op in ("times", "over") and (np.isnan(ovals).any() or (ovals == 0).any()):
        op = "square"
    if op == "sum0" and len(shape) < 2:
        op = "sum"
    if op == "dot" and len(shape) != 1:
        op = "prod"
    rows, shp = None, ()
    if op == "sum":
        what, rows = obj.sum(), [vals.sum(axis=0)]
    elif op == "sum0":
        what = obj.sum(axis=0)
        rows, shp = vals.reshape(shape + (w.n,)).sum(axis=0).reshape(-1, w.n), shape[1:]
    elif op == "prod":
        what, rows = obj.prod(), [vals.prod(axis=0)]
    elif op == "dot":
        what, rows = obj.dot(obj), [(vals**2).sum(axis=0)]
    elif op == "square":
        what, rows, shp = obj**2, vals**2, shape
    elif op == "half":
        what, rows, shp = obj**0.5*3, 3*vals**0.5, shape
    elif op == "times":
        what, rows, shp = obj*other, vals*ovals, shape
    elif op == "over":
        what, rows, shp = obj/other, vals/ovals, shape
    else:
        what, rows, shp = obj + obj[::-1], vals + vals.reshape(shape + (w.n,))[::-1].reshape(-1, w.n), shape
    terms = [{(): (row, abs(row))} for row in rows]
    u = what.flat[0].units if shp else getattr(what, "units", None)
    ask(w, what, terms, u, "%s of %s" % (op, w.s.entries[i]["name"]), shp)


def tables(sol):
    "A copy of all values."
    out = {"cost": np.array(getattr(sol["cost"], "magnitude", sol["cost"]), dtype=float)}
    for table in ("variables", "freevariables", "constants"):
        for key in list(dict.keys(sol[table])):
            out[table, str(key), str(key.lineage)] = np.array(dict.__getitem__(sol[table], key), dtype=float)
    return out


CHECKS = {"query": {"strategy": cases(), "run": run, "quick": 300, "thorough": 6000}}
