"C23: variables computed from others, before solving (linked) or after it."
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Info, quiet, require

RULE = ("a solved program with linked variables, non-trivial when some function uses two constants or is not linear, and its inputs or"
        " results occur in two places or more")
ASSUMPTIONS = ("the optimum is known in closed form (each free variable has one lower bound); its derivatives are taken by complex step",
               "linked functions are of constants (not of other linked variables), differentiable with the `ad` package, and nonzero")
UNITS = ["", "", "m", "ft", "kg", "hr"]
SAME = {"": ["", "percent"], "m": ["m", "ft", "inch"], "ft": ["ft", "m"], "kg": ["kg", "lb"], "hr": ["hr", "min"]}
SI = {"": 1.0, "percent": 0.01, "m": 1.0, "ft": 0.3048, "inch": 0.0254, "kg": 1.0, "lb": 0.45359237, "hr": 3600.0, "min": 60.0}
UNARY = ["exp", "sqrt", "inv1p", "sin2", "log1p", "sq", "neg"]


def values():
    "Of constants."
    return st.integers(20, 400).map(lambda i: i/100.)


def leaf(nconst):
    "A constant's element, or a number."
    ref = st.tuples(st.just("c"), st.integers(0, nconst-1), st.integers(0, 5), st.sampled_from(["item", "item", "key", "name", "veckey", "unit"]))
    return st.one_of(ref, ref, ref, st.tuples(st.just("n"), st.sampled_from([1, 2, 0.5, 3.0])),
                     st.tuples(st.just("sum"), st.integers(0, nconst-1)))


def expr(nconst):
    "Of a linked function: smooth, positive."
    return st.recursive(leaf(nconst), lambda e: st.one_of(
        st.tuples(st.sampled_from(["add", "mul", "div"]), e, e), st.tuples(st.just("pow"), e, st.sampled_from([2, 0.5, -1, 1.5])),
        st.tuples(st.sampled_from(UNARY[:-1]), e)), max_leaves=4)


@st.composite
def cases(draw):
    "Constants, linked variables, the program, and what's done with it."
    nconst = draw(st.integers(1, 4))
    consts = []
    for _ in range(nconst):
        n = draw(st.sampled_from([0, 0, 0, 2, 3]))
        consts.append({"n": n, "vals": draw(st.lists(values(), min_size=max(n, 1), max_size=max(n, 1))), "unit": draw(st.sampled_from(UNITS))})
    linked = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.sampled_from([0, 0, 0, 2, 3]))
        unit = draw(st.sampled_from(UNITS))
        same = [i for i, c in enumerate(consts) if unit in SAME[c["unit"]] and (not n or c["n"] in (0, n))]
        how = draw(st.sampled_from(["value", "value", "subs", "name", "elements" if n else "subs"]))
        if same and draw(st.integers(0, 3)) == 0:
            linked.append({"n": n, "unit": unit, "how": how, "quantity": draw(st.sampled_from(same)), "times": draw(values()),
                           "list": draw(st.booleans())})
        else:
            linked.append({"n": n, "unit": unit, "how": how, "fns": [draw(expr(nconst)) for _ in range(max(n, 1))],
                           "list": draw(st.booleans())})
    nfree = draw(st.integers(1, 3))
    factor = st.tuples(st.sampled_from(["c", "l", "l"]), st.integers(0, 5), st.integers(0, 5), st.sampled_from([1, 1, 2, -1, 0.5]))
    term = st.tuples(values(), st.lists(factor, max_size=3))
    posy = st.lists(term, min_size=1, max_size=3)
    sweepable = [i for i, c in enumerate(consts) if not c["n"]]
    nsweep = draw(st.sampled_from([0, 0, 1, 1, 2])) if sweepable else 0
    sweep = draw(st.lists(st.sampled_from(sweepable), min_size=nsweep, max_size=nsweep, unique=True)) if nsweep <= len(sweepable) and nsweep else []
    return {"consts": consts, "linked": linked, "bounds": [draw(posy) for _ in range(nfree)],
            "cost": [(draw(term), draw(st.sampled_from([1, 1, 2, 0.5])), i) for i in range(nfree)] + [
                (draw(term), 0, 0) for _ in range(draw(st.integers(0, 1)))],
            "sweep": [(i, draw(st.lists(values(), min_size=2, max_size=3, unique=True))) for i in sweep],
            "post": draw(st.lists(st.tuples(st.sampled_from([0, 0, 2]), expr(nconst), st.integers(0, nfree-1), st.sampled_from(UNITS)), max_size=2)),
            "again": draw(st.sampled_from([None, None, "const", "fix", "same", "refix"])), "newval": draw(values())}


class Ops:
    "For numbers, complex ones, and the ad package's."
    @staticmethod
    def unary(name, e):
        "Of an expression."
        from ad import admath
        fns = admath if hasattr(e, "x") else cmath if isinstance(e, complex) else math
        return {"exp": lambda: fns.exp(e/4), "sqrt": lambda: fns.sqrt(e), "inv1p": lambda: 1/(1+e), "sin2": lambda: 2+fns.sin(e),
                "log1p": lambda: fns.log(1+e), "sq": lambda: e*e}[name]()


def evaluate(e, get, total):
    "An expression."
    if e[0] == "c":
        return get(*e[1:])
    if e[0] == "sum":
        return total(e[1])
    if e[0] == "n":
        return e[1]
    if e[0] in UNARY:
        return Ops.unary(e[0], evaluate(e[1], get, total))
    a = evaluate(e[1], get, total)
    b = e[2] if e[0] == "pow" else evaluate(e[2], get, total)
    return {"add": lambda: a+b, "mul": lambda: a*b, "div": lambda: a/b, "pow": lambda: a**b}[e[0]]()


class World:
    "The variables and the model."

    def __init__(self, case):
        from gpkit import Model, Variable, VectorVariable, units
        self.case = case
        self.k, self.lv = [], []
        for i, c in enumerate(case["consts"]):
            args = ["k_%i" % i]
            args.append(np.array(c["vals"]) if c["n"] else c["vals"][0])
            unit = c["unit"] or "-"
            self.k.append(VectorVariable(c["n"], *args, unit) if c["n"] else Variable(*args, unit))
        subs = {}
        for i, l in enumerate(case["linked"]):
            name, unit = "l_%i" % i, l["unit"] or "-"
            fn = self.function(l)
            args = [fn] if l["how"] == "value" else []
            v = VectorVariable(l["n"], name, *args, unit) if l["n"] else Variable(name, *args, unit)
            self.lv.append(v)
            if l["how"] == "value":
                continue
            if l["n"] and l["how"] != "value":   # a function for each element
                for j in range(l["n"]):
                    subs[v[j]] = self.function(l, j)
            else:
                subs[name if l["how"] == "name" else v] = fn
        self.x = [Variable("x_%i" % i) for i in range(len(case["bounds"]))]
        def united(v, unit):
            return v/getattr(units, unit) if unit else v

        def posy(terms):
            out = 0
            for coef, factors in terms:
                for kind, i, j, p in factors:
                    coef = coef*united(*self.ref(kind, i, j))**p
                out = out + coef
            return out
        cons = [x >= posy(terms) for x, terms in zip(self.x, case["bounds"])]
        self.cost = 0
        for t, p, i in case["cost"]:
            self.cost = self.cost + posy([t])*self.x[i]**p
        rest = [("c", i, j) for i, c in enumerate(case["consts"]) for j in range(max(1, c["n"]))] + [
            ("l", i, j) for i, l in enumerate(case["linked"]) for j in range(max(1, l["n"]))]
        keys = set().union(*[self.cost.vks], *(c.vks for c in cons))
        self.rest = [r for r in rest if self.ref(*r)[0].key not in keys]   # (variables may have cancelled)
        self.top = Variable("t")
        if self.rest:
            cons.append(self.top >= posy([(1., [r + (1,)]) for r in self.rest]))
            self.cost = self.cost + self.top
        self.model = Model(self.cost, cons)
        for i, vals in case["sweep"]:
            subs[self.k[i]] = ("sweep", list(vals))
        for key, val in subs.items():
            if isinstance(key, str):
                self.model.substitutions[key] = val
        self.model.substitutions.update({k: v for k, v in subs.items() if not isinstance(k, str)})
        self.post = []
        for i, (n, e, ix, unit) in enumerate(case["post"]):
            fn = self.postfn(n, e, ix)
            v = (VectorVariable(n, "e_%i" % i, unit or "-", evalfn=fn) if n else Variable("e_%i" % i, unit or "-", evalfn=fn))
            self.post.append(v)
        if self.post:
            self.model.unique_varkeys = set(v.key if not n else v[0].key for v, (n, *_) in zip(self.post, case["post"]))

    def ref(self, kind, i, j):
        "(its variable, its unit)"
        which, objs = (self.case["consts"], self.k) if kind == "c" else (self.case["linked"], self.lv)
        i %= len(which)
        n = which[i]["n"]
        return (objs[i][j % n] if n else objs[i]), which[i]["unit"]

    def fetch(self, c):
        "How functions of the dictionary c get a constant's element and sum."
        consts = self.case["consts"]

        def get(i, j, how):
            n, k = consts[i]["n"], self.k[i]
            if n and how == "name":
                return c["k_%i" % i][j % n]
            if n and how == "veckey":
                return c[k][j % n]
            v = k[j % n] if n else k
            if how == "unit":
                return c(v).magnitude
            if how == "key":
                return c[v.key]
            if how == "name":
                return c["k_%i" % i]
            return c[v]

        def total(i):
            return sum(c[self.k[i]]) if consts[i]["n"] else c[self.k[i]]
        return get, total

    def function(self, l, j=None):
        "A linked variable's."
        def fn(c):
            if "quantity" in l:
                k = self.k[l["quantity"]]
                if not l["n"]:
                    return c(k if k.key.shape == () or not k.key.shape else k[0])*l["times"]
                if not k.key.shape:
                    out = [c(k)*l["times"]]*l["n"]
                elif l["list"]:
                    out = [c(k[m])*l["times"] for m in range(l["n"])]
                else:
                    out = c(k)*l["times"]
                return out if j is None else out[j]
            get, total = self.fetch(c)
            out = [evaluate(e, get, total) for e in l["fns"]]
            # something of a constant in each, so that all of them can be differentiated
            out = [o + 0*c[self.k[0] if not self.k[0].key.shape else self.k[0][0]] for o in out]
            if j is not None:
                return out[j]
            if not l["n"]:
                return out[0]
            return out if l["list"] else np.array(out)
        return fn

    def postfn(self, n, e, ix):
        "A computed variable's."
        def fn(c):
            get, total = self.fetch(c)
            out = evaluate(e, get, total)*c[self.x[ix]]
            return np.array([out*(m+1) for m in range(n)]) if n else out
        return fn


class Reference:
    "The same, of numbers: `consts` is a list of lists."

    def __init__(self, case, rest, consts, fixed=()):
        self.case, self.consts = case, consts
        self.linked = []
        for i, l in enumerate(case["linked"]):
            if i in dict(fixed):
                self.linked.append([dict(fixed)[i]]*max(1, l["n"]))
            elif "quantity" in l:
                k = consts[l["quantity"]]
                conv = SI[case["consts"][l["quantity"]]["unit"]]/SI[l["unit"]]
                self.linked.append([k[m % len(k)]*l["times"]*conv for m in range(max(1, l["n"]))])
            else:
                self.linked.append([evaluate(e, self.get, self.total) for e in l["fns"]])
        self.x = [self.posy(terms) for terms in case["bounds"]]
        self.top = self.posy([(1., [r + (1,)]) for r in rest]) if rest else 0
        self.rest = rest

    def get(self, i, j, _):
        "A constant's element."
        return self.consts[i][j % len(self.consts[i])]

    def total(self, i):
        "A constant's sum."
        return sum(self.consts[i])

    def posy(self, terms, consts=None, linked=None):
        "A posynomial of constants."
        out = 0
        for coef, factors in terms:
            for kind, i, j, p in factors:
                vals = (consts or self.consts) if kind == "c" else (linked or self.linked)
                el = vals[i % len(vals)]
                coef = coef*el[j % len(el)]**p
            out = out + coef
        return out

    def cost(self, x=None, top=None):
        "With the free variables at their bounds, or fixed elsewhere."
        x = x or self.x
        out = sum(self.posy([t])*x[i]**p for t, p, i in self.case["cost"])
        return out + (self.top if top is None else top)


def derivative(case, rest, consts, i, j, fixed, at=None):
    "dlog(cost)/dlog(that element), or that free variable if i is None"
    h = 1e-30
    if i is None:
        x = list(at.x)
        x[j] = x[j] + 1j*h
        cost = at.cost(x, at.top)
        return complex(cost).imag/h*at.x[j]/complex(cost).real
    bent = [list(c) for c in consts]
    bent[i][j] = bent[i][j] + 1j*h
    ref = Reference(case, rest, bent, fixed)
    cost = ref.cost(at.x, at.top) if at else ref.cost()
    return complex(cost).imag/h*consts[i][j]/complex(cost).real


def near(a, b, tol=2e-4):
    "Up to the solver's tolerance."
    return abs(a-b) <= tol*max(1, abs(b)) if abs(b) < 1 else abs(a-b) <= tol*abs(b)


def check(world, sol, consts, fixed, where, point=None):
    "A solution's point."
    case = world.case
    ref = Reference(case, world.rest, consts, fixed)

    def at(val):
        return val if point is None else val[point]

    def value(key):
        got = sol["variables"][key]
        if point is None or key in sol["constants"] and not _swept(sol, key):
            return got
        return got[point]
    for i, v in enumerate(world.lv):
        for j, want in enumerate(ref.linked[i]):
            got = sol["variables"][v[j] if case["linked"][i]["n"] else v]
            # constant through a sweep, constants are given once
            got = got[point] if point is not None and getattr(got, "shape", ()) else got
            require(abs(got-want) <= 1e-9*abs(want), "%s: %s element %i is %s, not %s", where, v, j, got, want)
    require(near(at(sol["cost"]), ref.cost()), "%s: cost is %s, not %s", where, at(sol["cost"]), ref.cost())
    share = [derivative(case, world.rest, consts, None, i, fixed, at=ref) for i in range(len(world.x))]
    for i, x in enumerate(world.x):
        if share[i] > 0.02:   # else the solver's tolerance on the cost leaves it loose
            require(near(value(x), ref.x[i], 1e-4/share[i]), "%s: %s is %s, not %s", where, x, value(x), ref.x[i])
    senss = sol["sensitivities"]["variables"]
    direct = sol["sensitivities"]["cost"]
    direct = direct[point] if point is not None and isinstance(direct, (list, np.ndarray)) else direct
    for i, k in enumerate(world.k):
        for j in range(len(consts[i])):
            el = k[j] if case["consts"][i]["n"] else k
            want = derivative(case, world.rest, consts, i, j, fixed)
            got = at(senss[el])
            require(near(got, want, 1e-3), "%s: sensitivity to %s is %s, not %s", where, el, got, want)
            want = derivative(case, world.rest, consts, i, j, fixed, at=ref)
            got = cost_part(direct, el.key, point)
            require(near(got, want, 1e-3), "%s: sensitivity to %s in the cost itself is %s, not %s", where, el, got, want)
    for v, (n, e, ix, _) in zip(world.post, case["post"]):
        want = evaluate(e, ref.get, ref.total)*ref.x[ix]
        if share[ix] <= 0.02:
            continue
        for m in range(max(n, 1)):
            got = sol["variables"][v]
            got = got if point is None else got[point]
            got = got[m] if n else got
            require(near(got, want*(m+1), 1e-4/share[ix]), "%s: computed %s element %i is %s, not %s", where, v, m, got, want*(m+1))
            got = sol(v)
            got = got if point is None else got[point]
            got = got[m] if n else got
            require(near(getattr(got, "magnitude", got), want*(m+1), 1e-4/share[ix]) and str(getattr(got, "units", "dimensionless")) ==
                    str(v.key.units.units if v.key.units is not None and v.key.units else "dimensionless"),
                    "%s: sol(computed %s) element %i is %s, not %s", where, v, m, got, want*(m+1))


def _swept(sol, key):
    return "sweepvariables" in sol and key in sol["sweepvariables"]


def cost_part(direct, key, point):
    "Its exponent in the cost, on average."
    got = direct.get(key, 0) if hasattr(direct, "get") else 0
    if point is not None and np.shape(got):
        got = got[point]
    return got


def run(case):
    "Builds it and looks at its solutions."
    with quiet():
        return _run(case)


def _run(case):
    from gpkit import settings
    world = World(case)
    consts = [list(c["vals"]) for c in case["consts"]]
    if any(len(e) > 1 and abs(x) > 1e6 or not 1e-6 < abs(x) for e in Reference(case, world.rest, consts).linked for x in e):
        from ..core import Discard
        raise Discard
    settings["ad_errors_raise"] = True
    try:
        return _solve(world, consts)
    finally:
        settings.pop("ad_errors_raise", None)


def _solve(world, consts):
    case = world.case
    fixed = []
    sol = world.model.solve(verbosity=0)
    where = str(world.model)
    if case["sweep"]:
        grid = [[]]
        # sorted by name; the first of them varies fastest if there are two
        sweeps = sorted(case["sweep"], key=lambda s: "k_%i" % s[0])
        grid = [[(sweeps[0][0], v)] for v in sweeps[0][1]] if len(sweeps) == 1 else [
            [(sweeps[0][0], a), (sweeps[1][0], b)] for b in sweeps[1][1] for a in sweeps[0][1]]
        require(len(sol["cost"]) == len(grid), "%s: %i points, not %i", where, len(sol["cost"]), len(grid))
        for n, vals in enumerate(grid):
            here = [list(c) for c in consts]
            for i, v in vals:
                here[i] = [v]
            check(world, sol, here, fixed, "%s\nat %s" % (where, vals), n)
    else:
        check(world, sol, consts, fixed, where)
    for i, _ in case["sweep"]:
        world.model.substitutions[world.k[i]] = consts[i][0]
    if case["again"] == "const":
        consts[0] = [case["newval"]]*len(consts[0])
        world.model.substitutions[world.k[0]] = np.array(consts[0]) if case["consts"][0]["n"] else consts[0][0]
    elif case["again"] in ("fix", "refix"):
        v = world.lv[0]
        n = case["linked"][0]["n"]
        fixed = [(0, case["newval"])]
        world.model.substitutions[v] = np.full(n, case["newval"]) if n else case["newval"]
    if case["again"]:
        sol = world.model.solve(verbosity=0)
        check(world, sol, consts, fixed, "%s\nsolved again (%s)" % (where, case["again"]))
    if case["again"] == "refix":
        if n:
            for j in range(n):
                world.model.substitutions[v[j]] = world.function(case["linked"][0], j)
        else:
            world.model.substitutions[v] = world.function(case["linked"][0])
        sol = world.model.solve(verbosity=0)
        check(world, sol, consts, [], "%s\nlinked again" % where)
    text = str(case["linked"])
    return Info(("'div'" in text or "'mul'" in text or "exp" in text or "pow" in text) and len(case["linked"]) + len(case["consts"]) > 2,
                ["sweep" if case["sweep"] else "single", case["again"] or "once"] + sorted({l["how"] for l in case["linked"]}), where)


CHECKS = {"computed": {"strategy": cases(), "run": run, "quick": 150, "thorough": 8000}}
