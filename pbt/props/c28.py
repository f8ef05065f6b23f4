"C28: plots, diagrams and sliders show the solution's numbers."
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, quiet, require, scratch

RULE = ("a model with a closed-form optimum (or, for sensitivity diagrams, a random tree of models) and what is to be drawn of it:"
        " which expressions, named how, over which sweeps; non-trivial when more than one thing is drawn")
ASSUMPTIONS = ("what matplotlib's artists and the widgets' traits hold is what a reader sees",
               "every constraint of the closed-form models is tight at their optimum, as each increases the cost")

os.environ.setdefault("MPLBACKEND", "Agg")

PNAMES = ["R", "area", "x", "cost_a"]
YNAMES = ["y", "Wt", "W_2"]
UNITS = [None, "m", "N", "kg", "ft"]
LABELS = [None, "a label", "swept"]
EXP = [1, 2, 0.5, -1, -0.5, 0]


def pyplot():
    "matplotlib's, without a window."
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt


@st.composite
def specs(draw, coefs=1):
    "A closed-form program: y_i >= posynomial of the parameters and of y_j, j < i."
    npar, ny = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    var = [{"unit": draw(st.sampled_from(UNITS)), "label": draw(st.sampled_from(LABELS)),
            "value": draw(st.sampled_from([0.5, 1, 2, 3.5, 7]))} for _ in range(npar)]
    ys = [{"unit": draw(st.sampled_from(UNITS)), "label": draw(st.sampled_from(LABELS)),
           "terms": [{"c": draw(st.lists(st.sampled_from([0.3, 1, 2, 5]), min_size=coefs, max_size=coefs)),
                      "p": draw(st.lists(st.sampled_from(EXP), min_size=npar, max_size=npar)),
                      "y": draw(st.lists(st.sampled_from([0, 0, 1, 2, 0.5]), min_size=i, max_size=i))}
                     for _ in range(draw(st.integers(1, 3)))]} for i in range(ny)]
    return {"par": var, "ys": ys, "cost": draw(st.lists(st.sampled_from([1, 2, 0.5]), min_size=ny, max_size=ny)),
            "free": draw(st.integers(0, 5)) == 0}


class Form:
    "The model of a spec, and its closed form."

    def __init__(self, spec, which=0):
        from gpkit import Model, NamedVariables, Variable, units
        NamedVariables.reset_modelnumbers()
        self.spec, self.which = spec, which
        self.npar, self.ny = len(spec["par"]), len(spec["ys"])
        self.free = spec["free"]   # whether the last parameter is free, kept above its value
        self.units = [v["unit"] for v in spec["par"]+spec["ys"]]
        self.names = PNAMES[:self.npar] + YNAMES[:self.ny]
        self.labels = [v["label"] for v in spec["par"]+spec["ys"]]
        self.values = [float(v["value"]) for v in spec["par"]]

        def make(k):
            args = [self.names[k]]
            if k < self.npar and not (self.free and k == self.npar-1):
                args.append(spec["par"][k]["value"])
            args.append(self.units[k] or "-")
            if self.labels[k]:
                args.append(self.labels[k])
            return Variable(*args)
        self.vars = [make(k) for k in range(len(self.names))]
        self.u = [units(unit) if unit else 1 for unit in self.units]
        cons = []
        for i in range(self.ny):
            k = self.npar + i
            cons.append(self.vars[k] >= sum(self.term(k, c, e) for c, e in self.terms(i)))
        if self.free:
            cons.append(self.vars[self.npar-1] >= self.values[-1]*self.u[self.npar-1])
        self.costexp = {self.npar+i: x for i, x in enumerate(spec["cost"])}
        self.cost = 2.5*self.mono(self.costexp)
        if self.ny == 1:
            self.cost = self.cost*1.5
        self.costc = 2.5*(1.5 if self.ny == 1 else 1)
        if self.free:   # it must not do without
            self.cost, self.costexp = self.cost*self.vars[self.npar-1], {**self.costexp, self.npar-1: 1}
        self.model = Model(self.cost, cons)

    def terms(self, i):
        "[(coefficient, {variable: exponent})] of what bounds y_i."
        out = []
        for t in self.spec["ys"][i]["terms"]:
            e = {k: x for k, x in enumerate(t["p"]) if x}
            if i == 0 and t is self.spec["ys"][0]["terms"][0]:   # every parameter is in it
                e = {k: x or 1 for k, x in enumerate(t["p"])}
            if self.free and self.npar-1 in e:
                e[self.npar-1] = abs(e[self.npar-1])
            e.update({self.npar+j: x for j, x in enumerate(t["y"]) if x})
            out.append((t["c"][self.which], e))
        return out

    def mono(self, e):
        "Of variables."
        out = 1
        for k, x in e.items():
            out = out*self.vars[k]**x
        return out

    def term(self, k, c, e):
        "In units of variable k."
        unit = self.u[k]
        for j, x in e.items():
            unit = unit/self.u[j]**x
        return c*unit*self.mono(e)

    def solve(self, changes=None):
        "Values of all variables, then the cost."
        v = list(self.values)
        for k, x in (changes or {}).items():
            v[k] = float(x)
        for i in range(self.ny):
            v.append(sum(c*math.prod(v[k]**x for k, x in e.items()) for c, e in self.terms(i)))
        return v, self.costc*math.prod(v[k]**x for k, x in self.costexp.items())

    def pick(self, what):
        """What to draw: (argument, value from (values, cost), whether it is the cost, label). A label is None where it isn't
        specified."""
        kind, a, b = what
        k, j = a % len(self.vars), b % len(self.vars)
        if kind in ("cost", "none", "costexpr"):
            arg = {"cost": "cost", "none": None, "costexpr": self.cost}[kind]
            return arg, lambda v, c: c, True, None
        label = "%s [%s]" % (self.labels[k] or self.names[k], self.units[k] or "-")
        if kind == "name":
            return self.names[k], lambda v, c: v[k], False, None
        if kind == "var":
            return self.vars[k], lambda v, c: v[k], False, label
        if kind == "key":
            return self.vars[k].key, lambda v, c: v[k], False, label
        if kind == "mono":
            e = {k: 2} if k == j else {k: 1, j: -1.5}
            return 0.7*self.mono(e), lambda v, c: 0.7*math.prod(v[i]**x for i, x in e.items()), False, None
        e = {j: 2}
        return (self.vars[k] + self.term(k, 3, e), lambda v, c: v[k] + 3*v[j]**2, False, None)


WHATS = st.lists(st.tuples(st.sampled_from(["cost", "none", "costexpr", "name", "name", "var", "var", "key", "mono", "posy"]),
                           st.integers(0, 5), st.integers(0, 5)), min_size=1, max_size=4)


def plain(values):
    "Numbers, whatever units they carry."
    values = getattr(values, "magnitude", values)
    return np.array([float(getattr(v, "magnitude", v)) for v in np.atleast_1d(values)])


def near(got, want, rel, where, *args):
    "All of them."
    got, want = plain(got), np.array(want, float)
    require(got.shape == want.shape, where + ": %s points instead of %s", *args, got.shape, want.shape)
    require(np.all(np.abs(got-want) <= rel*np.abs(want)), where + ": %s instead of %s", *args, got, want)


def checkline(line, xs, want, rel, where):
    "One line."
    x, y = line.get_data()
    near(x, xs, 1e-9, where + ", horizontally")
    near(y, want, rel, where)


def band(coll):
    "{x: (lower, upper)} of what fill_between drew."
    path = coll.get_paths()[0].vertices
    out = {}
    for x, y in path:
        lo, up = out.get(x, (y, y))
        out[x] = (min(lo, y), max(up, y))
    return out


def checkband(coll, xs, truth, tol, where):
    "The true cost is in it, and it's no wider than asked for."
    got = band(coll)
    require(len(got) == len(xs) and np.allclose(sorted(got), xs, rtol=1e-9), "%s: drawn at %s, not %s", where, sorted(got), xs)
    for x, t in zip(sorted(got), truth):
        lo, up = got[x]
        require(lo <= t*(1+1e-4) and up >= t*(1-1e-4), "%s: at %r from %r to %r, the true cost being %r", where, x, lo, up, t)
        require(math.log(up/lo) <= 2*tol + 1e-4, "%s: at %r from %r to %r, to a tolerance of %r", where, x, lo, up, tol)


def labelled(ax, form, k, label, where, ylabel=True):
    "Its axes."
    require(ax.get_xlabel() in ("", "%s [%s]" % (form.labels[k] or form.names[k], form.units[k] or "-")),
            "%s: horizontally it says %r", where, ax.get_xlabel())
    if ylabel and label:
        require(ax.get_ylabel() == label, "%s: vertically it says %r, not %r", where, ax.get_ylabel(), label)


def usable(form, case):
    "Which parameters can be swept, and over what."
    ks = list(range(form.npar))
    k = ks[case["k"] % len(ks)]
    lo = form.values[k]*(1 if form.free and k == form.npar-1 else case["lo"])
    return k, lo, lo*case["width"]


def keyed(form, k, how):
    "A way to name it."
    return {"name": form.names[k], "var": form.vars[k], "key": form.vars[k].key}[how]


SWEEPS = {"k": st.integers(0, 5), "lo": st.sampled_from([0.5, 1, 0.9]), "width": st.sampled_from([1.2, 2, 3]),
          "n": st.integers(2, 5), "array": st.booleans(), "how": st.sampled_from(["name", "var", "key"])}


def sweepcases():
    "Strategy."
    return st.fixed_dictionaries(dict(SWEEPS, spec=specs(), whats=WHATS, auto=st.booleans(), single=st.booleans(), axes=st.booleans(),
                                      tol=st.sampled_from([0.1, 0.03, 0.01])))


def sweeprun(case):
    "sol.plot."
    plt = pyplot()
    form = Form(case["spec"])
    k, lo, hi = usable(form, case)
    key = keyed(form, k, case["how"])
    whats = case["whats"][:1] if case["single"] else case["whats"]
    picks = [form.pick(w) for w in whats]
    args = [p[0] for p in picks]
    given = args[0] if case["single"] and whats[0][0] != "key" else list(args)   # varkeys seem to have any attribute
    where = "plotting %s over %s from %r to %r of\n%s" % (given, form.names[k], lo, hi, form.model)
    m = form.model
    try:
        if case["auto"]:
            sol = m.autosweep({key: (lo, hi)}, tol=case["tol"], verbosity=0)
            xs = np.array(sol.sampled_at)
            require(abs(xs[0]-lo) < 1e-9*lo and abs(xs[-1]-hi) < 1e-9*hi, "%s: sampled from %r to %r", where, xs[0], xs[-1])
        else:
            xs = np.linspace(lo, hi, case["n"])
            sol = m.sweep({key: xs if case["array"] else list(xs)}, verbosity=0)
        own = None
        if case["axes"]:
            _, own = plt.subplots(len(args), 1)
            if len(args) == 1 and case["array"]:
                own = [own]
        fig, axes = sol.plot(given, own)
        axes = list(np.atleast_1d(axes))
        require(len(axes) == len(args), "%s: %i axes", where, len(axes))
        require(fig is axes[0].figure, "%s: the figure isn't the axes'", where)
        if isinstance(given, list):
            require(len(given) == len(args) and all(a is b for a, b in zip(given, args)), "%s: the list is now %s", where, given)
        truth = [form.solve({k: x}) for x in xs]
        for ax, (arg, value, iscost, label) in zip(axes, picks):
            at = "%s: %s" % (where, arg)
            want = [value(v, c) for v, c in truth]
            if case["auto"] and iscost:
                require(len(ax.collections) == 1 and not ax.lines, "%s: drew %i bands, %i lines", at, len(ax.collections), len(ax.lines))
                checkband(ax.collections[0], xs, want, case["tol"], at)
            else:
                require(len(ax.lines) == 1 and not ax.collections, "%s: drew %i lines", at, len(ax.lines))
                if case["auto"]:   # exact at the solves only
                    y = plain(ax.lines[0].get_data()[1])
                    near(ax.lines[0].get_data()[0], xs, 1e-9, at)
                    near(y[[0, -1]], [want[0], want[-1]], 1e-4, at)
                    near(y, plain(sol(arg)), 1e-9, at)
                else:
                    checkline(ax.lines[0], xs, want, 1e-4, at)
            if not case["axes"]:
                labelled(ax, form, k, label, at)
        if not case["axes"]:
            require(axes[-1].get_xlabel(), "%s: no label below", where)
    finally:
        plt.close("all")
    return Info(len(args) > 1 or any(w[0] in ("mono", "posy") for w in whats), ["auto" if case["auto"] else "sweep"])


def gridcases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": specs(), "whats": WHATS, "single": st.booleans(), "origsol": st.booleans(), "tol": st.sampled_from([0.1, 0.03]),
        "sweeps": st.lists(st.fixed_dictionaries(dict(SWEEPS, auto=st.booleans())), min_size=1, max_size=3)})


def gridrun(case):
    "plot_1dsweepgrid."
    from gpkit.interactive.plot_sweep import plot_1dsweepgrid
    plt = pyplot()
    form = Form(case["spec"])
    m = form.model
    sweeps, ks = {}, []
    for s in case["sweeps"]:
        k, lo, hi = usable(form, s)
        if k not in [kk for kk, _, _ in ks]:
            vals = (lo, hi) if s["auto"] else np.linspace(lo, hi, s["n"])
            if not s["auto"] and not s["array"]:
                vals = [float(v) for v in vals]
            sweeps[keyed(form, k, s["how"])] = vals
            ks.append((k, s["auto"], (lo, hi) if s["auto"] else [float(v) for v in vals]))
    whats = case["whats"][:1] if case["single"] else case["whats"]
    picks = [form.pick(w) for w in whats]
    args = [p[0] for p in picks]
    given = args[0] if case["single"] and whats[0][0] != "key" else list(args)   # varkeys seem to have any attribute
    where = "plot_1dsweepgrid of %s over %s of\n%s" % (given, sweeps, m)
    try:
        before = {key: m.substitutions[key] for key in m.substitutions}
        kw = {"origsol": m.solve(verbosity=0)} if case["origsol"] else {}
        fig, axes = plot_1dsweepgrid(m, sweeps, given, tol=case["tol"], verbosity=0, **kw)
        after = {key: m.substitutions[key] for key in m.substitutions}
        require(before == after, "%s: the substitutions were %s, are %s", where, before, after)
        grid = np.array(axes, dtype=object).reshape(len(args), len(ks))
        require(grid[0, 0].figure is fig, "%s: another figure", where)
        v0, c0 = form.solve()
        for j, (k, auto, vals) in enumerate(ks):
            fixed = not (form.free and k == form.npar-1)
            for i, (arg, value, iscost, label) in enumerate(picks):
                ax, at = grid[i, j], "%s: %s over %s" % (where, arg, form.names[k])
                lines = list(ax.lines)
                if fixed:
                    require(lines, "%s: no lines", at)
                    checkline(lines.pop(), [form.values[k]], [value(v0, c0)], 1e-4, at + ", originally")
                if auto:
                    xs = np.linspace(*vals, 100)
                else:
                    xs = vals
                want = [value(*form.solve({k: x})) for x in xs]
                if auto and iscost:
                    require(not lines and len(ax.collections) == 1, "%s: %i lines", at, len(lines))
                    checkband(ax.collections[0], xs, want, case["tol"], at)
                else:
                    require(len(lines) == 1 and not ax.collections, "%s: %i lines", at, len(lines))
                    if auto:
                        x, y = lines[0].get_data()
                        near(np.array(x)[[0, -1]], vals, 1e-9, at)
                        near(plain(y)[[0, -1]], [want[0], want[-1]], 1e-4, at)
                    else:
                        checkline(lines[0], xs, want, 1e-4, at)
                labelled(ax, form, k, label, at, ylabel=(j == 0))
            require(grid[-1, j].get_xlabel(), "%s: no label below", where)
    finally:
        plt.close("all")
    return Info(len(ks)*len(args) > 1, ["sweeps %i" % len(ks)])


def comparecases():
    "Strategy."
    return st.fixed_dictionaries(dict(
        SWEEPS, spec=specs(coefs=5), models=st.integers(1, 5), tol=st.sampled_from([0.1, 0.03, 0.01]), single=st.booleans(),
        whats=st.lists(st.tuples(st.sampled_from(["cost", "cost", "name", "each", "each"]), st.lists(st.integers(0, 6), min_size=5, max_size=5)),
                       min_size=1, max_size=3)))


def comparerun(case):
    "plotting.compare."
    from gpkit import GPCOLORS
    from gpkit.interactive.plotting import compare
    from matplotlib.colors import to_rgb
    plt = pyplot()
    forms = [Form(case["spec"], i) for i in range(case["models"])]
    k, lo, hi = usable(forms[0], case)
    picks, args = [], []
    for kind, ints in case["whats"][:1 if case["single"] else None]:
        if kind == "cost":
            args.append("cost")
            picks.append([forms[0].pick(("cost", 0, 0))]*len(forms))
        elif kind == "name":
            picks.append([forms[0].pick(("name", ints[0], 0))]*len(forms))
            args.append(picks[-1][0][0])
        else:
            each = [forms[0].pick(("name" if n else "cost", n-1, 0)) for n in ints[:len(forms)]]
            args.append(tuple(p[0] for p in each))
            picks.append(each)
    single = case["single"] and isinstance(args[0], str)
    where = "comparing %s over %s from %r to %r of\n%s" % (args, forms[0].names[k], lo, hi, "\n".join(str(f.model) for f in forms))
    try:
        compare([f.model for f in forms], {keyed(forms[0], k, case["how"]): (lo, hi)}, args[0] if single else list(args), tol=case["tol"])
        axes = plt.gcf().axes
        require(len(axes) == len(args), "%s: %i axes", where, len(axes))
        xs = np.linspace(lo, hi, 100)
        for ax, each, arg in zip(axes, picks, args):
            lines, bands = list(ax.lines), list(ax.collections)
            for i, (form, (name, value, iscost, _)) in enumerate(zip(forms, each)):
                at = "%s: %s of model %i, %s" % (where, arg, i, name)
                want = [value(*form.solve({k: x})) for x in xs]
                color = to_rgb(GPCOLORS[i % len(GPCOLORS)])
                if iscost:
                    require(bands, "%s: not drawn", at)
                    coll = bands.pop(0)
                    checkband(coll, xs, want, case["tol"], at)
                    got = tuple(coll.get_facecolor()[0][:3])
                else:
                    require(lines, "%s: not drawn", at)
                    line = lines.pop(0)
                    near(line.get_data()[0], xs, 1e-9, at)
                    near(plain(line.get_data()[1])[[0, -1]], [want[0], want[-1]], 1e-4, at)
                    got = to_rgb(line.get_color())
                require(np.allclose(got, color), "%s: in color %s, not %s", at, got, color)
            require(not lines and not bands, "%s: %i more lines, %i bands", where, len(lines), len(bands))
    finally:
        plt.close("all")
    return Info(len(forms) > 1, ["models %i" % len(forms)])


def convergecases():
    "Strategy."
    num = st.sampled_from([0.1, 0.2, 0.4, 0.7, 1])
    return st.fixed_dictionaries({"n": st.integers(1, 3), "b": st.lists(num, min_size=3, max_size=3), "c": st.lists(num, min_size=3, max_size=3),
                                  "K": st.sampled_from([1, 2, 5]), "pow": st.sampled_from([1, 2, 0.5]), "limit": st.sampled_from([1, 2, 50, 50]),
                                  "reltol": st.sampled_from([1e-4, 1e-2, 1e-7]), "pccp": st.booleans(), "twice": st.booleans()})


def convergerun(case):
    "plot_convergence."
    from gpkit import Model, SignomialsEnabled, Variable
    from gpkit.exceptions import Infeasible
    from gpkit.interactive.plotting import plot_convergence
    from gpkit.solvers.cvxopt import optimize
    plt = pyplot()
    x, z = Variable("x"), Variable("z")
    ys = [Variable("y_%i" % i) for i in range(case["n"])]
    with SignomialsEnabled():
        cons = [x**case["pow"] + sum(c*y*(1 if i else z) for i, (c, y) in enumerate(zip(case["c"], ys))) >= case["K"], z <= x]
        cons += [y <= b for y, b in zip(ys, case["b"])]
    m = Model(x*math.prod([y**0.1 for y in ys], start=1)/z**0.05, cons)
    costs = []

    def recorder(**kw):
        out = optimize(**kw)
        if "objective" in out:
            costs.append(float(out["objective"]))
        return out
    for _ in range(2 if case["twice"] else 1):
        costs.clear()
        try:
            m.localsolve(recorder, verbosity=0, iteration_limit=case["limit"], reltol=case["reltol"], use_pccp=case["pccp"])
        except Infeasible:   # too few iterations
            if len(costs) != len(m.program.gps):
                raise Discard from None
    where = "plot_convergence of %s" % m
    if not costs or m.program is None:
        raise Discard
    try:
        fig, ax = plot_convergence(m)
        require(len(ax.lines) == 1 and ax.figure is fig, "%s: %i lines", where, len(ax.lines))
        checkline(ax.lines[0], range(1, len(costs)+1), costs, 1e-9, where)
        require(list(ax.get_xticks()) == list(range(1, len(m.program.gps)+1)), "%s: ticks at %s", where, ax.get_xticks())
    finally:
        plt.close("all")
    return Info(len(costs) > 2, ["iterations %i" % min(len(costs), 9)])


# sensitivity diagrams

CLASSES = ["Wing", "Fuse", "Tail"]


@st.composite
def groups(draw, depth=2):
    "A tree of models."
    ncons = draw(st.integers(1, 2))
    subs = draw(st.lists(groups(depth-1), max_size=2 if depth == 2 else 1)) if depth else []
    consts = draw(st.lists(st.sampled_from([0.5, 1, 2, 30]), max_size=2))
    term = st.tuples(st.sampled_from([0.2, 1, 3]), st.lists(st.sampled_from([0, 1, -1, 2]), min_size=2, max_size=2),
                     st.lists(st.sampled_from([0, 1, 1, 0.5]), min_size=2, max_size=2), st.sampled_from([0, 0, 1]))
    return {"cls": draw(st.integers(0, 2)), "how": draw(st.sampled_from(["list", "list", "nested", "dict", "dictcons"])), "consts": consts,
            "subs": subs, "terms": draw(st.lists(st.lists(term, min_size=1, max_size=2), min_size=ncons, max_size=ncons)),
            "vec": draw(st.sampled_from([None, None, [2, 2, 2], [1, 3], [5, 5]])), "unit": draw(st.sampled_from([None, "N", "m"]))}


def sankeycases():
    "Strategy."
    return st.fixed_dictionaries({"tree": groups(), "variable": st.lists(st.integers(0, 40), min_size=1, max_size=3),
                                  "minsenss": st.sampled_from([0, 0.05, 0.5]), "maxlinks": st.sampled_from([1, 3, 6, 20]),
                                  "hide": st.booleans(), "click": st.integers(0, 30), "again": st.booleans(), "label": st.booleans()})


class Tree:
    "Models, their constraints and what those are made of."

    def __init__(self, group):
        from gpkit import Model, NamedVariables, Variable, VectorVariable, units
        from gpkit.nomials import Monomial
        NamedVariables.reset_modelnumbers()
        self.leaves, self.consts, self.vars = [], [], []   # (constraint, [(coefficient, {varkey: exponent})] of its lesser side over the greater)
        tree = self

        def setup(self, spec):
            u = units(spec["unit"]) if spec["unit"] else 1
            W = Variable("W", spec["unit"] or "-", "weight")
            d = Variable("d")
            consts = [Variable("km"[i], value, "m" if i else "-") for i, value in enumerate(spec["consts"])]
            self.W = W
            subs = []
            for s in spec["subs"]:
                cls = type(CLASSES[s["cls"]], (Model,), {"setup": setup, "__doc__": "A part."})
                subs.append((cls(s), units(s["unit"]) if s["unit"] else 1))
            cons, named = [], {}

            def le(small, terms, big):
                "The constraint that the small is less."
                con = small <= big
                tree.leaves.append((con, [(c, dict(e)) for c, e in terms]))
                return con

            def mono(c, e, over):
                "(gpkit's, its own coefficient and exponents once divided by the variable)"
                out, exps, unit = c*u, {over.key: -1}, 1
                for var, vu, x in e:
                    if x:
                        out = out*(var/vu)**x
                        exps[var.key] = exps.get(var.key, 0) + x
                return out, (c, {k: x for k, x in exps.items() if x})
            for j, ts in enumerate(spec["terms"]):
                parts = [mono(c, [(v, units("m") if i else 1, x) for i, (v, x) in enumerate(zip(consts, xs))]
                              + [(sub.W, su, y) for (sub, su), y in zip(subs, ws)] + [(d, 1, dx)], W)
                         for c, xs, ws, dx in ts]
                cons.append(le(sum(p for p, _ in parts), [t for _, t in parts], W))
                named["c%i" % j] = cons[-1]
            p = mono(0.3, [(d, 1, -1)], W)   # so it's bounded
            q = mono(0.1, [(d, 1, 1)], W)
            cons.append(le(p[0] + q[0], [p[1], q[1]], W))
            named["bound"] = cons[-1]
            for i, (sub, su) in enumerate(subs):   # they matter
                s = mono(0.5, [(sub.W, su, 1)], W)
                cons.append(le(s[0], [s[1]], W))
                named["part %i" % i] = cons[-1]
            if spec["vec"]:
                n = len(spec["vec"])
                v, w = VectorVariable(n, "v", spec["vec"]), VectorVariable(n, "w")
                vec = w >= v
                for i in range(n):
                    tree.leaves.append((vec.constraints[i], [(1, {v[i].key: 1, w[i].key: -1})]))
                s = mono(0.01, [(w[i], 1, 1) for i in range(n)], W)
                cons += [vec, le(s[0], [s[1]], W)]
                named["vec"], named["prod"] = cons[-2:]
                tree.vars += list(w)
                tree.consts += [(x.key, value) for x, value in zip(v, spec["vec"])]
            tree.vars += [W, d]
            tree.consts += [(x.key, value) for x, value in zip(consts, spec["consts"])]
            models = [sub for sub, _ in subs]
            if spec["how"] == "dict":
                named.update({"model %i" % i: sub for i, sub in enumerate(models)})
                return named
            if spec["how"] == "dictcons":
                return [models, named] if models else [named]
            if spec["how"] == "nested":
                return [cons[0], [cons[1:], models]]
            return models + cons
        cls = type("Top", (Model,), {"setup": setup, "__doc__": "All of it."})
        self.model = cls(group)
        self.model.cost = self.model.W
        self.cls = Monomial

    def shares(self, var, sol):
        "What each constraint says of a variable: {id: its share}."
        values = sol["variables"]
        out = []
        for con, terms in self.leaves:
            la = float(sol["sensitivities"]["constraints"][con])
            nums = [c*math.prod(float(values[k])**x for k, x in e.items()) for c, e in terms]
            out.append((con, la*sum(n*e.get(var, 0) for n, (_, e) in zip(nums, terms))/sum(nums) if any(var in e for _, e in terms) else None))
        return out


def flows(links):
    "(into, out of) each node."
    into, out = {}, {}
    for (s, t), v in links.items():
        require(s not in out, "%s flows to two", s)
        out[s] = v
        into.setdefault(t, []).append((s, v))
    return into, out


EPS, GRAY = 1e-10, "#cfcfcf"


def shown(widget, full, where, minsenss=None):
    "What the diagram shows is there, in its color."
    from gpkit import GPCOLORS
    ids = [n["id"] for n in widget.nodes]
    require(len(set(ids)) == len(ids), "%s: nodes %s", where, ids)
    for link in widget.links:
        require(link["source"] in ids and link["target"] in ids, "%s: %s is between no nodes of %s", where, link, ids)
        v = full.get((link["source"], link["target"]))
        require(v is not None and link["value"] == abs(v), "%s: %s shown, %s computed", where, link, v)
        want = GRAY if abs(v) < 1e-2 else GPCOLORS[0 if v < 0 else 1]
        require(link["color"] == want, "%s: %s should be %s", where, link, want)
        require(abs(float(link["title"]) - v) <= 0.051*abs(v), "%s: the title of %s", where, link)
        if minsenss is not None:
            require(abs(v) > minsenss, "%s: %s", where, link)


def leaves_of(sankey, into, out, root):
    "[(node, title, value)]"
    found, todo, seen = [], [root], 0
    while todo:
        node = todo.pop()
        seen += 1
        if node in into:
            todo.extend(s for s, _ in into[node])
        elif node != root:
            found.append((node, sankey.nodes[node]["title"], out[node]))
    require(seen == len(out) + 1, "%i of %i nodes lead to %s", seen, len(out)+1, root)
    return found


def conserved(into, out, root, where):
    "What flows in flows out."
    for node, ins in into.items():
        if node != root:
            total = sum(v for _, v in ins)
            require(abs(out[node] - total) <= 1e-9*sum(abs(v) for _, v in ins) + 1e-12, "%s: into %s flow %s, out of it %r", where, node, ins,
                    out[node])


def match(got, want, rel, where):
    "Two multisets of numbers are the same."
    got, want = sorted(got), sorted(want)
    require(len(got) == len(want), "%s: %i of them, not %i: %s and %s", where, len(got), len(want), got, want)
    for g, w in zip(got, want):
        require(abs(g-w) <= rel*abs(w) + 2e-6, "%s: %s instead of %s", where, got, want)


def sankeyrun(case):
    "Sankey diagrams."
    from gpkit.exceptions import UnknownInfeasible
    from gpkit.interactive.sankey import Sankey
    tree = Tree(case["tree"])
    m = tree.model
    try:
        sol = m.solve(verbosity=0)
    except UnknownInfeasible as exc:   # as some variables hardly matter
        raise Discard from exc
    where = "the diagram of\n%s" % m
    before = [(str(k), dict(k.descr)) for k in m.varkeys]
    sens = sol["sensitivities"]
    nodes = 0
    with scratch() as folder:
        sankey = Sankey(sol, m, "all") if case["label"] else Sankey(sol, m)
        root = "all" if case["label"] else "Top"
        for which in [None] + case["variable"][:None if case["again"] else 1]:
            if not case["again"]:
                sankey = Sankey(sol, m, "all") if case["label"] else Sankey(sol, m)
            allvars = [v.key for v in tree.vars] + [k for k, _ in tree.consts]
            if which is None:
                widget = sankey.diagram(minsenss=-1, maxlinks=10000)
                at, top = where, root
            else:
                key = allvars[which % len(allvars)]
                from gpkit import Variable
                var = next((v for v in tree.vars if v.key is key), None)
                if var is None:
                    var = m[key] if not key.veckey else key
                at = "%s\nfor %s" % (where, key)
                try:
                    widget = sankey.diagram(var, "the variable", minsenss=-1, maxlinks=10000)
                except AttributeError:
                    if var is not key:
                        raise
                    continue
                top = "the variable"
            require(before == [(str(k), dict(k.descr)) for k in m.varkeys], "%s: the variables changed", at)
            full = dict(sankey.links)
            require({(k["source"], k["target"]) for k in widget.links} == set(full), "%s: %s of %s shown", at, widget.links, full)
            shown(widget, full, at)
            into, out = flows(full)
            conserved(into, out, top, at)
            found = leaves_of(sankey, into, out, top)
            nodes = max(nodes, len(found))
            if which is None:
                want = [-abs(float(sens["constraints"][con])) or -EPS for con, _ in tree.leaves]
                want += [-abs(float(sens["constants"].get(key, EPS))) for key, _ in tree.consts]
                match([v for _, _, v in found], want, 1e-6, at)
                titles = [t for _, t, _ in found if " = " in t]
                for key, value in tree.consts:
                    line = "%s = %.4g %s" % (key.str_without(["lineage"]), value, "" if key.unitrepr in ("-", "", None) else key.unitrepr)
                    require(any(t.strip() == line.strip() or t.startswith("%s = %.4g" % (key.str_without(["lineage", "units"]), value)) for t in titles),
                            "%s: no %r among %s", at, line, titles)
            else:
                cost = float(sens["cost"].get(key, 0) or 0)
                shares = [(con, s) for con, s in tree.shares(key, sol) if s is not None]
                inert = len(tree.leaves) - len(shares)
                want = [s for _, s in shares] + [0]*inert + ([cost] if key in sens["cost"] else [])
                match([v for _, _, v in found], want, 1e-4, at)
                total = sum(v for _, v in into[top])
                ref = sum(s for _, s in shares) + cost
                require(abs(total - ref) <= 1e-4*(1 + sum(abs(s) for _, s in shares)), "%s: in all %r, not %r", at, total, ref)
            # less of it
            full_nodes = dict(sankey.nodes)
            less = sankey._links_and_nodes   # what a click shows
            for click in {case["click"] % len(full_nodes), 0}:
                node = sorted(full_nodes)[click]
                was = dict(sankey.links)
                widget.links, widget.nodes = [], []
                sankey.last_top_node = None
                sankey.onclick(widget, {"id": node})
                require(dict(sankey.links) == was, "%s: a click changed the links", at)
                shown(widget, full, at)
                below = {(s, t) for s, t in full if node in s or node in t}
                got = {(k["source"], k["target"]) for k in widget.links}
                require(got <= below, "%s: clicking %s shows %s", at, node, got - below)
                if len(below) <= 10000:
                    require(got == below, "%s: clicking %s hides %s", at, node, below - got)
            args = () if which is None else (var, "the variable")
            widget = sankey.diagram(*args, minsenss=case["minsenss"], maxlinks=case["maxlinks"], showconstraints=not case["hide"])
            shown(widget, full, at + " (filtered)", case["minsenss"])
            got = {(k["source"], k["target"]) for k in widget.links}
            over = {st_ for st_, v in full.items() if abs(v) > case["minsenss"]
                    and not (case["hide"] and ("constraint" in full_nodes[st_[0]] or "subarray" in full_nodes[st_[0]]))}
            require(got <= over, "%s: shown are %s", at, got - over)
            if len(over) <= case["maxlinks"]:
                require(got == over, "%s: with room for %i, not shown are %s", at, case["maxlinks"], over - got)
        require(set(os.listdir(folder)) <= {"sankey_autosaves"}, "%s: leaves %s", where, os.listdir(folder))
    return Info(nodes > 3, ["nodes %i0s" % (nodes//10)])


# sliders

def slidercases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": specs(), "how": st.sampled_from(["all", "all", "list", "pair", "triple", "slider", "none"]),
        "names": st.lists(st.sampled_from(["name", "var", "key"]), min_size=3, max_size=3), "subset": st.lists(st.booleans(), min_size=3, max_size=3),
        "moves": st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0.5, 0.8, 1.25, 1.9])), min_size=1, max_size=4),
        "sweep": st.booleans(), "two": st.booleans()})


def sliderrun(case):
    "modelinteract."
    import ipywidgets
    from gpkit.interactive.widgets import modelinteract
    form = Form(case["spec"])
    m = form.model
    fixed = [k for k in range(form.npar) if not (form.free and k == form.npar-1)]
    if not fixed:
        raise Discard
    chosen = fixed if case["how"] == "all" else [k for k in fixed if case["subset"][k]] or fixed[:1]
    now = {k: form.values[k] for k in fixed}
    sweep = [form.values[fixed[0]]*f for f in (1, 3, 0.25)]
    if case["sweep"]:
        m.substitutions[form.vars[fixed[0]].key] = ("sweep", sweep)
        if fixed[0] not in chosen:
            chosen = [fixed[0]] + chosen
    ranges, limits, steps = None, {}, {}
    for k in chosen:
        v = form.values[k]
        limits[k] = (v/2, v*2)
        if case["sweep"] and k == fixed[0]:
            limits[k] = (min(v/2, v*0.25), max(v*2, v*3))
    if case["how"] == "list":
        ranges = [keyed(form, k, case["names"][i]) for i, k in enumerate(chosen)]
    elif case["how"] != "all":
        ranges = {}
        for i, k in enumerate(chosen):
            key, v = keyed(form, k, case["names"][i]), form.values[k]
            ranges[key] = {"pair": (v/4, v*3), "triple": (v/4, v/8, v*3), "none": None,
                           "slider": ipywidgets.FloatSlider(min=v/5, max=v*4, step=v/10, value=v)}.get(case["how"])
            if case["how"] in ("pair", "triple"):
                limits[k] = (v/4, v*3)
            elif case["how"] == "slider":
                limits[k] = (v/5, v*4)
            if case["how"] == "triple":
                steps[k] = v/8
    given = dict(ranges) if isinstance(ranges, dict) else ranges
    got, also = [], []
    fns = [got.append, also.append] if case["two"] else got.append
    where = "modelinteract of %s with %s" % (m, ranges)
    with quiet():
        w = modelinteract(m, fns, ranges)
    require(given == ranges, "%s: the ranges are now %s", where, ranges)

    def solved(at):
        require(got and (not case["two"] or also[-1] is got[-1]), "%s: not told", at)
        values, cost = form.solve(now)
        sol = got[-1]
        near(sol["cost"], [cost], 1e-4, at + ": the cost")
        for k, var in enumerate(form.vars):
            near(sol["variables"][var.key], [values[k]], 1e-4, at + ": " + form.names[k])
    solved(where)
    sliders = {s.varkey: s for s in w.children if hasattr(s, "varkey")}
    require(set(sliders) == {form.vars[k].key for k in chosen}, "%s: sliders for %s", where, list(sliders))
    for k in chosen:
        s = sliders[form.vars[k].key]
        require(abs(s.value - form.values[k]) <= 1e-9*form.values[k], "%s: %s starts at %r", where, form.names[k], s.value)
        require(abs(s.min-limits[k][0]) + abs(s.max-limits[k][1]) <= 1e-9*limits[k][1], "%s: %s from %r to %r instead of %s", where,
                form.names[k], s.min, s.max, limits[k])
        if k in steps:
            require(abs(s.step - steps[k]) <= 1e-9*steps[k], "%s: %s in steps of %r", where, form.names[k], s.step)
    moved = 0
    for i, f in case["moves"]:
        k = chosen[i % len(chosen)]
        s = sliders[form.vars[k].key]
        value = form.values[k]*f
        count = len(got)
        with quiet():
            s.value = value
        if abs(value - now[k]) > 1e-12:
            moved += 1
            require(len(got) > count, "%s: moving %s did nothing", where, form.names[k])
        now[k] = value
        solved("%s: after %s moved to %r" % (where, form.names[k], value))
        require(abs(m.substitutions[form.vars[k].key] - value) < 1e-12*value, "%s: substituted is %s", where, m.substitutions)
    return Info(moved > 1 and len(chosen) > 1, ["sliders %i" % len(chosen)])


CHECKS = {
    "plot": {"strategy": sweepcases(), "run": sweeprun, "quick": 100, "thorough": 1500},
    "grid": {"strategy": gridcases(), "run": gridrun, "quick": 50, "thorough": 700},
    "compare": {"strategy": comparecases(), "run": comparerun, "quick": 40, "thorough": 500},
    "convergence": {"strategy": convergecases(), "run": convergerun, "quick": 60, "thorough": 800},
    "diagram": {"strategy": sankeycases(), "run": sankeyrun, "quick": 150, "thorough": 2500},
    "sliders": {"strategy": slidercases(), "run": sliderrun, "quick": 120, "thorough": 1500},
}
