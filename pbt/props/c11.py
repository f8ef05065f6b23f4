"C11: sweeps equal the individual solves they stand for."
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Info, Discard, require
from .. import gpgen
from . import c07

RULE = ("A case is a sweep over one to three fixed values (scalars, elements or whole vectors;"
        " perhaps with values computed from others, zeros, and values without a solution), each"
        " point compared with the solve of a freshly built model that has those numbers;"
        " non-trivial when at least two points were solved and their costs differ; or a sweep of a"
        " program with a known optimum, whose array constants have fixed, linked, swept and free"
        " elements (non-trivial when of more than one kind, or in a matrix).")
ASSUMPTIONS = (
    "the order of points is that of nested loops over the swept values, in any nesting",
    "cvxopt's results for one and the same program differ by no more than its tolerances")
FACTORS = [1.0, 0.5, 2.0, 0.9, 1.1, 1.5, 0.7, 1.02, 30.0, 0.03]


def cases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(1, 3)),
        "swept": st.lists(st.tuples(
            st.integers(0, 2), st.lists(st.sampled_from(FACTORS), min_size=1, max_size=4),
            st.sampled_from(["var", "key", "name"]), st.sampled_from(["tuple", "array", "list"]),
            st.booleans()),
            min_size=1, max_size=3, unique_by=lambda t: t[0]),
        "whole": st.booleans(), "rows": st.lists(
            st.tuples(*[st.sampled_from(FACTORS[:8])]*2), min_size=1, max_size=3),
        "ragged": st.booleans(),
        "linked": st.sampled_from([None, None, 1, -1, 0.5, 2]),
        "route": st.sampled_from(["model", "model", "update", "setitem", "helper", "helper",
                                  "mixedvector", "constraintset"]),
        "skip": st.booleans(), "again": st.booleans()})


def zeroable(b, k):
    "May this value be zero without taking the bounds of others away?"
    ref = b.ref
    if any(k in e for _, e in ref.eqs):
        return False
    for p in list(ref.posys) + [ref.cost]:
        with_k = [e for _, e in p if k in e]
        if any(e[k] < 0 for e in with_k) or (with_k and len(with_k) == len(p)):
            return False
    return True


def clashes(k, swept, names):
    "Does this substitution concern something swept?"
    if isinstance(k, str):
        return k in names
    key = getattr(k, "key", k)
    return key in swept


class Plan:
    "What is swept over which values."


def plan(case, b):
    "Decides it: {fixed index: values}, linked {index: (of, power)}."
    spec = b.spec
    n, nv = spec["n"], spec["n"] + spec["m"]
    usable = sorted(k for k in b.ref.fixed)
    if not usable:
        raise Discard
    p = Plan()
    p.values, p.how, p.linked = {}, {}, {}
    for i, factors, how, form, zero in case["swept"]:
        k = usable[i % len(usable)]
        if k in p.values:
            continue
        vals = [b.ref.fixed[k]*f for f in factors]
        if zero and zeroable(b, k):
            vals[len(vals)//2] = 0.0
        p.values[k], p.how[k] = vals, (how, form)
    p.whole = []
    if case["whole"] and b.fvec is not None and all(k in usable for k in (n, n+1)):
        p.whole = [n, n+1]
        for j, k in enumerate(p.whole):
            vals = [b.ref.fixed[k]*row[j] for row in case["rows"]]
            if case["ragged"] and j and len(vals) > 1:
                vals = vals[:-1]
            p.values[k], p.how[k] = vals, None
    if case["linked"] is not None:
        rest = [k for k in usable if k not in p.values and
                not (b.fvec is not None and k in (n, n+1)) and not spec["mix"]]
        if rest:
            base = sorted(p.values)[0]
            if all(v for v in p.values[base]):
                p.linked[rest[0]] = (base, case["linked"])
    return p


def point_values(b, p, point):
    "Every fixed value at a point {index: swept value}."
    vals = dict(b.ref.fixed)
    vals.update(point)
    for k, (base, power) in p.linked.items():
        vals[k] = b.ref.fixed[k]*(vals[base]/b.ref.fixed[base])**power
    return vals


def formed(vals, form):
    "The values as some iterable."
    if form == "array":
        return np.array(vals)
    return tuple(vals) if form == "tuple" else list(vals)


def sweepsubs(b, p, case):
    "{key: substitution} for the swept and linked."
    subs = {}
    n = b.spec["n"]
    for k, vals in p.values.items():
        if k in p.whole:
            continue
        how, form = p.how[k]
        var = b.vars[k]
        key = var if how == "var" else var.key
        if how == "name" and not var.key.idx:
            key = var.key.name
        subs[key] = ("sweep", formed(vals, form))
    if p.whole:
        cols = [p.values[k] for k in p.whole]
        if len(cols[0]) == len(cols[1]):
            arr = np.array(cols).T
            if arr.shape == (2,):
                arr = arr.reshape((1, 2))
        else:
            arr = [list(c) for c in cols]
        subs[b.fvec] = ("sweep", arr)
    for k, (base, power) in p.linked.items():
        def fn(c, base=b.vars[base], power=power, scale=b.ref.fixed[k]/b.ref.fixed[base]**power):
            return scale*c[base]**power
        subs[b.vars[k]] = fn
    return subs


def single(spec, vals, cost_only=False):
    "A freshly built model with these numbers: (built, model, solution or None if infeasible)."
    from gpkit import Model
    from gpkit.exceptions import Infeasible
    b = gpgen.build(spec)
    zeros = {k for k, v in vals.items() if not v}
    if all(zeros & {j for j, p in e if p} for _, e in spec["cost"]):
        raise Discard  # a cost of zero is no posynomial
    m = Model(b.cost, b.constraints, b.subs)
    for k, v in vals.items():
        m.substitutions[b.vars[k]] = v
    try:
        sol = m.solve(verbosity=0)
    except Infeasible:
        sol = None
    return b, m, sol


def snapshot(substitutions):
    "What a model's substitutions are."
    out = {}
    for k in substitutions:
        v = dict.__getitem__(substitutions, k)
        out[k] = v.tolist() if hasattr(v, "tolist") else v
    return repr(sorted((str(k), k.units and str(k.units), v) for k, v in out.items()))


def close(a, b, tol):
    "Nearly equal, or both missing."
    return (math.isnan(a) and math.isnan(b)) or abs(a-b) <= tol*max(1e-3, abs(a), abs(b))


def compare(b, sol, i, many, b1, sol1, vals, where, linked):
    "A point of the sweep, and the single solve of it."
    get = (lambda v: v[i]) if many else (lambda v: v)
    require(close(get(sol["cost"]), sol1["cost"], 1e-4), "%s: cost %r at point %i, not %r", where,
            get(sol["cost"]), i, sol1["cost"])
    one, ones = c07.expand(sol1["variables"]), c07.expand(sol1["sensitivities"]["variables"])

    def expand(kd):
        "As c07.expand, of this point."
        out = {}
        for key, val in kd.items():
            val = np.asarray(get(val), dtype=float)
            require(val.shape == (key.shape or ()), "%s: %s has shape %s at point %i", where, key,
                    val.shape, i)
            for el in np.ndindex(*val.shape):
                if not math.isnan(val[el]):
                    out[(key.name, key.lineage, el or key.idx)] = float(val[el])
        return out
    got, gots = expand(sol["variables"]), expand(sol["sensitivities"]["variables"])
    require(set(got) == set(one), "%s: point %i has variables %s, not %s", where, i,
            sorted(got, key=str), sorted(one, key=str))
    for k in b.used:
        ident = c07.ident(b.vars[k])
        if ident not in one:
            continue
        tol = 1e-9 if k in vals else 2e-3
        require(close(got[ident], one[ident], tol), "%s: %s is %r at point %i, not %r", where, ident,
                got[ident], i, one[ident])
        if k in vals:
            require(close(got[ident], vals[k], 1e-9), "%s: %s is %r at point %i, not %r", where,
                    ident, got[ident], i, vals[k])
        called = sol(b.vars[k])
        called = np.asarray(getattr(called, "magnitude", called))
        require(called.shape == ((len(sol),) if many else ()), "%s: calling for %s gives shape %s",
                where, ident, called.shape)
        require(close(float(get(called) if many else called), got[ident], 1e-12),
                "%s: calling for %s gives %r at point %i, not %r", where, ident, called, i, got[ident])
    for k, (base, power) in linked.items():   # the chain rule
        s1 = ones.pop(c07.ident(b.vars[k]), 0.0)
        gots.pop(c07.ident(b.vars[k]), None)
        ones[c07.ident(b.vars[base])] = ones.get(c07.ident(b.vars[base]), 0.0) + power*s1
    for ident in set(gots) | set(ones):
        s, s1 = gots.get(ident, 0.0), ones.get(ident, 0.0)
        require(abs(s-s1) <= 2e-3*(1+abs(s1)), "%s: the sensitivity of %s is %r at point %i, not %r",
                where, ident, s, i, s1)
    allcons = sol["sensitivities"]["constraints"]
    for con, con1 in zip(b.constraints, b1.constraints):
        s = get(allcons[con]) if con in allcons else 0.0
        s1 = sol1["sensitivities"]["constraints"].get(con1, 0.0)
        require(abs(s-s1) <= 2e-3*(1+abs(s1)), "%s: the sensitivity of %s is %r at point %i, not %r",
                where, con, s, i, s1)
    for name, s1 in ([] if linked else sol1["sensitivities"]["models"].items()):
        s = get(sol["sensitivities"]["models"].get(name, 0.0))
        require(abs(s-s1) <= 5e-3*(1+abs(s1)), "%s: the sensitivity of model %r is %r at point %i,"
                " not %r", where, name, s, i, s1)


def check_grid(b, p, sol, solved, where, grid):
    "Order and number of the points; returns the points in order."
    ks = sorted(grid)
    combos = [dict(zip(ks, c)) for c in itertools.product(*[grid[k] for k in ks])]
    n = len(sol)
    require(n == len(solved), "%s: %i points, but %i can be solved", where, n, len(solved))
    many = n > 1
    points = []
    for i in range(n):
        point = {}
        for k in ks:
            v, key = sol["sweepvariables"], b.vars[k].key
            whole = np.asarray(v[key.veckey if key.idx else key])
            if many:
                whole = whole[i]
            point[k] = float(whole[key.idx] if key.idx else whole)
        points.append(point)
    # the values read must be the ones given, exactly
    for order in itertools.permutations(ks):
        want = [dict(zip(order, c)) for c in itertools.product(*[grid[k] for k in order])]
        want = [w for w in want if any(w == s for s in solved)]
        if want == points:
            return points
    require(False, "%s: the points solved are %s; they should be %s in some nesting (of %i)", where,
            points, solved, len(combos))


def singles(case, b, p, grid, where):
    "The single solves of the grid's points: [(point, built, solution)] of those that have one."
    ks = sorted(grid)
    out, failed = [], 0
    for combo in itertools.product(*[grid[k] for k in ks]):
        point = dict(zip(ks, combo))
        vals = point_values(b, p, point)
        b1, m1, sol1 = single(case["spec"], vals)
        if sol1 is None:
            failed += 1
            if all(vals.values()):
                try:
                    cost, _ = b.ref.solve(vals)
                except Discard:
                    cost = math.inf
                # barely feasible programs may defeat cvxopt
                if cost < math.inf:
                    raise Discard
        else:
            if all(vals.values()):
                cost, _ = b.ref.solve(vals)
                require(close(sol1["cost"]/c07.costmag(b1), cost, 1e-4), "%s: the single solve at %s"
                        " costs %r, the reference %r", where, point, sol1["cost"], cost)
            out.append((point, b1, sol1))
    return out, failed


def judge(case, b, p, m, solve, grid, where, labels):
    "Runs one sweep and compares all of it."
    expect, failed = singles(case, b, p, grid, where)
    labels |= {"infeasible points"} if failed else set()
    before = snapshot(m.substitutions)
    skip = case["skip"]
    try:
        sol = solve(skip)
    except RuntimeWarning as exc:
        require(failed, "%s: halted although every point can be solved: %r", where, exc)
        require(not skip or not expect, "%s: halted although %i points can be solved: %r", where,
                len(expect), exc)
        sol = None
    require(snapshot(m.substitutions) == before, "%s: the substitutions were\n%s\n and are\n%s",
            where, before, snapshot(m.substitutions))
    if sol is None:
        return None
    require(skip or not failed, "%s: not halted although %i points cannot be solved", where, failed)
    points = check_grid(b, p, sol, [e[0] for e in expect], where, grid)
    many = len(sol) > 1
    byk = {tuple(sorted(pt.items())): (b1, s1) for pt, b1, s1 in expect}
    for i, point in enumerate(points):
        b1, sol1 = byk[tuple(sorted(point.items()))]
        compare(b, sol, i, many, b1, sol1, point_values(b, p, point), where, p.linked)
        if many:
            compare(b, sol.atindex(i), 0, False, b1, sol1, point_values(b, p, point),
                    where + " .atindex(%i)" % i, p.linked)
    swept = {b.vars[k].key.veckey or b.vars[k].key for k in grid}
    require(set(sol["sweepvariables"]) == swept, "%s: %s reported as swept", where,
            list(sol["sweepvariables"]))
    for k in b.used:
        key = b.vars[k].key.veckey or b.vars[k].key
        if k in b.ref.fixed and key not in swept:
            require(key in sol["constants"], "%s: %s is not among the constants", where, key)
            got, varying = np.asarray(sol["constants"][key]), k in p.linked
            full = got.shape[len(key.shape or ()):] or got.shape
            vals = [point_values(b, p, pt)[k] for pt in points]
            base = len(key.shape or ())
            if got.ndim == base:
                val = float(got[b.vars[k].key.idx] if b.vars[k].key.idx else got)
                require(all(close(val, v, 1e-9) for v in vals), "%s: constant %s is reported as %r,"
                        " not %r", where, key, got, vals)
            else:
                require(varying and len(got) == len(vals) and all(
                    close(float(a), v, 1e-9) for a, v in zip(got, vals)), "%s: constant %s is"
                        " reported as %r, not %r (%s)", where, key, got, vals, full)
    return [s1["cost"] for _, _, s1 in expect]


def run(case):
    "Against single solves."
    from gpkit import Model
    from gpkit.constraints.set import ConstraintSet
    spec = case["spec"]
    b = gpgen.build(spec)
    p = plan(case, b)
    size = math.prod(len(v) for v in p.values.values())
    if size > 16:
        raise Discard
    subs = sweepsubs(b, p, case)
    where = "%s sweep %s of\n%s\n subject to %s\n with %s" % (
        case["route"], {str(k): v for k, v in subs.items()}, b.cost, b.constraints,
        {str(k): v for k, v in b.subs.items()})
    labels = {case["route"]}
    labels |= {"linked"} if p.linked else set()
    labels |= {"whole vector"} if p.whole else set()
    labels |= {"zero"} if any(0.0 in v for v in p.values.values()) else set()
    labels |= {"%iD" % len(p.values)}
    route = case["route"]
    costs = []
    if route == "helper":
        m = Model(b.cost, b.constraints, b.subs)
        linksubs = {k: v for k, v in subs.items() if callable(v)}
        m.substitutions.update(linksubs)
        sweeps = {k: v[1] for k, v in subs.items() if not callable(v)}
        groups = [[k for k in p.values if k not in p.whole and
                   (kk == b.vars[k] or kk == b.vars[k].key or kk == b.vars[k].key.name)] or p.whole
                  if not isinstance(kk, np.ndarray) else p.whole for kk in sweeps]
        if len(sweeps) > 1:
            sweeps = {k: v for k, v in list(sweeps.items())[:2]}
            grids = [{k: p.values[k] for k in g} for g in groups[:2]]
            before = snapshot(m.substitutions)
            feasible = [singles(case, b, p, g, where) for g in grids]
            ok = all((e and case["skip"]) or not f for e, f in feasible)
            try:
                sols = m.sweep(sweeps, verbosity=0, skipsweepfailures=case["skip"])
                require(ok, "%s: not halted", where)
            except RuntimeWarning as exc:
                require(not ok, "%s: halted: %r", where, exc)
                sols = None
            require(snapshot(m.substitutions) == before, "%s: the substitutions were\n%s\n and are\n"
                    "%s", where, before, snapshot(m.substitutions))
            labels.add("several helpers")
            if sols is not None:
                for sol, grid in zip(sols, grids):
                    costs = judge(case, b, p, m, lambda skip, sol=sol: sol, grid, where, labels)
            return Info(sols is not None and costs and len(set(costs)) > 1, labels)
        grid = {k: p.values[k] for k in groups[0]}
        costs = judge(case, b, p, m, lambda skip: m.sweep(
            sweeps, verbosity=0, skipsweepfailures=skip), grid, where, labels)
        if case["again"] and costs is not None:   # and the model still solves as before
            _, _, sol1 = single(spec, point_values(b, p, {k: b.ref.fixed[k] for k in grid}))
            require(close(m.solve(verbosity=0)["cost"], sol1["cost"], 1e-4), "%s: afterwards the"
                    " model's optimum differs", where)
    else:
        if route == "model":
            swept = {b.vars[k].key for k in list(p.values) + list(p.linked)}
            names = {key.name for key in swept}
            m = Model(b.cost, b.constraints, dict(
                [(k, v) for k, v in b.subs.items() if not clashes(k, swept, names)] +
                [(k, v) for k, v in subs.items()]))
        elif route == "constraintset":
            strs = {k: v for k, v in b.subs.items() if isinstance(k, str)}
            m = Model(b.cost, ConstraintSet([b.constraints]), strs)
            m.substitutions.update({k: v for k, v in b.subs.items() if k not in strs})
            m.substitutions.update(subs)
        elif route == "mixedvector" and b.fvec is not None and not p.whole and any(
                k in p.values for k in (spec["n"], spec["n"]+1)):
            m = Model(b.cost, b.constraints, b.subs)
            n = spec["n"]
            m.substitutions[b.fvec] = [("sweep", p.values[k]) if k in p.values
                                       else spec["var"][k]["x"] for k in (n, n+1)]
            for k, v in subs.items():
                if isinstance(k, str) or k.key.veckey != b.fvec.key:
                    m.substitutions[k] = v
            labels.add("mixed vector")
        else:
            m = Model(b.cost, b.constraints, b.subs)
            if route == "setitem":
                for k, v in subs.items():
                    m.substitutions[k] = v
            else:
                m.substitutions.update(subs)
        costs = judge(case, b, p, m, lambda skip: m.solve(verbosity=0, skipsweepfailures=skip),
                      p.values, where, labels)
        if case["again"] and costs is not None:
            costs = judge(case, b, p, m, lambda skip: m.solve(verbosity=0, skipsweepfailures=skip),
                          p.values, where + "\n (again)", labels)
            labels.add("again")
    costs = costs or []
    return Info(len(costs) > 1 and max(costs) > min(costs)*1.001, labels, "costs %s" % costs)


def array_cases():
    "Arrays whose elements are fixed, computed, swept or free, in any mixture."
    val = st.sampled_from([1.0, 2.0, 0.5, 3.0, 7.0, 0.25, 1.5, 11.0])
    element = st.one_of(
        st.tuples(st.just("fixed"), val), st.tuples(st.just("fixed"), val),
        st.tuples(st.just("linked"), st.sampled_from([1, 2, -1, 0.5]), val),
        st.tuples(st.just("linkedel"), st.integers(0, 8), st.sampled_from([1, 2, -1])),
        st.tuples(st.just("swept"), st.lists(val, min_size=1, max_size=3, unique=True)),
        st.tuples(st.just("free"), val)).map(list)

    def build(shape):
        n = int(np.prod(shape))
        return st.fixed_dictionaries({
            "shape": st.just(list(shape)),
            "elements": st.lists(element, min_size=n, max_size=n),
            "weights": st.lists(val, min_size=n, max_size=n),
            "powers": st.lists(st.sampled_from([1, 1, 2, -1, 0.5]), min_size=n, max_size=n),
            "scalar": st.lists(val, min_size=1, max_size=3, unique=True),
            "scalarpower": st.sampled_from([1, 0, -1, 2]),
            "whole": st.one_of(st.none(), st.none(), st.lists(
                st.lists(val, min_size=n, max_size=n), min_size=1, max_size=2)),
            "assign": st.sampled_from(["element", "element", "list", "key"]),
            "unit": st.sampled_from(["", "ft"]),
            "form": st.sampled_from(["tuple", "array", "list"]),
            "name": st.sampled_from(["A", "z"]), "second": st.booleans(),
            "option": st.sampled_from([None, None, 0, 1])})
    return st.sampled_from([(2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (1, 2), (2, 1)]).flatmap(build)


def solved_with(m, option):
    "A solution from a solver that takes an option, and the values given for that at each of its calls."
    from gpkit.solvers import cvxopt
    given = []

    def solver(*, myoption=None, **kws):
        "The usual one"
        given.append(myoption)
        return cvxopt.optimize(**kws)
    solver.__name__ = "cvxopt"
    return m.solve(solver, verbosity=0, myoption=option), given


def run_arrays(case):
    "Against the closed form of the optimum."
    from gpkit import Model, Variable, VectorVariable
    shape = tuple(case["shape"])
    where = list(np.ndindex(*shape))
    n, elements = len(where), [list(e) for e in case["elements"]]
    arr = VectorVariable(shape, case["name"], case["unit"])
    one = 1.0
    if case["unit"]:
        from gpkit import units
        one = 1*units(case["unit"])
    x, a = Variable("x"), Variable("m")
    flat = [arr[i] for i in where]
    if case["whole"]:
        if len(case["whole"])**n > 16:
            raise Discard
        elements = [["swept", [row[k] for row in case["whole"]]] for k in range(n)]
    grid = {"m": list(case["scalar"])}
    for k, e in enumerate(elements):
        if e[0] == "swept":
            grid[k] = list(e[1])
        if e[0] == "linkedel":   # another element, that is itself given
            others = [j for j in range(n) if elements[j][0] in ("fixed", "swept")]
            if not others:
                elements[k] = ["fixed", 2.0]
            else:
                elements[k] = ["linkedel", others[e[1] % len(others)], e[2]]
    if math.prod(len(v) for v in grid.values()) > 24:
        raise Discard

    def rhs(values):
        "The least x, of anything that has these values."
        out = 0.25
        for k in range(n):
            out = out + case["weights"][k]*values[k]**case["powers"][k]
        return out*values["m"]**case["scalarpower"]
    constraints = [x >= rhs(dict(enumerate([f/one for f in flat]), m=a)), x >= 1e-6*a]
    subs = {}
    for k, e in enumerate(elements):
        key = flat[k].key if case["assign"] == "key" else flat[k]
        if e[0] == "free":
            lower = case["powers"][k] > 0
            constraints.append(flat[k] >= e[1]*one if lower else flat[k] <= e[1]*one)
        elif e[0] == "fixed":
            subs[key] = e[1]
        elif e[0] == "linked":
            subs[key] = lambda c, p=e[1], s=e[2]: s*c[a]**p
        elif e[0] == "linkedel":
            subs[key] = lambda c, j=e[1], p=e[2]: c[flat[j]]**p
        else:
            subs[key] = ("sweep", formed(e[1], case["form"]))
    byelement = dict(subs)
    if case["whole"]:
        subs = {arr: ("sweep", np.array(case["whole"]).reshape((-1,)+shape))}
    elif case["assign"] == "list" and len(shape) == 1 and len(subs) == n and not any(
            e[0].startswith("linked") for e in elements):
        subs = {arr: [byelement[f] for f in flat]}
    subs[a] = ("sweep", case["scalar"]) if len(case["scalar"]) > 1 else case["scalar"][0]
    m = Model(x, constraints)
    m.substitutions.update(subs)
    text = "sweep %s of %s" % ({str(k): v for k, v in subs.items()}, constraints)
    if not any(len(v) > 1 for v in grid.values()):
        raise Discard
    for _ in range(2 if case["second"] else 1):
        if case["option"] is None:
            sol = m.solve(verbosity=0)
        else:
            sol, given = solved_with(m, case["option"])
            require(given == [case["option"]]*math.prod(len(v) for v in grid.values()), "%s: each point is to be solved with"
                    " option %r, but the solver got %s", text, case["option"], given)
        combos = [dict(zip(grid, c)) for c in itertools.product(*grid.values())]
        npts = len(combos)
        require(len(sol) == npts, "%s: %i points, not %i", text, len(sol), npts)
        seen = []
        var = np.asarray(sol["variables"][arr.key])
        require(var.shape == (npts,)+shape, "%s: the array's values have shape %s", text, var.shape)
        called = sol(arr)
        called = np.asarray(getattr(called, "magnitude", called))
        require(called.shape == var.shape and (called == var).all(), "%s: calling for the array gives"
                " %s, its values are %s", text, called, var)
        const = sol["constants"].get(arr.key, None)
        if any(e[0] in ("fixed", "linked", "linkedel") for e in elements):
            if any(e[0] == "swept" for e in elements):
                const = sol["sweepvariables"].get(arr.key, None)   # where mixed arrays go
            require(const is not None, "%s: the array is not among the constants", text)
        for i in range(npts):
            point = {}
            for k in grid:
                if k == "m":
                    got = np.asarray(sol["variables"][a.key])
                    point[k] = float(got[i] if got.ndim else got)
                else:
                    point[k] = float(var[(i,)+where[k]])
            seen.append(point)
            values = dict(point)
            for k, e in enumerate(elements):
                if e[0] == "linked":
                    values[k] = e[2]*point["m"]**e[1]
                elif e[0] in ("fixed", "free"):
                    values[k] = e[1]
            for k, e in enumerate(elements):
                if e[0] == "linkedel":
                    values[k] = values[e[1]]**e[2]
            require(close(float(sol["cost"][i]), rhs(values), 1e-4), "%s: at point %i %s the cost is"
                    " %r, not %r", text, i, values, sol["cost"][i], rhs(values))
            at = sol.atindex(i)
            for k, e in enumerate(elements):
                free = e[0] == "free"
                if free and case["weights"][k]*values[k]**case["powers"][k] < 1e-2*rhs(values):
                    continue   # found inexactly
                tol = 2e-3 if free else 1e-9
                what = "%s: at point %i element %s" % (text, i, where[k])
                require(close(float(var[(i,)+where[k]]), values[k], tol), "%s is %r, not %r", what,
                        var[(i,)+where[k]], values[k])
                el = sol(flat[k])
                el = np.asarray(getattr(el, "magnitude", el))
                require(el.shape == (npts,) and close(float(el[i]), values[k], tol), "%s is %r by"
                        " calling, not %r", what, el, values[k])
                alone = np.asarray(at["variables"][arr.key])
                require(alone.shape == shape and close(float(alone[where[k]]), values[k], tol),
                        "%s is %s by atindex, not %r", what, alone, values[k])
                if const is not None and e[0] in ("fixed", "linked", "linkedel"):
                    c = np.asarray(const)
                    require(c.shape in (shape, (npts,)+shape), "%s: the constants' shape is %s",
                            what, c.shape)
                    got = float((c if c.shape == shape and c.ndim == len(shape) else c[i])[where[k]])
                    require(close(got, values[k], 1e-9), "%s is %r in the constants, not %r", what,
                            got, values[k])
        order = sorted(seen, key=lambda d: sorted((str(k), v) for k, v in d.items()))
        require(order == sorted(combos, key=lambda d: sorted((str(k), v) for k, v in d.items())),
                "%s: the points are %s", text, seen)
    kinds = {e[0] for e in elements}
    return Info(len(kinds) > 1 or len(shape) > 1, kinds | {"%i-d" % len(shape), "whole" if
                                                           case["whole"] else case["assign"]}, text)


CHECKS = {"sweep": {"strategy": cases(), "run": run, "quick": 300, "thorough": 2500},
          "arrays": {"strategy": array_cases(), "run": run_arrays, "quick": 120, "thorough": 1200}}
