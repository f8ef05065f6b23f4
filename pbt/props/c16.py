"C16: relaxing, bounding and debugging models."
import math
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, quiet, require
from .. import gpgen
from . import c07, c11, c15
from .c08 import sandwich, within

RULE = ("relaxed: a program, feasible or not, relaxed one of three ways, non-trivial when grouped and"
        " either infeasible or with equalities or several constraints; bounded: a program lacking some"
        " bounds, non-trivial when a bound holds a variable or two variables are bounded; debug: any of"
        " these debugged.")
ASSUMPTIONS = ("cvxopt on an independently compiled relaxed program attains the optimum",)


def renumbered(ref, fixed_to_free, extra):
    "(map of indices, n, fixed): these fixed variables freed, and `extra` more free variables."
    n = ref.n
    to = {k: k for k in range(n)}
    for i, k in enumerate(fixed_to_free):
        to[k] = n + i
    total = n + len(fixed_to_free) + extra
    for k in ref.fixed:
        if k not in to:
            to[k] = total + k
    return to, total


def mapped(terms, to):
    "Terms over other indices."
    return [(c, {to[k]: x for k, x in e.items()}) for c, e in terms]


def relaxed_ref(ref, style, power, consts=(), changes=None):
    "The relaxed program: (Ref, first index of its relaxation variables, of its freed ones)."
    value = dict(ref.fixed)
    value.update(changes or {})
    if style == "constants":
        to, total = renumbered(ref, consts, len(consts))
        first, freed = ref.n + len(consts), ref.n
        posys = [mapped(p, to) for p in ref.posys]
        eqs = [mapped([q], to)[0] for q in ref.eqs]
        for i, k in enumerate(consts):
            r, f = first + i, freed + i
            posys += [[(1.0, {r: -1})], [(value[k], {r: -1, f: -1})], [(1/value[k], {r: -1, f: 1})]]
        extra = len(consts)
    else:
        extra = 1 if style == "equal" else len(ref.posys) + len(ref.eqs)
        to, total = renumbered(ref, (), extra)
        first, freed = ref.n, None
        posys, eqs = [], []
        for i, p in enumerate(ref.posys):
            r = first if style == "equal" else first + i
            posys.append([(c, {**e, r: -1}) for c, e in mapped(p, to)])
        for i, q in enumerate(ref.eqs):
            r = first if style == "equal" else first + len(ref.posys) + i
            (c, e), = mapped([q], to)
            posys += [[(c, {**e, r: -1})], [(1/c, {**{k: -x for k, x in e.items()}, r: -1})]]
        for r in range(first, first + extra):
            posys.append([(1.0, {r: -1})])
    cost = [(c, {**e, **{r: power for r in range(first, first + extra)}}) for c, e in mapped(ref.cost, to)]
    fixed = {to[k]: v for k, v in value.items() if k in to and to[k] >= total}
    return gpgen.Ref(total, fixed, cost, posys, eqs), first, freed


@st.composite
def programs(draw, **kw):
    "A program, perhaps infeasible, and a grouping."
    spec = draw(gpgen.specs(**kw))
    for i, p in enumerate(spec["posys"]):
        if draw(st.integers(0, 3)) == 0:
            p["t"] = draw(st.sampled_from([1.5, 3.0, 10.0]))
    for box in spec["box"]:
        if draw(st.integers(0, 5)) == 0:
            box["lo"], box["hi"] = draw(st.sampled_from([[2.0, 0.5], [1.5, 1.2], [3.0, 2.9]]))
    paths = draw(st.lists(st.lists(st.integers(0, 2), max_size=2), min_size=1, max_size=8))
    kinds = draw(st.lists(st.sampled_from(c15.KINDS), min_size=5, max_size=5))
    return {"spec": spec, "paths": paths, "kinds": kinds, "empty": False}


@st.composite
def relaxations(draw):
    "A program and a way of relaxing it."
    case = draw(programs())
    case.update(style=draw(st.sampled_from(["each", "each", "equal", "constants", "constants"])),
                power=draw(st.sampled_from([10, 30, 30, 100])), only=draw(st.sampled_from(
                    [None, None, "include", "exclude"])), some=draw(st.integers(0, 7)),
                of=draw(st.sampled_from(["model", "list", "set"])), constant=draw(st.booleans()))
    return case


def infeasible(fn):
    "None if it raises as for an infeasible program."
    from gpkit.exceptions import Infeasible
    try:
        return fn()
    except Infeasible:
        return None


def build(spec):
    "Built; whether programs infeasible by their constants alone are told is C09's."
    from gpkit.exceptions import PrimalInfeasible
    try:
        return gpgen.build(spec)
    except PrimalInfeasible as exc:
        raise Discard from exc


def run_relaxed(case):
    "Against the reference of the relaxed program."
    from gpkit import Model
    from gpkit.constraints.relax import (ConstraintsRelaxedEqually, ConstraintsRelaxed,
                                         ConstantsRelaxed)
    from gpkit.constraints.set import ConstraintSet
    spec, style, power = case["spec"], case["style"], case["power"]
    b = build(spec)
    if case["constant"]:   # the new model's cost would give those in it their values again
        for k in set(b.ref.fixed).difference(*(e for _, e in b.ref.cost)):
            b.vars[k].key.descr["constant"] = True
    grouped = c15.contained(c15.tree([(case["paths"][i % len(case["paths"])], c)
                                      for i, c in enumerate(b.constraints)]), case)
    # the cost's own constants only matter to the whole model
    incons = set().union(*(e for p in b.ref.posys for _, e in p), *(e for _, e in b.ref.eqs))
    m = Model(b.cost, grouped, b.subs)
    have = [id(c) for c in m.flat()]
    require(sorted(have) == sorted(map(id, b.constraints)), "grouping lost constraints")
    consts = []
    if style == "constants":
        consts = sorted(set(b.ref.fixed) & b.used)
        names = sorted({b.vars[k].key.name for k in consts})
        chosen = {n for i, n in enumerate(names) if case["some"] >> i & 1}
        if case["only"] == "include" and chosen:
            consts = [k for k in consts if b.vars[k].key.name in chosen]
            r = ConstantsRelaxed(m, include_only=chosen)
        elif case["only"] == "exclude":
            consts = [k for k in consts if b.vars[k].key.name not in chosen]
            r = ConstantsRelaxed(m, exclude=chosen)
        else:
            r = ConstantsRelaxed(m)
        new = Model(b.cost*(r.relaxvars.prod()**power if len(consts) else 1), r)
    else:
        cls = ConstraintsRelaxed if style == "each" else ConstraintsRelaxedEqually
        part = m
        if set(b.ref.fixed) <= incons and case["of"] != "model":
            part = [m] if case["of"] == "list" else ConstraintSet([m])
        r = cls(part)
        new = Model(b.cost*(r.relaxvars.prod() if style == "each" else r.relaxvar)**power, r)
    ref, first, freed = relaxed_ref(b.ref, style, power, consts)
    where = "%s relaxed with power %i (%s)" % (c15.show(grouped), power, style)
    best, _ = ref.solve()
    orig, _ = b.ref.solve()
    if best > 1e25 and best < math.inf:
        raise Discard
    sol = infeasible(lambda: new.solve(verbosity=0))
    if best == math.inf:
        require(sol is None, "%s: solved, though it cannot be made feasible", where)
        return Info(True, ["cannot be relaxed"])
    if sol is None:
        best2, _ = ref.solve(loosen={i: -1e-4 for i in range(len(ref.posys))})
        if best2 == math.inf or best2 > best*1.5:
            raise Discard  # barely feasible programs may defeat cvxopt
    require(sol is not None, "%s: infeasible, though relaxable with cost %r", where, best)
    free = c07.expand(sol["freevariables"])
    values = {}
    for k in sorted(b.used):
        v = b.vars[k]
        if k in b.ref.fixed and k not in consts:
            got = c07.expand(sol["constants"])
            require(c07.ident(v) in got and abs(got[c07.ident(v)]-b.ref.fixed[k]) <= 1e-9*b.ref.fixed[k],
                    "%s: %s was not to be relaxed, but is %s", where, v, got.get(c07.ident(v)))
            values[k] = b.ref.fixed[k]
        else:
            require(c07.ident(v) in free, "%s: %s is not among the free variables", where, v)
            values[k] = free[c07.ident(v)]
    # the reported relaxations
    amounts = []
    if style == "equal":
        amounts = [free[c07.ident(r.relaxvar)]]*len(b.ref.posys + b.ref.eqs)
    elif style == "each":
        by = {id(c): free[c07.ident(r.relaxvars[i])] for i, c in enumerate(m.flat())}
        amounts = [None]*len(b.ref.posys + b.ref.eqs)
        for con, (kind, i) in zip(b.constraints, b.kinds):
            amounts[len(b.ref.posys)*(kind == "eq") + i] = by[id(con)]
    else:
        keys = [v.key for v in r.freedvars]
        require(sorted(k.eqstr for k in keys) == sorted(b.vars[k].key.eqstr for k in consts),
                "%s: constants %s were freed, not %s", where, keys, [b.vars[k] for k in consts])
        for k in consts:
            i = keys.index(b.vars[k].key)
            amounts.append(free[c07.ident(r.relaxvars[i])])
    require(all(a >= 1-1e-5 for a in amounts), "%s: relaxations %s", where, amounts)
    tol = 2e-5
    if style == "constants":
        for k, a in zip(consts, amounts):
            by = values[k]/b.ref.fixed[k]
            require(1/a-tol*a <= by <= a*(1+tol), "%s: %s was relaxed by %r, beyond its relaxation %r", where,
                    b.vars[k], by, a)
        limits = [1.0]*len(b.ref.posys + b.ref.eqs)
    else:
        limits = amounts
    for i, p in enumerate(b.ref.posys):
        v = b.ref.value(p, values)
        require(v <= limits[i]*(1+tol), "%s: constraint %i is at %r, beyond its relaxation %r", where, i, v,
                limits[i])
    for i, q in enumerate(b.ref.eqs):
        v, lim = b.ref.value([q], values), limits[len(b.ref.posys)+i]
        require(1/lim*(1-tol) <= v <= lim*(1+tol), "%s: equality %i is at %r, beyond its relaxation %r",
                where, i, v, lim)
    mag = c07.costmag(b)
    require(abs(sol["cost"]/mag-best) <= 2e-3*best, "%s: cost %r, but the relaxed program's optimum is %r",
            where, sol["cost"]/mag, best)
    relaxed = orig == math.inf or orig > best*(1+1e-6)
    warned = sol.get("warnings", {})
    if not relaxed:
        require(all(a <= 1+1e-3 for a in amounts), "%s: feasible, but relaxed by %s", where, amounts)
        require(not [w for w in warned if w.startswith("Relaxed")], "%s: feasible, but warns %s", where,
                warned)
        there = b.ref.value(b.ref.cost, values)
        require(abs(there-orig) <= 1e-3*orig, "%s: cost %r there; the optimum is %r", where, there, orig)
    check_warnings(b, m, r, style, warned, amounts, consts, values, where)
    labels = {style, "infeasible" if orig == math.inf else "relaxed" if relaxed else "feasible"}
    if style == "constants" and consts:
        sensitivities(b, sol, consts, power, best, case, where)
    return Info((bool(b.ref.eqs) or len(b.constraints) > 2) and any(p for p in case["paths"])
                and (style != "constants" or bool(consts)), labels, str(best))


def check_warnings(b, m, r, style, warned, amounts, consts, values, where):
    "They are about what was relaxed, by how much it was."
    if style == "constants":
        found = {}
        for msg, var in warned.get("Relaxed Constants", []):
            found[var.key.eqstr] = msg
        for k, a in zip(consts, amounts):
            key = b.vars[k].key
            msg = found.pop(key.eqstr, None)
            require(msg or a < 1.0105, "%s: %s was relaxed by %r without a warning", where, key, a)
            require(not msg or a > 1.0005, "%s: %s was not relaxed (%r) but warned of: %r", where, key, a, msg)
            if msg:
                lo, hi = map(float, re.search(r"relaxed from (\S+) to (\S+)", msg).groups())
                require(abs(lo-b.ref.fixed[k]) <= 6e-4*lo and abs(hi-values[k]) <= 6e-4*hi,
                        "%s: %s went from %r to %r, but the warning says %r", where, key, b.ref.fixed[k],
                        values[k], msg)
        require(not found, "%s: warnings of %s", where, sorted(found))
        return
    rows = warned.get("Relaxed Constraints", [])
    if style == "equal":
        require(bool(rows) or amounts[0] < 1.0105, "%s: relaxed by %r without a warning", where, amounts[0])
        require(not rows or amounts[0] > 1.0005, "%s: warned of %s", where, rows)
        for msg, *_ in rows:
            pct = float(re.search(r"by (\S+)%", msg).group(1))
            require(abs(pct-100*(amounts[0]-1)) <= 1+1e-3*pct, "%s: relaxed by %r, but the warning says %r",
                    where, amounts[0], msg)
        return
    found = {id(con): msg for msg, con in rows}
    require(len(found) == len(rows), "%s: several warnings of one constraint: %s", where, rows)
    for con, (kind, i) in zip(b.constraints, b.kinds):
        a = amounts[len(b.ref.posys)*(kind == "eq") + i]
        msg = found.pop(id(con), None)
        require(msg or a < 1.0105, "%s: %s was relaxed by %r without a warning", where, con, a)
        require(not msg or a > 1.0005, "%s: %s was not relaxed (%r) but warned of: %r", where, con, a, msg)
        if msg:
            pct = float(re.search(r"(\S+)% relaxed", msg).group(1))
            require(abs(pct-100*(a-1)) <= 1+1e-3*pct, "%s: %s was relaxed by %r, but the warning says %r",
                    where, con, a, msg)
    require(not found, "%s: warnings of other constraints: %s", where, found)


def sensitivities(b, sol, consts, power, best, case, where):
    "Those of a relaxed constant are those of the value it was given."
    k = consts[case["some"] % len(consts)]

    def at(h):
        ref, _, _ = relaxed_ref(b.ref, "constants", power, consts, {k: b.ref.fixed[k]*math.exp(h)})
        return ref.solve()[0]
    vss = sol["sensitivities"]["variables"]
    key = b.vars[k].key
    require(key in vss, "%s: no sensitivity of %s is reported", where, key)
    for name in vss:
        require(not any(n == "OriginalValues" for n, _ in name.lineage or ()), "%s: a sensitivity of %s",
                where, name)
    lo, hi = sandwich(best, 0, at)
    if hi-lo > 0.5:
        return
    got = float(vss[key])
    require(within(got, min(lo, hi), max(lo, hi)), "%s: the sensitivity of %s is %r, but the log derivative"
            " is between %r and %r", where, key, got, lo, hi)


# ---------------------------------------------------------------- bounded

@st.composite
def boundables(draw):
    "A program without some of its bounds."
    spec = draw(gpgen.specs())
    cut = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1)), max_size=2))
    return {"spec": spec, "cut": cut, "bounds": draw(st.sampled_from(
        [{}, {"eps": 1e-6}, {"lower": 1e-4}, {"upper": 1e5}, {"lower": 1e-3, "upper": 1e3},
         {"eps": 1e-8, "upper": 1e4}, {"lower": 0.3, "upper": 3.0}])),
            "paths": draw(st.lists(st.lists(st.integers(0, 2), max_size=2), min_size=1, max_size=5)),
            "kinds": draw(st.lists(st.sampled_from(c15.KINDS), min_size=5, max_size=5)), "empty": False,
            "of": draw(st.sampled_from(["model", "list"]))}


def cut(b, what):
    "Removes the lower (0) or upper (1) bounds of these variables."
    n = b.ref.n
    boxes = [i for kind, i in b.kinds if kind == "box"]
    base = min(boxes)  # two per variable, in order
    gone = {base + 2*(k % n) + side for k, side in what}
    keep = [(c, kd) for c, kd in zip(b.constraints, b.kinds) if kd[0] == "eq" or kd[1] not in gone]
    posys = [p for i, p in enumerate(b.ref.posys) if i not in gone]
    return keep, posys


def run_bounded(case):
    "Which variables are held by the bounds?"
    from gpkit import Model
    from gpkit.constraints.bounded import Bounded
    b = build(case["spec"])
    keep, posys = cut(b, case["cut"])
    cons = [c for c, _ in keep]
    used = set().union(*(e for p in posys for _, e in p), *(e for _, e in b.ref.eqs),
                       *(e for _, e in b.ref.cost))
    if used != b.used:
        raise Discard
    grouped = c15.contained(c15.tree([(case["paths"][i % len(case["paths"])], c)
                                      for i, c in enumerate(cons)]), case)
    kw = case["bounds"]
    eps = kw.get("eps", 1e-30)
    lower, upper = kw.get("lower", eps), kw.get("upper", 1/eps)
    incost = set().union(*(e for _, e in b.ref.cost))
    incons = set().union(*(e for p in posys for _, e in p), *(e for _, e in b.ref.eqs))
    m = Model(b.cost, grouped, b.subs)
    if case["of"] == "list" and incost <= incons:
        bounded = Model(b.cost, Bounded([m], **kw))
    else:
        bounded = Model(b.cost, Bounded(m, **kw))
    n = b.ref.n

    def ref(lo, hi):
        extra = [[(lo[k], {k: -1})] for k in range(n)] + [[(1/hi[k], {k: 1})] for k in range(n)]
        return gpgen.Ref(n, b.ref.fixed, b.ref.cost, posys + extra, b.ref.eqs)
    best, _ = ref([lower]*n, [upper]*n).solve()
    where = "%s bounded by %s" % (c15.show(grouped), kw)
    if best < math.inf and not 1e-60 < best < 1e60:
        raise Discard
    sol = infeasible(lambda: bounded.solve(verbosity=0))
    if best == math.inf:
        require(sol is None, "%s: solved, though infeasible", where)
        return Info(True, ["infeasible"])
    if sol is None:
        raise Discard  # whether infeasible programs are told is C09's
    cost = sol["cost"]/c07.costmag(b)
    require(abs(cost-best) <= 1e-3*best, "%s: cost %r; the optimum is %r", where, cost, best)
    flags = sol.get("boundedness", {})
    sens, near = {0: set(), 1: set()}, {0: set(), 1: set()}
    for what, keys in flags.items():
        side = 1 if "upper" in what else 0
        require(("%.2g" % (upper if side else lower)) in what and ("upper" in what) != ("lower" in what),
                "%s: the bounds are %r and %r, but what is flagged is %r", where, lower, upper, what)
        target = sens if "sensitive" in what else near if "near" in what else None
        require(target is not None, "%s: flagged %r", where, what)
        target[side] |= {k.eqstr for k in keys}
    values = c07.expand(sol["variables"])
    held_any = False
    for k in range(n):
        key = b.vars[k].key
        val = values[c07.ident(b.vars[k])]
        for side in (0, 1):
            dist = math.log(val/lower) if side == 0 else math.log(upper/val)
            require((key.eqstr in near[side]) == (dist <= 3) or abs(dist-3) < 1e-3,
                    "%s: %s is %r and %sflagged as near its %s bound", where, key, val,
                    "" if key.eqstr in near[side] else "not ", ["lower", "upper"][side])
            lo, hi = [lower]*n, [upper]*n
            (hi if side else lo)[k] *= math.e if side else 1/math.e
            looser, _ = ref(lo, hi).solve()
            gain = math.log(best/looser)
            held = key.eqstr in sens[side]
            if gain > 1e-3:
                held_any = True
                require(held and dist < 0.1, "%s: the %s bound of %s holds the cost by %r but is not flagged (it is"
                        " %r)", where, ["lower", "upper"][side], key, gain, val)
            # what is left of the duality gap, relative to the cost's logarithm, may be told as sensitivity
            elif gain < 1e-6 and dist > 3 + 20*abs(math.log(sol["cost"])):
                require(not held, "%s: the %s bound of %s is flagged, but does nothing (it is %r)", where,
                        ["lower", "upper"][side], key, val)
    require(not (sens[0] | sens[1] | near[0] | near[1]) - {b.vars[k].key.eqstr for k in range(n)},
            "%s: flags %s", where, flags)
    warned = sol.get("warnings", {}).get("Arbitrarily Bounded Variables", [])
    require(bool(warned) == bool(flags), "%s: flags %s but warnings %s", where, flags, warned)
    return Info(held_any or n > 1, ["held"] if held_any else ["free"], str({k: len(v) for k, v in flags.items()}))


# ---------------------------------------------------------------- debug

@st.composite
def debuggables(draw):
    "Any program."
    case = draw(programs(nposys=(0, 3)))
    case["cut"] = draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1)),
                                                       max_size=2)))
    case["zero"] = draw(st.sampled_from([None, None, None, 0, 1]))
    case["verbosity"] = draw(st.integers(0, 2))
    case["signomial"] = draw(st.sampled_from([None, None, 0.1, 5.0]))
    case["auto"] = draw(st.booleans())
    return case


def run_debug(case):
    "It tells something, and changes nothing."
    from gpkit import Model, SignomialsEnabled, Variable
    from gpkit.exceptions import Infeasible, UnboundedGP
    from gpkit.constraints.gp import GeometricProgram
    b = build(case["spec"])
    keep, posys = cut(b, case["cut"])
    cons = [c for c, _ in keep]
    used = set().union(*(e for p in posys for _, e in p), *(e for _, e in b.ref.eqs),
                       *(e for _, e in b.ref.cost))
    if used != b.used:
        raise Discard
    grouped = c15.contained(c15.tree([(case["paths"][i % len(case["paths"])], c)
                                      for i, c in enumerate(cons)]), case)
    cost, extra = b.cost, None
    if case["signomial"] is not None:
        s, t = Variable("s"), Variable("t")
        with SignomialsEnabled():
            extra = [s >= 1 - t, t <= 0.5, s >= 0.01, s <= case["signomial"]]
        grouped = [grouped, extra]
        cost = cost*s
    m = Model(cost, grouped, b.subs)
    zero = None
    if case["zero"] is not None and b.ref.fixed:
        k = sorted(b.ref.fixed)[case["zero"] % len(b.ref.fixed)]
        if all(e.get(k, 0) >= 0 for p in posys + [b.ref.cost] for _, e in p) and not any(
                k in e for _, e in b.ref.eqs) and all(any(not e.get(k, 0) for _, e in p)
                                                      for p in [b.ref.cost]):
            zero = k
            m.substitutions[b.vars[k]] = 0
    where = "%s, %s, %s" % (m.cost, c15.show(grouped), m.substitutions)
    before = (c11.snapshot(m.substitutions), [id(c) for c in m.flat()], str(m.cost), repr(m),
              sorted(k.eqstr for k in m.vks), repr(sorted((str(k), str(v)) for k, v in dict(
                  (k.eqstr, k.descr.get("value")) for k in m.vks).items())), str(m))
    with quiet() as out:
        sol = m.debug(verbosity=case["verbosity"])
    after = (c11.snapshot(m.substitutions), [id(c) for c in m.flat()], str(m.cost), repr(m),
             sorted(k.eqstr for k in m.vks), repr(sorted((str(k), str(v)) for k, v in dict(
                 (k.eqstr, k.descr.get("value")) for k in m.vks).items())), str(m))
    for x, y in zip(before, after):
        require(x == y, "%s: debugging changed\n%s\n to\n%s", where, x, y)
    labels = {"solved" if sol is not None else "nothing"}
    if sol is not None:
        require(sol["cost"] is not None and "freevariables" in sol, "%s: debugging returned %r", where, sol)
    ref = gpgen.Ref(b.ref.n, b.ref.fixed, b.ref.cost, posys, b.ref.eqs)
    if zero is None and not case["cut"] and extra is None:
        orig, _ = ref.solve()
        if orig < math.inf:
            require(sol is not None, "%s: a feasible model cannot be debugged", where)
            rel, _, _ = relaxed_ref(ref, "constants", 30, sorted(set(b.ref.fixed) & b.used))
            best, _ = rel.solve()
            got = sol["cost"]/c07.costmag(b)
            require(abs(got-best) <= 3e-3*best, "%s: debugging a feasible model gives cost %r, not %r", where,
                    got, best)
            if orig <= best*(1+1e-7):
                require(not case["verbosity"] or "seems feasible" in out.getvalue(), "%s: debugging a feasible"
                        " model says\n%s", where, out.getvalue())
                labels.add("feasible")
        else:
            labels.add("infeasible")
            require("seems feasible" not in out.getvalue(), "%s: debugging an infeasible model says\n%s", where,
                    out.getvalue())
            # and so does solving it
            if case["auto"]:
                with quiet():
                    try:
                        m.solve(verbosity=1)
                    except Infeasible:
                        pass
                labels.add("solved verbosely")
        if orig < math.inf:
            again = m.solve(verbosity=0)["cost"]/c07.costmag(b)
            require(abs(again-orig) <= 1e-4*orig, "%s: after debugging its cost is %r, not %r", where, again,
                    orig)
    labels |= {"zero"} if zero is not None else set()
    labels |= {"signomial"} if extra else set()
    labels |= {"cut"} if case["cut"] else set()
    return Info(True, sorted(labels), out.getvalue()[:300])


# ---------------------------------------------------------------- what is reported

RATIOS = [1.0, 0.5, 0.9, 1.02, 1.05, 1.3, 2.0, 3.0, 12.0, 0.999]


def conflicts():
    "Independent conflicts of very different sizes."
    return st.fixed_dictionaries({
        "ratios": st.lists(st.sampled_from(RATIOS), min_size=1, max_size=5),
        "his": st.lists(st.sampled_from([0.3, 1.0, 2.5, 40.0]), min_size=5, max_size=5),
        "negative": st.lists(st.sampled_from([None, None, -0.5, -1.0, -3.0]), min_size=5, max_size=5),
        "zero": st.booleans(), "named": st.booleans(),
        "linked": st.lists(st.booleans(), min_size=5, max_size=5),
        "how": st.sampled_from(["relax", "relax", "debug", "debug"]),
        "power": st.sampled_from([5, 10, 30]), "vector": st.booleans(),
        "paths": st.lists(st.lists(st.integers(0, 2), max_size=2), min_size=1, max_size=5),
        "kinds": st.lists(st.sampled_from(c15.KINDS), min_size=5, max_size=5), "empty": st.just(False)})


def run_conflicts(case):
    "All of them, and nothing else, are told."
    from gpkit import Model, Variable, VectorVariable
    from gpkit.constraints.relax import ConstraintsRelaxed, ConstantsRelaxed
    k = len(case["ratios"])
    named = case["named"]
    vs = list(VectorVariable(k, "v")) if case["vector"] else [Variable("v%i" % i) for i in range(k)]
    los = VectorVariable(k, "lo") if case["vector"] else [Variable("lo%i" % i) for i in range(k)]
    his = [Variable("hi%i" % i) for i in range(k)]
    negs = [Variable("neg%i" % i) for i in range(k)]
    subs, lows, highs, tops = {}, [], [], []
    for i, (ratio, hi, neg) in enumerate(zip(case["ratios"], case["his"], case["negative"])):
        neg = neg if named else None   # relaxing what has those is no geometric program
        top = hi*(1-(neg or 0))
        tops.append((top*ratio, top))
        lo, high = (los[i], his[i]) if named else (top*ratio, hi)
        if named:
            subs[lo], subs[high] = top*ratio, hi
            if case["linked"][i]:   # to the other's value
                subs[lo] = lambda c, high=high, by=top*ratio/hi: c[high]*by
        lows.append(vs[i] >= lo)
        if neg is None:
            highs.append(vs[i] <= high)
        else:
            subs[negs[i]] = neg
            highs.append(vs[i]/high + negs[i] <= 1)
    every = lows + highs
    if case["zero"]:
        z = Variable("zero")
        subs[z] = 0
        every.append(vs[0]*z <= 1)
    tree = c15.contained(c15.tree([(case["paths"][i % len(case["paths"])], c)
                                   for i, c in enumerate(every)]), case)
    prod = 1
    for v in vs:
        prod = prod*v
    m = Model(prod, tree, subs)
    where = "%s with %s" % (c15.show(tree), {str(a): v for a, v in subs.items()})
    amounts = [max(1.0, a/b) for a, b in tops]
    debug = case["how"] == "debug"
    power = 30 if debug else case["power"]
    best = math.prod(min(a, b) for a, b in tops)*math.prod(amounts)**power
    if best > 1e25:
        raise Discard
    with quiet() as out:
        if debug:
            sol = m.debug()
            require(sol is not None, "%s: debugging found nothing", where)
        elif named:
            relaxed = ConstantsRelaxed(m)
            freed = {v.key.eqstr for v in relaxed.freedvars}
            require(freed == {key.key.eqstr for key, val in subs.items() if callable(val) or val > 0},
                    "%s: constants freed: %s", where, sorted(freed))
            sol = Model(prod*relaxed.relaxvars.prod()**power, relaxed).solve(verbosity=0)
        else:
            relaxed = ConstraintsRelaxed(m)
            sol = Model(prod*relaxed.relaxvars.prod()**power, relaxed).solve(verbosity=0)
    require(abs(sol["cost"]-best) <= 3e-3*best, "%s: cost %r; the optimum is %r", where, sol["cost"], best)
    warned, text = sol.get("warnings", {}), out.getvalue()
    reports = {i: [] for i in range(k)}
    if named:
        for msg, var in warned.get("Relaxed Constants", []):
            i = [j for j in range(k) if los[j].key == var.key]
            require(i, "%s: %s is warned of: %r", where, var, msg)
            reports[i[0]].append(msg)
    else:
        for msg, con in warned.get("Relaxed Constraints", []):
            i = [j for j in range(k) if lows[j] is con]
            require(i, "%s: %s is warned of: %r", where, con, msg)
            reports[i[0]].append(msg)
    require(set(w for w in warned if w.startswith("Relaxed")) <= {
        "Relaxed Constants" if named else "Relaxed Constraints"}, "%s: warnings %s", where, warned)
    for i, a in enumerate(amounts):
        want = a > 1.0105
        require(len(reports[i]) == int(want), "%s: a conflict of %r is reported %i times: %s", where, a,
                len(reports[i]), warned)
        if want:
            msg, = reports[i]
            if named:
                lo, to = map(float, re.search(r"relaxed from (\S+) to (\S+)", msg).groups())
                require(abs(lo-tops[i][0]) <= 1e-3*lo and abs(to-tops[i][1]) <= 3e-3*to,
                        "%s: conflict %s is reported as %r", where, tops[i], msg)
            else:
                pct = float(re.search(r"(\S+)% relaxed", msg).group(1))
                require(abs(pct-100*(a-1)) <= 1+3e-3*pct, "%s: a conflict of %r is reported as %r", where, a,
                        msg)
            require(not debug or all(line.strip() in text for line in msg.split("\n")),
                    "%s: %r is not in what debugging says:\n%s", where, msg, text)
    if debug:
        require(("seems feasible" in text) == all(a == 1 for a in amounts), "%s: debugging says\n%s", where,
                text)
    many = sum(a > 1.01 for a in amounts)
    return Info(many > 1, [case["how"], "named" if named else "numbers", "%i conflicts" % many] + (
        ["negative"] if any(v < 0 for v in subs.values() if not callable(v)) else []) + (
            ["linked"] if any(map(callable, subs.values())) else []), str(amounts))


CHECKS = {"relaxed": {"strategy": relaxations(), "run": run_relaxed, "quick": 200, "thorough": 3000},
          "bounded": {"strategy": boundables(), "run": run_bounded, "quick": 120, "thorough": 2000},
          "conflicts": {"strategy": conflicts(), "run": run_conflicts, "quick": 120, "thorough": 2000},
          "debug": {"strategy": debuggables(), "run": run_debug, "quick": 120, "thorough": 2000}}
