"C17: Tight and Loose annotations warn exactly when violated."
import math
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require
from .. import gpgen
from . import c07, c08, c10, c15

RULE = ("An annotated program, perhaps signomial or swept, and what is warned of; non-trivial when an"
        " annotation holds and another does not.")
ASSUMPTIONS = ("the values reported for free variables are those of the optimum (C07, C10)",)
NOTES = ["tight", "tight", "tight:1e-05", "tight:0.1", "tight:0.5", "tight:2", "tightcls:0.2", "loose",
         "loose", "loose:0.3", "loose:1e-08", "loose:1", "loosecls:0.1"]


@st.composite
def annotated(draw):
    "A program, its grouping with annotations, and how it is solved."
    if draw(st.integers(0, 2)) == 0:
        case = draw(c10.cases())
        case["x0"], case["given"] = [], "none"
    else:
        case = {"kind": "gp", "spec": draw(gpgen.specs(nfixed=(0, 3)))}
    case["paths"] = draw(st.lists(st.lists(st.integers(0, 2), max_size=3), min_size=1, max_size=8))
    case["notes"] = draw(st.lists(st.sampled_from(NOTES + ["list", "dict", "model", "set"]), min_size=6, max_size=6))
    case.update(top=draw(st.sampled_from([None, None, "tight", "loose", "tight:0.3"])),
                enabled=draw(st.booleans()), change=draw(st.sampled_from([None, None, 0.8, 1.3])),
                which=draw(st.integers(0, 2)), sweep=draw(st.sampled_from([None, None, None, 2, 3])),
                error=draw(st.integers(0, 5)) == 0)
    return case


def annotation(note):
    "(constructor of the annotation, its tolerance)."
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    what, _, tol = note.partition(":")
    if what == "tight":
        return (lambda cs: Tight(cs, reltol=float(tol)) if tol else Tight(cs)), float(tol or 1e-3)
    if what == "loose":
        return (lambda cs: Loose(cs, senstol=float(tol)) if tol else Loose(cs)), float(tol or 1e-5)
    if what == "tightcls":
        return type("Tighter", (Tight,), {"reltol": float(tol)}), float(tol)
    return type("Looser", (Loose,), {"senstol": float(tol)}), float(tol)


def wrap(node, case, said, count, over=()):
    "The tree as containers and annotations; `said` gets (kind, tolerance, constraint)s."
    out = []
    for e in node:
        if not isinstance(e, tuple):
            out.append(e)
            for kind, tol in over:
                said.append((kind, tol, e))
            continue
        note = case["notes"][count[0] % len(case["notes"])]
        count[0] += 1
        if note in ("list", "dict", "model", "set"):
            out.append(c15.container(note, wrap(e[1], case, said, count, over), False))
        else:
            make, tol = annotation(note)
            out.append(make(wrap(e[1], case, said, count, over + ((note[:5], tol),))))
    return out


def side(nomial, values):
    "(a side's value in its own units, those units): by its terms."
    tot = 0.0
    for exp, c in nomial.hmap.items():
        tot += float(c)*math.prod(values[vk.name, vk.lineage, vk.idx]**x for vk, x in exp.items())
    return tot, nomial.units


def ratio(a, b):
    "Of these units."
    import gpkit
    one = gpkit.ureg.dimensionless
    return float(((1*(a if a else one))/(1*(b if b else one))).to(one).magnitude)


def measures(con, values, tiny):
    "(smallest, largest relative difference, (left, units), (right, units))."
    (lv, lu), (rv, ru) = side(con.left, values), side(con.right, values)
    if lv and rv:
        r = lv/rv*ratio(lu, ru)
        both = abs(1-r), abs(1-1/r)
        return min(both), max(both), (lv, lu), (rv, ru)
    # against what cancels out
    one = con.left if lv or len(con.left.hmap) > len(con.right.hmap) else con.right
    pos = neg = 0.0
    for exp, c in one.hmap.items():
        v = float(c)*math.prod(values[vk.name, vk.lineage, vk.idx]**x for vk, x in exp.items())
        pos, neg = pos + max(v, 0), neg - min(v, 0)
    both = abs(1-pos/neg), abs(1-neg/pos)
    return min(both), max(both), (lv, lu), (rv, ru)


def quoted(text, value, units, where):
    "Is this what it says?"
    import gpkit
    q = gpkit.ureg.Quantity(text)
    want = value*ratio(units, q.units)
    require(abs(q.magnitude-want) <= 1e-7*abs(want) + 1e-9, "%s: says %s but the value is %r %s", where, text, value,
            units)


def check_point(b, said, values, senss, rows, table, where):
    "The warnings of one point."
    left = {"tight": list(rows.get("Unexpectedly Loose Constraints", [])),
            "loose": list(rows.get("Unexpectedly Tight Constraints", []))}
    require(set(rows) <= {"Unexpectedly Loose Constraints", "Unexpectedly Tight Constraints"},
            "%s: warns %s", where, sorted(rows))
    fired = quiet = 0
    for kind, tol, con in said:
        mine = [r for r in left[kind] if r[1] is con and abs(stated(r[0], kind)/tol-1) < 1e-3]
        at = "%s: %s %s of %g" % (where, con, kind, tol)
        if kind == "tight":
            lo, hi, (lv, lu), (rv, ru) = measures(con, values, tol)
            require(mine or lo < tol*(1+1e-5), "%s: no warning, but its sides are %r and %r (differing by"
                    " %.3g to %.3g)", at, (lv, str(lu)), (rv, str(ru)), lo, hi)
            require(not mine or hi > tol*(1-1e-5), "%s: warned %r, but its sides are %r and %r (differing by"
                    " %.3g to %.3g)", at, mine, (lv, str(lu)), (rv, str(ru)), lo, hi)
            if mine:
                m = re.search(r"left hand side evaluated to (.*) but the right hand side evaluated to (.*)"
                              r" \(Allowable error: (\S+)%, Actual error: (\S+)%\)$", mine[0][0])
                require(m, "%s: warned %r", at, mine)
                quoted(m.group(1), lv, lu, at)
                quoted(m.group(2), rv, ru, at)
                err = float(m.group(4))/100
                require(lo*0.94-1e-9 <= err <= hi*1.06, "%s: says the error is %s%%, but it is %r to %r", at, m.group(4),
                        lo, hi)
        else:
            s = float(senss.get(con, 0))
            require(bool(mine) == (s >= tol), "%s: its sensitivity is %r, but warned %r", at, s, mine)
            if mine:
                said_s = float(re.search(r"a sensitivity of (\S+?)\.? \(Allowable", mine[0][0]).group(1))
                require(abs(said_s-s) <= 6e-4*abs(s), "%s: its sensitivity is %r, but warned %r", at, s, mine)
        require(not mine or (str(con.left)[:100] in mine[0][0] or repr(con.left)[:30] in mine[0][0]),
                "%s: does not quote it: %r", at, mine)
        if mine:
            left[kind].remove(mine[0])
            fired += 1
            if table is not None:
                shown = ["".join(s.split()).replace(".", "") for s in (table, str(con), mine[0][0])]
                require(shown[1] in shown[0] or shown[2] in shown[0],
                        "%s: %s is not in\n%s", where, con, table)
        else:
            quiet += 1
    require(not left["tight"] and not left["loose"], "%s: further warnings %s; annotated: %s", where, left, said)
    return fired, quiet


def stated(msg, kind):
    "The tolerance a message states."
    if kind == "tight":
        return float(re.search(r"Allowable error: (\S+)%", msg).group(1))/100
    return float(re.search(r"Allowable sensitivity: (\S+)\)$", msg).group(1))


def sensible(b, senss, base, where):
    "Are they the sensitivities?  (as in C08, of those annotated)"
    for con, (kind, i) in base:
        s = float(senss.get(con, 0))
        if kind == "eq":
            lo, hi = c08.sandwich(b.best, i, lambda h, i=i: b.ref.solve(loosen_eq={i: h})[0])
            require(c08.within(s, lo, hi) or c08.within(-s, lo, hi), "%s: the sensitivity of %s is %r, but the"
                    " log derivative between %r and %r", where, con, s, lo, hi)
        else:
            lo, hi = c08.sandwich(b.best, i, lambda h, i=i: b.ref.solve(loosen={i: h})[0])
            require(c08.within(-s, lo, hi), "%s: the sensitivity of %s is %r, but the log derivative between"
                    " %r and %r", where, con, s, lo, hi)


def make(case, annotate=True):
    "(b, model, annotations)."
    from gpkit import Model
    from gpkit.exceptions import PrimalInfeasible
    try:
        b = gpgen.build(case["spec"]) if case["kind"] == "gp" else c10.build(case)
    except PrimalInfeasible as exc:
        raise Discard from exc
    said = []
    items = [(case["paths"][i % len(case["paths"])], c) for i, c in enumerate(b.constraints)]
    if not annotate:
        return b, Model(b.cost, list(b.constraints), b.subs), said
    over, outer = (), None
    if case["top"]:
        outer, tol = annotation(case["top"])
        over = ((case["top"][:5], tol),)
    cons = wrap(c15.tree(items), case, said, [0], over)
    return b, Model(b.cost, outer(cons) if outer else cons, b.subs), said


def run(case):
    "Solve, and compare what is warned of with what holds."
    from gpkit import SignomialsEnabled
    from gpkit.exceptions import Infeasible, UnnecessarySGP
    b, m, said = make(case)
    sp = case["kind"] != "gp"

    def solve(model, **kw):
        if case["enabled"]:
            with SignomialsEnabled():
                sol = (model.localsolve if sp else model.solve)(verbosity=0, **kw)
                require(bool(SignomialsEnabled), "%s: solving disabled signomials", str(c15.show(m)))
        else:
            sol = (model.localsolve if sp else model.solve)(verbosity=0, **kw)
        require(not bool(SignomialsEnabled), "%s: solving left signomials enabled", str(c15.show(m)))
        return sol
    where = str(c15.show(m))
    swept = None
    if case["sweep"] and not sp:
        swept = [k for k in sorted(b.ref.fixed) if k in b.used]
        swept = swept[case["which"] % len(swept)] if swept else None
    if swept is not None:
        x = b.ref.fixed[swept]
        m.substitutions[b.vars[swept].key] = ("sweep", np.array([x*(1+0.15*i) for i in range(case["sweep"])]))
    try:
        sol = solve(m)
    except (Infeasible, UnnecessarySGP) as exc:
        raise Discard from exc
    except RuntimeWarning as exc:
        require("Sweep halted" in str(exc), "%s: solving raised %s", where, exc)
        raise Discard from exc
    if swept is not None and len(sol["cost"]) != case["sweep"]:
        raise Discard
    b2, plain, _ = make(case, False)
    if swept is not None:
        plain.substitutions[b2.vars[swept].key] = ("sweep", np.array([x*(1+0.15*i) for i in range(case["sweep"])]))
    ref = solve(plain)
    if not sp:
        require(np.allclose(np.log(sol["cost"]/ref["cost"]), 0, atol=1e-5), "%s: cost %s, but without annotations"
                " %s", where, sol["cost"], ref["cost"])
    else:
        require(abs(math.log(sol["cost"]/ref["cost"])) < 5e-3, "%s: cost %s, but without annotations %s", where,
                sol["cost"], ref["cost"])
    npts = 1 if swept is None else case["sweep"]
    fired = quiet = 0
    table = sol.table(tables=["warnings"])
    for i in range(npts):
        rows = sol.get("warnings", {})
        if swept is not None:
            rows = {k: v[i] for k, v in rows.items() if len(v[i])}
        flat = {k: (v if swept is None else v[i]) for k, v in sol["variables"].items()} if swept is None else None
        values = c07.expand(flat) if flat is not None else point(sol, i)
        senss = {c: (s if swept is None else s[i]) for c, s in sol["sensitivities"]["constraints"].items()}
        rows = {k: [r for r in v] for k, v in rows.items()}
        if sp:
            rows.pop("Slack Non-GP Constraints", None)
            rows = {k: v for k, v in rows.items() if k.startswith("Unexpectedly")}
        f, q = check_point(b, said, values, senss, rows, table, "%s, point %i" % (where, i))
        fired, quiet = fired + f, quiet + q
    if not sp and swept is None:
        b.best, _ = b.ref.solve()
        marked = [id(c) for k, _, c in said if k == "loose"]
        base = [(c, kd) for c, kd in zip(b.constraints, b.kinds) if id(c) in marked]
        sensible(b, sol["sensitivities"]["constraints"], base[:3], where)
    labels = {case["kind"], "swept" if swept is not None else "once"}
    if case["change"] and b.ref.fixed and swept is None:
        labels.add("again")
        before = repr(sol.get("warnings")), table
        k = sorted(b.ref.fixed)[case["which"] % len(b.ref.fixed)]
        m.substitutions[b.vars[k].key] = b.ref.fixed[k]*case["change"]
        try:
            sol2 = solve(m)
        except Infeasible:
            sol2 = None
        require((repr(sol.get("warnings")), sol.table(tables=["warnings"])) == before, "%s: solving again with %s"
                " at %r changed the first solution's warnings", where, b.vars[k], b.ref.fixed[k]*case["change"])
        if sol2 is not None:
            rows = {k: list(v) for k, v in sol2.get("warnings", {}).items() if k.startswith("Unexpectedly")}
            check_point(b, said, c07.expand(sol2["variables"]), sol2["sensitivities"]["constraints"], rows, None,
                        where + ", solved again")
    if case["error"] and swept is None:
        labels.add("raising")
        raising(m, sp, any(k.startswith("Unexpectedly Tight") for k in sol.get("warnings", {})), case, where)
    return Info(bool(fired and quiet), sorted(labels), str(sol.get("warnings"))[:300])


def raising(m, sp, expected, case, where):
    "Loose annotations that are to raise an error do so when they would warn."
    from gpkit import SignomialsEnabled
    from gpkit.constraints.loose import Loose
    if case["change"]:
        return
    Loose.raiseerror = True
    try:
        (m.localsolve if sp else m.solve)(verbosity=0)
        raised = False
    except RuntimeWarning as exc:
        raised = "is not loose" in str(exc)
    finally:
        Loose.raiseerror = False
    require(raised == expected, "%s: warned was %r, but an error %r", where, expected, raised)
    require(not bool(SignomialsEnabled), "%s: solving left signomials enabled", where)


def point(sol, i):
    "Values at one point of a sweep."
    out = {}
    swept = len(sol["cost"])
    for key, val in sol["variables"].items():
        val = np.asarray(val, dtype=float)
        if key.shape and not key.idx:
            if val.shape == (swept,) + tuple(key.shape):
                val = val[i]
            for el in np.ndindex(*key.shape):
                if not np.isnan(val[el]):
                    out[(key.name, key.lineage, el)] = float(val[el])
        else:
            out[(key.name, key.lineage, key.idx)] = float(val[i] if val.shape else val)
    return out


CHECKS = {"annotated": {"strategy": annotated(), "run": run, "quick": 200, "thorough": 3000}}
