"C10: local signomial solves return feasible, locally consistent optima."
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Info, Discard, require
from .. import gpgen
from .. import unitsys as us
from .c07 import expand, ident, costmag

RULE = ("A case is a boxed geometric program with one or more signomial inequalities that hold"
        " strictly at a known point, and a starting point; non-trivial when a real signomial"
        " inequality remains and the solve finishes without warnings.")
ASSUMPTIONS = ("cvxopt's interior-point method on an independently compiled condensation",)
FORMS = ["le", "ge", "split", "zero", "zerole", "scaled", "merge"]
EXPS = [1, 1, -1, 2, -2, 0.5, -0.5, 3]


@st.composite
def cases(draw, kind="signomial"):
    "Strategy."
    spec = draw(gpgen.specs(nfree=(1, 4), nfixed=(0, 2), nposys=(0, 2), neqs=(0, 1)))
    n, m = spec["n"], spec["m"]
    nv = n + m
    term = st.tuples(gpgen.nums(0.1, 2), gpgen.exps_over(nv, 0, 2, EXPS))
    nterm = st.tuples(gpgen.nums(0.1, 2), gpgen.exps_over(n, 1, 2, EXPS))
    sigs = []
    if kind == "signomial":
        sigs = draw(st.lists(st.fixed_dictionaries({
            "pos": st.lists(term, min_size=1, max_size=3),
            "neg": st.lists(st.one_of(nterm, nterm, term), min_size=2, max_size=3),
            "t": st.sampled_from([0.9, 0.5, 0.7, 0.2]), "form": st.sampled_from(FORMS),
            "cu": st.sampled_from(gpgen.CU)}), min_size=1, max_size=3))
    else:   # monotone functions of one monomial: geometric programs in disguise
        sigs = draw(st.lists(st.fixed_dictionaries({
            "u": gpgen.exps_over(nv, 1, 3, [1, -1, 2, 0.5]).filter(lambda e: e[0][0] < n),
            "powers": st.lists(st.tuples(gpgen.nums(0.1, 2), st.sampled_from([0.5, 1, 2, 3])),
                               min_size=2, max_size=3, unique_by=lambda p: p[1]),
            "t": st.sampled_from([0.9, 0.5, 0.7, 0.2]), "form": st.sampled_from(FORMS[:6]),
            "cu": st.sampled_from(gpgen.CU)}), min_size=1, max_size=2))
    x0 = draw(st.lists(gpgen.nums(0.3, 3), min_size=n, max_size=n))
    if kind == "signomial" and draw(st.integers(0, 4)) == 0:
        # variables fall out of the approximation about the start, or its terms become alike
        for v in spec["var"][:n]:
            v["x"] = 1.0
        x0 = [1.0]*n
        for s in sigs:
            s["neg"] = [[1.0, e] for _, e in s["neg"]]
            k, x = s["neg"][0][1][0] if s["neg"][0][1] else (0, 1)
            s["neg"] = [[1.0, [[k, x]]], [1.0, [[k, -x]]]] + (s["neg"][2:] if x == 2 else [])
    return {"spec": spec, "kind": kind, "sigs": sigs, "x0": x0,
            "given": draw(st.sampled_from(["all", "all", "none", "some", "optimum"])),
            "naming": draw(st.sampled_from(["var", "key", "name", "mixed", "keydict", "qty", "vec"])),
            "pccp": draw(st.booleans()), "penalty": draw(st.sampled_from([200.0, 20.0, 2.0, 1.0, 1.0, 0.5, 1.5])), "stale": draw(st.booleans()),
            "points": draw(st.lists(
                st.lists(gpgen.nums(0.1, 10), min_size=n, max_size=n), min_size=2, max_size=4))}


def signed(pos, neg):
    "pos - neg as ({exponents: coefficient} of each side), like terms combined."
    out = {}
    for terms, s in ((pos, 1), (neg, -1)):
        for c, e in terms:
            key = tuple(sorted((k, x) for k, x in e.items() if x))
            out[key] = out.get(key, 0.0) + s*c
    scale = max(abs(c) for c in out.values())
    if any(abs(c) < 1e-9*scale for c in out.values()):
        raise Discard    # rounding would decide whether these cancel
    return ([(c, dict(e)) for e, c in out.items() if c > 0],
            [(-c, dict(e)) for e, c in out.items() if c < 0])


def build(case):
    "Constraints, and each signomial inequality's sides as reference terms."
    from gpkit import SignomialEquality, SignomialsEnabled, units
    spec = case["spec"]
    b = gpgen.build(spec)
    b.costmag = costmag(b)
    at = [v["x"]*f for v, f in zip(spec["var"], b.fac)]

    def val(e):
        return math.prod(at[k]**x for k, x in e)
    b.sigs, b.roots = [], []
    for s in case["sigs"]:
        if case["kind"] == "disguised":
            pos = [[0.0, []]]
            neg = [[w/val(s["u"])**p, [[k, x*p] for k, x in s["u"]]] for w, p in s["powers"]]
            target = s["t"]*sum(w for w, _ in s["powers"])
            pos[0][0] = target
            lo, hi = 0.0, 1.0
            for _ in range(200):
                mid = (lo+hi)/2
                if sum(w*mid**p for w, p in s["powers"]) < target:
                    lo = mid
                else:
                    hi = mid
            # root <= u/u(point)
            b.roots.append([gpgen.over((1.0, {}), gpgen.refterm(b, 1/(hi*val(s["u"])), s["u"]))])
        else:
            wp, wn = sum(w for w, _ in s["pos"]), sum(w for w, _ in s["neg"])
            pos = [[w/wp*s["t"]/val(e), e] for w, e in s["pos"]]
            neg = [[w/wn/val(e), e] for w, e in s["neg"]]
        refs = signed([gpgen.refterm(b, c, e) for c, e in pos],
                      [gpgen.refterm(b, c, e) for c, e in neg])
        if not refs[0] or len(refs[1]) < 1:
            raise Discard
        with SignomialsEnabled():
            p = q = 0
            for c, e in pos:
                p = p + gpgen.expr(b, c, e)
            for c, e in neg:
                q = q + gpgen.expr(b, c, e)
            if not hasattr(q, "hmap"):
                raise Discard
            if not hasattr(p, "hmap"):
                p = p*units("dimensionless")
            f = 1.0
            if s["cu"][0] and not s["form"].startswith("zero"):
                f = us.factor(s["cu"][0])/us.factor(s["cu"][1])
                p, q = p*units(s["cu"][0]), q*units(s["cu"][1])*f
            form = s["form"]
            if form == "eq":
                con = SignomialEquality(p, q)
            elif form == "le":
                con = p <= q
            elif form == "ge":
                con = q >= p
            elif form == "split":
                first = q.chop()[0]
                con = p - first <= q - first if len(q.hmap) > 1 else p <= q
            elif form == "zero":
                con = q - p >= 0
            elif form == "zerole":
                con = 0 >= p - q
            elif form == "scaled":
                con = q*b.vars[0] >= p*b.vars[0]
                scale = gpgen.refterm(b, 1.0, [[0, 1]])
                refs = tuple([(c, _plus(e, 0, 1)) for c, e in side] for side in refs)
                del scale
            else:
                con = [p <= q, p <= 2*q][0]
        b.constraints.append(con)
        b.sigs.append(refs)
        for _, e in refs[0] + refs[1]:
            b.used.update(e)
        b.used.update(k for _, e in pos+neg for k, _ in e)
    for k in b.used:
        if k >= spec["n"]:
            if k >= spec["n"]+spec["nfvec"] and b.how[k] > 2 and b.vars[k] not in b.subs:
                b.subs["f%i" % k] = spec["var"][k]["x"]    # gpgen left it out
            b.ref.fixed[k] = spec["var"][k]["x"]
    return b


def _plus(e, k, x):
    e = dict(e)
    e[k] = e.get(k, 0) + x
    if not e[k]:
        del e[k]
    return e


def condense(refs, point):
    "pos/(monomial below neg, touching at the point): a posynomial."
    pos, neg = refs
    vals = [c*math.prod(point[k]**x for k, x in e.items()) for c, e in neg]
    tot = sum(vals)
    logc, exps = math.log(tot), {}
    for v, (_, e) in zip(vals, neg):
        for k, x in e.items():
            exps[k] = exps.get(k, 0) + v/tot*x
    for k, x in exps.items():
        logc -= x*math.log(point[k])
    out = []
    for c, e in pos:
        d = dict(e)
        for k, x in exps.items():
            d[k] = d.get(k, 0) - x
        out.append((c/math.exp(logc), {k: x for k, x in d.items() if abs(x) > 1e-12}))
    return out


def is_gp(b, refs):
    "Does substituting leave at most one negative term?"
    out = {}
    for terms, s in ((refs[0], 1), (refs[1], -1)):
        for c, e in terms:
            key = tuple(sorted((k, x) for k, x in e.items() if k not in b.ref.fixed))
            c *= math.prod(b.ref.fixed[k]**x for k, x in e.items() if k in b.ref.fixed)
            out[key] = out.get(key, 0.0) + s*c
    scale = max(abs(c) for c in out.values())
    if any(abs(c) < 1e-9*scale for c in out.values()):
        raise Discard
    if all(c < 0 for c in out.values()):
        return True    # always true
    return sum(c < 0 for c in out.values()) <= 1


def start(b, case, point):
    "A starting point under the chosen naming."
    from gpkit.keydict import KeyDict
    from gpkit.units import Quantity
    out = {}
    for k, x in sorted(point.items()):
        v = b.vars[k]
        how = case["naming"]
        if how == "mixed":
            how = ["var", "key", "name"][k % 3]
        if how == "vec":
            if b.vec is not None and k < case["spec"]["nvec"]:
                if b.vec not in [a for a, _ in out.values() if a is b.vec]:
                    arr = np.full(b.vec.shape, np.nan)
                    for j in range(case["spec"]["nvec"]):
                        if j in point:
                            arr[j] = point[j]
                    out["vec"] = (b.vec.key, arr)
                continue
            how = "var"
        u = case["spec"]["var"][k]["u"]
        if how == "qty" and u:
            alt = b.alts[k]
            out[k] = (v, Quantity(x*us.factor(u)/us.factor(alt), alt))
        elif how in ("key", "keydict"):
            out[k] = (v.key, x)
        elif how == "name":
            out[k] = (str(v.key), x)
        else:
            out[k] = (v, x)
    out = dict(out.values())
    if case["naming"] == "keydict":
        return KeyDict(out)
    return out


def run(case):
    "One local solve."
    from gpkit import Model
    from gpkit.exceptions import UnnecessarySGP, Infeasible
    b = build(case)
    spec, n = case["spec"], case["spec"]["n"]
    nv = n + spec["m"]
    fixed = b.ref.fixed
    real = [refs for refs in b.sigs if not is_gp(b, refs)]
    m = Model(b.cost, b.constraints, b.subs)
    where = "minimising %s subject to %s with %s" % (b.cost, b.constraints, b.subs)
    kw = {"use_pccp": False} if not case["pccp"] else {"pccp_penalty": case["penalty"]} if case["penalty"] != 200 else {}
    if not real:
        try:
            m.sp(**kw)
        except UnnecessarySGP:
            pass
        else:
            require(False, "%s is a geometric program, but made a signomial one", where)
        return Info(False, ["geometric after all"])
    given = {"all": range(n), "optimum": range(n), "none": [], "some": range(0, n, 2)}[case["given"]]
    x0 = {k: (spec["var"][k]["x"] if case["given"] == "optimum" else case["x0"][k]) for k in given}
    x0arg = start(b, case, x0)
    full = {k: x0.get(k, 1.0) for k in range(n)}
    if case["stale"]:    # a starting point that also has other values for the constants
        for k in b.used:
            if k >= n and not (case["naming"] == "vec" and k < n+spec["nfvec"]):
                x0[k] = 1.7*fixed[k]
        x0arg = start(b, case, x0)
    full.update(fixed)
    labels = {case["kind"], case["given"], case["naming"], "pccp" if case["pccp"] else "no slack"}
    # the approximation about the starting point
    sp = m.sp(**kw)
    gp = sp.gp(x0arg)
    conservative(b, gp, case, full, where)
    # the whole solve
    sp = m.sp(**kw)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            res = sp.localsolve(verbosity=0, x0=x0arg or None)
        except Infeasible as exc:
            if case["pccp"]:
                # the slack makes every approximation feasible
                require("Unsolved after" in str(exc) or type(exc).__name__ == "UnknownInfeasible",
                        "%s from %s ended with %s %s", where, x0, type(exc).__name__, exc)
                return Info(False, labels | {"did not converge"})
            return Info(False, labels | {"approximation infeasible"})
    # the first step, independently
    slack = nv
    extra = []
    for refs in real:
        posy = condense(refs, full)
        extra.append([(c, _plus(e, slack, -1)) for c, e in posy] if case["pccp"] else posy)
    gps = [p for refs in b.sigs if refs not in real for p in [gp_posy(b, refs)] if p]
    if case["pccp"]:
        extra.append([(1.0, {slack: -1})])
    extra += gps
    cost = [(c, _plus(e, slack, case["penalty"])) for c, e in b.ref.cost] if case["pccp"] else b.ref.cost
    try:
        if case["pccp"] and any(not e for p in extra for _, e in p):
            raise Discard    # what slackening means then is a matter of taste
        if case["pccp"] and any(set(e) == {slack} for p in extra[:len(real)] for _, e in p):
            raise Discard
        first, _ = b.ref.solve(freed=(slack,) if case["pccp"] else (), cost=cost, extra=extra)
    except Discard:
        first = None
    if first is not None and math.isfinite(first):
        got = sp.solver_outs[0]["objective"]/b.costmag
        require(abs(got/first - 1) <= 5e-3, "%s: the first approximation, about %s, has the optimum"
                " %r; it should be %r", where, full, got, first)
    messages = " ".join(str(w.message) for w in caught)
    if "slacken" in messages or "not convergent" in messages:
        return Info(False, labels | {"warned"})
    # feasibility and cost
    allv = expand(res["variables"])
    want = {ident(b.vars[k]) for k in b.used}
    require({k for k in allv if "RelaxPCCP" not in str(k)} == want and len(allv) == len(want),
            "%s: variables %s reported, not %s", where, sorted(allv), sorted(want))
    values = {k: allv[ident(b.vars[k])] for k in b.used}
    for p in b.ref.posys:
        require(b.ref.value(p, values) <= 1+1e-4, "%s: a constraint is violated by %r", where,
                b.ref.value(p, values))
    for q in b.ref.eqs:
        require(abs(b.ref.value([q], values)-1) <= 1e-4, "%s: an equality is violated", where)
    for refs in b.sigs:
        ratio = b.ref.value(refs[0], values)/b.ref.value(refs[1], values)
        require(ratio <= 1+2e-4, "%s: a signomial inequality is violated by %r at %s (from %s)", where,
                ratio, values, x0)
    there = b.ref.value(b.ref.cost, values)
    got = res["cost"]/b.costmag
    require(abs(got/there-1) <= 1e-3, "%s: cost %r reported, but it is %r at the solution", where,
            got, there)
    # no better point in the approximation about the solution
    extra = [condense(refs, values) for refs in real] + gps
    try:
        best, _ = b.ref.solve(extra=extra)
    except Discard:
        best = None
    if best is not None and math.isfinite(best):
        require(there <= best*(1+1e-2), "%s: cost %r at %s from %s, but approximating about that"
                " gives %r", where, there, values, x0, best)
        labels.add("stationary")
    if case["kind"] == "disguised":
        opt, _ = b.ref.solve(extra=b.roots)
        require(abs(there/opt-1) <= 5e-3, "%s: cost %r from %s; the equivalent geometric program's"
                " is %r", where, there, x0, opt)
    return Info(True, labels, "cost %.6g after %i steps" % (res["cost"], len(sp.gps)))


def gp_posy(b, refs):
    "A signomial inequality that substitution made a posynomial one."
    out = {}
    for terms, s in ((refs[0], 1), (refs[1], -1)):
        for c, e in terms:
            key = tuple(sorted((k, x) for k, x in e.items() if k not in b.ref.fixed))
            c *= math.prod(b.ref.fixed[k]**x for k, x in e.items() if k in b.ref.fixed)
            out[key] = out.get(key, 0.0) + s*c
    neg = [(e, c) for e, c in out.items() if c < 0]
    if not any(c > 0 for c in out.values()):
        return []
    if not neg:
        raise Discard
    (ne, nc), = neg
    return [gpgen.over((c, dict(e)), (-nc, dict(ne))) for e, c in out.items() if c > 0]


def conservative(b, gp, case, full, where):
    "What the approximation allows, the signomial inequalities allow; and it allows where it touches."
    n = case["spec"]["n"]
    cols = {vk: j for vk, j in gp.varidxs.items()}
    ids = {b.vars[k].key: k for k in range(n)}
    A = gp.A.tocsr().toarray()
    logc = np.log(np.array(gp.cs, float))

    def allowed(point):
        "The largest approximating posynomial."
        y = np.zeros(A.shape[1])
        for vk, j in cols.items():
            y[j] = math.log(point[ids[vk]]) if vk in ids else 0.0
        z = np.exp(logc + A.dot(y))
        return max([z[mi].sum() for mi in gp.m_idxs[1:]])

    def original(point):
        "The largest ratio of sides."
        out = [b.ref.value(p, point) for p in b.ref.posys]
        out += [b.ref.value(r[0], point)/b.ref.value(r[1], point) for r in b.sigs]
        out += [max(b.ref.value([q], point), 1/b.ref.value([q], point)) for q in b.ref.eqs]
        return max(out)
    # at the starting point they agree on whether it is allowed
    o, a = original(full), allowed(full)
    if o < 1-1e-9:
        require(a <= 1+1e-9, "%s: the approximation about %s excludes that point (%r)", where, full, a)
    elif o > 1+1e-9:
        require(a > 1, "%s: the approximation about %s allows that point", where, full)
    base = dict(full)
    if a > 1:
        base = {k: case["spec"]["var"][k]["x"] for k in range(n)}
        base.update(b.ref.fixed)
    for to in case["points"]:
        d = {k: math.log(to[k]) for k in range(n)}
        last = None
        for step in range(-10, 31):
            p = dict(base)
            for k in range(n):
                p[k] = base[k]*math.exp(step/10*d[k])
            if allowed(p) <= 1:
                last = p
                require(original(p) <= 1+1e-9, "%s: the approximation about %s allows %s (%r), where"
                        " the sides' ratio is %r", where, full, p, allowed(p), original(p))
            elif last is not None:   # bisect to the approximation's boundary
                lo, hi = last, p
                for _ in range(40):
                    mid = {k: math.sqrt(lo[k]*hi[k]) for k in lo}
                    if allowed(mid) <= 1:
                        lo = mid
                    else:
                        hi = mid
                require(original(lo) <= 1+1e-9, "%s: the approximation about %s allows %s, where the"
                        " sides' ratio is %r", where, full, lo, original(lo))
                last = None


CHECKS = {"signomial": {"strategy": cases("signomial"), "run": run, "quick": 500, "thorough": 6000},
          "disguised": {"strategy": cases("disguised"), "run": run, "quick": 250, "thorough": 3000}}
