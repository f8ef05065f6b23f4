"C08: reported sensitivities are the derivatives of the optimal cost."
import math

from hypothesis import strategies as st

from ..core import Info, Discard, require
from .. import gpgen
from . import c07

RULE = ("A case is a geometric program whose optimal cost is re-solved by the reference with each"
        " fixed value, and each constraint, moved both ways; non-trivial when some fixed variable"
        " and some constraint have sensitivities above 0.05, and a fixed variable appears in the"
        " cost, in several constraints, or in terms merged or made constant by substitution.")
ASSUMPTIONS = (
    "the log of the optimal cost is convex in the log of fixed values and slacks, so its"
    " derivative lies between the difference quotients on either side",
    "cvxopt's interior-point method attains the optimum whenever it reports one")
H = 0.01


def cases():
    "Strategy."
    return st.fixed_dictionaries({
        "spec": gpgen.specs(nfixed=(1, 3)), "route": st.sampled_from(c07.ROUTES),
        "names": st.lists(st.sampled_from(["", "", "A", "A.B"]), min_size=8, max_size=8),
        "dup": st.sampled_from([-1, -1, -1, 0, 1]),
        "prior": st.lists(st.floats(-0.7, 0.7).map(lambda v: float("%.2g" % v)), max_size=3)})


def sandwich(p0, at, solve):
    "Difference quotients of log cost below and above."
    def log(v):
        return math.inf if v == math.inf else math.log(v)
    up, down = log(solve(H)), log(solve(-H))
    return (log(p0)-down)/H if down < math.inf else -math.inf, (up-log(p0))/H


def within(s, lo, hi):
    "Is this value between the quotients, to solver accuracy?"
    tol = 5e-3 + 5e-3*abs(s)
    return lo - tol <= s <= hi + tol


def elasticity(ref, values, k):
    "Logarithmic derivative of the cost expression itself."
    tot = ref.value(ref.cost, values)
    return sum(e.get(k, 0)*ref.value([(c, e)], values) for c, e in ref.cost)/tot


def check_sensitivities(b, sol, where, cost=None, models=None, tol=5e-3):
    "Variables', constraints', cost's and models' sensitivities against the reference."
    ref = b.ref
    senss = sol["sensitivities"]
    if cost is None:
        cost, _ = ref.solve()
    big = set()
    allv = c07.expand(sol["variables"])
    values = {k: allv[c07.ident(b.vars[k])] for k in b.used}
    got = c07.expand(senss["variables"])
    vsens, csens = {}, {}
    for k in sorted(b.used):
        # (nothing is reported for what occurs in no constraint that is left)
        s = vsens[k] = got.get(c07.ident(b.vars[k]), 0.0)
        if k not in ref.fixed:
            require(abs(s) <= 5e-3, "%s: free variable %s has sensitivity %r", where, b.vars[k], s)
        else:
            lo, hi = sandwich(cost, k, lambda h: ref.solve({k: ref.fixed[k]*math.exp(h)})[0])
            require(within(s, lo, hi), "%s: the sensitivity of %s is reported as %r, but the optimal"
                    " cost's log derivative is between %r and %r", where, b.vars[k], s, lo, hi)
            if abs(s) > 0.05:
                big.add("v%i" % k)
        direct = elasticity(ref, values, k)
        rep = senss["cost"].get(b.vars[k].key, 0)
        require(abs(rep-direct) <= tol, "%s: the cost sensitivity of %s is reported as %r, not %r",
                where, b.vars[k], rep, direct)
    for con, (kind, i) in zip(b.constraints, b.kinds):
        s = senss["constraints"].get(con)
        folded = None if kind == "eq" else ref.fold(ref.posys[i], ref.fixed)
        if s is None:
            require(folded and set(folded) == {()}, "%s: no sensitivity reported for %s", where, con)
            continue
        csens[con] = s
        require(s >= 0, "%s: %s has sensitivity %r", where, con, s)
        if kind == "eq":
            lo, hi = sandwich(cost, i, lambda h: ref.solve(loosen_eq={i: h})[0])
            require(within(s, lo, hi) or within(-s, lo, hi), "%s: the sensitivity of %s is reported"
                    " as %r, but the log derivative is between %r and %r", where, con, s, lo, hi)
        else:
            lo, hi = sandwich(cost, i, lambda h: ref.solve(loosen={i: h})[0])
            require(within(-s, lo, hi), "%s: the sensitivity of %s is reported as %r, but the log"
                    " derivative is between %r and %r", where, con, s, lo, hi)
        if s > 0.05:
            big.add("c%i" % i)
    require(set(senss["constraints"]) == set(csens), "%s: sensitivities for unknown constraints %s",
            where, set(senss["constraints"]) - set(csens))
    if models is not None:
        want = {}
        for con, s in csens.items():
            name = models[1][id(con)]
            want[name] = want.get(name, 0) + s
        for k, s in vsens.items():
            want[models[0][k]] = want.get(models[0][k], 0) + abs(s)
        rep = senss["models"]
        for name in set(want) | set(rep):
            require(abs(rep.get(name, 0) - want.get(name, 0)) <= 1e-4 + 1e-6*want.get(name, 0),
                    "%s: the sensitivity of model %r is reported as %r, but its parts sum to %r",
                    where, name, rep.get(name), want.get(name))
    return big


def interesting(b):
    "How fixed variables appear."
    labels = set()
    for k in b.ref.fixed:
        if any(k in e for _, e in b.ref.cost):
            labels.add("fixed in cost")
        if sum(any(k in e for _, e in p) for p in b.ref.posys) > 1:
            labels.add("fixed in several constraints")
        if any(k in e for _, e in b.ref.eqs):
            labels.add("fixed in equality")
    for p in list(b.ref.posys) + [b.ref.cost]:
        h = b.ref.fold(p, b.ref.fixed)
        if len(h) < len({tuple(sorted(e.items())) for _, e in p}):
            labels.add("merged in cost" if p is b.ref.cost else "merged")
        if () in h and any(e and not set(e) - set(b.ref.fixed) for _, e in p):
            labels.add("made constant")
    return labels


def run(case):
    "Solve, perhaps after other values, and compare."
    from gpkit import NamedVariables
    spec = case["spec"]
    names = case["names"]
    b = gpgen.build(spec, groups=(lambda k: names[k % 4], lambda j: names[4 + j % 4]))
    if case["dup"] >= 0 and case["dup"] < len(b.constraints):
        b.constraints = b.constraints + [b.constraints[case["dup"]]]
    cost, _ = b.ref.solve()
    where = "%s of\n%s\n with %s" % (case["route"], b.cost, b.subs)
    labels = interesting(b)
    if case["prior"] and case["route"] == "update":
        # the same objects solved before with other values
        from gpkit import Model
        b.model = Model(b.cost, b.constraints, b.subs)
        for scale in case["prior"]:
            for k, v in b.ref.fixed.items():
                b.model.substitutions[b.vars[k]] = v*math.exp(scale*(1 + k % 3))
            try:
                b.model.solve(verbosity=0)
            except Exception as exc:  # what it should be is C09's business
                if type(exc).__module__ != "gpkit.exceptions":
                    raise
        for k, v in b.ref.fixed.items():
            b.model.substitutions[b.vars[k]] = v
        sol = b.model.solve(verbosity=0)
        labels.add("re-solved")
    else:
        sol = c07.solve(b, case["route"])
    models = (b.varname, b.conname)
    if case["dup"] >= 0:
        labels.add("repeated constraint")
    big = check_sensitivities(b, sol, where, cost, models)
    special = labels & {"fixed in cost", "fixed in several constraints", "merged", "made constant",
                        "fixed in equality", "merged in cost"}
    return Info(bool(special) and any(s[0] == "v" for s in big) and any(s[0] == "c" for s in big),
                labels, {str(k): round(float(v), 4) for k, v in sol["sensitivities"]["cost"].items()})


# constraints that only become posynomial once constants are given --------------------------

def poly(nf):
    "1 +- b*fixed monomial"
    return st.tuples(st.sampled_from([0.0, 0.5, -0.5, 0.3, -0.7, 1.5]), st.lists(
        st.tuples(st.integers(0, nf-1), st.sampled_from([1, 2, -1, 0.5])), min_size=1, max_size=2,
        unique_by=lambda p: p[0]))


def sigcases():
    "Strategy."
    exps = st.lists(st.sampled_from([0, 1, -1, 0.5, 2]), min_size=2, max_size=2)
    return st.fixed_dictionaries({
        "fixed": st.lists(gpgen.nums(0.3, 3), min_size=2, max_size=2),
        "terms": st.lists(st.tuples(gpgen.nums(0.2, 2), exps, poly(2)), min_size=1, max_size=3),
        "greater": st.tuples(st.lists(st.sampled_from([0, 0, 1, 0.5]), min_size=2, max_size=2),
                             poly(2)),
        "cost": st.lists(st.tuples(gpgen.nums(0.2, 2), exps, st.lists(
            st.sampled_from([0, 0, 1, -1]), min_size=2, max_size=2)), max_size=2),
        "flip": st.booleans(), "again": st.booleans()})


def sigrun(case):
    "The same, for a signomial constraint that is posynomial after substitution."
    from gpkit import Variable, Model, SignomialsEnabled
    z, x, y = Variable("z"), Variable("x"), Variable("y")
    f = [Variable("f"), Variable("g")]
    at = case["fixed"]

    def parts(p):
        "[(weight, exponents over f)] of 1 +- b*m, m being 1 at the given values"
        b, exps = p
        return [(1.0, ())] + ([(b/math.prod(at[k]**e for k, e in exps), tuple(exps))] if b else [])

    def value(p, fv):
        return sum(w*math.prod(fv[k]**e for k, e in exps) for w, exps in parts(p))

    def symbol(p):
        out = 0
        for w, exps in parts(p):
            term = w
            for k, e in exps:
                term = term*f[k]**e
            out = out + term
        return out
    with SignomialsEnabled():
        lesser = 0
        for w, (a, c), p in case["terms"]:
            lesser = lesser + w*x**a*y**c*symbol(p)
        (ga, gc), gp_ = case["greater"]
        greater = z*x**ga*y**gc*symbol(gp_)
        con = (greater >= lesser) if case["flip"] else (lesser <= greater)
    others = [x >= 0.7, x <= 2, y >= 0.5, y <= 3, z >= 1e-3, z <= 1e3]
    cost = z
    for w, (a, c), (fa, fb) in case["cost"]:
        cost = cost + w*x**a*y**c*f[0]**fa*f[1]**fb

    def ref(fv):
        g = value(gp_, fv)
        pos = [[(w*value(p, fv)/g, {0: -1, 1: a-ga, 2: c-gc}) for w, (a, c), p in case["terms"]],
               [(0.7, {1: -1})], [(0.5, {1: 1})], [(0.5, {2: -1})], [(1/3, {2: 1})],
               [(1e-3, {0: -1})], [(1e-3, {0: 1})]]
        cst = [(1.0, {0: 1})] + [(w*fv[0]**fa*fv[1]**fb, {1: a, 2: c})
                                 for w, (a, c), (fa, fb) in case["cost"]]
        return gpgen.Ref(3, {}, cst, pos, [])
    base = ref(at)
    c0, xs = base.solve()
    if c0 == math.inf or c0 > 1e3:
        raise Discard
    m = Model(cost, [con] + others, dict(zip(f, at)))
    if case["again"]:
        m.substitutions.update({f[0]: at[0]*0.9, f[1]: at[1]*0.95})
        try:
            m.solve(verbosity=0)
        except Exception as exc:
            if type(exc).__module__ != "gpkit.exceptions":
                raise
        m.substitutions.update(dict(zip(f, at)))
    sol = m.solve(verbosity=0)
    where = "min %s, %s at %s" % (cost, con, at)
    require(abs(sol["cost"]-c0) <= 1e-4*c0, "%s: cost %r, not %r", where, sol["cost"], c0)
    # a coefficient 1 - b*m makes the cost's logarithm convex in nothing, so central differences
    big = False
    for k in range(2):
        if f[k].key not in m.varkeys:
            continue
        q = []
        for h in (1e-3, -1e-3, 2e-3, -2e-3):
            fv = list(at)
            fv[k] *= math.exp(h)
            q.append(math.log(ref(fv).solve()[0]/c0)/h)
        if max(q)-min(q) > 0.05:
            continue   # a kink
        d = (4*(q[0]+q[1]) - (q[2]+q[3]))/6
        s = sol["sensitivities"]["variables"][f[k]]
        require(abs(s-d) <= 0.01+0.01*abs(d), "%s: the sensitivity of %s is reported as %r, but the"
                " optimal cost's log derivative is %r", where, f[k], s, d)
        big |= abs(d) > 0.05
    s = sol["sensitivities"]["constraints"][con]
    lo, hi = sandwich(c0, 0, lambda h: base.solve(loosen={0: h})[0])
    require(within(-s, lo, hi), "%s: the sensitivity of %s is reported as %r, but the log derivative"
            " is between %r and %r", where, con, s, lo, hi)
    return Info(big and s > 0.05, ["signomial", type(con).__name__], None)


CHECKS = {"sensitivities": {"strategy": cases(), "run": run, "quick": 120, "thorough": 3000},
          "signomial": {"strategy": sigcases(), "run": sigrun, "quick": 60, "thorough": 1500}}
