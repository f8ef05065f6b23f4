"C05: only GP-valid objects exist unless signomials are enabled."
import itertools

from hypothesis import strategies as st

from ..core import Info, Violation, require
from .. import algebra as al

RULE = ("'classes' cases build a program of expressions, classify each, and try sign-changing"
        " operations and inequalities on pairs outside and inside a block; 'blocks' cases are"
        " histories of entering, leaving and throwing out of blocks.  Non-trivial: some"
        " operation had to be refused, or blocks were nested.")


def kind(ref):
    "mono, posy or sig."
    return "mono" if ref.is_mono() else "posy" if ref.is_posy() else "sig"


def kind_of(nom):
    "As gpkit classifies it."
    from gpkit import Monomial, Posynomial
    from gpkit.nomials import Signomial
    if isinstance(nom, Monomial):
        require(isinstance(nom, Posynomial), "%s is a monomial but not a posynomial", nom)
        return "mono"
    if isinstance(nom, Posynomial):
        return "posy"
    require(isinstance(nom, Signomial), "%r is not a signomial", nom)
    return "sig"


def attempts(p, q, c):
    "Operations that may give nonpositive coefficients: (text, callable)."
    from gpkit import NomialArray, Signomial
    out = [("-p", lambda: -p), ("p - q", lambda: p - q), ("q - p", lambda: q - p),
           ("p - c", lambda: p - c), ("c - p", lambda: c - p), ("p + (-c)", lambda: p + (-c)),
           ("(-c) + p", lambda: (-c) + p), ("p*(-c)", lambda: p*(-c)),
           ("(-c)*p", lambda: (-c)*p), ("p/(-c)", lambda: p/(-c)),
           ("sum", lambda: NomialArray([p, -c]).sum()), ("prod", lambda: NomialArray([p, -c]).prod()),
           ("array", lambda: NomialArray([p, q]).sum() - p),
           ("p*q*(-1)", lambda: p*q*(-1))]
    for vk in sorted(p.vks, key=str)[:2]:
        out.append(("sub", lambda vk=vk: p.sub({vk: -c})))
        out.append(("sub0", lambda vk=vk: p.sub({vk: -1.0})))
        out.append(("subarr", lambda vk=vk: NomialArray([p, q]).sub({vk: -c})))
    out.append(("construct", lambda: Signomial(dict(zip(["k"], [1])), -c)))
    return out


def has_nonpositive(obj):
    "Any nonpositive coefficient in an expression or array of them."
    if hasattr(obj, "hmap"):
        return any(cc <= 0 for cc in obj.hmap.values())
    if getattr(obj, "shape", None):
        return any(has_nonpositive(o) for o in obj.flat)
    return False


def run_classes(case):
    "Classification, refused operations, inequalities."
    from gpkit import Variable, SignomialsEnabled, NomialArray
    from gpkit.exceptions import PrimalInfeasible
    from gpkit.constraints.set import ConstraintSet  # noqa: F401
    from gpkit.nomials import SignomialInequality, PosynomialInequality
    from gpkit.nomials.math import SingleSignomialEquality
    xs = [Variable(n) for n in al.NAMES[:case["nvars"]]]
    refs = al.reference(case)
    refused = 0
    if case["sig"]:
        with SignomialsEnabled():
            regs = al.execute(case, xs)
    else:
        regs = al.execute(case, xs)
    for r, ref, ins in zip(regs, refs, case["prog"]):
        if hasattr(r, "hmap"):
            require(kind_of(r) == kind(ref), "%s (%s) is classified as %s but is %s", r, ins,
                    kind_of(r), kind(ref))
            require(bool(r.any_nonpositive_cs) == (kind(ref) == "sig"), "any_nonpositive_cs of %s", r)
    noms = [(r, ref) for r, ref in zip(regs, refs) if hasattr(r, "hmap")]
    posys = [(r, ref) for r, ref in noms if ref.is_posy()]
    if not posys:
        return Info(False)
    # operations outside a block
    pairs = [(posys[a % len(posys)], noms[b % len(noms)]) for a, b in case["pairs"]]
    for (p, _), (q, _) in pairs:
        for text, func in attempts(p, q, case["c"]):
            try:
                out = func()
            except Exception:  # any refusal will do
                refused += 1
                continue
            require(not has_nonpositive(out), "outside a signomial block, %s with p=%s q=%s c=%s"
                    " gave %s", text, p, q, case["c"], out)
            if hasattr(out, "hmap"):
                require(kind_of(out) != "sig", "%s gave the signomial %s", text, out)
    # inequalities: outside and inside
    from gpkit import Monomial
    for (p, rp), (q, rq) in pairs:
        tests = []
        for (l, rl), (g, rg) in (((p, rp), (q, rq)), ((q, rq), (p, rp))):
            tests.append((l, rl, g, rg, "<="))
            tests.append((l, rl, g, rg, ">="))
        tests.append((p, rp, case["c"], al.Poly.const(case["c"]), "<="))
        tests.append((case["c"], al.Poly.const(case["c"]), p, rp, ">="))
        tests.append((case["c"], al.Poly.const(case["c"]), p, rp, "<="))
        for l, rl, g, rg, how in tests:
            gp_ok = rl.is_posy() and rg.is_mono()

            def make(l=l, g=g, how=how):
                return (l <= g) if how == "<=" else (g >= l)
            try:
                con = make()
                failed = None
            except Exception as exc:
                con, failed = None, exc
            text = "%s <= %s (written %s)" % (l, g, how)
            if gp_ok:
                if isinstance(failed, PrimalInfeasible):
                    require(impossible(rl, rg), "%s raised %s", text, failed)
                    continue
                require(failed is None, "the GP constraint %s was refused: %r", text, failed)
                require(isinstance(con, PosynomialInequality), "%s gave %r", text, con)
            else:
                if failed is None:
                    raise Violation("outside a signomial block, %s gave %s" % (
                        text, type(con).__name__))
                refused += 1
                with SignomialsEnabled():
                    if rl.add(rg, -1) and any(c > 0 for c in rl.add(rg, -1).values()) and any(
                            c < 0 for c in rl.add(rg, -1).values()):
                        con = make()
                        require(isinstance(con, SignomialInequality), "inside a block, %s gave %r",
                                text, con)
        try:
            eq = SingleSignomialEquality(p, q)
            raise Violation("SingleSignomialEquality(%s, %s) made outside a block: %s" % (p, q, eq))
        except Violation:
            raise
        except Exception:
            refused += 1
        # arrays
        arr, brr = NomialArray([p, p]), NomialArray([q, q])
        gp_ok = rp.is_posy() and rq.is_mono()
        try:
            con = arr <= brr
            failed = None
        except Exception as exc:
            failed = exc
        if gp_ok and not impossible(rp, rq):
            require(failed is None, "%s <= %s was refused: %r", arr, brr, failed)
        if not gp_ok:
            require(failed is not None, "outside a block, %s <= %s was made", arr, brr)
    return Info(refused > 4, ["sig" if case["sig"] else "posy"], str(regs[-1]))


def impossible(lesser, greater):
    "lesser/greater has a constant term of at least one, so <= 1 cannot hold strictly."
    (e, c), = greater.items()
    ratio = lesser.mul(al.Poly({tuple((v, -x) for v, x in e): 1/c}))
    return ratio.get((), 0) >= 1 and not (len(ratio) == 1 and ratio[()] == 1)


# -- blocks -----------------------------------------------------------------------------------
def blocks():
    "Nested structure: a list of actions."
    leaf = st.sampled_from([["check"], ["make"], ["relax"], ["tight"], ["solve"], ["raise"],
                            ["try_sig"]])
    return st.recursive(
        leaf, lambda s: st.one_of(
            st.tuples(st.just("with"), st.lists(s, max_size=4)),
            st.tuples(st.just("with_same"), st.lists(s, max_size=4)),
            st.tuples(st.just("try"), st.lists(s, max_size=4))), max_leaves=10)


class Boom(Exception):
    "Thrown on purpose."


def run_blocks(case):
    "A history of blocks."
    from gpkit import Variable, SignomialsEnabled, Model
    from gpkit.constraints.relax import ConstraintsRelaxed, ConstraintsRelaxedEqually
    from gpkit.constraints.tight import Tight
    x, y = Variable("x"), Variable("y", 2)
    same = SignomialsEnabled()
    stats = {"depth": 0, "raised": 0}
    counter = itertools.count()

    def check(want, where):
        require(bool(SignomialsEnabled) == want, "signomials are %s %s", "on" if not want else "off",
                where)

    def perform(actions, state, depth):
        stats["depth"] = max(stats["depth"], depth)
        for act in actions:
            name = act[0]
            next(counter)
            if name in ("with", "with_same"):
                try:
                    with (same if name == "with_same" else SignomialsEnabled()):
                        check(True, "just inside a block")
                        perform(act[1], True, depth+1)
                        check(True, "at the end of a block")
                except Boom:
                    check(state, "after an exception left a block entered while they were %s"
                          % ("on" if state else "off"))
                    raise
                check(state, "after leaving a block entered while they were %s"
                      % ("on" if state else "off"))
            elif name == "try":
                try:
                    perform(act[1], state, depth)
                except Boom:
                    stats["raised"] += 1
                check(state, "after catching an exception")
            elif name == "raise":
                raise Boom
            elif name == "check":
                check(state, "in the middle")
            elif name in ("make", "try_sig"):
                try:
                    con = (x >= 1 - y) if name == "make" else (x + y >= x*y + 1)
                    ok = True
                except Exception:
                    ok = False
                require(ok == state, "a signomial inequality was %s with signomials %s",
                        "made" if ok else "refused", "on" if state else "off")
            elif name == "relax":
                ConstraintsRelaxed([x >= y])
                ConstraintsRelaxedEqually([x >= y])
                check(state, "after relaxing constraints")
            elif name == "tight":
                p, q = Variable("p"), Variable("q", 2)
                Model(p, [Tight([p >= q + 1])]).solve(verbosity=0)
                check(state, "after annotating")
            elif name == "solve":
                p, q = Variable("p"), Variable("q", 2)  # (defaults go to one model only)
                Model(p, [p >= q]).solve(verbosity=0)
                check(state, "after a solve")
    try:
        perform(case["actions"], False, 0)
    except Boom:
        stats["raised"] += 1
    check(False, "at the end")
    return Info(stats["depth"] >= 2 or stats["raised"] > 0, ["depth%i" % stats["depth"]],
                str(next(counter)))


CHECKS = {
    "classes": {"strategy": st.builds(
        lambda p, pairs, c: dict(p, pairs=pairs, c=c), al.programs(zero=False),
        st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=2),
        st.sampled_from([1, 2.5, 3])), "run": run_classes, "quick": 500},
    "blocks": {"strategy": st.fixed_dictionaries(
        {"actions": st.lists(blocks(), min_size=1, max_size=4)}), "run": run_blocks, "quick": 150},
}
