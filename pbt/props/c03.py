"C03: substitution equals evaluation, however variables are named."
import contextlib
import copy
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import Info, Violation, Discard, require
from .. import algebra as al

RULE = ("A case is an expression program over scalars (two of one name in different models) and"
        " elements of a vector, plus a partition of substitutions into stages with a key form"
        " for each; non-trivial when a substitution made two terms alike, cancelled a term or"
        " left part of an expression of at least two terms.")
# variables: 0 = a, 1 = M.a (same name, in a model), 2..4 = v[0..2], 5 = b [ft]/ft, 6 = w[0,1]
NV = 7
VALUES = [1, 2, 4, 0.5, 3, 0, -1, 0.25, -2, 1.5]
SCALAR_FORMS = ["obj", "key", "fullname", "mono"]
VEC_FORMS = ["elem", "elemkey", "elemname"]
MAT_FORMS = ["wobj_array", "wkey_nan", "wname_list", "wobj_fort", "wobj_qty", "qty", "qty_other",
             "keyqty", "nameqty"]
WHOLE_FORMS = ["vobj_list", "vobj_array", "vkey_array", "vname_list", "vobj_nan", "vobj_qty"]


@st.composite
def cases(draw):
    "Program and stages."
    prog = draw(al.programs(nvars=NV, min_ops=2, max_ops=9, numpy=False))
    order = draw(st.permutations(range(NV)))
    nsub = draw(st.integers(1, NV))
    stages, stage = [], []
    todo = list(order[:nsub])
    while todo:
        v = todo.pop(0)
        val = draw(st.sampled_from(VALUES))
        if v in (2, 3, 4):
            form = draw(st.sampled_from(VEC_FORMS + WHOLE_FORMS))
            if form in WHOLE_FORMS and form != "vobj_nan":
                # the whole vector at once: all elements not yet substituted
                if any(w in todo or w == v for w in (2, 3, 4)) and all(
                        w == v or w in todo for w in (2, 3, 4)):
                    vals = [draw(st.sampled_from(VALUES)) for _ in range(3)]
                    todo = [w for w in todo if w not in (2, 3, 4)]
                    stage.append([[2, 3, 4], vals, form])
                    if draw(st.booleans()):
                        stages.append(stage)
                        stage = []
                    continue
                form = "elem"
            stage.append([[v], [val], form])
        elif v in (0, 1) and (1-v) in todo and draw(st.booleans()):
            todo.remove(1-v)
            stage.append([[0, 1], [val, val], "shortname"])
        elif v == 6:
            stage.append([[v], [val], draw(st.sampled_from(VEC_FORMS + MAT_FORMS))])
        elif v == 5:
            stage.append([[v], [val], draw(st.sampled_from(SCALAR_FORMS + ["qty", "qty_other", "keyqty", "nameqty"]))])
        else:
            stage.append([[v], [val], draw(st.sampled_from(SCALAR_FORMS))])
        if draw(st.booleans()):
            stages.append(stage)
            stage = []
    if stage:
        stages.append(stage)
    return {"sig": prog["sig"], "nvars": NV, "prog": prog["prog"], "stages": stages,
            "extra": draw(st.booleans()), "keydict": draw(st.booleans()),
            "perm": draw(st.integers(0, 5)),
            "scale": draw(st.sampled_from([0, 0, 0, -47, 40, -20]))}


class World:
    "The variables of a case."
    def __init__(self):
        from gpkit import Variable, VectorVariable, NamedVariables
        from gpkit import units
        self.a = Variable("a")
        with NamedVariables("M"):
            self.ma = Variable("a")
        self.v = VectorVariable(3, "v")
        self.b = Variable("b", "ft")
        self.w = VectorVariable((2, 3), "w", "ft")
        self.vars = [self.a, self.ma, self.v[0], self.v[1], self.v[2], self.b, self.w[0, 1]]
        # what the program computes with: dimensionless
        self.operands = [self.a, self.ma] + list(self.v) + [self.b/units("ft"), self.w[0, 1]/units("ft")]
        self.index = {x.key: i for i, x in enumerate(self.vars)}

    def entry(self, vs, vals, form):
        "(key, value) of a mapping."
        from gpkit.units import Quantity
        from gpkit import units
        x, val = self.vars[vs[0]], vals[0]
        if form in ("obj", "elem"):
            return x, val
        if form in ("key", "elemkey"):
            return x.key, val
        if form in ("fullname", "elemname"):
            return str(x.key) if vs != [0] else "a(top)", val
        if form == "shortname":
            return "a", val
        if form == "mono":
            if val == 0:
                return x, val
            from gpkit import SignomialsEnabled
            with SignomialsEnabled():
                return x, val*(units("ft") if vs[0] in (5, 6) else units("dimensionless"))
        if form == "qty":
            return x, Quantity(val, "ft")
        if form == "qty_other":
            return x, Quantity(val*12.0, "inch")
        if form == "keyqty":
            return x.key, Quantity(val*0.3048, "m")
        if form == "nameqty":
            return str(x.key), Quantity(val/3, "yard")
        if form == "vobj_list":
            return self.v, list(vals)
        if form == "vobj_array":
            return self.v, np.array(vals, float)
        if form == "vkey_array":
            return self.v.key, np.array(vals, float)
        if form == "vname_list":
            return "v", tuple(vals)
        if form == "vobj_nan":
            arr = np.full(3, np.nan)
            arr[vs[0]-2] = val
            return self.v, arr
        if form == "vobj_qty":
            return self.v, Quantity(np.array(vals, float), "dimensionless")
        if form in MAT_FORMS:   # the others do not occur
            arr = np.array([[7.0, val, 6.0], [5.0, 9.0, 8.0]])
            if form == "wobj_qty":
                return self.w, Quantity(arr*12, "inch")
            if form == "wobj_array":
                return self.w, arr
            if form == "wobj_fort":
                return self.w, np.asfortranarray(arr)
            if form == "wname_list":
                return "w", arr.tolist()
            arr = np.full((2, 3), np.nan)
            arr[0, 1] = val
            return self.w.key, arr
        raise AssertionError(form)


def refsub(ref, values):
    "(substituted reference, per-term magnitude bound); Discard where undefined."
    out, mags, merged = al.Poly(), {}, False
    for e, c in ref.items():
        coef, rest = float(c), []
        for v, x in e:
            if v in values:
                base = values[v]
                if base == 0 and x < 0 or base < 0 and x.denominator != 1:
                    raise Discard
                coef *= float(base)**(int(x) if x.denominator == 1 else float(x))
            else:
                rest.append((v, x))
        rest = tuple(rest)
        merged |= rest in mags
        mags[rest] = mags.get(rest, 0) + abs(coef)
        out[rest] = out.get(rest, 0) + coef
    return out, mags, merged


def compare(nom, want, mags, index, what):
    "Terms agree to rounding."
    got = {}
    for e, c in al.term_list(nom, index):
        require(e not in got, "%s: like terms not combined in %s", what, nom)
        got[e] = c
    for e in set(got) | set(want):
        tol = 1e-9*mags.get(e, 0) + 1e-300
        require(abs(got.get(e, 0) - want.get(e, 0)) <= tol, "%s gives %s; the coefficient of %s"
                " should be %r", what, nom, e, want.get(e, 0))


def mapping(world, stage, case, stageno):
    "The substitution mapping of a stage."
    from gpkit import Variable
    from gpkit.keydict import KeyDict
    pairs = []
    names_ok = True
    for vs, vals, form in stage:
        k, v = world.entry(vs, vals, form)
        if k == "a(top)":
            k = world.a
        pairs.append((k, v))
    if case["perm"] % 2:
        pairs.reverse()
    out = {}
    merged_v = None
    for k, v in pairs:
        if k is world.v and isinstance(v, np.ndarray) and np.isnan(v.astype(float)).any():
            # several elements as one array with nans for the others
            if merged_v is None:
                merged_v = v
                out[world.v.key] = v
            else:
                good = ~np.isnan(v)
                merged_v[good] = v[good]
            continue
        if isinstance(k, np.ndarray):
            k = k.key if case["perm"] % 3 else k
            if isinstance(k, np.ndarray):   # NomialArrays hash but compare elementwise
                out = dict(out)
        out[k] = v
    if case["extra"]:
        out[Variable("unrelated")] = 7.0
        out["nosuchname"] = 3
    if case["keydict"] and stageno % 2 == 0:
        strings = any(isinstance(k, str) for k in out)
        if not strings:
            kd = KeyDict()
            for k, v in out.items():
                kd[k] = v
            return kd
    return out


def freeze(sub):
    "A comparable copy of a mapping."
    return [(id(k) if not isinstance(k, str) else k, copy.deepcopy(v) if isinstance(
        v, (list, tuple, float, int, np.ndarray)) else str(v)) for k, v in dict.items(sub)]


def same_frozen(a, b):
    "Equality of frozen mappings, nan-safe."
    return len(a) == len(b) and all(
        ka == kb and np.array_equal(np.asarray(va, float) if not isinstance(va, str) else va,
                                    np.asarray(vb, float) if not isinstance(vb, str) else vb,
                                    equal_nan=not isinstance(va, str))
        if isinstance(va, str) == isinstance(vb, str) else False
        for (ka, va), (kb, vb) in zip(a, b))


def snapshot(nom):
    "Terms as an order-free value."
    return {frozenset(e.items()): float(c) for e, c in nom.hmap.items()}, str(nom.units)


def run(case):
    "Stages against the reference."
    from gpkit import SignomialsEnabled
    world = World()
    refs = al.reference(case)
    with (SignomialsEnabled() if case["sig"] else contextlib.nullcontext()):
        regs = al.execute(case, world.operands)
        chosen = [i for i, r in enumerate(regs) if hasattr(r, "hmap")][-3:]
        if case["scale"]:   # by a power of two, exactly
            for i in chosen:
                regs[i] = regs[i]*2.0**case["scale"]
                refs[i] = al.Poly({e: c*F(2)**case["scale"] for e, c in refs[i].items()})
        allvals = {}
        for vs, vals in [(s[0], s[1]) for stage in case["stages"] for s in stage]:
            allvals.update({v: F(x) for v, x in zip(vs, vals)})
        nontrivial = False
        labels = {s[2] for stage in case["stages"] for s in stage}
        for i in chosen:
            orig, ref = regs[i], refs[i]
            before = snapshot(orig)
            want, mags, merged = refsub(ref, allvals)
            cur = orig
            sofar = {}
            everything = {}
            for n, stage in enumerate(case["stages"]):
                sub = mapping(world, stage, case, n)
                frozen = freeze(sub)
                for vs, vals, _ in stage:
                    sofar.update({v: F(x) for v, x in zip(vs, vals)})
                cur_before = snapshot(cur)
                nxt = cur.sub(sub, require_positive=False)
                require(snapshot(cur) == cur_before, "%s was changed by substituting %s", cur, sub)
                require(same_frozen(frozen, freeze(sub)), "the mapping %s was changed", frozen)
                w, m, mg = refsub(ref, sofar)
                compare(nxt, w, m, world.index, "%s after stage %i %s" % (orig, n, stage))
                cur = nxt
                everything.update({k: v for k, v in sub.items()} if not isinstance(
                    sub, str) else {})
            require(snapshot(orig) == before, "%s was changed by substitution", orig)
            # all at once
            flat = [s for stage in case["stages"] for s in stage]
            once = orig.sub(mapping(world, flat, case, 0), require_positive=False)
            compare(once, want, mags, world.index, "%s substituted all at once" % orig)
            again = orig.sub(mapping(world, flat[::-1], case, 1), require_positive=False)
            compare(again, want, mags, world.index, "%s substituted again" % orig)
            # everything: a number
            total = {x: float(allvals.get(k, 2)) for k, x in enumerate(world.vars)}
            fullvals = {k: F(allvals.get(k, 2)) for k in range(NV)}
            wantn, magsn, _ = refsub(ref, fullvals)
            full = orig.sub(total, require_positive=False)
            require(not full.vks, "%s left after substituting everything", full)
            val = full.value
            val = float(getattr(val, "magnitude", val))
            require(abs(val - wantn.get((), 0)) <= 1e-9*magsn.get((), 0) + 1e-300,
                    "%s at %s is %r, should be %r", orig, total, val, wantn.get((), 0))
            nontrivial |= len(ref) >= 2 and (merged or len(want) < len(ref) or 0 < len(
                {v for e in want for v, _ in e}) < len({v for e in ref for v, _ in e}))
        # arrays of expressions
        arr_check(world, [regs[i] for i in chosen], [refs[i] for i in chosen], case, allvals)
    with SignomialsEnabled():
        reject(world, regs[chosen[-1]])
    return Info(nontrivial, labels, str(regs[-1]))


def arr_check(world, regs, refs, case, allvals):
    "Substituting into an array substitutes into each element."
    from gpkit import NomialArray
    arr = NomialArray(regs)
    flat = [s for stage in case["stages"] for s in stage]
    out = arr.sub(mapping(world, flat, case, 0), require_positive=False)
    require(out.shape == arr.shape, "shape %s became %s", arr.shape, out.shape)
    for o, ref in zip(out.flat, refs):
        want, mags, _ = refsub(ref, allvals)
        compare(o, want, mags, world.index, "array element")


def reject(world, nom):
    "Arrays of the wrong shape and values of the wrong dimension are rejected."
    from gpkit import DimensionalityError
    from gpkit.units import Quantity
    target = nom*world.v[0]*world.b
    if target.vks >= {world.v[0].key}:
        target = target*world.w[0, 1]
        for vec, name, bads in (
                (world.v, "v", ([1, 2], np.ones((3, 2)), np.ones(4), np.ones((3, 1)), np.ones((1, 3)),
                                [[1], [2], [3]], np.ones(1))),
                (world.w, "w", (np.ones((3, 2)), np.ones(6), np.ones((1, 6)), np.ones(2), np.ones(3),
                                np.ones((2, 2)), [[1, 2], [3, 4], [5, 6]], np.ones((2, 3, 1)),
                                np.ones((1, 3)), np.ones((2, 1))))):
            if vec[0].key not in target.vks if name == "v" else vec[0, 1].key not in target.vks:
                continue
            for bad in bads:
                for key in (vec, vec.key, name):
                    try:
                        out = target.sub({key: bad}, require_positive=False)
                    except ValueError:
                        continue
                    raise Violation("substituting %s for %s of shape %s in %s gave %s" % (
                        bad, name, vec.shape, target, out))
    if world.b.key in target.vks:
        for key in (world.b, "b", world.b.key):
            try:
                out = target.sub({key: Quantity(3, "s")}, require_positive=False)
            except DimensionalityError:
                continue
            raise Violation("substituting 3 s for b [ft] in %s gave %s" % (target, out))


CHECKS = {"stages": {"strategy": cases(), "run": run, "quick": 1300}}
