"C13: variable-keyed dictionaries behave as maps from variables to values."
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from ..core import Info, require
from .. import unitsys as us

RULE = ("A case is a history of operations on several dictionaries; non-trivial when something"
        " set was later overwritten, partly set, deleted, or changed in a copy's source.")
ASSUMPTIONS = ("numpy's own arrays, and plain dictionaries as the model",)
# variable: (name, lineage, shape, unit)
POOL = [("x", (), (), ""), ("y", (), (), "ft"), ("x", (("M", 0),), (), ""), ("x", (("M", 1),), (), ""),
        ("v", (), (3,), ""), ("w", (), (2, 2), "m"), ("v", (("M", 0),), (2,), "kg"),
        ("z", (("M", 0), ("N", 0)), (), "hour"), ("q", (("M", 0), ("N", 2)), (3, 1), "ft"),
        ("v", (("M", 1),), (2,), "kg")]
OTHER = {"ft": "inch", "m": "ft", "kg": "g", "hour": "minute"}
NUMS = [1, 2, 0, -3, 0.1, 0.5, 1.0, 1e-9, 1/3, 16777217, 123456789, 7, 2.5, 1e300]
NSLOTS = 4


def elements(i):
    "Element ids of a variable."
    shape = POOL[i][2]
    return [(i,) + ix for ix in np.ndindex(*shape)] if shape else [(i,)]


SCALARS = [i for i, p in enumerate(POOL) if not p[2]]
VECTORS = [i for i, p in enumerate(POOL) if p[2]]


@st.composite
def cases(draw):
    "A history."
    num = st.sampled_from(NUMS)
    ops = []
    active = draw(st.one_of(st.just(list(range(len(POOL)))), st.sampled_from(
        [[0, 2, 3], [0, 2, 3], [4, 6], [2, 3, 6, 9], [6, 9], [2, 3, 6, 9], [5, 8]])))
    # pylint: disable=invalid-name
    SCALARS = [i for i in active if not POOL[i][2]] or [0]
    VECTORS = [i for i in active if POOL[i][2]] or [4]
    numslots = draw(st.sampled_from([NSLOTS, NSLOTS, 2, 3]))
    slot = st.integers(0, numslots-1)
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(["scalar", "elem", "elem", "whole", "whole", "del", "delelem",
                                     "copy", "update", "view", "mutate", "slice", "read",
                                     "fill", "pickle"]))
        s = draw(slot)
        if kind == "scalar":
            i = draw(st.sampled_from(SCALARS))
            ops.append([kind, s, i, draw(num), draw(st.sampled_from(
                ["num", "np", "qty", "fixed", "sweep", "fn", "zerod"])), draw(st.integers(0, 3))])
        elif kind == "elem":
            i = draw(st.sampled_from(VECTORS))
            e = draw(st.sampled_from(elements(i)))
            ops.append([kind, s, list(e), draw(num), draw(st.sampled_from(
                ["num", "num", "np", "qty", "fixed", "sweep", "fn"])), draw(st.integers(0, 2))])
        elif kind == "whole":
            i = draw(st.sampled_from(VECTORS))
            vals = [draw(num) for _ in elements(i)]
            form = draw(st.sampled_from(["list", "tuple", "ints", "floats", "int32", "float32",
                                         "qty", "qtylist", "nan", "nan", "readonly", "object", "fort"]))
            nans = draw(st.lists(st.booleans(), min_size=len(vals), max_size=len(vals)))
            ops.append([kind, s, i, vals, form, nans, draw(st.integers(0, 2))])
        elif kind == "fill":
            ops.append([kind, s, draw(st.sampled_from(VECTORS)), draw(num), draw(st.integers(0, 2))])
        elif kind == "del":
            ops.append([kind, s, draw(st.sampled_from(active)), draw(st.integers(0, 3))])
        elif kind == "delelem":
            i = draw(st.sampled_from(VECTORS))
            ops.append([kind, s, list(draw(st.sampled_from(elements(i)))), draw(st.integers(0, 2))])
        elif kind == "copy":
            ops.append([kind, s, draw(st.integers(1, numslots-1)), draw(st.integers(0, 2))])
        elif kind == "update":
            ops.append([kind, s, draw(slot), draw(st.integers(0, 2))])
        elif kind == "view":
            i = draw(st.sampled_from(VECTORS))
            ops.append([kind, s, list(draw(st.sampled_from(elements(i)))), draw(num)])
        elif kind == "mutate":
            ops.append([kind, draw(st.integers(0, 9)), draw(num)])
        elif kind == "slice":
            i = draw(st.sampled_from(VECTORS))
            ops.append([kind, i, [draw(num) for _ in elements(i)], draw(st.booleans())])
        elif kind == "read":
            ops.append([kind, s, draw(st.sampled_from(active))])
        else:
            ops.append([kind, draw(st.integers(1, numslots-1))])
    return {"ops": ops, "every": draw(st.booleans())}


class World:
    "Variables, dictionaries and their models."

    def __init__(self):
        from gpkit import Variable, VectorVariable, Model
        from gpkit.keydict import KeyDict
        self.vars, self.keys = [], []
        for name, lineage, shape, unit in POOL:
            kw = {"lineage": lineage} if lineage else {}
            if shape:
                v = VectorVariable(shape, name, unit, **kw)
            else:
                v = Variable(name, unit, **kw)
            self.vars.append(v)
            self.keys.append(v.key)
        flat = []
        for v in self.vars:
            flat.extend(v.flat if hasattr(v, "flat") else [v])
        self.model = Model(flat[0], [f/(2*f.units) <= 1 if f.units else f <= 2 for f in flat])
        self.model.substitutions.clear()
        # slot 0: a model's substitutions; the others on their own
        self.slots = [self.model.substitutions] + [KeyDict() for _ in range(NSLOTS-1)]
        self.models = [{} for _ in range(NSLOTS)]
        self.given = []    # arrays handed over, and what they should still be

    def obj(self, e):
        "The gpkit variable of an element id."
        v = self.vars[e[0]]
        return v[tuple(e[1:])] if len(e) > 1 else v

    def names(self, i):
        "Names of a variable, longest first."
        name, lineage, _, _ = POOL[i]
        short = [name]
        if lineage:
            short.insert(0, ".".join(n for n, _ in lineage) + "." + name)
        return short

    def matching(self, s, name):
        "Variables a name means in a slot."
        if s == 0:
            return [j for j in range(len(POOL)) if name in self.names(j)]
        return [j for j in range(len(POOL)) if name in self.names(j) and self.present(s, j)]

    def present(self, s, i):
        "Is anything of variable i set?"
        return any(e in self.models[s] for e in elements(i))

    def whole_key(self, s, i, how):
        "A key for the whole of a variable: object, key or name."
        if how == 0:
            return self.vars[i]
        if how >= 2:
            for name in self.names(i)[::1 if how == 2 else -1]:
                if self.matching(s, name) == [i]:
                    return name
        return self.keys[i]

    def elem_key(self, s, e, how):
        "A key for an element."
        x = self.obj(e)
        if how == 2 and s == 0:
            for name in self.names(e[0]):
                if self.matching(0, name) == [e[0]]:
                    return "%s[%s]" % (name, ",".join(map(str, e[1:])))
        return x if how == 0 else x.key

    def value(self, val, form, unit):
        "(what to store, what is then expected)."
        from gpkit.units import Quantity
        from gpkit import units
        if form == "np":
            x = np.float64(val) if isinstance(val, float) else np.int64(val)
            return x, val
        if form == "zerod":
            return np.array(float(val)), val
        if form == "qty":
            o = OTHER.get(unit, "percent")
            f = us.factor(unit or "")/us.factor(o)
            return Quantity(val*f, o), ("near", val)
        if form == "fixed" and val > 0:
            return val*units(unit or "dimensionless"), ("near", val)
        if form == "sweep":
            sw = ("sweep", [val, 2.0])
            return sw, sw
        if form == "fn":
            fn = lambda c: val  # noqa: E731
            return fn, fn
        return val, val


def same(got, want):
    "Is this the stored value?"
    if isinstance(want, tuple) and want and want[0] == "near":
        return abs(float(got)-want[1]) <= 1e-12*abs(want[1])
    if isinstance(want, tuple) or callable(want):
        return got is want or (isinstance(want, tuple) and isinstance(got, tuple) and got == want)
    if isinstance(got, (tuple, list)) or callable(got) and not hasattr(got, "dtype"):
        return False
    return bool(got == want) and not isinstance(got, np.float32)


def is_num(want):
    "A stored number?"
    return not callable(want) and not (isinstance(want, tuple) and want[0] != "near")


def check(w, s, what):
    "A slot against its model, through every key."
    kd, model = w.slots[s], w.models[s]
    present = [i for i in range(len(POOL)) if w.present(s, i)]
    require(len(kd) == len(present), "after %s: %i entries, expected %s", what, len(kd),
            [w.keys[i] for i in present])
    require(set(kd) == {w.keys[i] for i in present} and set(kd.keys()) == set(kd),
            "after %s: keys %s, expected %s", what, set(kd), [w.keys[i] for i in present])
    for i, (_, _, shape, _) in enumerate(POOL):
        here = i in present
        handles = [w.vars[i], w.keys[i]]
        for name in w.names(i):
            m = w.matching(s, name)
            if m == [i]:
                handles.append(name)
            elif s and len(m) > 1 and i in m:
                got = kd[name]
                require(isinstance(got, dict) and set(got) == {w.keys[j] for j in m},
                        "after %s: %s gives %s, expected all of %s", what, name, got, m)
            elif not m:
                require(name not in kd, "after %s: %r is in it", what, name)
                try:
                    kd[name]
                except KeyError:
                    pass
                else:
                    require(False, "after %s: %r is found", what, name)
        for h in handles:
            require((h in kd) == here, "after %s: %r in it is %s", what, h, h in kd)
            missing = object()
            got = kd.get(h, missing)
            if not here:
                require(got is missing, "after %s: get(%r) gives %r", what, h, got)
                try:
                    kd[h]
                except KeyError:
                    continue
                require(False, "after %s: %r found", what, h)
            got = kd[h]
            if not shape:
                require(same(got, model[(i,)]), "after %s: %r is %r, expected %r", what, h, got,
                        model[(i,)])
                if is_num(model[(i,)]):
                    q = kd(h)
                    require(same(q.magnitude, model[(i,)]) and str(q.units) == str(
                        (w.vars[i].units or q).units if w.vars[i].units else "dimensionless"),
                            "after %s: called with %r: %r", what, h, q)
                continue
            require(np.shape(got) == shape, "after %s: %r is %r", what, h, got)
            for e in elements(i):
                if e in model:
                    require(same(got[e[1:]], model[e]), "after %s: %r%s is %r, expected %r", what, h,
                            e[1:], got[e[1:]], model[e])
                else:
                    require(isinstance(got[e[1:]], float) and np.isnan(got[e[1:]]),
                            "after %s: unset %r%s is %r", what, h, e[1:], got[e[1:]])
        if shape:
            for e in elements(i):
                for how in range(3):
                    k = w.elem_key(s, e, how)
                    require((k in kd) == (e in model), "after %s: %r in it is %s", what, k, k in kd)
                    if e in model:
                        require(same(kd[k], model[e]) and same(kd.get(k), model[e]),
                                "after %s: %r is %r, expected %r", what, k, kd[k], model[e])
                    else:
                        require(kd.get(k, 5) == 5, "after %s: unset %r is %r", what, k, kd.get(k, 5))
    for arr, kept in w.given:
        require(np.array_equal(arr, kept, equal_nan=kept.dtype.kind == "f"),
                "after %s: an array given earlier is now %s, was %s", what, arr, kept)


def run(case):
    "A history."
    from gpkit.keydict import KeyDict
    from gpkit.units import Quantity
    w = World()
    nontrivial, labels = False, set()
    for op in case["ops"]:
        kind = op[0]
        labels.add(kind)
        what = "%s (of %s)" % (op, case["ops"])
        if kind == "scalar":
            _, s, i, val, form, how = op
            k = w.whole_key(s, i, how)
            v, expect = w.value(val, form, POOL[i][3])
            nontrivial |= (i,) in w.models[s]
            w.slots[s][k] = v
            w.models[s][(i,)] = expect
        elif kind == "elem":
            _, s, e, val, form, how = op
            e = tuple(e)
            v, expect = w.value(val, form, POOL[e[0]][3])
            k = w.elem_key(s, e, how)
            nontrivial |= w.present(s, e[0])
            w.slots[s][k] = v
            w.models[s][e] = expect
        elif kind == "whole":
            _, s, i, vals, form, nans, how = op
            k = w.whole_key(s, i, how)
            shape, es, unit = POOL[i][2], elements(i), POOL[i][3]
            expect = list(vals)
            if form == "ints":
                vals = expect = [int(x) if abs(x) < 2**53 else 1 for x in vals]
            if form == "int32":
                vals = expect = [int(x) if abs(x) < 2**31 else 1 for x in vals]
            arr = np.array(vals, float).reshape(shape)
            if form in ("list", "tuple"):
                given = np.array(vals, object).reshape(shape).tolist()
                given = tuple(given) if form == "tuple" else given
            elif form == "ints":
                given = np.array(vals, int).reshape(shape)
            elif form == "int32":
                given = np.array(vals, np.int32).reshape(shape)
            elif form == "float32":
                given = np.array([x if abs(x) < 1e30 else 1.0 for x in vals], np.float32).reshape(shape)
                expect = [float(x) for x in given.flat]
            elif form == "qty":
                o = OTHER.get(unit, "percent")
                given = Quantity(arr*(us.factor(unit or "")/us.factor(o)), o)
                expect = [("near", x) for x in vals]
            elif form == "qtylist":
                o = OTHER.get(unit, "percent")
                f = us.factor(unit or "")/us.factor(o)
                given = [Quantity(x*f, o) if n else x for x, n in zip(vals, nans)]
                if len(shape) == 1:
                    expect = [("near", x) if n else x for x, n in zip(vals, nans)]
                else:
                    given = arr
            elif form == "nan":
                given = np.where(np.array(nans).reshape(shape), np.nan, arr)
                expect = [None if n else x for x, n in zip(vals, nans)]
                if all(nans) and not w.present(s, i):
                    continue
            elif form == "readonly":
                given = arr.copy()
                given.flags.writeable = False
            elif form == "object":
                given = np.array(vals, object).reshape(shape)
            elif form == "fort":
                given = np.asfortranarray(arr)
            else:
                given = arr
            nontrivial |= w.present(s, i)
            w.slots[s][k] = given
            for e, x in zip(es, expect):
                if x is not None:
                    w.models[s][e] = x
            if isinstance(given, np.ndarray):
                w.given.append((given, given.copy()))
        elif kind == "fill":
            _, s, i, val, how = op
            nontrivial |= w.present(s, i)
            w.slots[s][w.whole_key(s, i, how)] = val
            w.models[s].update({e: val for e in elements(i)})
        elif kind == "del":
            _, s, i, how = op
            if not w.present(s, i):
                for k in (w.vars[i], w.keys[i]):
                    try:
                        del w.slots[s][k]
                    except KeyError:
                        continue
                    require(False, "%s: deleting what is not there", what)
                continue
            nontrivial = True
            del w.slots[s][w.whole_key(s, i, how)]
            for e in elements(i):
                w.models[s].pop(e, None)
        elif kind == "delelem":
            _, s, e, how = op
            e = tuple(e)
            if e not in w.models[s]:
                continue
            nontrivial = True
            del w.slots[s][w.elem_key(s, e, how)]
            del w.models[s][e]
        elif kind == "copy":
            _, s, to, how = op
            if how == 0:
                w.slots[to] = KeyDict(w.slots[s])
            elif how == 1:
                new = KeyDict()
                new.update(w.slots[s])
                w.slots[to] = new
            else:
                w.slots[to] = KeyDict(dict(w.slots[s].items()))
            w.models[to] = dict(w.models[s])
        elif kind == "update":
            _, s, to, how = op
            source = w.slots[s]
            if how == 1:
                source = dict(source.items())
            elif how == 2:
                source = list(source.items())
            nontrivial |= bool(w.models[to])
            w.slots[to].update(source)
            w.models[to].update(w.models[s])
        elif kind == "view":
            _, s, e, val = op
            e = tuple(e)
            if not w.present(s, e[0]) or not all(
                    is_num(w.models[s].get(f, 0)) for f in elements(e[0])):
                continue
            arr = w.slots[s][w.keys[e[0]]]
            arr[e[1:]] = val
            w.models[s][e] = val
            nontrivial = True
            # and the other way around
            f = elements(e[0])[0]
            w.slots[s][w.obj(f)] = 4.5
            w.models[s][f] = 4.5
            require(arr[f[1:]] == 4.5, "%s: an array read earlier no longer shows what was set", what)
        elif kind == "mutate":   # the caller changes an array it handed over
            _, which, val = op
            live = [j for j, (a, _) in enumerate(w.given) if a.flags.writeable]
            if not live:
                continue
            arr, _ = w.given[live[which % len(live)]]
            arr.flat[0] = val if arr.dtype.kind in "fO" else 1
            w.given[live[which % len(live)]] = (arr, arr.copy())
        elif kind == "slice":   # several elements at once, only within a model
            _, i, vals, scalar = op
            if len(POOL[i][2]) == 1:
                part, es, vals = w.vars[i][1:], elements(i)[1:], vals[1:]
            else:
                part, es, vals = w.vars[i][:, 0], elements(i), vals
                es = [e for e in es if e[2] == 0]
                vals = vals[:len(es)]
            if scalar:
                w.slots[0][part] = vals[0]
                w.models[0].update({e: vals[0] for e in es})
            else:
                w.slots[0][part] = np.array(vals, float)
                w.models[0].update(dict(zip(es, vals)))
        elif kind == "read":
            pass
        else:   # through a pickle, as numbers only
            _, s = op
            if not all(is_num(x) for x in w.models[s].values()):
                continue
            old = w.slots[s]
            w.slots[s] = pickle.loads(pickle.dumps(old))
            if op[1] == 2:
                w.slots[s] = copy.deepcopy(old)
        if case["every"]:
            for s in range(NSLOTS):
                check(w, s, what)
    for s in range(NSLOTS):
        check(w, s, "history %s" % case["ops"])
    return Info(nontrivial, labels)


CHECKS = {"history": {"strategy": cases(), "run": run, "quick": 2000, "thorough": 30000}}
