"C14: variables' identity, lookups by name, and naming/vectorizing environments."
import pickle
from collections import defaultdict

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require

RULE = ("A case is a program of nested environments, models, declarations and exceptions;"
        " non-trivial when the same name was declared in at least two places or twice in one.")
ASSUMPTIONS = ("an interpreter of the same program as the model",)

NAMES = ["x", "x", "y", "v", "v[1]", "x[0]", "A.x", "A", "x0", "A1.x", "0"]
ENVS = ["A", "A", "B", "A1", "x", "A.B"]
UNITS = ["", "", "", "m", "ft", "s", "kg*m/s**2", "newton*meter/second", "N"]
SHAPES = [(), (), (2,), (3,), (1,), (2, 2)]


class Boom(Exception):
    "Raised by a program."


@st.composite
def body(draw, depth, inmodel):
    "Statements."
    out = []
    for _ in range(draw(st.integers(1, 4))):
        kinds = ["var", "var", "var"]
        if depth:
            kinds += ["named", "vectorize", "model", "model", "twice"]
        kind = draw(st.sampled_from(kinds + ["reset", "bad", "copy"]
                                    if draw(st.integers(0, 5)) == 0 else kinds))
        if kind == "var":
            out.append(["var", draw(st.sampled_from(NAMES + [None])), draw(st.sampled_from(UNITS)),
                        list(draw(st.sampled_from(SHAPES))), draw(st.sampled_from(
                            ["", "", "label", "value", "constant", "key"])), draw(st.booleans())])
        elif kind == "bad":
            out.append(["bad", draw(st.booleans())])
        elif kind == "reset":
            out.append(["reset"])
        elif kind == "copy":
            out.append(["copy", draw(st.integers(0, 9))])
        else:
            sub = draw(body(depth-1, inmodel or kind == "model"))
            boom = draw(st.sampled_from([None, None, None, None, 0, 1, 2]))
            catch = draw(st.booleans())
            arg = draw(st.integers(1, 3) if kind == "vectorize" else st.sampled_from(ENVS))
            out.append([kind, arg, sub, boom, catch, draw(st.booleans())])
    return out


@st.composite
def cases(draw):
    "A program, and what to look up."
    return {"body": draw(body(3, False)), "first": draw(st.integers(0, 3)),
            "pick": draw(st.lists(st.booleans(), min_size=14, max_size=14)),
            "absent": draw(st.sampled_from(["nothere", "A.nothere", "x[7]", "v[9]", "B.v", "0"])),
            "inside": draw(st.sampled_from([None, None, "named", "vectorize"])),
            "route": draw(st.sampled_from(["model", "list", "nested", "dict"]))}


class Interp:
    "Runs a program in gpkit and in the model at once."
    def __init__(self):
        self.lineage, self.counts, self.shape = (), defaultdict(int), ()
        self.made = []      # (real variable or array, [(identity, index)], lineage, shape)
        self.models = []    # (real model, identities it has to have)
        self.frames = [[]]  # used variables and models of the enclosing setups
        self.direct = [set()]
        self.unnamed = 0
        self.envs = {}      # reused environment objects
        self.labels, self.shapes = set(), defaultdict(set)

    def check(self, where):
        "The naming state is what it should be."
        from gpkit import NamedVariables
        from gpkit.globals import Vectorize
        require(tuple(NamedVariables.lineage) == self.lineage, "%s: the lineage is %s; it should be %s",
                where, NamedVariables.lineage, self.lineage)
        require(tuple(Vectorize.vectorization) == self.shape, "%s: the vectorization is %s; it should"
                " be %s", where, Vectorize.vectorization, self.shape)

    def enter(self, name):
        num = self.counts[(self.lineage, name)]
        self.counts[(self.lineage, name)] += 1
        self.lineage += ((name, num),)

    def run(self, stmts, boom=None):
        "Executes a body."
        for i, s in enumerate(stmts):
            if boom is not None and i == boom:
                self.labels.add("exception")
                raise Boom
            try:
                getattr(self, "do_" + s[0])(*s[1:])
            except Boom:
                self.check("after an exception in %s" % s[0])
                raise
            self.check("after %s" % s[0])
        if boom is not None and boom >= len(stmts):
            self.labels.add("exception")
            raise Boom

    def do_reset(self):
        from gpkit import NamedVariables
        self.counts.clear()
        NamedVariables.reset_modelnumbers()
        self.labels.add("reset")

    def do_bad(self, catch):
        "A declaration that fails."
        from gpkit import VectorVariable
        try:
            VectorVariable(2, "x", np.array([[1.0, 2.0, 3.0]]*5))
            require(False, "a value of another shape than the vector's was accepted")
        except ValueError:
            if not catch:
                raise Boom from None

    def do_var(self, name, unit, shape, extra, used):
        from gpkit import Variable, VectorVariable
        full = tuple(shape) + self.shape
        if name is not None:
            seen = self.shapes[(name, self.lineage, unit)]
            seen.add((full, extra == "value"))
            if len({f for f, _ in seen}) > 1 and any(v for _, v in seen):
                raise Discard  # the same variable in two shapes
        args = ([name] if name is not None else [])
        kw = {}
        if unit:
            if name is None:
                kw["units"] = unit
            else:
                args.append(unit)
        if extra == "label" and len(args) == 2:
            args.append("a label")
        elif extra == "value":
            kw["value"] = 2.0 if not full else np.full(full, 2.0)
        elif extra == "constant":
            kw["someattribute"] = 3
        if shape:
            v = VectorVariable(tuple(shape) if len(shape) > 1 else shape[0], *args, **kw)
        else:
            v = Variable(*args, **kw)
        if name is None:
            self.unnamed += 1
            name = ("unnamed", self.unnamed)
        self.record(v, name, unit, full, used)
        if extra == "key" and not full and not self.shape:  # the same one again
            self.record(Variable(v.key), name, unit, full, used)

    def do_copy(self, i):
        "Unpickled keys are the same variables."
        from gpkit import Variable
        scalars = [m for m in self.made if not m[3]]
        if scalars and not self.shape:
            v, ids, lineage, _ = scalars[i % len(scalars)]
            w = Variable(pickle.loads(pickle.dumps(v.key)))
            self.made.append((w, ids, lineage, ()))
            self.labels.add("unpickled")

    def record(self, v, name, unit, full, used):
        require(np.shape(v) == full if full else not np.shape(v), "%s was declared with shape %s in a"
                " vectorization of %s but has %s", name, full, self.shape, np.shape(v))
        if full:
            ids = [((name, self.lineage, ix, unit), ix) for ix in np.ndindex(*full)]
        else:
            ids = [((name, self.lineage, None, unit), None)]
        for ident, ix in ids:
            key = (v[ix] if ix is not None else v).key
            require(tuple(key.lineage or ()) == self.lineage, "%s was created in %s but carries %s", key,
                    self.lineage, key.lineage)
            require((tuple(key.idx) if key.idx else None) == ix, "%s should have index %s", key, ix)
            require(isinstance(name, tuple) or key.name == name, "%r should be called %r", key.name, name)
        self.made.append((v, ids, self.lineage, full))
        self.direct[-1] |= {ident for ident, _ in ids}
        if used:
            self.frames[-1].append(("var", v, {ident for ident, _ in ids}, unit))

    def env(self, kind, arg, reuse):
        "An environment, perhaps one that has been used."
        from gpkit import NamedVariables
        from gpkit.globals import Vectorize
        make = NamedVariables if kind == "named" else Vectorize
        if not reuse:
            return make(arg)
        if (kind, arg) in self.envs:
            self.labels.add("reused environment")
        return self.envs.setdefault((kind, arg), make(arg))

    def caught(self, fn, catch):
        "Runs and maybe swallows a Boom."
        before = self.lineage, self.shape, len(self.frames)
        try:
            fn()
        except Boom:
            self.lineage, self.shape = before[:2]
            del self.frames[before[2]:], self.direct[before[2]:]
            if not catch:
                raise
        self.lineage, self.shape = before[:2]

    def do_named(self, name, stmts, boom, catch, reuse):
        def fn():
            with self.env("named", name, reuse):
                self.enter(name)
                # what is declared in here is no model's own
                self.direct.append(set())
                self.frames.append(self.frames[-1])
                self.check("in named %s" % name)
                self.run(stmts, boom)
                self.frames.pop()
                self.direct.pop()
        self.caught(fn, catch)

    def do_vectorize(self, n, stmts, boom, catch, reuse):
        def fn():
            with self.env("vectorize", n, reuse):
                self.shape = (n,) + self.shape
                self.labels.add("vectorized")
                self.check("in vectorize %s" % n)
                self.run(stmts, boom)
        self.caught(fn, catch)

    def do_twice(self, name, stmts, boom, catch, reuse):
        self.do_model(name, stmts, None, catch, reuse)
        self.do_model(name, stmts, boom, catch, reuse)

    def do_model(self, name, stmts, boom, catch, reuse):
        from gpkit import Model

        def setup(this):
            self.enter(name)
            self.frames.append([])
            self.direct.append(set())
            self.check("in model %s" % name)
            self.run(stmts, boom)
            return constraints(self.frames[-1])

        def fn():
            model = type(name, (Model,), {"setup": setup})()
            used, own = self.frames.pop(), self.direct.pop()
            require(tuple(model.lineage) == self.lineage, "a model created in %s carries %s", self.lineage,
                    model.lineage)
            want = own.union(*(u[2] for u in used))
            have = {self.ident(k) for k in model.vks}
            require(have == want, "model %s has variables %s; it should have %s", self.lineage, have, want)
            self.models.append((model, want))
            if reuse:
                self.outer = ("model", model, want, None)
            else:
                self.outer = None
        self.outer = None
        self.caught(fn, catch)
        if self.outer:
            self.frames[-1].append(self.outer)
            self.labels.add("submodel")

    def ident(self, key):
        "Identity tuple of one of gpkit's keys, by the attributes it carries."
        name = key.name
        if name not in NAMES:  # find it by its object: unnamed ones
            found = {ident for v, ids, _, _ in self.made for ident, ix in ids
                     if isinstance(ident[0], tuple)
                     and (v if ix is None else v[ix]).key.name == name}
            for ident in found:
                if ident[2] == (tuple(key.idx) if key.idx else None):
                    return ident
            require(False, "a model has %s, which was never declared", key)
        return (name, tuple(key.lineage or ()), tuple(key.idx) if key.idx else None,
                key.unitrepr if key.unitrepr != "-" else "")


def constraints(used):
    "Constraints with all of these."
    from gpkit import units
    out = []
    for kind, v, _, unit in used:
        out.append(v if kind == "model" else (v >= 1*units(unit) if unit else v >= 1))
    return out


def strings(ident):
    "Everything a variable can be looked up by."
    name, lineage, ix, _ = ident
    path = ".".join([n for n, _ in lineage] + [name])
    idx = "[%s]" % ",".join(map(str, ix)) if ix is not None else ""
    return {name, path, path + idx}


def run(case):
    "One program, then identities and lookups."
    from gpkit import Model
    t = Interp()
    for name in ENVS[:case["first"]]:  # a history
        from gpkit import NamedVariables
        with NamedVariables(name):
            t.enter(name)
        t.lineage = ()
    try:
        t.run(case["body"])
    except Boom:
        t.lineage, t.shape = (), ()
        del t.frames[1:], t.direct[1:]
    t.check("at the end")
    elems = []
    for v, ids, _, full in t.made:
        elems += [(ident, v if ix is None else v[ix]) for ident, ix in ids[:6]]
    names = [e[0][0] for e in elems]
    nontrivial = len({e[0] for e in elems}) > len(set(names)) or len(elems) > len({e[0] for e in elems})
    identities(elems[:28], Model)
    if case["inside"]:  # where a lookup is made is of no consequence
        with t.env(case["inside"], "A" if case["inside"] == "named" else 2, False):
            lookups(case, t)
    else:
        lookups(case, t)
    return Info(nontrivial, sorted(t.labels))


def identities(elems, Model):
    "Pairwise."
    for i, (ia, a) in enumerate(elems):
        for ib, b in elems[:i]:
            same = ia == ib
            what = "%s and %s" % (ia, ib)
            require((a.key == b.key) is same, "%s: keys %sequal", what, "un" if same else "")
            require((a.key != b.key) is not same, "%s: keys %sdifferent", what, "" if same else "not ")
            require(not same or hash(a.key) == hash(b.key), "%s: hashes differ", what)
            require(len({a.key: 1, b.key: 2}) == 2-same, "%s: as keys of a dictionary", what)
            (exp,) = (a*b).hmap
            require(sorted(exp.values()) == ([2] if same else [1, 1]), "%s: product has exponents %s",
                    what, exp)
            if ia[3] == ib[3]:
                require(len((a+2*b).hmap) == 2-same, "%s: the sum is %s", what, a+2*b)
                require(bool(a == b) is same if same else not (isinstance(a == b, bool) and a == b),
                        "%s: comparing the variables", what)


def lookups(case, t):
    "By name, in a model of some of it."
    from gpkit import Model, ConstraintSet
    parts, want, first = [], set(), None
    pool = t.models + [(v, {i for i, _ in ids}) for v, ids, _, _ in t.made]
    shapes = {}
    for pick, (obj, ids) in zip(case["pick"]*5, pool):
        if not pick:
            continue
        parts.append(("model", obj, ids, None) if hasattr(obj, "vks") and isinstance(obj, ConstraintSet)
                     else ("var", obj, ids, next(iter(ids))[3]))
        want |= ids
    if not want:
        raise Discard
    # same name, place and units but different shapes: what is looked up is not specified
    for v, ids, lineage, full in t.made:
        if shapes.setdefault(ids[0][0][:2] + ids[0][0][3:], full) != full:
            raise Discard
    cons = constraints(parts)
    if case["route"] == "list":
        cons = [cons[:1], [cons[1:]]]
    elif case["route"] == "nested":
        cons = [ConstraintSet(cons[:1]), ConstraintSet([ConstraintSet(cons[1:])])]
    elif case["route"] == "dict":
        cons = {"first": cons[:1], "rest": cons[1:]} if cons[1:] else {"first": cons}
    m = Model(None, cons)
    have = [t.ident(k) for k in m.vks]
    require(len(have) == len(set(have)) and set(have) == want, "a model has variables %s; it should"
            " have %s", sorted(map(str, have)), sorted(map(str, want)))
    table = defaultdict(set)
    for ident in want:
        if not isinstance(ident[0], tuple):
            for s in strings(ident):
                table[s].add(ident)
    for s in sorted(table) + ["nothere", case["absent"]]*2:
        expect = table.get(s, set())
        found = [t.ident(v.key) for v in m.variables_byname(s)]
        require(len(found) == len(set(found)) and set(found) == expect, "variables_byname(%r) gives %s;"
                " the model has %s of that name", s, found, sorted(map(str, expect)))
        require((s in m.varkeys) is bool(expect), "%r in varkeys is %s; it has %s", s, s in m.varkeys,
                sorted(map(str, expect)))
        vectors = {e[:2] + e[3:] for e in expect}
        vector = len(vectors) == 1 and next(iter(expect))[2] is not None
        single = vector and len(expect) == 1 and s not in strings(next(iter(expect))[:2] + (None, ""))
        if expect and not vector and len(expect) > 1 or len(vectors) > 1 or not expect:
            error = ValueError if expect else KeyError
            for what, fn in (("m[%r]", lambda s=s: m[s]),
                             ("substitutions[%r] = 2", lambda s=s: m.substitutions.update({s: 2}))):
                before = dict(m.substitutions)
                try:
                    got = fn()
                    require(False, what + " gives %r; it should be a%s", s, got,
                            "n ambiguity" if expect else "bsent")
                except error:
                    pass
                require(dict(m.substitutions) == before, "a failed substitution changed %s to %s", before,
                        m.substitutions)
            continue
        got = m[s]
        if vector and not single:
            require(np.shape(got) == shapes[next(iter(vectors))], "m[%r] has shape %s", s, np.shape(got))
            for ix in np.ndindex(*np.shape(got)):
                e = got[ix]
                ident = [i for i in expect if i[2] == ix]
                if ident:
                    require(hasattr(e, "key") and t.ident(e.key) == ident[0], "m[%r]%s is %s; it should be"
                            " %s", s, ix, e, ident[0])
                else:
                    require(not hasattr(e, "key"), "m[%r]%s is %s, which is not in the model", s, ix, e)
        else:
            require(hasattr(got, "hmap") and t.ident(got.key) in expect, "m[%r] is %s; it should be"
                    " %s", s, got, expect)
        substitute(t, m, s, expect, want, vector)
    # by the variable itself: no ambiguity
    for v, ids, _, full in t.made:
        for ident, ix in ids[:3]:
            e = v if ix is None else v[ix]
            for key in (e, e.key):
                require((key in m.varkeys) is (ident in want), "%s in varkeys is %s", ident, key in m.varkeys)
                try:
                    got = m[key]
                except KeyError:
                    got = None
                if ident in want:
                    require(got is not None and t.ident(got.key) == ident, "looking up %s gives %s", ident,
                            got)
                else:
                    require(got is None, "looking up %s, which the model lacks, gives %s", ident, got)


def substitute(t, m, s, expect, want, vector):
    "By a name that is not ambiguous."
    before = dict(m.substitutions)
    if before:
        return  # had values
    m.substitutions[s] = 7.0
    for k in m.vks:
        ident = t.ident(k)
        val = m.substitutions[k] if k in m.substitutions else None
        if ident in expect:
            require(val == 7.0, "after substitutions[%r] = 7, %s has value %s", s, ident, val)
        else:
            require(val is None, "after substitutions[%r] = 7, %s has value %s", s, ident, val)
    del m.substitutions[s]
    left = {k: v for k, v in m.substitutions.items() if not np.all(np.isnan(np.array(v, float)))}
    require(not left, "after deleting %r again the substitutions are %s", s, left)


CHECKS = {"names": {"strategy": cases(), "run": run, "quick": 700, "thorough": 8000}}
