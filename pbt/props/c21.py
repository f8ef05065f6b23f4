"C21: variables and bounds declared in docstrings."
import importlib.util
import itertools
import linecache
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st

from ..core import Info, require, scratch

RULE = ("declared: a docstring declaring at least two variables, non-trivial when it has vectors, constants or values;"
        " bounds: a model whose constraints bound some variables, non-trivial when it has both equalities and statements"
        " of unbounded variables.")
ASSUMPTIONS = ("a variable is bounded above (below) by an inequality in which it has a positive (negative) power on the smaller"
               " side, by having a value, or by an equality whose other variables are suitably bounded",)

# ---------------------------------------------------------------- declarations
SCALARS = ["A", "AA", "V", "V_inf", "x1", "x", "S", "mdot", "lam", "Variable1"]
UNITS = ["-", "", "m", "m^2", "N/m", "kg*m/s^2", "1/s", "ft", "lbf", "L", "m**2", "inch"]
VALUES = [("100", 100), ("1e-3", 1e-3), (".5", 0.5), ("2*pi", 2*math.pi), ("HALF", 0.5), ("n", None), ("n**2", None), ("1/3", 1/3),
          ("3", 3), ("max(n,2)", None)]
LABELS = ["", "surface area", "it's wide", 'the "span"', "velocity ('V')", "of a Variable('x')", "angle \\alpha", "\\nu [rad]",
          "a # b", "{braces}", "50% more", "see [1], [2]", "C:\\new\\table", "ends in quote'", "number 4 [-]", "naïve π"]
PROSE = ["Words about the model.", "It has many Variables.", "A [m] is not declared here", "1. Variables are: V", "Unrelated"]
STYLES = ["plain", "multiline", "documented", "comments", "nested"]


@st.composite
def labels(draw):
    "A label."
    if draw(st.booleans()):
        return draw(st.sampled_from(LABELS))
    return draw(st.text("ab ()[]'\\#,.%{}=:;", max_size=12)).strip()


@st.composite
def declared(draw):
    "A docstring with sections of variables."
    names = draw(st.permutations(SCALARS))
    used, sections = 0, []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["Variables", "Variables", "Constants", "vec"]))
        entries = []
        for _ in range(draw(st.integers(1, 3))):
            if used >= len(names):
                break
            value = None
            if kind == "vec":
                value = draw(st.sampled_from([None, None, "VALS"]))
            elif draw(st.booleans()):
                value = draw(st.integers(0, len(VALUES)-1))
            entries.append({"name": names[used], "value": value, "unit": draw(st.sampled_from(UNITS)), "label": draw(labels()),
                            "gaps": draw(st.tuples(st.sampled_from([" ", "   ", "\t"]), st.sampled_from([" ", "  "]),
                                                   st.sampled_from([" ", "   ", ""]), st.sampled_from(["", "", " ", "   "])))})
            used += 1
        if entries:
            sections.append({"kind": kind, "title": draw(st.sampled_from(["", "", "Aero ", "Other unknown "])), "entries": entries,
                             "length": draw(st.sampled_from(["2", "3", "n"])), "prose": draw(st.sampled_from([""] + PROSE)),
                             "blank": draw(st.sampled_from(["", "   "]))})
    return {"sections": sections, "indent": draw(st.sampled_from([4, 4, 0, 8])), "style": draw(st.sampled_from(STYLES)),
            "n": draw(st.integers(2, 4)), "vec": draw(st.sampled_from([0, 0, 0, 2])), "twice": draw(st.booleans()),
            "bad": draw(st.sampled_from([None]*6 + ["units", "fields"]))}


def docstring(case):
    "As text."
    lines, pad = ["A model"], " "*case["indent"]
    lines.append("")
    for sec in case["sections"]:
        title = ("Variables of length %s" % sec["length"]) if sec["kind"] == "vec" else sec["title"] + sec["kind"]
        lines += [pad + title, pad + "-"*len(title)]
        for e in sec["entries"]:
            value = "" if e["value"] is None else _vals(sec) if e["value"] == "VALS" else VALUES[e["value"]][0]
            lines.append(pad + e["name"] + e["gaps"][0] + (value + e["gaps"][1] if value else "") + "[%s]" % e["unit"]
                         + (e["gaps"][2] if e["label"][:1] != " " else "") + e["label"] + e["gaps"][3])
        lines.append(sec["blank"])
        if sec["prose"]:
            lines += [pad + sec["prose"], ""]
    if case["bad"]:
        last = max(i for i, l in enumerate(lines) if l.strip() and i < len(lines) and "[" in l and l.strip() not in PROSE)
        if case["bad"] == "units":
            lines.insert(last, pad + "bad_one  1   label")
        else:
            lines.insert(last, pad + "bad_one  1 2 [m]  label")
    return "\n".join(lines) + "\n" + pad


def _vals(sec):
    "The module's list of that length."
    return "VALS_%s" % sec["length"] if sec["length"] != "n" else "list(range(1,n+1))"


BODIES = {
    "plain": ["def setup(self, n):", "", "    self.local = dict({NAMES})", "    self.total = n + 1", "    return []"],
    "multiline": ["def setup(self, n,", "          other=1):", "    self.local = dict({NAMES})", "    self.total = n + other",
                  "    return []"],
    "documented": ["def setup(self, n):", '    "Sets it up."', "    self.local = dict({NAMES})", "    self.total = n + 1", "    return []"],
    "comments": ["def setup(self, n):  # sets it up", "    # a comment: here", "    self.local = dict({NAMES})", "",
                 "    text = '# not): one'", "    self.total = n + len(text[:1])", "    return []"],
    "nested": ["def setup(self, n):", "    if n:", "        def inner(x):", "            return x + 1", "        self.total = inner(n)",
               "    self.local = dict({NAMES})", "    return []"]}
COUNT = itertools.count()


def module(case):
    "The text of a module with such a model."
    names = [e["name"] for s in case["sections"] for e in s["entries"]]
    body = [l.replace("{NAMES}", ", ".join("%s=%s" % (n, n) for n in names)) for l in BODIES[case["style"]]]
    return "\n".join([
        "from math import pi", "from gpkit import Model, parse_variables", "HALF = 0.5", "VALS_2 = [1.5, 2]", "VALS_3 = [1, 20, 0.3]",
        "", "", "class Doc(Model):", '    r"""' + docstring(case) + '"""', "    @parse_variables(__doc__, globals())"]
        + ["    " + l if l else "" for l in body]) + "\n"


def load(text):
    "As a module."
    name = "pbt_doc_%i" % next(COUNT)
    path = os.path.abspath(name + ".py")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.modules.pop(name, None)
        linecache.cache.pop(path, None)
    return mod


def run_declared(case):
    "Each variable is as written."
    from gpkit import Vectorize, ureg
    with scratch():
        sys.dont_write_bytecode, keep = True, sys.dont_write_bytecode
        try:
            try:
                mod = load(module(case))
            except ValueError as exc:
                require(case["bad"], "%s: %s", docstring(case), exc)
                require("bad_one" in str(exc), "%s: the error doesn't name the line: %s", docstring(case), exc)
                return Info(False, ["malformed"])
            require(not case["bad"], "%s: a malformed line raised no error", docstring(case))
        finally:
            sys.dont_write_bytecode = keep
        outer = (case["vec"],) if case["vec"] else ()
        models = []
        for _ in range(1 + case["twice"]):
            if outer:
                with Vectorize(case["vec"]):
                    models.append(mod.Doc(case["n"]))
            else:
                models.append(mod.Doc(case["n"]))
    doc = docstring(case)
    kinds = set()
    for num, m in enumerate(models):
        require(m.total == case["n"] + 1, "%s: the rest of setup was changed: %s", doc, m.total)
        expected = set()
        for sec in case["sections"]:
            length = case["n"] if sec["length"] == "n" else int(sec["length"])
            for e in sec["entries"]:
                shape = ((length,) if sec["kind"] == "vec" else ()) + outer
                value = expectation(e, sec, case)
                kinds.update([sec["kind"]] + ["value"]*(value is not None))
                expected.update((e["name"], idx) for idx in itertools.product(*map(range, shape)))
                check_variable(m, e, sec, shape, value, num, doc, ureg)
        got = {(k.name, k.idx or ()) for k in m.varkeys}
        require(got == expected, "%s: declares %s, but the model has %s", doc, sorted(expected), sorted(got))
    n = sum(len(s["entries"]) for s in case["sections"])
    return Info(n >= 2 and len(kinds) > 1, sorted(kinds) + [case["style"], "indent%i" % case["indent"]], doc)


def expectation(e, sec, case):
    "Its value."
    if e["value"] is None:
        return None
    if e["value"] == "VALS":
        return {"2": [1.5, 2], "3": [1, 20, 0.3], "n": list(range(1, case["n"]+1))}[sec["length"]]
    text, value = VALUES[e["value"]]
    return {"n": case["n"], "n**2": case["n"]**2, "max(n,2)": max(case["n"], 2)}[text] if value is None else value


def check_variable(m, e, sec, shape, value, num, doc, ureg):
    "One of a model."
    var = getattr(m, e["name"], None)
    where = "%s: %s" % (doc, e["name"])
    require(hasattr(var, "key"), "%s isn't a variable of the model: %r", where, var)
    require(m.local[e["name"]] is var, "%s in setup is %r", where, m.local[e["name"]])
    require(np.shape(var) == shape, "%s: shape %s, not %s", where, np.shape(var), shape)
    keys = [v.key for v in var.flat] if shape else [var.key]
    require(len(set(keys)) == max(1, math.prod(shape)), "%s: elements %s", where, keys)
    unit = e["unit"] if e["unit"] not in ("-", "") else None
    for k in keys + [var.key]:
        require(k.name == e["name"] and (k.label or "") == e["label"], "%s: named %r and labelled %r, not %r", where, k.name, k.label,
                e["label"])
        require(k.lineage == (("Doc", num),), "%s: lineage %s", where, k.lineage)
        if unit is None:
            require(k.units is None, "%s: in %s", where, k.units)
        else:
            ratio = k.units/ureg.parse_expression(unit)
            require(ratio.dimensionless and abs(ratio.to("dimensionless").magnitude-1) < 1e-12, "%s: in %s", where, k.units)
        require(bool(k.constant) == (sec["kind"] == "Constants"), "%s: constant is %s", where, k.constant)
    if value is None:
        require(var.key not in m.substitutions and not any(k in m.substitutions for k in keys), "%s: has a value", where)
    else:
        want = np.broadcast_to(np.reshape(value, np.shape(value) + (1,)*(len(shape)-np.ndim(value))), shape)
        got = np.array(m.substitutions[var.key], dtype=float)
        require(got.shape == shape and np.allclose(got, want, rtol=1e-15, atol=0), "%s: %s, not %s", where, got, want)
    named = m[e["name"]]
    require(named.key == var.key, "%s: the model's is %r", where, named)


# ---------------------------------------------------------------- bounds
OWN = ["a", "b", "c", "d", "e_1"]


@st.composite
def bounds(draw):
    "Constraints among variables, some of them fixed, and a statement about bounds."
    n = draw(st.integers(1, 5))
    names = OWN[:n] + (["v0", "v1"] if draw(st.integers(0, 2)) == 0 else []) + (["s", "t"] if draw(st.integers(0, 2)) == 0 else [])
    term = st.lists(st.tuples(st.sampled_from(names), st.sampled_from([1, 1, 2, -1, 0.5, -2])), min_size=1, max_size=3)
    con = st.one_of(st.tuples(st.just("<="), st.lists(term, min_size=1, max_size=2), term),
                    st.tuples(st.just("<="), st.lists(term, min_size=1, max_size=2), st.just([])),
                    st.tuples(st.just("="), term.map(lambda t: [t]), term), st.tuples(st.just("="), term.map(lambda t: [t]), st.just([])))
    return {"names": names, "cons": draw(st.lists(con, min_size=1, max_size=6)),
            "fixed": draw(st.lists(st.tuples(st.sampled_from(OWN[:n] + ["v", "V"]), st.sampled_from(["value", "subs", "constant"])), max_size=2)),
            "how": draw(st.sampled_from(["exact", "exact", "minimal", "drop", "extra", "random"])),
            "truth": draw(st.integers(0, 11)) % 7 % 6,
            "pick": draw(st.lists(st.integers(0, 30), min_size=4, max_size=4)), "outside": draw(st.integers(0, 4)) == 0,
            "wrap": draw(st.sampled_from([False, False, True])),
            "form": draw(st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans()))}


def closure(bounded, equalities):
    "All bounds, given these."
    bounded = set(bounded)
    grew = True
    while grew:
        grew = False
        for eq in equalities:
            for v, e in eq.items():
                for d in (1, -1):
                    # v is bounded in direction d if each other is in the direction that forces it
                    need = [(w, d if (f > 0) != (e > 0) else -d) for w, f in eq.items() if w != v]
                    if (v, d) not in bounded and all(b in bounded for b in need):
                        bounded.add((v, d))
                        grew = True
    return bounded


def ratio(left, right):
    "Exponents."
    out = {}
    for sign, terms in ((1, left), (-1, right)):
        for v, e in terms:
            out[v] = out.get(v, 0) + sign*e
    return {v: e for v, e in out.items() if e}


def run_bounds(case):
    "Creating the model succeeds if and only if the statement is right."
    from gpkit import Model, Variable, VectorVariable
    from gpkit.exceptions import PrimalInfeasible
    names = case["names"]
    vec, sub = "v0" in names, "s" in names
    fixed = {}
    for name, how in case["fixed"]:
        if name in ("v", "V"):
            if vec and "v0" not in fixed:
                fixed["v0"] = (name, how)
                if name == "v" or how != "subs":
                    fixed["v1"] = (name, how)
        elif name in names:
            fixed.setdefault(name, (name, how))
    base, equalities = set(), []
    for v in fixed:
        base.update([(v, 1), (v, -1)])
    for oper, lefts, right in case["cons"]:
        exps = [ratio(left, right) for left in lefts]
        if oper == "=":
            if exps[0]:
                equalities.append(exps[0])
        else:
            base.update((v, 1 if e > 0 else -1) for ex in exps for v, e in ex.items())
    bounded = closure(base, equalities)
    every = {(v, d) for v in names for d in (1, -1)}
    true = every - bounded
    # what's stated: attributes, of which v has both elements'
    attrs = [n for n in names if n[0] != "v"] + (["v"] if vec else [])
    parts = {a: ["v0", "v1"] if a == "v" else [a] for a in attrs}
    can = [(a, d) for a in attrs for d in (1, -1)]
    stated = [(a, d) for a, d in can if all((p, d) in true for p in parts[a])]
    if case["how"] == "minimal":
        for s in list(stated):
            rest = [x for x in stated if x != s]
            if closure(bounded | {(p, d) for a, d in rest for p in parts[a]}, equalities) >= every:
                stated = rest
    elif case["how"] == "drop" and stated:
        stated.pop(case["pick"][0] % len(stated))
    elif case["how"] == "extra":
        stated = sorted(set(stated) | {can[case["pick"][0] % len(can)]})
    elif case["how"] == "random":
        stated = sorted({can[i % len(can)] for i in case["pick"]})
    claim = {(p, d) for a, d in stated for p in parts[a]}
    wrong = claim & bounded
    missing = every - closure(bounded | claim, equalities)
    doc = statement(case, stated)

    class Sub(Model):
        "Without a statement"
        def setup(self):
            self.s = s = Variable("s")
            self.t = t = Variable("t")
            return []

    def setup(self):
        objs = {}
        for name in names:
            if name[0] == "v" or name in ("s", "t"):
                continue
            how = fixed.get(name, (None, None))[1]
            if how in ("value", "constant"):
                objs[name] = Variable(name, 0.5, constant=how == "constant")
            else:
                objs[name] = Variable(name)
            setattr(self, name, objs[name])
        subs = {objs[n]: 0.5 for n, (_, how) in fixed.items() if how == "subs" and n in objs}
        if vec:
            which, how = fixed.get("v0", (None, None))
            self.v = VectorVariable(2, "v", [0.5, 0.25], constant=how == "constant") if how in ("value", "constant") else VectorVariable(2, "v")
            if how == "subs":
                subs[self.v] = [0.5, 0.25] if which == "v" else [0.5, np.nan]
            objs["v0"], objs["v1"] = self.v
        kids = []
        if sub:
            self.sub = Sub()
            kids = [self.sub]
            objs["s"], objs["t"] = self.sub.s, self.sub.t
        self.on, self.off = TRUTHS[case["truth"] % len(TRUTHS)]
        self.outside = outside

        def mono(t, c=1.0):
            out = c
            for v, e in t:
                out = out*objs[v]**e
            return out
        cons = []
        for oper, lefts, right in case["cons"]:
            if oper == "=":
                cons.append(mono(lefts[0]) == mono(right))
            else:
                cons.append(sum(mono(t, 1e-3) for t in lefts) <= mono(right))
        if case["wrap"]:
            cons = [cons[:1], {"rest": cons[1:]}]
        return (kids + cons, subs) if subs else kids + cons

    outside = Variable("outside")
    where = "names %s, fixed %s, constraints %s, stating%s" % (names, fixed, case["cons"], doc)
    build = lambda text: type("Doc", (Model,), {"setup": setup, "__doc__": text})()
    shown = {"v0": "v[0]", "v1": "v[1]", "s": "Sub.s", "t": "Sub.t"}
    full = lambda p: "Doc." + shown.get(p, p)
    try:
        build(doc)
    except PrimalInfeasible:
        from ..core import Discard
        raise Discard
    except ValueError as exc:
        text = str(exc)
        require("while verifying" in text, "%s: raised %s", where, text)
        require(wrong or missing, "%s: is right, but raises\n%s", where, text)
        if wrong:
            for d, word in ((-1, "lower"), (1, "upper")):
                line = [l for l in text.split("\n") if "expected %s-unbounded" % word in l]
                bad = {full(p) for p, e in wrong if e == d}
                require(bool(line) == bool(bad), "%s: %s are %s-bounded, but raises\n%s", where, sorted(bad), word, text)
                if line:
                    got = set(line[0].split(" were ")[0].split(" was ")[0].strip().split(", "))
                    require({numberless(g) for g in got} == bad, "%s: %s are %s-bounded, but raises\n%s", where, sorted(bad), word, text)
        else:
            got = {(numberless(l.split(" has no ")[0].strip()), 1 if " has no upper bound" in l else -1) for l in text.split("\n")
                   if " has no " in l}
            bad = {(full(p), d) for p, d in missing}
            require(got == bad, "%s: without bounds are %s, but raises\n%s", where, sorted(bad), text)
            own = {p for p, _ in missing}
            if all(p in OWN for p in own):
                # doing as it's told (with what was stated before) makes it right
                more = statement(case, sorted(set(stated) | missing), plain=True)
                try:
                    build(more)
                except ValueError as again:
                    require(False, "%s: raised\n%s\nbut stating that too raised\n%s", where, text, again)
    else:
        require(not wrong, "%s: but %s are bounded, and that raised no error", where, sorted(wrong))
        require(not missing, "%s: but %s aren't bounded, and that raised no error", where, sorted(missing))
    return Info(bool(equalities) and bool(stated), [case["how"], "wrong" if wrong else "missing" if missing else "right"], doc)


def numberless(text):
    "Without models' numbers."
    return text.replace("Doc1.", "Doc.").replace("Doc2.", "Doc.")


# what conditions may be, besides True and False
TRUTHS = [(True, False), (1, 0), (2.5, None), ("yes", ""), ([0], []), (-3, ())]


def statement(case, stated, plain=False):
    "As a docstring."
    cond, lines, unused, prose = case["form"]
    out = ["Says what's unbounded", ""]
    if prose and not plain:
        out += ["    Bounded by other models are those below", ""]
    else:
        out += ["    Unbounded are:", ""]
    for d, word in ((1, "Upper"), (-1, "Lower")):
        names = [("sub." + a if a in ("s", "t") else a) for a, e in stated if e == d]
        if cond and not plain:
            names = [n + [" (if on)", " (if not off)", ""][i % 3] for i, n in enumerate(names)]
            names += ["a (if off)", "a (if not on)"][:1 + unused]
        if case["outside"] and not plain and d == 1:
            names.append("outside")
        if not names:
            continue
        out += ["    %s Unbounded" % word, "    ---------------"]
        if lines:
            half = max(1, len(names)//2)
            out += ["    " + ", ".join(names[:half])] + (["    " + ",  ".join(names[half:])] if names[half:] else [])
        else:
            out.append("    " + ", ".join(names))
        out.append("")
    return "\n".join(out) + "\n    "


CHECKS = {"declared": {"strategy": declared(), "run": run_declared, "quick": 600, "thorough": 20000},
          "bounds": {"strategy": bounds(), "run": run_bounds, "quick": 1500, "thorough": 50000}}
