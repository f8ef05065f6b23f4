"C19: tables and exported files show the solution's values and do not alter it."
import csv
import math
import os
import re
import sys
import types

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Info, require, scratch
from .. import digest as dg
from .. import solved, tables

RULE = ("outputs: a solution and a sequence of outputs of it, non-trivial when several variables are shown and"
        " some output selects among them; constraints: constraint tables, non-trivial when they list several"
        " constraints of named models.")
ASSUMPTIONS = ("closed-form optima of separable models", "numbers are printed to the digits of gpkit's formats",
               "insensitivities: whether the almost zero ones are listed is not stated", "a stand-in for pandas")
LATEXUNITS = {"": "", "m": "m", "ft": "ft", "kg": "kg", "N/m^2": "Nm2", "hr": "h", "percent": "%"}
SECTIONS = {"freevariables": "Free Variables", "constants": "Fixed Variables", "sweepvariables": "Swept Variables",
            "variables": "Variables"}


@st.composite
def outputs(draw):
    "A model and what is output."
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["table", "table", "table", "latex", "csv", "csv", "mat", "frame", "txt", "summary"]))
        ops.append({
            "op": kind,
            "tables": draw(st.lists(st.sampled_from(
                ["cost", "sweepvariables", "freevariables", "constants", "variables", "sensitivities",
                 "top sensitivities", "insensitivities", "model sensitivities"]), unique=True, min_size=1, max_size=5)),
            "default": draw(st.integers(0, 4)) == 0,
            "show": draw(st.one_of(st.none(), st.none(), st.lists(st.tuples(st.integers(0, 6), st.sampled_from(
                ["name", "full", "variable"])), min_size=1, max_size=3))),
            "models": draw(st.sampled_from([None, None, None, "included", "excluded"])),
            "chosen": draw(st.lists(st.sampled_from(["", "A", "A.B", "C", "Z"]), max_size=2)),
            "sort": draw(st.booleans()), "latex": draw(st.integers(1, 3)), "cols": draw(st.sampled_from([5, 5, 1, 2, 3, 8])),
            "nvars": draw(st.sampled_from([None, 3, 1, 2, 5, 8])),
        })
    return {"model": draw(solved.models(nvars=draw(st.sampled_from([(1, 6), (1, 6), (5, 10)])))), "ops": ops}


class Known:
    "What is known of a solution: `vars` {(model, name): (key, value, unit, label)}, `sections`, `senss`, `cost`."


def known(sol, s, where):
    "Its data, checked against the closed form."
    k = Known()
    k.vars, k.sections, k.bykey = {}, {}, {}
    given = {o.key: e for o, e in zip(s.objs, s.entries)}
    for key, val in sol["variables"].items():
        e = given.get(key)
        model = ".".join(n + (str(i) if i else "") for n, i in key.lineage or ())
        if e:
            unit, label = e["unit"], e["label"]
            i = s.entries.index(e)
            shape = tuple(e["shape"])
            want = np.array([[solved.value(s, i, j, p) for j in range(math.prod(shape))] for p in range(len(s.points))])
            want = want.reshape((len(s.points),) + shape)
            if np.asarray(val).ndim == len(shape):
                want = want[0]
            require(np.allclose(np.nan_to_num(np.asarray(val, dtype=float), nan=-1), np.nan_to_num(want, nan=-1), rtol=2e-3, atol=0)
                    and (model, key.name) == (e["model"], e["name"]),
                    "%s: %s is %s, not %s", where, key, val, want)
        else:
            unit, label = "", {"K_{top}": "holds the rest", "p_{fn}": "computed"}[key.name]
        k.vars[model, key.name] = (key, np.array(val, dtype=float), unit, label)
        k.bykey[key] = (model, key.name)
    for sec in SECTIONS:
        if sec in sol:
            k.sections[sec] = {k.bykey[key]: np.array(v, dtype=float) for key, v in sol[sec].items()}
    fixed = {(e["model"], e["name"]) for i, e in enumerate(s.entries) if e["kind"] == "fixed"}
    swept = {(s.entries[s.swept]["model"], s.entries[s.swept]["name"])} if s.swept is not None else set()
    require(set(k.sections.get("sweepvariables", {})) in (swept, set() if len(s.points) == 1 else swept)
            and fixed - swept <= set(k.sections["constants"]) <= fixed
            and set(k.sections["freevariables"]) == set(k.vars) - fixed, "%s: sections are %s", where, k.sections)
    k.senss = {k.bykey[key]: np.array(v, dtype=float) for key, v in sol["sensitivities"]["variables"].items()
               if key in k.bykey}
    k.models = {str(m): np.array(v, dtype=float) for m, v in sol["sensitivities"]["models"].items()}
    k.cost = np.array(getattr(sol["cost"], "magnitude", sol["cost"]), dtype=float)
    require(np.allclose(k.cost, [solved.costvalue(s, p) for p in range(len(s.points))], rtol=2e-3, atol=0),
            "%s: the cost is %s", where, k.cost)
    return k


def selection(op, s, k):
    "(argument, shown variables or None)"
    if op["show"] is None:
        return (), None
    names, shown = [], set()
    for i, how in op["show"]:
        i %= len(s.entries) + 1
        if i == len(s.entries):
            names.append("K_{top}")
            shown.add(("", "K_{top}"))
            continue
        e = s.entries[i]
        if how == "name":
            names.append(e["name"])
            shown |= {v for v in k.vars if v[1] == e["name"]}
        elif how == "full":
            names.append((e["model"] + "." if e["model"] else "") + e["name"])
            shown |= {(e["model"], e["name"])} if e["model"] else {v for v in k.vars if v[1] == e["name"]}
        else:
            names.append(s.objs[i])
            shown.add((e["model"], e["name"]))
    return names, shown & set(k.vars)


def sameunit(text, unit):
    "Is this the unit's text?"
    from gpkit import units, ureg
    if not text or not unit:
        return not text and not unit
    return abs(ureg.parse_expression(text).to(unit).magnitude-1) < 1e-9 and bool(units(unit))


def check_vars(lines, want, k, where, op, title, *, digits=(4, 3), units=True, tol=0.0, unsure=(), ordered=False):
    "Exactly the wanted variables {(model, name): value}, each once, with its value, unit, and label."
    lineages = {v[0].lineage for v in k.vars.values()}
    hidden = next(iter(k.vars))[0] if len(lineages) == 1 else None
    if op.get("models") and op["op"] in ("table", "latex", "summary"):
        chosen = set(op["chosen"])
        if hidden is not None:
            chosen = chosen & {""}   # models are not distinguished then
            want = want if (op["models"] == "included" or not chosen) else {}
        elif op["models"] == "included":
            want = {v: x for v, x in want.items() if v[0] in chosen | {""}} if chosen else want
        else:
            want = {v: x for v, x in want.items() if v[0] not in chosen}
    got = {}
    seen = []
    for model, name, rest in tables.rows(lines):
        if name is None:
            require(not rest.strip(), "%s: %r in %s", where, rest, title)
            continue
        if hidden is not None:
            require(not model, "%s: model %s in %s", where, model, title)
            model = hidden
        require((model, name) not in got, "%s: %s is listed twice in %s", where, (model, name), title)
        require(model in seen[-1:] or model not in seen, "%s: model %s comes twice in %s", where, model, title)
        seen.append(model)
        got[model, name] = rest
    require(set(got) - set(unsure) == set(want) - set(unsure), "%s: %s lists %s, not %s", where, title, sorted(got),
            sorted(want))
    for v, rest in got.items():
        if v not in want:
            continue
        _, _, unit, label = k.vars[v]
        val = want[v]
        vals, vec, after = tables.numbers(rest)
        require(vec == bool(val.shape), "%s: %s in %s is %r, not %s", where, v, title, rest, val)
        ok = tables.match(tables.grid(rest), val, digits[1], tol) if vec else tables.same(vals[0], float(val), digits[0])
        require(ok, "%s: %s in %s is %r, not %s", where, v, title, rest, val)
        unittext = re.match(r"^\[([^\]]*)\]", after) if units and unit else None
        require(sameunit(unittext.group(1) if unittext else "", unit if units else ""),
                "%s: %s in %s has units %r, not %s", where, v, title, after, unit)
        rest_label = after[unittext.end():].strip() if unittext else after
        require(rest_label == label, "%s: %s in %s is called %r, not %r", where, v, title, rest_label, label)
    if ordered:
        for (a, x), (b, y) in zip(list(got.items()), list(got.items())[1:]):
            if a[0] == b[0] and a in want and b in want:
                x, y = (np.nanmean(np.abs(np.where(np.abs(want[v]) <= tol, np.nan, want[v]) if tol and want[v].shape else want[v]))
                        for v in (a, b))
                require(x >= y*(1-1e-3) - 1e-8, "%s: %s comes before %s in %s", where, a, b, title)
    return got


def chosen_tables(op):
    "Names of the tables, in order."
    if op["default"] and op["op"] == "table":
        return ["cost", "sweepvariables", "model sensitivities", "freevariables", "constants", "sensitivities",
                "tightest constraints"]
    return op["tables"]


def check_text(text, names, op, shown, k, where):
    "A result table's text."
    secs = tables.sections(text)
    titles = [t for t, _ in secs]
    i = 0

    def take(title):
        nonlocal i
        require(i < len(titles) and titles[i].split(" |")[0].split(" (")[0] == title,
                "%s: expected section %r, got %r", where, title, titles[i:])
        i += 1
        return secs[i-1][1]

    def pick(data):
        return data if not shown else {v: x for v, x in data.items() if v in shown}
    count = 0
    for name in names:
        if name == "cost":
            lines = [l for l in take("Optimal Cost") if l.strip()]
            require(len(lines) == 1, "%s: cost %s", where, lines)
            text = lines[0].strip()
            vals, vec, after = tables.numbers(text.replace("... ]", "]"))
            want = k.cost[:4] if k.cost.shape else k.cost.reshape(1)
            require(vec == (k.cost.size > 1) and len(vals) == len(want), "%s: cost %s", where, lines)
            require(all(tables.same(a, b, 3 if vec else 4) for a, b in zip(vals, want)), "%s: cost %s is not %s", where,
                    lines, want)
            require(vec == ("]" in text.split("[", 1)[-1] and text.startswith("[")), "%s: cost %s", where, lines)
            unittext = re.search(r"\[([^\[\]\s]*)\]$", text)
            require(sameunit(unittext.group(1) if unittext else "", op["costunit"]), "%s: the cost's unit is %s: %s", where,
                    op["costunit"], lines)
        elif name in SECTIONS:
            want = pick(k.sections.get(name, {}))
            if want:
                count += len(check_vars(take(SECTIONS[name]), want, k, where, op, name))
        elif name == "sensitivities":
            data = pick(k.senss)
            senss_rows(take, data, data, k, where, op, "Variable Sensitivities")
        elif name == "top sensitivities":
            already = (shown or set()) & {v for v, x in k.senss.items() if not np.isnan(x).any()}
            n = op["nvars"] or 5
            for _ in already:
                n -= n > 3
            rest = {v: x for v, x in k.senss.items() if v not in already and not np.isnan(x).any()}
            mean = {v: np.abs(x).mean() for v, x in rest.items()}
            order = sorted(rest, key=lambda v: -mean[v])
            cut = mean[order[n-1]] if len(order) > n else -1
            sure = {v: rest[v] for v in order if mean[v] > cut*(1+1e-9) + 1e-12}
            if len(order) <= n:
                sure = rest
            maybe = {v: rest[v] for v in order if mean[v] >= cut*(1-1e-9) - 1e-12}
            got = senss_rows(take, sure, maybe, k, where, op, "Next Most Sensitive Variables" if already else
                             "Most Sensitive Variables", tol=1e-3)
            if got is not None:
                require(len(got) <= n, "%s: %i of the %i most sensitive", where, len(got), n)
        elif name == "insensitivities":
            mean = {v: np.abs(x).mean() for v, x in k.senss.items()}
            sure = {v: x for v, x in k.senss.items() if mean[v] < 0.1*(1-1e-6)}
            maybe = {v: x for v, x in k.senss.items() if mean[v] < 0.1*(1+1e-6)}
            senss_rows(take, sure, maybe, k, where, op, "Insensitive Fixed Variables", all_maybe=True)
        elif name == "model sensitivities":
            named = {m: x for m, x in k.models.items() if m}
            if len(named) > 1:
                msenss(take("Model Sensitivities"), named, where)
        elif name == "tightest constraints":
            take("Most Sensitive Constraints")
    require(i == len(titles), "%s: unexpected sections %s", where, titles[i:])
    return count


def senss_rows(take, sure, maybe, k, where, op, title, tol=0.0, all_maybe=False):
    "A sensitivity table: what exceeds 0.001."
    big = {v: np.nanmax(np.abs(x)) if not np.isnan(x).all() else 0.0 for v, x in maybe.items()}
    clear = {v: x for v, x in sure.items() if big[v] > 1e-3*(1+1e-6)}
    want = {v: x for v, x in maybe.items() if big[v] > 1e-3*(1-1e-6)}
    unsure = set(want) - set(clear)
    if all_maybe:
        want, unsure = maybe, {v for v in maybe if v not in clear}
    if not want:
        return None
    try:
        lines = take(title)
    except Exception:
        if not clear:
            return None
        raise
    return check_vars(lines, want, k, where, op, title, digits=(2, 2), units=False, tol=tol*(1+1e-6), unsure=unsure,
                      ordered=True)


def msenss(lines, named, where):
    "Each named model's mean and deviations."
    got, last = [], math.inf
    for line in lines:
        if not line.strip():
            continue
        text, _, model = line.rpartition(" : ")
        require(model in named and model not in got, "%s: model sensitivities: %r", where, line)
        got.append(model)
        x = named[model]
        require(np.mean(x) <= last + 1e-12, "%s: model sensitivities are not in order", where)
        last = np.mean(x)
        text = text.strip()
        if text == "=0":
            require(not x.any(), "%s: %s has model sensitivity %s", where, model, x)
        elif text[0] == "<":
            require((np.abs(x) <= float(text[1:])*(1+1e-9)).all(), "%s: %s has model sensitivity %s, not %s", where,
                    model, x, text)
        else:
            mean, _, devs = text.partition(" + [")
            require(abs(float(mean) - np.mean(x)) <= 0.051, "%s: %s has model sensitivity %s, not %s", where, model, x,
                    text)
            require(bool(devs) == bool(x.shape), "%s: %s has model sensitivity %s, not %s", where, model, x, text)
            if devs:
                devs = [0.0 if d == "-" else float(d) for d in devs.rstrip(" ]").split()]
                require(len(devs) == len(x) and all(abs(d - (v-np.mean(x))) <= (0.1 if not d else 0.051) for d, v in
                                                    zip(devs, x)),
                        "%s: %s has model sensitivity %s, not %s", where, model, x, text)
    require(set(got) == set(named), "%s: model sensitivities of %s, not %s", where, got, named)


def check_latex(text, names, op, shown, k, where):
    "The tables' LaTeX."
    body = [b for b in re.findall(r"\\begin\{longtable\}\{(\w+)\}\n\\toprule\n(.*?) \\\\ \\midrule\n?(.*?)\\bottomrule", text, re.S)]
    want = []
    for name in names:
        if name in SECTIONS:
            data = {v: x for v, x in k.sections.get(name, {}).items() if not shown or v in shown}
            if data:
                want.append((SECTIONS[name], data))
    require(len(body) == len(want), "%s: %i tables, not %i:\n%s", where, len(body), len(want), text)
    lineages = {v[0].lineage for v in k.vars.values()}
    hidden = next(iter(k.vars))[0] if len(lineages) == 1 else None
    for (fmt, head, rows), (title, data) in zip(body, want):
        cols = {1: [title, "Value", "Units", "Description"], 2: [title, "Units", "Description"],
                3: [title, "Value", "Units"]}[op["latex"]]
        require(head.split(" & ") == cols and len(fmt) == len(cols), "%s: columns %s of %s", where, head, fmt)
        if op["models"]:
            chosen = set(op["chosen"])
            if hidden is not None:
                data = data if op["models"] == "included" or "" not in chosen else {}
            elif op["models"] == "included":
                data = {v: x for v, x in data.items() if v[0] in chosen | {""}} if chosen else data
            else:
                data = {v: x for v, x in data.items() if v[0] not in chosen}
        model, got = hidden or "", set()
        for line in rows.split("\n"):
            line = re.sub(r"( \\\\)+$", "", line)
            new = re.fullmatch(r"\\multicolumn\{3\}\{l\}\{\\textbf\{(.*)\}\}", line)
            if new:
                model = new.group(1)
                continue
            cells = [c.strip() for c in line.split(" & ")] if line.strip() else []
            if not any(c.strip(" &") for c in cells):
                require(line.count("&") < len(cols), "%s: too many columns in %r", where, line)
                continue
            require(line.count(" & ") == len(cols)-1, "%s: %i columns in %r", where, len(cells), line)
            cells = dict(zip(["Name"] + cols[1:], cells))
            v = model, cells["Name"].strip("$")
            require(v in data and v not in got, "%s: %s does not belong here, or is shown twice:\n%s", where, v, text)
            got.add(v)
            _, _, unit, label = k.vars[v]
            if "Description" in cells:
                require(cells["Description"] == label, "%s: %r should be called %r", where, line, label)
            plain = re.sub(r"\\mathrm|\\tfrac|\\cdot|[{}~$^\s\\]", "", cells["Units"])
            require(plain == LATEXUNITS[unit], "%s: %r should be in %r", where, line, unit)
            if "Value" in cells:
                val = data[v]
                if not val.shape:
                    require(tables.same(float(cells["Value"]), float(val), 4), "%s: %r should be %s", where, line, val)
                else:
                    vals = [tables.number(t) for t in cells["Value"].strip("[] ").split()]
                    ok = any(len(vals) == len(lay[0]) and tables.match([vals], np.array(lay[0]), 3)
                             for lay in tables.layouts(val))
                    require(ok, "%s: %r should begin %s", where, line, val)
        require(got == set(data), "%s: %s shown, not %s", where, sorted(got), sorted(data))
    return len(want)


def check_csv(path, shown, k, where):
    "The file's rows."
    with open(path, newline="", encoding="utf-8") as f:
        text = f.read()
    rows = list(csv.reader(text.splitlines()))
    where = "%s\n%s" % (where, text)
    head = rows[0]
    require(head[:3] == ["Model Name", "Variable Name", "Value(s)"] and head[-2:] == ["Units", "Description"]
            and not any(head[3:-2]), "%s: header %s", where, head)
    ncols = len(head) - 4
    got, model, grids = {}, "", {}
    for row in rows[1:]:
        if not any(row):
            continue
        require(len(row) == len(head), "%s: %i cells in %s", where, len(row), row)
        if row[0]:
            model = row[0]
        if row[1]:
            v = model, row[1]
            require(v not in got, "%s: %s is listed twice", where, v)
            got[v] = row
            grids[v] = []
        else:
            require(not row[-1] and not row[-2], "%s: odd row %s", where, row)
        cells = row[2:2+ncols]
        vals = [c for c in cells if c]
        require(cells[:len(vals)] == vals, "%s: gaps in %s", where, row)
        grids[v].append([tables.number(c) for c in vals])
    want = {v: x[1] for v, x in k.vars.items() if not shown or v in shown}
    require(set(got) == set(want), "%s: lists %s, not %s", where, sorted(got), sorted(want))
    for v, row in got.items():
        _, val, unit, label = k.vars[v]
        require(sameunit(row[-2], unit) and row[-1] == label, "%s: %s should have unit %s and label %s: %s", where, v,
                unit, label, row)
        ok = tables.match(grids[v], val, 3) if val.shape else tables.same(grids[v][0][0], float(val), 4)
        require(ok, "%s: %s is %s, not %s", where, v, grids[v], val)
    return len(got)


def unique_names(shown, k):
    "{name as exported: variable}"
    out = {}
    names = [v[1] for v in k.vars]
    for v in k.vars:
        if not shown or v in shown:
            out[(v[0] + "." if v[0] and names.count(v[1]) > 1 else "") + v[1]] = v
    return out


class Frame:
    "A stand-in for pandas' DataFrame."

    def __init__(self, rows, columns):
        self.rows, self.columns = rows, columns


def check_frame(frame, shown, k, where):
    "The rows."
    require(list(frame.columns) == ["Name", "Index", "Value", "Units", "Label", "Lineage", "Other"], "%s: columns %s",
            where, frame.columns)
    seen = set()
    for name, idx, val, unit, label, lineage, other in frame.rows:
        model = ".".join(n + (str(i) if i else "") for n, i in lineage or ())
        v = model, name
        require(v in k.vars and (not shown or v in shown), "%s: %s does not belong here", where, v)
        require((v, idx) not in seen, "%s: %s is listed twice", where, (v, idx))
        seen.add((v, idx))
        key, vals, u, lab = k.vars[v]
        want = vals if isinstance(idx, str) else vals[idx]
        require(np.allclose(np.nan_to_num(np.asarray(val, dtype=float), nan=-1.), np.nan_to_num(want, nan=-1.), rtol=1e-9, atol=0)
                and np.shape(val) == np.shape(want), "%s: %s is %s, not %s", where, (v, idx), val, want)
        require(sameunit(unit, u) and label == lab, "%s: %s has unit %s and label %s", where, v, unit, label)
    for v, (key, vals, _, _) in k.vars.items():
        if not shown or v in shown:
            n = len([1 for w, _ in seen if w == v])
            require(n == (vals.size if key.shape else 1), "%s: %i rows for %s", where, n, v)
    return len(seen)


def run_outputs(case):
    "Each output in turn, and the solution afterwards."
    s = solved.make(case["model"])
    sol = solved.solve(s)
    fresh = solved.make(case["model"])
    where = "model of %s" % [(e["model"], e["name"], e["kind"], e["vals"], e["shape"]) for e in s.entries]
    k = known(sol, s, where)
    before = raw(sol)
    count, labels, selected = 0, set(), False
    texts = {}
    for n, op in enumerate(case["ops"]):
        op = dict(op, costunit="")   # costs are plain numbers
        kind = op["op"]
        arg, shown = selection(op, s, k)
        labels.add(kind)
        selected |= bool(shown) or bool(op["models"])
        at = "%s\noutput %i (%s)" % (where, n, {x: y for x, y in op.items() if y})
        got, c = output(sol, s, k, kind, op, arg, shown, at)
        count = max(count, c)
        diff = [x for x, y in raw(sol).items() if before.get(x) != y]
        require(not diff, "%s\n changed the solution's %s: %s is now %s", at, diff, [before.get(x) for x in diff],
                [raw(sol)[x] for x in diff])
        if got is not None:
            texts[n] = got, (kind, op, arg, shown, at)
    for n, (got, args) in texts.items():
        again, _ = output(sol, s, k, *args)
        require(again == got, "%s\n was\n%s\n and later\n%s", args[-1], got, again)
    ref = dg.digest(solved.solve(solved.make(case["model"])), fresh)
    diff = dg.compare(ref, dg.digest(sol, fresh))
    require(diff is None, "%s: after its outputs %s is other than of a new solution: %s", where, case["ops"], diff)
    return Info(count > 1 and selected, sorted(labels), str(case["ops"])[:300])


def raw(sol):
    "The data."
    out = {"cost": dg.plain(sol["cost"]), "modelstr": sol.modelstr}
    for sec in list(SECTIONS):
        for key, v in sol[sec].items() if sec in sol else ():
            out[sec, str(key)] = dg.plain(v)
    for sec in ("variables", "cost", "models", "constraints"):
        for key, v in sol["sensitivities"][sec].items():
            out["s " + sec, str(key), key if sec == "constraints" and False else ""] = dg.plain(v)
    for key in sol["variables"]:
        out["descr", str(key)] = str(sorted((a, str(b)) for a, b in key.descr.items() if a != "veckey"))
    return out


def output(sol, s, k, kind, op, arg, shown, where):
    "Produces one output and checks it: (text, number of variables)."
    kw = {"sortmodelsbysenss": op["sort"]}
    if op["models"]:
        kw[op["models"]+"_models"] = list(op["chosen"])
    names = chosen_tables(op)
    if op["nvars"]:
        kw["nvars"] = op["nvars"]
    if kind == "table":
        if op["default"]:
            text = sol.table(arg, **kw)
        else:
            text = sol.table(arg, names, **kw)
        return text, check_text(text, names, op, shown, k, where + "\n" + text)
    if kind == "summary":
        kw.pop("nvars", None)
        n = op["nvars"] or 5
        text = sol.summary(arg, ntopsenss=n, **kw)
        nconst = len(k.sections["constants"])
        tabs = ["cost", "sweepvariables", "freevariables"]
        if nconst < n+2 or (shown and shown & set(k.sections["constants"])):
            tabs.append("sensitivities")
        if nconst >= n+2:
            tabs.append("top sensitivities")
        tabs.append("tightest constraints")
        return text, check_text(text, tabs, dict(op, nvars=n), shown, k, where + "\n" + text)
    if kind == "latex":
        text = sol.table(arg, [t for t in op["tables"] if t in SECTIONS] or ["freevariables"], latex=op["latex"], **kw)
        return text, check_latex(text, [t for t in op["tables"] if t in SECTIONS] or ["freevariables"], op, shown, k,
                                 where + "\n" + text)
    with scratch() as d:
        if kind == "txt":
            path = os.path.join(d, "solution.txt")
            full = {"showvars": arg, "tables": names}
            sol.savetxt(path, printmodel=op["default"], **full, **kw)
            with open(path, encoding="utf-8") as f:
                text = f.read()
            if op["default"]:
                require(text.startswith(sol.modelstr + "\n"), "%s: the model is not in\n%s", where, text)
            want = sol.table(**full, **kw)
            require(text == (sol.modelstr + "\n" if op["default"] else "") + want, "%s: saved\n%s", where, text)
            return text, 0
        if kind == "csv":
            path = os.path.join(d, "solution.csv")
            sol.savecsv(arg or None, path, valcols=op["cols"])
            count = check_csv(path, shown, k, where)
            with open(path, encoding="utf-8") as f:
                return f.read(), count
        names = unique_names(shown, k)
        if kind == "mat":
            from scipy.io import loadmat
            path = os.path.join(d, "solution.mat")
            sol.savemat(path, arg or None)
            got = {n: v for n, v in loadmat(path).items() if not n.startswith("__")}
            want = {n.replace(".", "_"): v for n, v in names.items()}
            require(set(got) == set(want), "%s: the .mat file has %s, not %s", where, sorted(got), sorted(want))
            for n, v in want.items():
                val = k.vars[v][1]
                arr = np.asarray(got[n], dtype=float)
                require(arr.size == val.size, "%s: %s is %s, not %s", where, n, arr, val)
                require(np.allclose(np.nan_to_num(arr.reshape(val.shape), nan=-1), np.nan_to_num(val, nan=-1), rtol=1e-6, atol=0),
                        "%s: %s is %s, not %s", where, n, arr, val)
            return None, len(got)
    old = sys.modules.get("pandas")
    sys.modules["pandas"] = types.SimpleNamespace(DataFrame=Frame)
    try:
        frame = sol.todataframe(arg or None)
    finally:
        if old is None:
            del sys.modules["pandas"]
        else:
            sys.modules["pandas"] = old
    return None, check_frame(frame, shown, k, where)


# ---------------------------------------------------------------- constraint tables

WORDS = ["x", "A", "W", "Wing", "c_{A}", "W_x", "A.b"]
NESTS = [[], ["A"], ["W"], ["Wing"], ["A", "W"], ["x"], ["A", "A"]]


@st.composite
def programs(draw):
    "Constraints made within named models, and what tables of them are asked for."
    cons = []
    for _ in range(draw(st.integers(1, 8))):
        cons.append({"nest": draw(st.sampled_from(NESTS)), "name": draw(st.sampled_from(WORDS[:6])),
                     "new": draw(st.booleans()), "weight": draw(st.sampled_from([1, 1, 3, 0.1, 1e-2, 1e-3, 1e-4, 1e-7])),
                     "terms": draw(st.lists(st.tuples(st.integers(0, 7), st.sampled_from([1, 2, 0.25, 3.7, 10, 0.1]),
                                                      st.sampled_from([1, 0.5, -1])), max_size=7)),
                     "const": draw(st.sampled_from([1, 2.5, 0.031]))})
    return {"cons": cons, "ntight": draw(st.sampled_from([None, 1, 3, 20])), "tight": draw(st.sampled_from([None, 0.3, 1e-4])),
            "loose": draw(st.sampled_from([None, 1e-2, 1e-3])), "sort": draw(st.booleans()),
            "sweep": draw(st.sampled_from([0, 0, 2, 3]))}


def run_constraints(case):
    "The tightest and the loosest."
    from gpkit import Model, NamedVariables, Variable
    from gpkit.exceptions import UnknownInfeasible
    NamedVariables.reset_modelnumbers()
    made, cons, cost = [], [], 0
    levels = {}
    k0 = Variable("k_0", 2)
    for i, c in enumerate(case["cons"]):
        with _nested(c["nest"], levels, c["new"]):
            x = Variable(c["name"])
            if any(x.key == y.key for y in made):
                continue
            low = c["const"]*(k0 if i == 0 else 1)
            for j, a, e in c["terms"]:
                if made:
                    low = low + a*made[j % len(made)]**e
            cons.append(x >= low)
            cost = cost + c["weight"]*x
            made.append(x)
    subs = {k0: ("sweep", np.linspace(2, 3, case["sweep"]))} if case["sweep"] > 1 else {}
    model = Model(cost, cons, subs)
    try:
        sol = model.solve(verbosity=0)
    except UnknownInfeasible as exc:
        raise Discard from exc   # badly scaled
    kw = {a: case[b] for a, b in (("ntightconstrs", "ntight"), ("tight_senss", "tight"), ("min_senss", "loose"))
          if case[b] is not None}
    text = sol.table(tables=("tightest constraints", "loose constraints"), sortmodelsbysenss=case["sort"], **kw)
    where = "%s\n%s" % (model, text)
    secs = tables.sections(text)
    suffix = " (in last sweep)" if case["sweep"] > 1 else ""
    loose = case["loose"] or 1e-5
    require([t for t, _ in secs] == ["Most Sensitive Constraints" + suffix,
                                     "Insensitive Constraints |below %+g|%s" % (loose, suffix)], "%s: sections", where)
    senss, texts = {}, {}
    keys = {v.key for v in made}
    names = [v.key.name for v in made]
    for key in keys:
        if names.count(key.name) > 1:
            key.descr["necessarylineage"] = True
    for c, x in sol["sensitivities"]["constraints"].items():
        model_ = ".".join(n + (str(i) if i else "") for n, i in c.lineage or ())
        texts[model_, c.str_without(("units", "unnecessary lineage")).replace(" ", "")] = c
        senss[c] = float(np.asarray(x).reshape(-1)[-1])
    for key in keys:
        key.descr.pop("necessarylineage", None)
    got = [listed(lines, where) for _, lines in secs]
    for rows in got:
        for model_, text_, _ in rows:
            require((model_, text_) in texts, "%s\n lists %r of model %r, but the constraints are\n%s", where, text_, model_,
                    "\n".join(map(str, texts)))
        require(len({r[:2] for r in rows}) == len(rows), "%s: a constraint is listed twice", where)
    tight, n = case["tight"] or 1e-2, case["ntight"] or 5
    order = sorted(senss.values(), reverse=True)
    lows = [texts[r[:2]] for r in got[1]]
    require(not any(r[2] for r in got[1]), "%s: sensitivities of the insensitive", where)
    for c, x in senss.items():
        if x > loose*1.01 + 1e-7:
            require(c not in lows, "%s: %s has a sensitivity of %s", where, c, x)
        elif x < loose*0.99 - 1e-7:
            require(c in lows, "%s: %s has a sensitivity of %s, but is not listed as loose", where, c, x)
    tops = {texts[r[:2]]: r[2] for r in got[0]}
    enough = len([x for x in order if x > tight*1.001])
    require(min(n, enough) <= len(tops) <= n, "%s: lists %i of %i", where, len(tops), enough)
    for c, x in tops.items():
        require(abs(float(x)-senss[c]) <= 0.051*10**math.floor(math.log10(max(senss[c], 1e-12))) + 1e-9 and senss[c] >= tight*0.999,
                "%s: %s has sensitivity %s, not %s", where, c, senss[c], x)
        require(senss[c] >= order[min(n, len(order))-1]*0.9, "%s: %s is not among the most sensitive", where, c)
    for a, b in zip(got[0], got[0][1:]):
        if a[0] == b[0]:
            require(float(a[2]) >= float(b[2]), "%s: %s comes before %s", where, a, b)
    return Info(len(got[0]) > 1 and any(m for m, _, _ in got[0] + got[1]), [str(len(got[0]))], text)


def _nested(nest, levels, new):
    "The context of that model; a new one of the same names perhaps."
    import contextlib
    from gpkit import NamedVariables
    stack = contextlib.ExitStack()
    old = levels.get(tuple(nest)) if not new else None
    for i, name in enumerate(nest):
        nums, key = NamedVariables.modelnums, (NamedVariables.lineage, name)
        count = nums[key]
        if old:
            nums[key] = old[i][1]
        stack.enter_context(NamedVariables(name))
        nums[key] = max(count, nums[key])
    levels[tuple(nest)] = NamedVariables.lineage
    return stack


def listed(lines, where):
    "[(model, text without spaces and with full names, sensitivity text)] of a constraint table."
    out, model, heads = [], "", []
    for line in lines:
        if not line.strip() or line.strip() == "(none)":
            continue
        head = re.match(r"^\s*\|( \S+)?$", line)
        if head:
            model = (head.group(1) or "").strip()
            heads.append(model)
            require(len(set(heads)) == len(heads) and (out or model), "%s: headings %s", where, heads)
            continue
        row = re.match(r"^\s*([-+]?[\d.e+-]*|\s*) : (.*)$", line)
        if row:
            out.append([model, row.group(2), row.group(1).strip()])
        else:
            require(bool(out), "%s: odd line %r", where, line)
            out[-1][1] += line.strip() if line.startswith(" ") else "\n" + line
    return [(m, re.sub(r"(?<![\w}\])])\.(?=[A-Za-z])", m.replace("\\", "\\\\") + ".", t.replace(" ", "")), x) for m, t, x in out]


CHECKS = {"outputs": {"strategy": outputs(), "run": run_outputs, "quick": 400, "thorough": 6000},
          "constraints": {"strategy": programs(), "run": run_constraints, "quick": 200, "thorough": 3000}}
