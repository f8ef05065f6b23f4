"Everything observable of a solution, as JSON; also served to another process (see c18)."
import json
import math
import os
import sys

TABLES = ("cost", "warnings", "sweepvariables", "model sensitivities", "freevariables", "constants",
          "variables", "sensitivities", "top sensitivities", "insensitivities")
CONSTRAINT_TABLES = ("tightest constraints", "loose constraints")


def plain(val):
    "Numbers as text (exactly), arrays as lists."
    units = getattr(val, "units", None)
    mag = getattr(val, "magnitude", val)
    if hasattr(mag, "tolist"):
        mag = mag.tolist()
    out = repr(mag)
    if units is not None:
        base = (1*units).to_base_units()
        out += " [%.12g %s]" % (base.magnitude, base.units)
    return out


def keydesc(key):
    "What is known of a variable."
    return "%s | %r | %r | %s | %s | %s" % (key, key.lineage, key.unitrepr, key.label, key.idx or "", key.shape or "")


def expressions(s):
    "Expressions over the made model's variables."
    from gpkit import units
    out = [s.cost, s.top*2, s.top**-1.5]
    free = []
    for obj, e in zip(s.objs, s.entries):
        u = units(e["unit"]) if e["unit"] else 1
        v = obj.flat[0] if e["shape"] else obj
        free.append(v/u)
        out.append(obj)
    if len(free) > 1:
        out.append(free[0]*3 + free[1]**2)
    return out


def digest(sol, s, constraints=True, drop=()):
    "Of a solution to the made model."
    out = {"len": len(sol), "modelstr": sol.modelstr, "cost": plain(sol["cost"])}
    for sec in ("variables", "freevariables", "constants", "sweepvariables"):
        if sec in sol:
            out[sec] = sorted((keydesc(k), plain(v)) for k, v in sol[sec].items())
    senss = sol["sensitivities"]
    for sec in ("variables", "cost", "models", "variablerisk"):
        if sec in senss:
            out["s "+sec] = sorted((str(k), plain(v)) for k, v in senss[sec].items())
    if constraints:
        out["s constraints"] = [(str(c), plain(v)) for c, v in senss["constraints"].items()]
        # they combine with what is made anew
        fresh = {str(c): c for c in s.constraints}
        for c in senss["constraints"]:
            if str(c) in fresh:
                f = fresh[str(c)]
                out["with " + str(c)] = [bool(c.left == f.left), bool(c.right == f.right),
                                         len((c.left + f.left).hmap), str(c.left/f.left),
                                         bool(c.left in {f.left: 1}), str(f.left in sol["variables"])]
    out["warnings"] = [(k, [m[0] for m in v]) if not hasattr(v, "shape") else k
                       for k, v in sol.get("warnings", {}).items()]
    tables = TABLES + (CONSTRAINT_TABLES if constraints else ())
    for name in tables:
        if name not in drop:
            out["table " + name] = sol.table(tables=(name,))
    ours = sol.table(), sol.summary()
    if constraints:
        out["table"], out["summary"] = ours
    out["latex"] = sol.table(latex=1, tables=("freevariables", "constants"))
    names = sorted({e["name"] for e in s.entries})
    out["showvars"] = sol.table(names[:1], tables=("freevariables", "constants", "sensitivities"))
    for i, expr in enumerate(expressions(s)):
        got = sol(expr)
        out["call %i" % i] = plain(got) if not hasattr(got, "hmap") else str(got)
        if hasattr(expr, "hmap"):
            out["sub %i" % i] = str(sol.subinto(expr))
    if s.fnvar is not None:
        out["fn"] = plain(sol(s.fnvar))
    for obj, e in zip(s.objs, s.entries):
        got = sol["variables"][obj]
        out["get %s.%s" % (e["model"], e["name"])] = plain(got)
        single = [f for f in s.entries if f["name"] == e["name"]]
        if len(single) == 1:
            out["name %s" % e["name"]] = plain(sol(e["name"]))
    return out


def compare(a, b, ignore=()):
    "The first difference, or None."
    for k in list(a) + [k for k in b if k not in a]:
        if k not in ignore and a.get(k) != b.get(k):
            return "%s was\n%s\n and is\n%s" % (k, a.get(k), b.get(k))
    return None


def serve():
    "Answers requests on stdin: {file, how, case, constraints, drop}."
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from pbt import core
    core.bootstrap()
    from pbt import solved
    import pickle
    from gpkit.solution_array import SolutionArray
    real = sys.stdout
    for line in sys.stdin:
        req = json.loads(line)
        sys.stdout = sys.stderr
        core.reset_state()
        try:
            if req["how"] == "compressed":
                sol = SolutionArray.decompress_file(req["file"])
            else:
                with open(req["file"], "rb") as f:
                    sol = pickle.load(f)
            s = solved.make(req["case"])
            ans = {"digest": digest(sol, s, req["constraints"], req["drop"])}
        except Exception as exc:  # pylint: disable=broad-except
            import traceback
            ans = {"error": "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-4:])}
        sys.stdout = real
        print(json.dumps(ans), flush=True)


if __name__ == "__main__":
    serve()
