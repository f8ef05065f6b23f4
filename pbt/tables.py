"Reading gpkit's text tables back."
import re

NUMBER = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)"


def sections(text):
    "[(title, [lines])] of a text with underlined titles."
    lines, out, i = text.split("\n"), [], 0
    while i < len(lines):
        if i+1 < len(lines) and lines[i].strip() and re.fullmatch("-+|=+|~+", lines[i+1]):
            out.append((lines[i], []))
            i += 2
            continue
        if out:
            out[-1][1].append(lines[i])
        i += 1
    return out


def rows(lines):
    "[(model, name, rest of the line, its continuation lines after newlines)] of a variable table."
    out, model = [], ""
    for line in lines:
        if not line.strip():
            continue
        head = re.match(r"^\s*\| (\S+)$", line)
        if head:
            model = head.group(1)
            continue
        row = re.match(r"^\s*(\S+) : (.*)$", line)
        if row:
            out.append([model, row.group(1), row.group(2)])
        elif out:
            out[-1][2] += "\n" + line
        else:
            out.append([model, None, line])
    return [tuple(r) for r in out]


def numbers(text):
    "Values of a row: (list of floats or None for a dash, is it a vector, what follows)."
    first, *more = text.split("\n")
    if first[:2] != "[ ":
        val, _, after = first.partition(" ")
        return [number(val)], False, after.strip()
    if more:
        # the label follows the first line's values, of which there are as many as in the second line
        later = [[number(tok) for tok in line.split() if tok not in ("]", "...")] for line in more]
        tokens = first[2:].split()
        vals = [number(tok) for tok in tokens[:len(later[0])]]
        return vals + sum(later, []), True, " ".join(tokens[len(later[0]):])
    inside, _, after = first[2:].partition("]")
    return [number(tok) for tok in inside.split() if tok != "..."], True, after.strip()


def number(tok):
    "Of a table: a dash is None."
    tok = tok.rstrip("%")
    return None if tok == "-" else float(tok)


def same(printed, value, digits):
    "Is this number printed to that many digits?"
    return abs(printed-value) <= 0.51*10**(1-digits)*abs(value) + 1e-300


def grid(text):
    "The rows of a vector's values."
    first, *more = text.split("\n")
    vals, vec, _ = numbers(text)
    if not vec:
        return None
    later = [[number(tok) for tok in line.split() if tok not in ("]", "...")] for line in more]
    n = len(vals) - sum(map(len, later))
    return [vals[:n]] + later


def layouts(arr):
    "Every way of laying out an array in rows along one of its axes."
    import numpy as np
    arr = np.asarray(arr)
    yield [[v] for v in arr.flat]
    for axis in range(arr.ndim):
        yield [list(row) for row in np.moveaxis(arr, axis, -1).reshape(-1, arr.shape[axis])]


def match(rows_, arr, digits, tol=0.0):
    "Are these rows the array, in some layout (None for a missing value)?"
    def one(printed, value):
        if printed is None:
            return value != value or abs(value) <= tol
        return value == value and same(printed, value, digits)
    return any(len(rows_) == len(lay) and all(
        len(a) == len(b) and all(one(p, v) for p, v in zip(a, b)) for a, b in zip(rows_, lay))
        for lay in layouts(arr))
