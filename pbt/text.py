"""Reads gpkit's printed expressions back, by ordinary operator precedence, as numbers or intervals.

Values are numpy arrays (of dimension 0 for scalars) of lower and upper bounds.
"""
import math
import re

import numpy as np

SUP = dict(zip("²³⁴⁵⁶⁷⁸⁹", range(2, 10)))
NUM = re.compile(r"(\d+\.?\d*|\.\d+)(e[-+]?\d+)?")


class Unreadable(Exception):
    "The text is not an expression."


class Imprecise(Exception):
    "The digits printed don't determine its value."


def wide(lo, hi):
    "The interval between these results, each perhaps rounded."
    return Iv(lo - 1e-14*np.abs(lo), hi + 1e-14*np.abs(hi))


def lift(x):
    "As an interval."
    return x if isinstance(x, Iv) else Iv(x)


class Iv:
    "An interval, or an array of them, containing the exact result of the operations that made it."
    __slots__ = ("lo", "hi")
    __array_ufunc__ = None

    def __init__(self, lo, hi=None):
        self.lo = np.asarray(lo, dtype=float)
        self.hi = np.asarray(lo if hi is None else hi, dtype=float)

    shape = property(lambda self: self.lo.shape)
    size = property(lambda self: self.lo.size)
    T = property(lambda self: Iv(self.lo.T, self.hi.T))

    def __repr__(self):
        return "%s" % self.lo if np.allclose(self.lo, self.hi, 1e-9) else "between %s and %s" % (self.lo, self.hi)

    def __add__(self, o):
        o = lift(o)
        return wide(self.lo+o.lo, self.hi+o.hi)

    def __neg__(self):
        return Iv(-self.hi, -self.lo)

    def __sub__(self, o):
        return self + -lift(o)

    def __rsub__(self, o):
        return lift(o) + -self

    def __mul__(self, o):
        o = lift(o)
        four = [self.lo*o.lo, self.lo*o.hi, self.hi*o.lo, self.hi*o.hi]
        return wide(np.minimum.reduce(four), np.maximum.reduce(four))

    def __truediv__(self, o):
        o = lift(o)
        if ((o.lo <= 0) & (o.hi >= 0)).any():
            raise (Imprecise if (o.lo < o.hi).any() else Unreadable)("division by zero")
        return self*wide(1/o.hi, 1/o.lo)

    def __rtruediv__(self, o):
        return lift(o)/self

    __radd__, __rmul__ = __add__, __mul__

    def __pow__(self, e):
        e = lift(e)
        exact = (e.lo == e.hi) & (e.lo == np.round(e.lo))
        if exact.all():
            if ((e.lo < 0) & (self.lo <= 0) & (self.hi >= 0)).any():
                raise (Imprecise if (self.lo < self.hi).any() else Unreadable)("division by zero")
            a, b = np.power(self.lo, e.lo), np.power(self.hi, e.lo)
            low = np.where((e.lo % 2 == 0) & (e.lo > 0) & (self.lo < 0) & (self.hi > 0), 0, np.minimum(a, b))
            return wide(low, np.maximum(a, b))
        if (self.lo <= 0).any():
            raise (Imprecise if (self.lo < self.hi).any() else Unreadable)("power of a negative number")
        four = [np.power(x, y) for x in (self.lo, self.hi) for y in (e.lo, e.hi)]
        return wide(np.minimum.reduce(four), np.maximum.reduce(four))

    def __getitem__(self, idx):
        return Iv(self.lo[idx], self.hi[idx])

    def reduce(self, fn):
        "sum or prod over all."
        out = None
        for x in (Iv(a, b) for a, b in zip(self.lo.flat, self.hi.flat)):
            out = x if out is None else (out + x if fn == "sum" else out*x)
        return out

    def sum(self, axis=None):
        "numpy's."
        if axis is None:
            return self.reduce("sum")
        parts = [self[(slice(None),)*axis + (i,)] for i in range(self.lo.shape[axis])]
        out = parts[0]
        for x in parts[1:]:
            out = out + x
        return out

    def prod(self):
        "numpy's."
        return self.reduce("prod")

    def within(self, limit):
        "Are all its values in that range of magnitudes?"
        ends = np.abs(np.array([self.lo, self.hi]))
        return bool(np.isfinite(ends).all() and (ends < limit).all() and (ends > 1/limit).all())

    def meets(self, o):
        "Might these be enclosures of the same values?"
        return o.lo.shape == self.lo.shape and bool(((self.lo <= o.hi) & (o.lo <= self.hi)).all())


def stack(parts):
    "An array of them."
    return Iv(np.array([x.lo for x in parts]), np.array([x.hi for x in parts]))


class Reader:
    """env: {printed name: array}; digits: is each number known only to the three digits printed?; expos: is each
    exponent known only to two?; coefs: may a coefficient printed as 1 have been left out?; unit: function of a unit's text returning its factor."""

    def __init__(self, text, env, digits=False, unit=None, expos=False, coefs=False):
        self.s, self.env, self.digits, self.unit, self.i = text, env, digits, unit, 0
        self.expos, self.coefs = expos, coefs
        self.names = sorted(env, key=lambda n: -len(n))

    def fail(self, why):
        "Not an expression."
        raise Unreadable("%s at %r" % (why, self.s[self.i:]))

    def read(self):
        "All of it."
        out = self.expr()
        if self.i != len(self.s):
            self.fail("surplus text")
        return out

    def take(self, tok):
        "If that is next."
        if self.s.startswith(tok, self.i):
            self.i += len(tok)
            return True
        return False

    def expr(self):
        "Sums."
        out = self.term()
        while True:
            if self.take(" + "):
                out = out + self.term()
            elif self.take(" - "):
                out = out - self.term()
            else:
                return out

    def term(self):
        "Products."
        out = self.unary()
        if self.coefs:
            out = out*Iv(0.995, 1.005)
        while True:
            if self.take("·"):
                out = out*self.unary()
            elif self.take("/"):
                out = out/self.unary()
            else:
                return out

    def unary(self):
        "Negation, which binds less than powers."
        if self.take("-"):
            return -self.unary()
        return self.power()

    def power(self):
        "Powers, from the right."
        out = self.postfix()
        if self.take("^"):
            neg = self.take("-")
            if self.s[self.i:self.i+1] == "[":
                e = self.npylist()
            else:
                e = self.exponent()
            return out**(-e if neg else e)
        return out

    def exponent(self):
        "Whatever follows ^, binding from the right."
        start, digits, self.digits = self.i, self.digits, False
        out = self.power()
        self.digits = digits
        text = self.s[start:self.i]
        if self.expos and NUM.fullmatch(text):
            half = 0.5*10**(math.floor(math.log10(abs(float(text))))-1)
            out = Iv(out.lo-half, out.hi+half)
        return out

    def npylist(self):
        "An array as numpy prints it."
        end = self.s.index("]", self.i)
        while self.s[self.i:end].count("[") != self.s[self.i:end+1].count("]"):
            end = self.s.index("]", end+1)
        text = self.s[self.i:end+1]
        self.i = end+1
        rows = re.sub(r"\s+", ",", re.sub(r"\[\s+", "[", re.sub(r"\s+\]", "]", text)))
        return Iv(np.array(eval(rows, {"__builtins__": {}}), dtype=float))  # pylint: disable=eval-used

    def postfix(self):
        "Indices, sums, products, superscripts."
        out = self.atom()
        while True:
            if self.take(".sum()"):
                out = out.reduce("sum")
            elif self.take(".prod()"):
                out = out.reduce("prod")
            elif self.s[self.i:self.i+1] == "[":
                end = self.s.index("]", self.i)
                if self.s[self.i+1:self.i+2] == "[":
                    end = self.s.index("]", end+1)
                out = self.index(out, self.s[self.i+1:end])
                self.i = end+1
            elif self.s[self.i:self.i+1] in SUP:
                e = Iv(SUP[self.s[self.i]])
                self.i += 1
                out = out**e
            else:
                return out

    def index(self, out, text):
        "Of an array."
        parts = []
        if text[:1] == "[" or "," not in text:
            items = [text]
        else:
            items = text.split(",")
        for item in items:
            if re.fullmatch(r"-?\d*:-?\d*(:-?\d*)?", item):
                parts.append(slice(*[int(p) if p else None for p in item.split(":")]))
            elif re.fullmatch(r"-?\d+", item):
                parts.append(int(item))
            elif item == "...":
                parts.append(Ellipsis)
            elif re.fullmatch(r"\[[-\d, ]*\]", item):
                parts.append([int(p) for p in re.split("[, ]+", item[1:-1].strip())])
            else:
                self.fail("index %r" % text)
        try:
            return out[tuple(parts) if len(parts) > 1 else parts[0]]
        except IndexError:
            self.fail("cannot index with %r" % text)

    def number(self, text):
        "To the digits printed."
        val = float(text)
        if self.digits and val:
            half = 0.5*10**(math.floor(math.log10(abs(val)))-2)
            return Iv(val-half, val+half)
        return Iv(val)

    def atom(self):
        "Numbers, names, parentheses, lists."
        if self.take("("):
            out = self.expr()
            if not self.take(")"):
                self.fail("no )")
            return self.united(out)
        if self.take("["):
            items = [self.expr()]
            while self.take(", "):
                items.append(self.expr())
            if not self.take("]"):
                self.fail("no ]")
            return stack(items)
        for name in self.names:
            if self.take(name):
                if name.endswith("[:]") or not lift(self.env[name]).shape or self.s[self.i:self.i+1] == "[":
                    return lift(self.env[name])
                self.fail("%s is an array" % name)
        return self.united(self.constant())

    def united(self, out):
        "A number's unit."
        if self.unit and self.take(" ["):
            end = self.s.index("]", self.i)
            out = out*Iv(self.unit(self.s[self.i:end]))
            self.i = end+1
        return out

    def constant(self):
        "A number, perhaps of pi."
        pi = Iv(math.pi, math.pi + (0.0027 if self.digits else 0))
        if self.take("π"):
            return pi
        num = NUM.match(self.s, self.i)
        if not num:
            self.fail("no operand")
        self.i = num.end()
        if self.take("π"):
            return self.number(num.group())*pi
        return self.number(num.group())


def read(text, env, **kw):
    "Its value."
    try:
        return Reader(text, env, **kw).read()
    except (ValueError, IndexError) as exc:
        raise Unreadable("%s in %r" % (exc, text)) from exc


TEXNUM = re.compile(r"-?\d+\.?\d*(?: \\times 10\^\{(-?\d+)\})?")


def read_tex(text, env):
    """Of a sum of products of powers, as gpkit writes those in LaTeX; {LaTeX name: value}. Coefficients are known to four
    digits, and when left out to two, exponents to two."""
    names = sorted(env, key=lambda n: -len(n))

    def power(s):
        name = next((n for n in names if s.startswith(n)), None)
        if name is None:
            raise Unreadable("no variable at %r of %r" % (s, text))
        s, e = s[len(name):], Iv(1.0)
        if s.startswith("^{"):
            end = s.index("}")
            num = float(s[2:end])
            half = 0.5*10**(math.floor(math.log10(abs(num)))-1)
            e, s = Iv(num-half, num+half), s[end+1:]
        else:
            e = Iv(0.95, 1.05)
        return Iv(env[name])**e, s

    def product(s):
        out, s = power(s)
        while s.startswith(" "):
            val, s = power(s[1:])
            out = out*val
        return out, s

    total = Iv(0.0)
    for part in text.split(" + "):
        s, lead = part, Iv(0.95, 1.05)
        frac = re.match(r"\\frac\{" + TEXNUM.pattern + r"\}\{", s)
        if frac:
            s = s[6:]
        num = TEXNUM.match(s)
        if num:
            val = float(num.group().split(" ")[0])*10**int(num.group(1) or 0)
            lead = Iv(min(val*0.9995, val*1.0005), max(val*0.9995, val*1.0005))
            s = s[num.end():]
            if num.group() == "1" or num.group() == "-1":
                lead = Iv(min(val*0.95, val*1.05), max(val*0.95, val*1.05))
        elif s.startswith("-"):
            lead, s = -lead, s[1:]
        if frac:                       # \frac{c}{...}
            if not s.startswith("}{"):
                raise Unreadable("%r of %r" % (s, text))
            below, s = product(s[2:])
            lead, s = lead/below, s[1:] if s[:1] == "}" else "?"
        elif s.startswith("\\frac{"):
            above, s = product(s[6:])
            if not s.startswith("}{"):
                raise Unreadable("%r of %r" % (s, text))
            below, s = product(s[2:])
            lead, s = lead*above/below, s[1:] if s[:1] == "}" else "?"
        elif s:
            above, s = product(s)
            lead = lead*above
        if s:
            raise Unreadable("surplus %r of %r" % (s, text))
        total = total + lead
    return total
