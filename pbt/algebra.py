"""Reference polynomials, and generated straight-line programs over gpkit expressions.

A program is a list of instructions; instruction i produces register i:
  ["var", k]              variable k
  ["num", value, kind]    a plain number (kind: int, float, npf, npi)
  ["add"|"sub"|"mul"|"div", i, j]
  ["pow", i, e, kind]
  ["neg", i]
Registers may be used any number of times, so operands alias.
"""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

NAMES = ["x", "y", "z", "w", "u"]
KINDS = {"int": int, "float": float, "npf": np.float64, "npi": np.int64}


class Poly(dict):
    "Exact polynomial: {((var, exponent), ...): coefficient}, no zero entries."
    __slots__ = ()

    @classmethod
    def const(cls, c):
        "A constant."
        return cls({(): F(c)}) if c else cls()

    @classmethod
    def var(cls, k):
        "A variable."
        return cls({((k, F(1)),): F(1)})

    def add(self, other, sign=1):
        "Sum or difference."
        out = Poly(self)
        for e, c in other.items():
            out[e] = out.get(e, 0) + sign*c
            if not out[e]:
                del out[e]
        return out

    def mul(self, other):
        "Product."
        out = Poly()
        for e1, c1 in self.items():
            for e2, c2 in other.items():
                e = dict(e1)
                for v, x in e2:
                    e[v] = e.get(v, 0) + x
                    if not e[v]:
                        del e[v]
                e = tuple(sorted(e.items()))
                out[e] = out.get(e, 0) + c1*c2
                if not out[e]:
                    del out[e]
        return out

    def power(self, n):
        "Rational power; exact powers only (fractional powers need coefficient 1)."
        n = F(n)
        if n.denominator == 1 and n >= 0 and not (len(self) == 1):
            out = Poly.const(1)
            for _ in range(int(n)):
                out = out.mul(self)
            return out
        (e, c), = self.items()
        if n.denominator != 1:
            assert c == 1
            c = F(1)
        else:
            c = c**int(n)
        return Poly({tuple((v, x*n) for v, x in e if n): c})

    def evaluate(self, point):
        "Float value and sum of absolute values of terms."
        val = tot = 0.0
        for e, c in self.items():
            t = float(c)
            for v, x in e:
                t *= point[v]**float(x)
            val += t
            tot += abs(t)
        return val, tot

    def is_mono(self):
        "One term, positive coefficient."
        return len(self) == 1 and next(iter(self.values())) > 0

    def is_posy(self):
        "At least one term, all coefficients positive."
        return bool(self) and all(c > 0 for c in self.values())

    def key(self):
        "Hashable canonical form."
        return tuple(sorted(self.items()))

    def too_big(self, terms=30, expo=24, bits=40):
        "True when float arithmetic might stop being exact, or it gets slow."
        if len(self) > terms:
            return True
        for e, c in self.items():
            if c.numerator.bit_length() > bits or c.denominator.bit_length() > bits:
                return True
            if any(abs(x) > expo for _, x in e):
                return True
        return False


# dyadic constants: float arithmetic on them is exact
DYADIC = [1, 2, 3, 4, 0.5, 0.25, 1.5, 0.75, 5, 6, 8, 10, 12, 2.5, 0.125, 16]
POW2 = [1, 2, 4, 0.5, 8, 0.25]


def is_pow2(c):
    "Dividing by c is exact in floats."
    c = abs(c)
    return (c.numerator & (c.numerator-1) == 0) and (c.denominator & (c.denominator-1) == 0)


@st.composite
def programs(draw, signomial=None, min_ops=1, max_ops=9, nvars=None, zero=True, numpy=True):
    "Random valid straight-line programs, exact in floating point."
    sig = draw(st.booleans()) if signomial is None else signomial
    k = draw(st.integers(1, 4)) if nvars is None else nvars
    prog = [["var", i] for i in range(k)]
    refs = [Poly.var(i) for i in range(k)]
    isnum = [False]*k
    for _ in range(draw(st.integers(min_ops, max_ops))):
        op = draw(st.sampled_from(["num", "add", "add", "mul", "mul", "div", "pow", "pow"]
                                  + (["sub", "sub", "neg"] if sig else [])))
        n = len(prog)
        idx = st.integers(0, n-1).map(lambda i, n=n: n-1-i)  # shrinks towards the latest
        if op == "num":
            v = draw(st.sampled_from(DYADIC + [2.0**-36] + ([0] if zero else [])))
            if sig and draw(st.booleans()):
                v = -v
            kind = draw(st.sampled_from(["int", "float", "npf", "npi"] if numpy
                                        else ["int", "float"]))
            if v != int(v):
                kind = {"int": "float", "npi": "npf"}.get(kind, kind)
            prog.append(["num", v, kind])
            refs.append(Poly.const(v))
            isnum.append(True)
            continue
        if op in ("add", "sub", "mul"):
            i, j = draw(idx), draw(idx)
            if isnum[i] and isnum[j]:
                continue
            if op == "add":
                r = refs[i].add(refs[j])
            elif op == "sub":
                r = refs[i].add(refs[j], -1)
            else:
                r = refs[i].mul(refs[j])
            ins, num = [op, i, j], False
        elif op == "div":
            den = [j for j in range(n) if len(refs[j]) == 1 and is_pow2(next(iter(refs[j].values())))
                   and (isnum[j] or refs[j].is_mono())]
            if not den:
                continue
            i, j = draw(idx), draw(st.sampled_from(den[::-1]))
            if isnum[i] and isnum[j]:
                continue
            (e, c), = refs[j].items()
            r = refs[i].mul(Poly({tuple((v, -x) for v, x in e): 1/c}))
            ins, num = ["div", i, j], False
        elif op == "neg":
            i = draw(idx)
            if isnum[i]:
                continue
            r, ins, num = refs[i].mul(Poly.const(-1)), ["neg", i], False
        else:
            i = draw(idx)
            if isnum[i]:
                continue
            ref = refs[i]
            if ref.is_mono():
                (_, c), = ref.items()
                pool = [2, 1, 3, 0]
                if is_pow2(c):
                    pool += [-1, -2]
                if c == 1:
                    pool += [0.5, -0.5, 1.5, 2.5, 0.25, -1.25]
                e = draw(st.sampled_from(pool))
            elif ref:
                e = draw(st.sampled_from([2, 1, 3, 0]))
            else:
                continue
            kind = draw(st.sampled_from(["int", "float", "npf", "npi"] if numpy
                                        else ["int", "float"]))
            if e != int(e):
                kind = {"int": "float", "npi": "npf"}.get(kind, kind)
            if not ref.is_mono():
                kind = {"float": "int", "npf": "npi"}.get(kind, kind)
            r, ins, num = ref.power(F(e)), ["pow", i, e, kind], False
        if r.too_big():
            continue
        if not sig and not r.is_posy():
            if not (op == "mul" and not r):   # times zero is allowed: gives 0
                continue
        prog.append(ins)
        refs.append(r)
        isnum.append(num or not r and op == "mul")
    return {"nvars": k, "sig": sig, "prog": prog}


def reference(case):
    "Reference polynomials of every register."
    refs = []
    for ins in case["prog"]:
        op = ins[0]
        if op == "var":
            r = Poly.var(ins[1])
        elif op == "num":
            r = Poly.const(ins[1])
        elif op == "add":
            r = refs[ins[1]].add(refs[ins[2]])
        elif op == "sub":
            r = refs[ins[1]].add(refs[ins[2]], -1)
        elif op == "mul":
            r = refs[ins[1]].mul(refs[ins[2]])
        elif op == "div":
            (e, c), = refs[ins[2]].items()
            r = refs[ins[1]].mul(Poly({tuple((v, -x) for v, x in e): 1/c}))
        elif op == "neg":
            r = refs[ins[1]].mul(Poly.const(-1))
        elif op == "pow":
            r = refs[ins[1]].power(F(ins[2]))
        refs.append(r)
    return refs


def execute(case, variables):
    "Runs the program on gpkit objects (or anything else supporting the operators)."
    regs = []
    for ins in case["prog"]:
        op = ins[0]
        if op == "var":
            r = variables[ins[1]]
        elif op == "num":
            r = KINDS[ins[2]](ins[1])
        elif op == "add":
            r = regs[ins[1]] + regs[ins[2]]
        elif op == "sub":
            r = regs[ins[1]] - regs[ins[2]]
        elif op == "mul":
            r = regs[ins[1]] * regs[ins[2]]
        elif op == "div":
            r = regs[ins[1]] / regs[ins[2]]
        elif op == "neg":
            r = -regs[ins[1]]
        elif op == "pow":
            r = regs[ins[1]] ** KINDS[ins[3]](ins[2])
        regs.append(r)
    return regs


def term_list(nom, index):
    """[(exponent tuple, coefficient magnitude)] of a gpkit expression or plain number.

    index maps variable keys to reference variable numbers."""
    if not hasattr(nom, "hmap"):
        v = getattr(nom, "magnitude", nom)
        return [((), float(v))]
    out = []
    cs = nom.cs
    cs = np.atleast_1d(getattr(cs, "magnitude", cs))
    exps = nom.exps
    if len(cs) != len(exps):
        from .core import Violation
        raise Violation("%s has %i exponents but %i coefficients" % (nom, len(exps), len(cs)))
    for exp, c in zip(exps, cs):
        e = tuple(sorted((index[vk], F(float(x))) for vk, x in exp.items()))
        out.append((e, float(c)))
    return out
