"""Case split of a value graph over the breakpoints of one scalar quantity."""
import math
from fractions import Fraction

from . import term as tm
from .core import Undecided


def reps(points, lo, hi):
    """the breakpoints in [lo, hi] and one rational between each two: (value, is_breakpoint)"""
    ps = sorted({Fraction(p) for p in points if lo <= p <= hi} | {Fraction(lo), Fraction(hi)})
    out = []
    for a, b in zip(ps, ps[1:]):
        out += [(a, True), (a + (b - a) * Fraction(38197, 100000), False)]
    out.append((ps[-1], True))
    return out


def constants(t):
    return {Fraction(tm.cval(x)) for x in tm.walk(t) if tm.isnum(x) and not isinstance(tm.cval(x), complex)}


def region(t, var, rep):
    """t with every comparison that depends on `var` decided as at var=rep (other quantities must not matter)"""
    point = {var: tm.num(rep)}
    for _ in range(8):
        m = {}
        for x in tm.walk(t):
            if x.op in ('lt', 'eq') and any(y is var for y in tm.walk(x)):
                c = tm.subst(x, point)
                if c.op == 'const':
                    m[x] = c
                else:
                    try:
                        m[x] = tm.TRUE if (fval(c.args[0]) < fval(c.args[1]) if c.op == 'lt' else fval(c.args[0]) == fval(c.args[1])) else tm.FALSE
                    except Undecided:
                        pass
        if not m:
            return t
        t = tm.subst(t, m)
    return t


def at(t, var, rep):
    return tm.subst(t, {var: tm.num(rep)})


FN = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'abs': abs, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos}


def fval(t):
    """closed term as a number"""
    op = t.op
    if tm.isnum(t):
        return float(tm.cval(t))
    if op == 'const':
        raise Undecided('not a number: ' + tm.show(t, 2))
    if op == 'pi':
        return math.pi
    try:
        if op == 'add':
            return sum(fval(a) for a in t.args)
        if op == 'mul':
            return math.prod(fval(a) for a in t.args)
        if op == 'div':
            return fval(t.args[0]) / fval(t.args[1])
        if op == 'pow':
            return fval(t.args[0]) ** fval(t.args[1])
        if op == 'call' and t.args[0] in FN and len(t.args) == 2:
            return FN[t.args[0]](fval(t.args[1]))
        if op == 'phi':
            c = t.args[0]
            if c.op in ('lt', 'eq'):
                b = fval(c.args[0]) < fval(c.args[1]) if c.op == 'lt' else fval(c.args[0]) == fval(c.args[1])
                return fval(t.args[1 if b else 2])
    except (ValueError, OverflowError, ZeroDivisionError):
        return float('nan')
    raise Undecided('not a closed number: ' + tm.show(t, 3))
