"""Hash-consed value-graph terms, simplifying constructors, and algebraic value numbering.

A term denotes a run-time value of the analysed program.  Terms are compared by an algebraic value
number: +,-,*,/ are interpreted in a large prime field, exp/log/non-integer powers by a tabled
inverse pair, every other operator by hashing the value numbers of its operands; gates (phi) are
evaluated under sampled truth assignments of the (order-consistent) branch conditions.
"""
from fractions import Fraction
import itertools
import hashlib
import math


class Loop:
    """A symbolic counted loop: t = 0 .. count-1."""
    n = 0
    __slots__ = ('id', 'count', 'init', 'next', 'brk', 'keys', '_free', 'whilecond', 'desc', 'done')

    def __init__(self, count=None, desc=''):
        Loop.n += 1
        self.id = Loop.n
        self.count = count          # T or None (unknown trip count)
        self.init = {}              # key -> T
        self.next = {}              # key -> T
        self.brk = []               # [(guard T, {key: T})]
        self.whilecond = None
        self.desc = desc
        self._free = None
        self.done = False

    def parts(self):
        out = []
        if self.count is not None:
            out.append(self.count)
        if self.whilecond is not None:
            out.append(self.whilecond)
        out += list(self.init.values()) + list(self.next.values())
        for g, d in self.brk:
            out.append(g)
            out += list(d.values())
        return out

    def free(self):
        if self._free is None:
            s = set()
            for t in self.parts():
                s |= t.free
            s.discard(self)
            f = frozenset(s)
            if not self.done:
                return f
            self._free = f
        return self._free

    def __repr__(self):
        return f'L{self.id}'


class T:
    __slots__ = ('op', 'args', 'id', 'free', 'rank', 'h', 'info')

    def __repr__(self):
        return show(self)

    # interned: identity hash/eq


_tab = {}
_cnt = [0]
EMPTY = frozenset()


def _key(a):
    if isinstance(a, T):
        return ('t', a.id)
    if isinstance(a, Loop):
        return ('L', a.id)
    return (type(a).__name__ if not isinstance(a, (int, Fraction)) or isinstance(a, bool) else 'num', a)


def mk(op, *args, rank=None, info=None):
    k = (op,) + tuple(_key(a) for a in args)
    t = _tab.get(k)
    if t is not None:
        if t.rank is None and rank is not None:
            t.rank = rank
        return t
    t = T()
    t.op = op
    t.args = args
    _cnt[0] += 1
    t.id = _cnt[0]
    t.info = info
    fr = EMPTY
    h = 0
    for a in args:
        if isinstance(a, T):
            if a.free:
                fr = fr | a.free
            if a.h > h:
                h = a.h
    if op in ('iv', 'mu'):
        fr = fr | {args[0]}
    elif op == 'sum' or op == 'prod' or op == 'last' or op == 'anyiter' or op == 'atfirst' or op == 'gen':
        lp = args[0]
        fr = fr - {lp}
        if lp.count is not None:
            fr = fr | lp.count.free
        h += 1
    elif op == 'fill':
        loops = [a for a in args if isinstance(a, Loop)]
        fr = fr - set(loops)
        for lp in loops:
            if lp.count is not None:
                fr = fr | lp.count.free
        h += len(loops)
    elif op == 'eta':
        lp = args[0]
        fr = fr | lp.free()
        for p in lp.parts():
            h = max(h, p.h)
        h += 1
    t.free = fr
    t.h = h
    t.rank = rank
    _tab[k] = t
    return t


def num(v):
    if isinstance(v, bool):
        return mk('const', v, rank=0)
    if isinstance(v, int):
        return mk('const', v, rank=0)
    if isinstance(v, Fraction):
        return mk('const', int(v) if v.denominator == 1 else v, rank=0)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk('sym', repr(v), rank=0)
        f = Fraction(repr(v))
        return mk('const', int(f) if f.denominator == 1 else f, rank=0)
    if isinstance(v, complex):
        return mkcomplex(num(v.real), num(v.imag))
    return mk('const', v, rank=0)


def const(v):
    if isinstance(v, (int, float, Fraction, complex)) and not isinstance(v, bool):
        return num(v)
    return mk('const', v, rank=0)


ZERO = num(0)
ONE = num(1)
TRUE = mk('const', True, rank=0)
FALSE = mk('const', False, rank=0)
NONE = mk('const', None, rank=0)
PI = mk('sym', 'pi', rank=0)
I = mk('sym', 'I', rank=0)


def sym(name, rank=None, info=None):
    return mk('sym', name, rank=rank, info=info)


_op = [0]


def fresh(what='opaque', rank=None):
    _op[0] += 1
    return mk('opaque', what, _op[0], rank=rank)


def isnum(t):
    return t.op == 'const' and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)


def isconst(t):
    return isinstance(t, T) and t.op == 'const'


def cval(t):
    return t.args[0]


def _r(a, b):
    if a.rank is None or b.rank is None:
        return None
    return max(a.rank, b.rank)


def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] + b.args[0])
    if isnum(a) and a.args[0] == 0:
        return b
    if isnum(b) and b.args[0] == 0:
        return a
    if a.op == 'const' and b.op == 'const' and isinstance(cval(a), str) and isinstance(cval(b), str):
        return const(cval(a) + cval(b))
    if isstr(a) or isstr(b):
        return fstr([a, b])
    # keep numeric constants together at the right
    if isnum(a):
        a, b = b, a
    if isnum(b) and a.op == 'add' and isnum(a.args[1]):
        return add(a.args[0], num(a.args[1].args[0] + b.args[0]))
    if a.op == 'add' and isnum(a.args[1]) and not isnum(b):
        return add(add(a.args[0], b), a.args[1])
    if b.op == 'add' and isnum(b.args[1]):
        return add(add(a, b.args[0]), b.args[1])
    # integer-index cancellation  x + (-1)*x
    if _neg_of(a, b):
        return ZERO
    if a.op == 'add' and _neg_of(a.args[0], b):
        return a.args[1]
    if a.op == 'add' and _neg_of(a.args[1], b):
        return a.args[0]
    return mk('add', a, b, rank=_r(a, b))


def _neg_of(a, b):
    if b.op == 'mul' and isnum(b.args[0]) and b.args[0].args[0] == -1 and b.args[1] is a:
        return True
    if a.op == 'mul' and isnum(a.args[0]) and a.args[0].args[0] == -1 and a.args[1] is b:
        return True
    return False


def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] * b.args[0])
    if isnum(b):
        a, b = b, a
    if isnum(a):
        v = a.args[0]
        if v == 1:
            return b
        if v == 0 and b.rank == 0:
            return ZERO
        if b.op == 'mul' and isnum(b.args[0]):
            return mul(num(v * b.args[0].args[0]), b.args[1])
        if b.op == 'add' and (v == -1 or b.rank == 0) and _linear_small(b):
            return add(mul(a, b.args[0]), mul(a, b.args[1]))
    else:
        for x, y in ((a, b), (b, a)):
            if y.op == 'mul' and isnum(y.args[0]) and y.args[0].args[0] != 0:
                return mul(y.args[0], mul(a, y.args[1]) if y is b else mul(y.args[1], b))
    return mk('mul', a, b, rank=_r(a, b))


def _linear_small(b, d=0):
    return d < 6


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if isnum(b):
        if b.args[0] == 0:
            return mk('div', a, b, rank=_r(a, b))
        return mul(num(Fraction(1) / Fraction(b.args[0])), a)
    if isnum(a) and a.args[0] == 0:
        return ZERO if b.rank == 0 else mk('div', a, b, rank=_r(a, b))
    if a is b and a.rank == 0:
        return ONE
    return mk('div', a, b, rank=_r(a, b))


def power(a, b):
    if isnum(a) and isnum(b):
        x, y = Fraction(a.args[0]), Fraction(b.args[0])
        if y.denominator == 1 and abs(y) < 400 and not (x == 0 and y < 0):
            return num(x ** int(y))
    if isnum(b):
        if b.args[0] == 1:
            return a
        if b.args[0] == 0:
            return ONE
    return mk('pow', a, b, rank=_r(a, b))


def mkcomplex(a, b):
    if isnum(b) and b.args[0] == 0:
        return a
    return add(a, mul(b, I))


def isstr(t):
    return t.op == 'fstr' or (t.op == 'const' and isinstance(t.args[0], str))


def fstr(parts):
    out = []
    for p in parts:
        if p.op == 'fstr':
            out += list(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'const' and not isinstance(p.args[0], str):
            v = p.args[0]
            if isinstance(v, Fraction):
                v = float(v)
            p = const(str(v))
        if p.op == 'const' and p.args[0] == '':
            continue
        if res and isconst(res[-1]) and isconst(p):
            res[-1] = const(res[-1].args[0] + p.args[0])
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1 and isconst(res[0]):
        return res[0]
    return mk('fstr', *res, rank=0)


# ---------------------------------------------------------------- booleans

def lnot(c):
    if c.op == 'const':
        return FALSE if cval(c) else TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c, rank=0 if c.rank == 0 else c.rank)


def land(a, b):
    if a.op == 'const':
        return b if cval(a) else a
    if b.op == 'const' and b.args[0] is True:
        return a
    if b.op == 'const' and b.args[0] is False:
        return b
    if a is b:
        return a
    return mk('and', a, b, rank=None if None in (a.rank, b.rank) else max(a.rank, b.rank))


def lor(a, b):
    if a.op == 'const':
        return a if cval(a) else b
    if b.op == 'const' and b.args[0] is False:
        return a
    if b.op == 'const' and b.args[0] is True:
        return b
    if a is b:
        return a
    return mk('or', a, b, rank=None if None in (a.rank, b.rank) else max(a.rank, b.rank))


def linear(t, depth=0):
    """t as ({atom: coef}, const) over numeric coefficients."""
    if isnum(t):
        return {}, Fraction(t.args[0])
    if t.op == 'add':
        a, ca = linear(t.args[0], depth + 1)
        b, cb = linear(t.args[1], depth + 1)
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + v
            if d[k] == 0:
                del d[k]
        return d, ca + cb
    if t.op == 'mul' and isnum(t.args[0]):
        a, ca = linear(t.args[1], depth + 1)
        k = Fraction(t.args[0].args[0])
        return {x: v * k for x, v in a.items()}, ca * k
    return {t: Fraction(1)}, Fraction(0)


def constdiff(a, b):
    """a-b if it is a numeric constant, else None."""
    if a is b:
        return Fraction(0)
    d, c = linear(sub(a, b))
    return c if not d else None


def _ordered(a, b):
    """sign of a-b when it is a positive multiple of a difference of two elements of a strictly monotone input"""
    d, c = linear(sub(a, b))
    if c != 0 or len(d) != 2:
        return None
    (t1, k1), (t2, k2) = d.items()
    if k1 != -k2 or t1.op != 'idx' or t2.op != 'idx' or t1.args[0] is not t2.args[0] or len(t1.args) != 2 or len(t2.args) != 2:
        return None
    m = (t1.args[0].info or {}).get('mono') if isinstance(t1.args[0].info, dict) else None
    if not m:
        return None
    di, ci = linear(sub(t1.args[1], t2.args[1]))
    if not di:
        s = (ci > 0) - (ci < 0)
    elif all(v > 0 for v in di.values()) and all(x.op == 'sym' for x in di):
        s = 1
    elif all(v < 0 for v in di.values()) and all(x.op == 'sym' for x in di):
        s = -1
    else:
        return None
    return s * m * (1 if k1 > 0 else -1)


def sgn(t, depth=0):
    """the possible signs of a real term, from inputs declared positive ('sign' info: 1 positive, 2 non-negative);
    None when nothing is known"""
    if isnum(t):
        return frozenset({(t.args[0] > 0) - (t.args[0] < 0)})
    if depth > 40:
        return None
    i = t.info if isinstance(t.info, dict) else None
    if i and 'sgn' in i:
        return i['sgn']
    r = _sgn(t, depth)
    if r is not None and len(r) == 3:
        r = None
    t.info = dict(i or {}, sgn=r)
    return r


POSS, NNEG = frozenset({1}), frozenset({0, 1})


def _sgn(t, d):
    i = t.info if isinstance(t.info, dict) else None
    if i and 'sign' in i:
        return POSS if i['sign'] == 1 else NNEG
    op = t.op
    if op == 'idx':
        b = t.args[0]
        while b.op == 'sl' and not (isinstance(b.info, dict) and 'sign' in b.info):
            b = b.args[0]
        if isinstance(b.info, dict) and 'sign' in b.info:
            return POSS if b.info['sign'] == 1 else NNEG
        return None
    if op == 'add':
        d_, c = linear(t)
        r = {(c > 0) - (c < 0)}
        for x, k in d_.items():
            g = sgn(x, d + 1)
            if g is None:
                return None
            n = set()
            for u in r:
                for v in g:
                    v = v if k > 0 else -v
                    if u * v < 0:
                        return None
                    n.add(u or v)
            r = n
        return frozenset(r)
    if op == 'mul':
        a, b = sgn(t.args[0], d + 1), sgn(t.args[1], d + 1)
        if a is None or b is None:
            return None
        return frozenset(x * y for x in a for y in b)
    if op == 'div':
        a, b = sgn(t.args[0], d + 1), sgn(t.args[1], d + 1)
        if a is None or b is None or 0 in b:
            return None
        return frozenset(x * y for x in a for y in b)
    if op == 'pow':
        a = sgn(t.args[0], d + 1)
        if a == POSS:
            return POSS
        if a == NNEG and isnum(t.args[1]) and t.args[1].args[0] > 0:
            return NNEG
        if isnum(t.args[1]) and t.args[1].args[0] == 2 and a is not None:
            return frozenset(x * x for x in a)
        return None
    if op == 'phi':
        a, b = sgn(t.args[1], d + 1), sgn(t.args[2], d + 1)
        return None if a is None or b is None else a | b
    if op == 'call' and t.args[0] == 'exp':
        return POSS
    return None


def lt(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if isconst(a) and isconst(b) and isinstance(cval(a), str) and isinstance(cval(b), str):
        return TRUE if cval(a) < cval(b) else FALSE
    if a.rank == 0 and b.rank == 0:
        c = constdiff(a, b)
        if c is not None:
            return TRUE if c < 0 else FALSE
        s = _ordered(a, b)
        if s is not None:
            return TRUE if s < 0 else FALSE
        if isnum(b) and b.args[0] == 0 or isnum(a) and a.args[0] == 0:
            g = sgn(sub(a, b))
            if g is not None:
                if -1 not in g:
                    return FALSE
                if g == frozenset({-1}):
                    return TRUE
    return mk('lt', a, b, rank=_r(a, b))


def eq(a, b):
    if a is b and a.rank == 0:
        return TRUE
    if isconst(a) and isconst(b):
        va, vb = cval(a), cval(b)
        return TRUE if (va == vb and (isinstance(va, bool) == isinstance(vb, bool) or True)) else FALSE
    if a.rank == 0 and b.rank == 0 and not (isconst(a) and not isnum(a)) and not (isconst(b) and not isnum(b)):
        c = constdiff(a, b)
        if c is not None:
            return TRUE if c == 0 else FALSE
        if isnum(b) and b.args[0] == 0 or isnum(a) and a.args[0] == 0:
            g = sgn(sub(a, b))
            if g is not None and 0 not in g:
                return FALSE
    if isconst(a) and not isconst(b):
        a, b = b, a
    if not isconst(b) and a.id > b.id:
        a, b = b, a
    return mk('eq', a, b, rank=_r(a, b))


def phi(c, a, b):
    if c.op == 'const':
        return a if cval(c) else b
    if a is b:
        return a
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if c.rank == 0:
        if a is TRUE and isbool(b):
            return lor(c, b)
        if a is FALSE and isbool(b):
            return land(lnot(c), b)
        if b is TRUE and isbool(a):
            return lor(lnot(c), a)
        if b is FALSE and isbool(a):
            return land(c, a)
    if c.op == 'eq' and c.rank == 0 and a.op == b.op and a.op != 'const':
        x, k = c.args
        if isnum(x):
            x, k = k, x
        if isnum(k) and x.op in ('iv', 'sym') and subst(b, {x: k}) is a:
            return b        # the special case is what the general one gives there anyway
    return mk('phi', c, a, b, rank=phirank(c, a, b))


def isbool(t):
    return (t.rank == 0 and t.op in ('lt', 'eq', 'not', 'and', 'or', 'in', 'inrange', 'truth', 'is', 'anyiter')) or t is TRUE or t is FALSE


def phirank(c, a, b):
    if c.rank == 0:
        return a.rank if a.rank == b.rank else None
    if None in (c.rank, a.rank, b.rank):
        return None
    return max(c.rank, a.rank, b.rank)


def eidx(a, ix):
    """element of an elementwise operand (scalars broadcast)"""
    if a.rank == 0:
        return a
    if a.rank is not None and a.rank < len(ix):
        ix = ix[len(ix) - a.rank:]
    return idx(a, ix)


# ---------------------------------------------------------------- arrays

FULL = mk('slice', NONE, NONE, NONE)

ELEMWISE = {'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'real', 'imag', 'conj', 'isnan', 'floor', 'ceil',
            'sign', 'float', 'round', 'sinh', 'cosh', 'tanh', 'isfinite'}


def call(fn, *args, rank=None):
    if rank is None and fn in ELEMWISE:
        rk = 0
        for a in args:
            if isinstance(a, T):
                if a.rank is None:
                    rk = None
                    break
                rk = max(rk, a.rank)
        rank = rk
    return mk('call', fn, *args, rank=rank)


def exp(x):
    if isnum(x) and x.args[0] == 0:
        return ONE
    if x.op == 'call' and x.args[0] == 'log':
        return x.args[1]
    return call('exp', x)


def log(x):
    if isnum(x) and x.args[0] == 1:
        return ZERO
    if x.op == 'call' and x.args[0] == 'exp':
        return x.args[1]
    return call('log', x)


def sqrt(x):
    return power(x, num(Fraction(1, 2)))


def tabs(x):
    if isnum(x):
        return num(abs(x.args[0]))
    return phi(lt(x, ZERO), neg(x), x)


def tmax(a, b):
    return phi(lt(a, b), b, a)


def tmin(a, b):
    return phi(lt(b, a), b, a)


def _longest(ts, unknown=False):
    """leading length of arrays combined element by element"""
    ts = [a for a in ts if isinstance(a, T) and (a.rank or unknown and a.rank is None)]
    top = max(a.rank or 0 for a in ts)
    n = None
    for a in ts:
        if (a.rank or 0) == top:
            n = length(a)
            if n is not ONE:
                return n
    return n


def length(t):
    """Length of the leading axis of an array term."""
    i = t.info or {}
    if isinstance(i, dict) and i.get('shape'):
        return i['shape'][0]
    if t.op == 'arr' or t.op == 'list' or t.op == 'tup':
        return num(len(t.args))
    if t.op in ('zeros', 'emptyarr'):
        return t.args[0]
    if t.op == 'full':
        return t.args[1]
    if t.op == 'arange':
        return t.args[2]
    if t.op == 'concat':
        return add(length(t.args[0]), length(t.args[1]))
    if t.op == 'newax':
        return ONE if t.args[1] is NONE else length(t.args[0])
    if t.op in ('lt', 'eq', 'not', 'and', 'or') and t.rank is not None and t.rank > 0:
        return _longest(t.args)
    if t.op in ('store', 'fill', 'invert'):
        return length(t.args[0])
    if t.op == 'sl':
        lo, step = t.args[1], t.args[2]
        return t.args[3]
    if t.op == 'map1':
        return length(t.args[0])
    if t.op == 'idx' and len(t.args) > 2 and t.args[1] is FULL:
        return length(t.args[0])
    if t.op == 'idx' and t.args[0].rank == 2 and len(t.args) == 2 and t.args[1].rank == 0:
        sh = (t.args[0].info or {}).get('shape') if isinstance(t.args[0].info, dict) else None
        if sh:
            return sh[1]
        if t.args[0].op == 'zeros':
            return t.args[0].args[1]
    if t.op == 'idx' and (t.args[0].rank or 0) > 1 and DIM[0] and all(x.op == 'slice' or x.rank == 0 for x in t.args[1:]):
        d = next((k for k, x in enumerate(t.args[1:]) if x.op == 'slice'), len(t.args) - 1)
        n = DIM[0](t.args[0], d)
        if n is not None:
            x = t.args[1 + d] if d < len(t.args) - 1 else FULL
            if x is FULL:
                return n
            k = const_range(x, int(cval(n))) if isnum(n) else None
            if k is not None:
                return num(len(k))
    if t.op in ('add', 'mul', 'div', 'pow') and any(a.rank for a in t.args):
        return _longest(t.args)
    if t.op == 'call':
        if t.args[0] in ELEMWISE and any(isinstance(a, T) and a.rank != 0 for a in t.args[1:]):
            return _longest(t.args[1:], True)
        if t.args[0] == 'cumsum':
            return length(t.args[1])
    if t.op == 'phi':
        c, a, b = t.args
        if c.rank != 0 and any(x.rank for x in (c, a, b)):
            return _longest((c, a, b))
        la, lb = length(a), length(b)
        return la if la is lb else phi(t.args[0], la, lb)
    if t.op == 'atfirst' and t.args[0] not in length(t.args[2]).free:
        return length(t.args[2])
    if t.op == 'mu' or t.op == 'eta':
        lp, k = t.args[0], t.args[1]
        i = lp.init.get(k)
        if i is not None and fixed_length(lp, k, i):
            return length(i)
    return mk('len', t, rank=0)


def fixed_length(lp, k, init):
    """a variable changed in a loop keeps its length: cells always, lists and rebound names if the loop body says so"""
    if k[0] == 'a':
        return True
    if not lp.done:
        return k[0] != 'l'
    memo = lp.__dict__.setdefault('lenok', {}) if hasattr(lp, '__dict__') else LENOK.setdefault(lp.id, {})
    if k not in memo:
        memo[k] = True      # coinductive: a body that keeps the length of what it is given keeps it throughout
        n = lp.next.get(k)
        memo[k] = n is None or length(n) is length(init)
        for g, d in lp.brk:
            if memo[k] and k in d:
                memo[k] = length(d[k]) is length(init)
    return memo[k]


LENOK = {}


def mkslice(arr, lo, step, n):
    """View arr[lo], arr[lo+step], ... (n elements) along the leading axis."""
    if isnum(step) and cval(step) == 1 and isnum(lo) and cval(lo) == 0 and n is length(arr):
        return arr
    if arr.op == 'sl':
        return mkslice(arr.args[0], add(arr.args[1], mul(arr.args[2], lo)), mul(arr.args[2], step), n)
    return mk('sl', arr, lo, step, n, rank=arr.rank)


def slice_of(arr, s):
    lo, hi, st = s.args
    L = length(arr)
    step = ONE if st is NONE else st
    if not isnum(step):
        return mk('idx', arr, s, rank=arr.rank)
    sv = cval(step)

    def norm(x):
        if isnum(x) and cval(x) < 0:
            return add(L, x)
        return x
    if sv == 1:
        lo2 = ZERO if lo is NONE else norm(lo)
        hi2 = L if hi is NONE else norm(hi)
        if isnum(hi2) and isnum(L) and cval(hi2) > cval(L):
            hi2 = L
        return mkslice(arr, lo2, ONE, sub(hi2, lo2))
    if sv == -1:
        lo2 = sub(L, ONE) if lo is NONE else norm(lo)
        n = add(lo2, ONE) if hi is NONE else sub(lo2, norm(hi))
        return mkslice(arr, lo2, num(-1), n)
    return mk('idx', arr, s, rank=arr.rank)


def _in_range(t, loop):
    """Is 0 <= t < loop.count provable?  Loops with symbolic counts are assumed non-empty."""
    cnt = loop.count
    if cnt is None:
        return None
    d, c = linear(t)
    lo, hi = c, c
    lo_t, hi_t = num(c), num(c)
    for a, k in d.items():
        if a.op == 'iv' and a.args[0].count is not None and abs(k) == 1:
            m = sub(a.args[0].count, ONE)
            if k == 1:
                hi_t = add(hi_t, m)
            else:
                lo_t = sub(lo_t, m)
        else:
            lo_t = add(lo_t, mul(num(k), a))
            hi_t = add(hi_t, mul(num(k), a))
    # lower bound: lo_t >= 0
    dl, cl = linear(lo_t)
    dh, ch = linear(sub(cnt, hi_t))
    # symbolic lengths are assumed to be "large": positive coefficient => non-negative
    okl = (not dl and cl >= 0) or (dl and all(v > 0 for v in dl.values()))
    okh = (not dh and ch >= 1) or (dh and all(v > 0 for v in dh.values()))
    if okl and okh:
        return True
    if (not dl and not dh) and isnum(sub(hi_t, lo_t)) and cval(sub(hi_t, lo_t)) == 0:
        return False
    dl2, cl2 = linear(hi_t)
    if not dl2 and cl2 < 0:
        return False
    dh2, ch2 = linear(sub(lo_t, cnt))
    if not dh2 and ch2 >= 0:
        return False
    return None


def idx(arr, ix):
    """arr[ix] with ix a tuple of index terms."""
    if len(ix) == 1 and ix[0].op == 'slice':
        return slice_of(arr, ix[0])
    if all(i.op == 'slice' and i is FULL for i in ix):
        return arr
    if any(i is NONE for i in ix):
        return newax(arr, ix)
    if len(ix) > 1 and sum(1 for i in ix if i.op == 'slice') == 1 and FULL not in ix and all(i.op == 'slice' or i.rank == 0 for i in ix):
        # the one axis that is left is the leading one of what the scalars leave
        r = idx(arr, tuple(FULL if i.op == 'slice' else i for i in ix))
        if r.rank:
            return slice_of(r, next(i for i in ix if i.op == 'slice'))
    op = arr.op
    if op == 'newax':
        r = _newax_idx(arr, ix)
        if r is not None:
            return r
    if len(ix) == 1 and ix[0].rank == 1 and arr.rank == 1:
        k = picked(ix[0])
        if k is not None:
            return mk('arr', *[idx(arr, (num(j),)) for j in k], rank=1)
    if len(ix) == 1:
        i = ix[0]
        if isnum(i) and cval(i) < 0 and op not in ('arr', 'tup', 'list'):
            L = length(arr)
            if L.op != 'len' or op in ('sym', 'sl', 'zeros', 'fill', 'store', 'add', 'mul', 'div', 'pow', 'call', 'cumsum'):
                if not (op == 'call' and arr.args[0] not in ELEMWISE and arr.args[0] != 'cumsum'):
                    i = add(L, i)
                    ix = (i,)
        if op in ('arr', 'tup', 'list') and isnum(i):
            n = len(arr.args)
            v = int(cval(i))
            if -n <= v < n:
                return arr.args[v]
        if op == 'sl':
            return idx(arr.args[0], (add(arr.args[1], mul(arr.args[2], i)),))
        if op == 'zeros':
            return ZERO if arr.rank == 1 else mk('zeros', *arr.args[1:], rank=(arr.rank or 2) - 1) if len(arr.args) > 1 else ZERO
        if op == 'full' and arr.rank == 1:
            return arr.args[0]
        if op == 'invert' and i.rank == 0 and arr.rank == 1:
            x = idx(arr.args[0], ix)
            return FALSE if x is TRUE else TRUE if x is FALSE else mk('invert', x, rank=0)
        if op == 'arange':
            return add(arr.args[0], mul(arr.args[1], i))
        if op == 'concat' and i.rank == 0:
            n0 = length(arr.args[0])
            c = lt(i, n0)
            if c.op == 'const':
                return idx(arr.args[0], (i,)) if cval(c) else idx(arr.args[1], (sub(i, n0),))
            return phi(c, idx(arr.args[0], (i,)), idx(arr.args[1], (sub(i, n0),)))
        if op == 'call' and arr.args[0] == 'T' and arr.args[1].rank == 2:
            return idx(arr.args[1], (FULL, i))
        if op == 'idx' and arr.rank == 1 and i.op != 'slice' and sum(1 for x in arr.args[1:] if x is FULL) == 1 and \
                all(x is FULL or x.rank == 0 for x in arr.args[1:]):
            return idx(arr.args[0], tuple(i if x is FULL else x for x in arr.args[1:]))
        if op == 'call' and arr.args[0] == 'cumsum':
            lp = Loop(add(i, ONE), 'cumsum')
            lp.done = True
            return mksum(lp, idx(arr.args[1], (mk('iv', lp, rank=0),)))
    if op in ('zeros', 'full') and all(x is FULL or (x.op != 'slice' and x.rank == 0) for x in ix):
        dims = arr.args if op == 'zeros' else arr.args[1:]
        if len(ix) <= len(dims):
            left = tuple(d for d, x in itertools.zip_longest(dims, ix, fillvalue=FULL) if x is FULL)
            if op == 'zeros':
                return mk('zeros', *left, rank=len(left)) if left else ZERO
            return mk('full', arr.args[0], *left, rank=len(left)) if left else arr.args[0]
    if op == 'call' and arr.args[0] == 'T' and arr.args[1].rank == 2 and len(ix) == 2:
        return idx(arr.args[1], (ix[1], ix[0]))
    if op == 'full' and len(ix) == len(arr.args) - 1 and all(x.op != 'slice' for x in ix):
        return arr.args[0]
    if op == 'phi':
        c = arr.args[0]
        if c.rank == 0:
            return phi(c, idx(arr.args[1], ix), idx(arr.args[2], ix))
        if arr.rank == len(ix) and all(x.op != 'slice' and x.rank == 0 for x in ix):
            return phi(eidx(c, ix), eidx(arr.args[1], ix), eidx(arr.args[2], ix))
    if op in ('add', 'mul', 'div', 'pow', 'lt', 'eq') or (op == 'call' and arr.args[0] in ELEMWISE) or op in ('not', 'and', 'or', 'where'):
        ts = [a for a in arr.args if isinstance(a, T)]
        if all(a.rank is not None for a in ts) and arr.rank == len(ix) and all(x.op != 'slice' for x in ix):
            new = []
            for a in arr.args:
                if isinstance(a, T):
                    if a.rank == 0:
                        new.append(a)
                    else:
                        new.append(idx(a, ix[len(ix) - a.rank:]))
                else:
                    new.append(a)
            return rebuild(op, new)
        if all(a.rank is not None for a in ts) and arr.rank is not None and 1 < arr.rank > len(ix) and sum(1 for a in ts if a.rank) == 1 and all(x is FULL or x.op != 'slice' and x.rank == 0 for x in ix):
            # a scaled array: every axis is that of the one array in it
            return rebuild(op, [idx(a, ix) if isinstance(a, T) and a.rank else a for a in arr.args])
    if op == 'store':
        base, val = arr.args[0], arr.args[-1]
        six = arr.args[1:-1]
        r = _same_index(ix, six, base)
        if r is True:
            return val
        if r is False:
            return idx(base, ix)
        if base.rank is not None and base.rank > 1:
            r = _store_load(base, six, val, ix)
            if r is not None:
                return r
        if len(ix) == 1 and len(six) == 1:
            if six[0].op == 'slice':
                lo, hi, st = six[0].args
                if st is NONE or st is ONE:
                    L = length(base)
                    lo2 = ZERO if lo is NONE else (add(L, lo) if isnum(lo) and cval(lo) < 0 else lo)
                    hi2 = L if hi is NONE else (add(L, hi) if isnum(hi) and cval(hi) < 0 else hi)
                    c = land(lnot(lt(ix[0], lo2)), lt(ix[0], hi2))
                    v = val if val.rank == 0 else idx(val, (sub(ix[0], lo2),))
                    return phi(c, v, idx(base, ix))
            elif six[0].rank == 0 and ix[0].op != 'slice':
                return phi(eq(ix[0], six[0]), val, idx(base, ix))
    if op == 'idx' and arr.rank == len(ix) and arr.rank and all(x.op != 'slice' and x.rank == 0 for x in ix):
        r = _compose(arr, ix)
        if r is not None:
            return r
    if op == 'idx' and arr.rank and len(ix) <= arr.rank and all(x is FULL or x.op != 'slice' and x.rank == 0 for x in ix + arr.args[1:]) and arr.args[0].rank is not None:
        rest = list(ix)
        new = [(rest.pop(0) if rest else FULL) if x is FULL else x for x in arr.args[1:]] + rest
        if all(x is FULL or not (isnum(x) and cval(x) < 0) for x in ix):
            return idx(arr.args[0], tuple(new))
    if op == 'sl' and len(ix) > 1 and ix[0].rank == 0 and ix[0].op != 'slice' and not (isnum(ix[0]) and cval(ix[0]) < 0):
        return idx(arr.args[0], (add(arr.args[1], mul(arr.args[2], ix[0])),) + tuple(ix[1:]))
    if op == 'arr' and len(ix) > 1 and arr.args and (arr.rank is None or len(ix) <= arr.rank):
        k = None
        if isnum(ix[0]) and -len(arr.args) <= cval(ix[0]) < len(arr.args):
            return idx(arr.args[int(cval(ix[0]))], ix[1:])
        if ix[0].op == 'slice':
            k = const_range(ix[0], len(arr.args))
        if k:
            xs = [idx(arr.args[j], ix[1:]) for j in k]
            if all(x.rank is not None for x in xs):
                return mk('arr', *xs, rank=xs[0].rank + 1)
    if op == 'atfirst' and arr.rank == len(ix) and all(x.op != 'slice' for x in ix):
        v = idx(arr.args[2], ix)
        return mk('atfirst', arr.args[0], arr.args[1], v, rank=v.rank)
    if op == 'fill':
        r = _fill_load(arr, ix)
        if r is not None:
            return r
    rk = None
    if arr.rank is not None:
        rk = arr.rank - sum(1 for x in ix if x.op != 'slice' and x.rank in (0, None) and x.op != 'const' or (isnum(x)))
        if rk < 0:
            rk = None
    if any(x.op != 'slice' and (x.rank or 0) > 0 for x in ix):
        rk = max([x.rank or 0 for x in ix if x.op != 'slice'])
    return mk('idx', arr, *ix, rank=rk)


def newax(arr, ix):
    """arr[ix] where some entries of ix are None"""
    old = tuple(i for i in ix if i is not NONE)
    r = idx(arr, old) if old else arr
    if r.rank is None or any(i.op != 'slice' and i.rank != 0 for i in old):
        return mk('idx', arr, *ix)
    pat = [NONE if i is NONE else FULL for i in ix if i is NONE or i.op == 'slice']
    pat += [FULL] * (r.rank - sum(1 for x in pat if x is FULL))
    if r.op == 'newax':
        inner = iter(r.args[1:])
        pat = [NONE if x is NONE else next(inner) for x in pat]
        r = r.args[0]
    return mk('newax', r, *pat, rank=len(pat))


def _newax_idx(arr, ix):
    base, pat = arr.args[0], arr.args[1:]
    ix = tuple(ix) + (FULL,) * (len(pat) - len(ix))
    if len(ix) != len(pat) or any(i.op != 'slice' and i.rank != 0 for i in ix):
        return None
    if any(p is NONE and i.op == 'slice' and i is not FULL for p, i in zip(pat, ix)):
        return None
    inner = tuple(i for p, i in zip(pat, ix) if p is not NONE)
    r = base if all(i is FULL for i in inner) else idx(base, inner)
    left = [p if p is NONE else FULL for p, i in zip(pat, ix) if i.op == 'slice']
    if not any(x is NONE for x in left):
        return r
    return mk('newax', r, *left, rank=len(left))


def const_range(s, n):
    if all(a is NONE or isnum(a) for a in s.args):
        return range(*slice(*[None if a is NONE else int(cval(a)) for a in s.args]).indices(n))


DIM = [None]        # lib.dim: length of an array along one axis


def _compose(arr, ix):
    """element of a view of a multi-dimensional array given by scalars and slices"""
    base, inner = arr.args[0], arr.args[1:]
    if any(x.op != 'slice' and x.rank != 0 for x in inner):
        return None
    out, it = [], iter(ix)
    for d, x in enumerate(inner):
        if x.op != 'slice':
            out.append(x)
            continue
        try:
            i = next(it)
        except StopIteration:
            return None
        if x is FULL:
            out.append(i)
            continue
        lo, hi, st = x.args
        if isnum(i) and cval(i) < 0 or not (st is NONE or isnum(st)):
            return None
        k = 1 if st is NONE else int(cval(st))
        if lo is NONE and k > 0:
            out.append(mul(num(k), i))
            continue
        if lo is NONE or isnum(lo) and cval(lo) < 0:
            n = DIM[0](base, d) if DIM[0] else None
            if n is None:
                return None
            lo = add(n, lo if lo is not NONE else num(-1))
        out.append(add(lo, mul(num(k), i)))
    return idx(base, tuple(out) + tuple(it))


def _store_load(base, six, val, ix):
    """element or slice of a multi-dimensional store whose indices are scalars and full slices"""
    n = base.rank
    if any((x.op == 'slice' and x is not FULL) or (x.op != 'slice' and x.rank != 0) for x in tuple(six) + tuple(ix)):
        return None
    a = tuple(ix) + (FULL,) * (n - len(ix))
    b = tuple(six) + (FULL,) * (n - len(six))
    if len(a) != n or len(b) != n:
        return None
    extra, conds = [], TRUE
    for x, y in zip(a, b):
        if y is FULL:
            extra.append(x)
        elif x is FULL:
            return None
        else:
            c = eq(x, y)
            if c is FALSE:
                return idx(base, ix)
            conds = land(conds, c)
    if all(x is FULL for x in extra):
        v = val
        if val.rank == 0 and extra:
            return None
    elif val.rank == 0:
        if any(x is FULL for x in extra):
            return None
        v = val
    elif val.rank is None or val.rank > len(extra):
        return None
    else:
        v = idx(val, tuple(extra[len(extra) - val.rank:]))
    return phi(conds, v, idx(base, ix))


def _same_index(a, b, base=None):
    """True / False / None(unknown) for equality of two multi-indices."""
    if len(a) != len(b):
        return None
    res = True
    for x, y in zip(a, b):
        if x is y:
            continue
        if x.op == 'slice' or y.op == 'slice':
            res = None if res is True else res
            continue
        c = constdiff(x, y)
        if c is None:
            res = None if res is True else res
            continue
        if c != 0:
            return False
    return res


def _fill_load(arr, ix):
    # fill args: base, nidx, *loops, *idx, val
    base, nl = arr.args[0], arr.args[1]
    loops = arr.args[2:2 + nl]
    six = arr.args[2 + nl:-1]
    val = arr.args[-1]
    if len(six) > len(ix):
        return None
    extra = ix[len(six):]
    ix0 = ix[:len(six)]
    sol = {}
    conds = []
    for x, y in zip(ix0, six):
        if y.op == 'slice':
            if x is not y:
                if y is FULL and x.op != 'slice':
                    extra = (x,) + extra
                    continue
                return None
            continue
        if x.op == 'slice':
            return None
        d, c = linear(y)
        lv = [a for a in d if a.op == 'iv' and a.args[0] in loops]
        if not lv:
            cd = constdiff(x, y)
            if cd is None:
                conds.append(eq(x, y))
            elif cd != 0:
                return idx(base, ix)
            continue
        if len(lv) != 1 or abs(d[lv[0]]) != 1:
            return None
        k = d[lv[0]]
        rest = sub(y, mul(num(k), lv[0]))
        if rest.free & set(loops):
            return None
        t = mul(num(k), sub(x, rest))
        lp = lv[0].args[0]
        if lp in sol:
            return None
        sol[lp] = t
        r = _in_range(t, lp)
        if r is False:
            return idx(base, ix)
        if r is None:
            conds.append(mk('inrange', t, lp.count if lp.count is not None else NONE, rank=0))
    if len(sol) != len(loops):
        return None
    v = subst(val, {mk('iv', lp, rank=0): t for lp, t in sol.items()})
    if extra:
        v = idx(v, extra) if v.rank != 0 else v
    if conds:
        c = conds[0]
        for q in conds[1:]:
            c = land(c, q)
        return phi(c, v, idx(base, ix))
    return v


def picked(i, cap=256):
    """the positions a constant index array or a constant mask selects, or None"""
    if i.op == 'call' and i.args[0] == 'nonzero':
        return mask_positions(i.args[1], cap)
    if i.op == 'arr':
        if all(isnum(x) and not isinstance(x.args[0], bool) for x in i.args):
            return [int(cval(x)) for x in i.args]
        if all(x is TRUE or x is FALSE for x in i.args):
            return [j for j, x in enumerate(i.args) if x is TRUE]
        return None
    if i.op in ('lt', 'eq', 'not', 'and', 'or'):
        return mask_positions(i, cap)
    if i.op in ('add', 'mul', 'concat') and any(isinstance(x, T) and x.op == 'arr' for x in i.args):
        n = length(i)
        if isnum(n) and 0 < cval(n) <= cap:
            xs = [idx(i, (num(j),)) for j in range(int(cval(n)))]
            if all(isnum(x) and Fraction(cval(x)).denominator == 1 for x in xs):
                return [int(cval(x)) for x in xs]
    return None


def mask_positions(m, cap=256):
    if m.free or m.rank != 1:
        return None
    n = length(m)
    if not isnum(n) or cval(n) > cap:
        return None
    out = []
    for j in range(int(cval(n))):
        e = idx(m, (num(j),))
        if e is TRUE:
            out.append(j)
        elif e is not FALSE:
            return None
    return out


def store(arr, ix, val):
    if len(ix) == 1 and ix[0].op == 'slice' and ix[0] is FULL and arr.rank == 1:
        if val.rank == arr.rank:
            return val
        if val.rank == 0:
            L = length(arr)
            return mk('full', val, L, rank=1)
    # storing back what is already there
    if idx(arr, ix) is val:
        return arr
    if len(ix) == 1 and ix[0].op == 'call' and ix[0].args[0] == 'nonzero':
        ix = (ix[0].args[1],)
    if len(ix) == 1 and ix[0].op in ('lt', 'eq', 'not', 'and', 'or', 'call') and ix[0].rank == 1 and arr.rank in (1, None):
        m = ix[0]
        v = ungather(val, m)
        if v is not None:
            return mk('phi', m, v, arr, rank=1)
    if arr.op == 'store' and len(arr.args) - 2 == len(ix) and all(x is y for x, y in zip(arr.args[1:-1], ix)):
        arr = arr.args[0]
    if arr.op == 'arr' and len(ix) == 1 and isnum(ix[0]):
        n = len(arr.args)
        v = int(cval(ix[0]))
        if -n <= v < n:
            a = list(arr.args)
            a[v] = val
            return mk('arr', *a, rank=arr.rank)
    if arr.op == 'zeros' and len(ix) == 1 and isnum(ix[0]) and isnum(arr.args[0]) and cval(arr.args[0]) <= 16 and \
            (len(arr.args) == 1 or all(isnum(a) and cval(a) == 1 for a in arr.args[1:])):
        a = [ZERO] * int(cval(arr.args[0]))
        v = int(cval(ix[0]))
        if -len(a) <= v < len(a):
            a[v] = val
            return mk('arr', *a, rank=1)
    return mk('store', arr, *ix, val, rank=arr.rank)


def ungather(v, m, memo=None):
    """v computed from elements selected by mask m, as the full-length elementwise expression; None if not of that form"""
    if v.rank == 0:
        return v
    if v.op == 'idx' and len(v.args) == 2:
        i = v.args[1]
        if i.op == 'call' and i.args[0] == 'nonzero':
            i = i.args[1]
        return v.args[0] if i is m else None
    if v.op in ('add', 'mul', 'div', 'pow', 'phi', 'lt', 'eq', 'not') or (v.op == 'call' and v.args[0] in ELEMWISE):
        na = []
        for a in v.args:
            if isinstance(a, T):
                a = ungather(a, m)
                if a is None:
                    return None
            na.append(a)
        r = rebuild(v.op, na)
        return r
    return None


def _inv_factors(t, lp):
    """split t into (invariant factor, rest) w.r.t. loop lp for products."""
    if lp not in t.free:
        return t, ONE
    if t.op == 'mul':
        a0, a1 = _inv_factors(t.args[0], lp)
        b0, b1 = _inv_factors(t.args[1], lp)
        return mul(a0, b0), mul(a1, b1)
    if t.op == 'div':
        a0, a1 = _inv_factors(t.args[0], lp)
        b0, b1 = _inv_factors(t.args[1], lp)
        return div(a0, b0), div(a1, b1)
    if t.op == 'add':
        d, c = linear(t)
        cs = [v for v in d.values()] + ([c] if c else [])
        g, l = 0, 1
        for v in cs:
            v = Fraction(v)
            g = math.gcd(g, abs(v.numerator))
            l = l * v.denominator // math.gcd(l, v.denominator)
        k = Fraction(g, l)
        if k not in (0, 1):
            r = num(c / k)
            for a, v in d.items():
                r = add(r, mul(num(v / k), a))
            return num(k), r
    return ONE, t


def mksum(lp, body):
    """sum_{t<lp.count} body"""
    if isnum(body) and cval(body) == 0:
        return ZERO
    if body.op == 'add':
        return add(mksum(lp, body.args[0]), mksum(lp, body.args[1]))
    if lp not in body.free and lp.count is not None:
        return mul(lp.count, body)
    if lp.count is not None and isnum(lp.count) and isinstance(cval(lp.count), (int, Fraction)) and cval(lp.count) <= 64 and cval(lp.count) == int(cval(lp.count)):
        r = ZERO
        iv = mk('iv', lp, rank=0)
        for k in range(max(0, int(cval(lp.count)))):
            r = add(r, subst(body, {iv: num(k)}))
        return r
    inv, rest = _inv_factors(body, lp)
    if inv is not ONE:
        return mul(inv, mksum(lp, rest))
    return mk('sum', lp, _canon_dir(lp, body), rank=body.rank)


def _canon_dir(lp, body):
    """Orient the summation index so that array indices grow with it."""
    if lp.count is None:
        return body
    iv = mk('iv', lp, rank=0)
    signs = set()
    seen = set()

    def walk(t):
        if t.id in seen or lp not in t.free:
            return
        seen.add(t.id)
        if t.op in ('idx', 'sum', 'fill'):
            its = t.args[1:] if t.op == 'idx' else [t.args[0].count] if t.op == 'sum' and t.args[0].count is not None else []
            for i in its:
                if isinstance(i, T) and lp in i.free and i.op != 'slice':
                    d, _ = linear(i)
                    k = d.get(iv)
                    if k is not None and t.op == 'idx':
                        signs.add(1 if k > 0 else -1)
        for a in t.args:
            if isinstance(a, T):
                walk(a)
    walk(body)
    if signs == {-1}:
        return subst(body, {iv: sub(sub(lp.count, ONE), iv)})
    return body


def rebuild(op, args):
    a = args
    if op == 'add':
        return add(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'div':
        return div(*a)
    if op == 'pow':
        return power(*a)
    if op == 'phi':
        return phi(*a)
    if op == 'not':
        return lnot(*a)
    if op == 'and':
        return land(*a)
    if op == 'or':
        return lor(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'fstr':
        return fstr(a)
    if op == 'idx':
        return idx(a[0], tuple(a[1:]))
    if op == 'sl':
        return mkslice(*a)
    if op == 'store':
        return store(a[0], tuple(a[1:-1]), a[-1])
    if op == 'call':
        if a[0] == 'exp' and len(a) == 2:
            return exp(a[1])
        if a[0] == 'log' and len(a) == 2:
            return log(a[1])
        return call(*a) if a[0] in ELEMWISE else None
    if op == 'len':
        return length(*a)
    if op == 'sum':
        return mksum(*a)
    if op == 'inrange':
        return mk('inrange', *a, rank=0)
    return None


def subst(t, m, memo=None, lmemo=None):
    """Capture-avoiding substitution of terms."""
    if memo is None:
        memo = {}
        lmemo = {}
        m = dict(m)
    keys = m

    def loop(lp):
        if lp in lmemo:
            return lmemo[lp]
        new = Loop(None, lp.desc)
        lmemo[lp] = lp      # default while inspecting
        # does substitution touch the loop?
        touched = any(go(p) is not p for p in lp.parts())
        if not touched:
            return lp
        # recompute with a renamed loop
        lmemo[lp] = new
        new.count = go(lp.count) if lp.count is not None else None
        inner = dict(m)
        inner[mk('iv', lp, rank=0)] = mk('iv', new, rank=0)
        ren = {}
        for k in lp.next:
            old = mk('mu', lp, k)
            nw = mk('mu', new, k, rank=old.rank)
            inner[old] = nw
        sub_ = lambda x: subst(x, inner)
        new.init = {k: go(v) for k, v in lp.init.items()}
        new.next = {k: sub_(v) for k, v in lp.next.items()}
        new.brk = [(sub_(g), {k: sub_(v) for k, v in d.items()}) for g, d in lp.brk]
        new.whilecond = sub_(lp.whilecond) if lp.whilecond is not None else None
        new.done = True
        return new

    def go(x):
        r = keys.get(x)
        if r is not None:
            return r
        if x.id in memo:
            return memo[x.id]
        if not x.args or x.op in ('const', 'sym', 'opaque', 'iv', 'mu'):
            memo[x.id] = x
            return x
        if x.op in ('sum', 'prod', 'last', 'anyiter', 'atfirst', 'gen'):
            lp = x.args[0]
            cnt = go(lp.count) if lp.count is not None else None
            if cnt is lp.count:
                na = [go(a) if isinstance(a, T) else a for a in x.args]
                if all(p is q for p, q in zip(na, x.args)):
                    r = x
                else:
                    # rename binder if it could capture
                    r = mksum(na[0], na[1]) if x.op == 'sum' else mk(x.op, *na, rank=x.rank)
            else:
                new = Loop(cnt, lp.desc)
                new.done = True
                inner = dict(m)
                inner[mk('iv', lp, rank=0)] = mk('iv', new, rank=0)
                na = [subst(a, inner) if isinstance(a, T) else a for a in x.args]
                na[0] = new
                r = mksum(na[0], na[1]) if x.op == 'sum' else mk(x.op, *na, rank=x.rank)
        elif x.op == 'eta':
            lp = loop(x.args[0])
            r = x if lp is x.args[0] else mk('eta', lp, x.args[1], rank=x.rank)
        elif x.op == 'fill':
            base, nl = x.args[0], x.args[1]
            loops = x.args[2:2 + nl]
            newl = []
            inner = dict(m)
            ch = False
            for lp in loops:
                cnt = go(lp.count) if lp.count is not None else None
                if cnt is not lp.count:
                    new = Loop(cnt, lp.desc)
                    new.done = True
                    inner[mk('iv', lp, rank=0)] = mk('iv', new, rank=0)
                    newl.append(new)
                    ch = True
                else:
                    newl.append(lp)
            rest = [subst(a, inner) if ch else go(a) for a in x.args[2 + nl:]]
            nb = go(base)
            r = mk('fill', nb, nl, *newl, *rest, rank=x.rank)
        else:
            na = [go(a) if isinstance(a, T) else a for a in x.args]
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
                if r is None:
                    r = mk(x.op, *na, rank=x.rank, info={k: v for k, v in x.info.items() if k != 'sgn'} if isinstance(x.info, dict) else x.info)
        memo[x.id] = r
        return r
    return go(t)


def walk(t, seen=None, into_loops=True, stop=None, conds=True):
    """All sub-terms (each once), including loop bodies; the arguments of terms for which stop() holds are left out."""
    if seen is None:
        seen = set()
    stack = [t]
    lseen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop is not None and stop(x):
            continue
        for a in x.args if conds or x.op != 'phi' else x.args[1:]:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, Loop) and into_loops and a.id not in lseen:
                lseen.add(a.id)
                if a.count is not None:
                    stack.append(a.count)
                if x.op == 'eta':
                    stack.extend(_loop_slice(a, x.args[1]))
                elif x.op in ('mu',):
                    stack.extend(a.init.values())
                    stack.extend(a.next.values())


def _loop_slice(lp, key):
    """Terms of a general loop relevant for one carried key (transitive closure over mus)."""
    need = [key]
    done = set()
    out = []
    if lp.whilecond is not None:
        out.append(lp.whilecond)
    for g, d in lp.brk:
        out.append(g)
    q = list(out)
    while need or q:
        if need:
            k = need.pop()
            if k in done:
                continue
            done.add(k)
            for src in (lp.init.get(k), lp.next.get(k)):
                if src is not None:
                    out.append(src)
                    q.append(src)
            for g, d in lp.brk:
                if k in d:
                    out.append(d[k])
                    q.append(d[k])
        else:
            x = q.pop()
            seen = set()
            st = [x]
            while st:
                y = st.pop()
                if y.id in seen:
                    continue
                seen.add(y.id)
                if y.op == 'mu' and y.args[0] is lp:
                    need.append(y.args[1])
                for a in y.args:
                    if isinstance(a, T):
                        st.append(a)
    return out


def show(t, depth=6):
    if depth == 0:
        return '..'
    if isinstance(t, Loop):
        return repr(t)
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'const':
        v = t.args[0]
        return str(float(v)) if isinstance(v, Fraction) else repr(v)
    if t.op == 'sym':
        return str(t.args[0])
    b = {'add': '+', 'mul': '*', 'div': '/', 'pow': '**', 'lt': '<', 'eq': '=='}
    if t.op in b:
        return '(' + b[t.op].join(show(a, depth - 1) for a in t.args) + ')'
    if t.op == 'idx':
        return show(t.args[0], depth - 1) + '[' + ','.join(show(a, depth - 1) for a in t.args[1:]) + ']'
    if t.op == 'iv':
        return 't' + str(t.args[0].id)
    if t.op == 'slice':
        return ':'.join('' if a is NONE else show(a, depth - 1) for a in t.args)
    return t.op + '(' + ', '.join(show(a, depth - 1) for a in t.args) + ')'


# ---------------------------------------------------------------- algebraic value numbering

def _find_prime():
    # largest known: search upward from 2**107 for p = 1 mod 4
    def mr(n):
        if n % 2 == 0:
            return False
        d, s = n - 1, 0
        while d % 2 == 0:
            d //= 2
            s += 1
        for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
            x = pow(a, d, n)
            if x in (1, n - 1):
                continue
            for _ in range(s - 1):
                x = x * x % n
                if x == n - 1:
                    break
            else:
                return False
        return True
    n = (1 << 107) + 1
    while True:
        if n % 4 == 1 and mr(n):
            return n
        n += 2


P = _find_prime()


def _sqrtm1():
    a = 2
    while True:
        x = pow(a, (P - 1) // 4, P)
        if x * x % P == P - 1:
            return x
        a += 1


IVAL = _sqrtm1()


def H(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=16).digest(), 'big') % P


_hm = {}


def has_mu(t, lp):
    k = (t.id, lp.id)
    if k not in _hm:
        _hm[k] = t.op == 'mu' and t.args[0] is lp or any(has_mu(a, lp) for a in t.args if isinstance(a, T) and lp in a.free)
    return _hm[k]


class VN:
    """One value-numbering pass = one sampled truth assignment of the branch conditions."""

    def __init__(self, seed=0, pool=(), strpool=(), symname=None, assumptions=()):
        self.seed = seed
        self.memo = {}
        self.logof = {}   # value of exp(v) -> v
        self.expof = {}   # value of log(x) -> x
        self.pool = sorted(set(pool))
        self.strpool = sorted(set(strpool))
        self.cuts = self._cuts()
        self.symname = symname or (lambda t: t.args[0])
        self.force = {}
        self.rev = {}

    def _cuts(self):
        p = self.pool
        if not p:
            return [Fraction(-1), Fraction(0), Fraction(1)]
        out = [p[0] - 1]
        for i, v in enumerate(p):
            out.append(v)
            out.append((v + p[i + 1]) / 2 if i + 1 < len(p) else v + 1)
        return out

    def f(self, v):
        if isinstance(v, Fraction):
            return v.numerator % P * pow(v.denominator, -1, P) % P
        return int(v) % P

    def val(self, t, env=None):
        env = env or {}
        fr = t.free
        key = (t.id, tuple(sorted((l.id, env[l]) for l in fr if l in env))) if fr else t.id
        r = self.memo.get(key)
        if r is None:
            r = self._val(t, env)
            self.memo[key] = r
        return r

    def inv(self, x):
        if x % P == 0:
            return H('inv0')
        return pow(x, -1, P)

    def _exp(self, v):
        if v in self.expof:
            return self.expof[v]
        if v == 0:
            return 1
        r = H('exp', v)
        self.logof[r] = v
        return r

    def _log(self, x):
        if x in self.logof:
            return self.logof[x]
        if x == 1:
            return 0
        r = H('log', x)
        self.expof[r] = x
        return r

    def _val(self, t, env):
        op, a = t.op, t.args
        if op == 'const':
            v = a[0]
            if isinstance(v, bool):
                return 1 if v else 0
            if isinstance(v, (int, Fraction)):
                return self.f(v)
            return H('c', v)
        if op == 'sym':
            if t is I:
                return IVAL
            return H('sym', self.symname(t))
        if op == 'opaque':
            return H('opaque', a)
        if op == 'add':
            return (self.val(a[0], env) + self.val(a[1], env)) % P
        if op == 'mul':
            return self.val(a[0], env) * self.val(a[1], env) % P
        if op == 'div':
            return self.val(a[0], env) * self.inv(self.val(a[1], env)) % P
        if op == 'pow':
            if isnum(a[1]) and Fraction(a[1].args[0]).denominator == 1:
                n = int(a[1].args[0])
                b = self.val(a[0], env)
                return pow(b, n, P) if n >= 0 else pow(self.inv(b), -n, P)
            return self._exp(self.val(a[1], env) * self._log(self.val(a[0], env)) % P)
        if op == 'call':
            if a[0] == 'exp':
                return self._exp(self.val(a[1], env))
            if a[0] == 'log':
                return self._log(self.val(a[1], env))
            if a[0] == 'conj':
                pass
            return H('call', a[0], tuple(self.val(x, env) if isinstance(x, T) else x for x in a[1:]))
        if op == 'phi':
            return self.val(a[1] if self.cond(a[0], env) else a[2], env)
        if op in ('lt', 'eq', 'not', 'and', 'or', 'inrange', 'in', 'truth'):
            if t.rank == 0 or op in ('and', 'or', 'not', 'inrange', 'truth', 'in'):
                return 1 if self.cond(t, env) else 0
        if op == 'iv':
            lp = a[0]
            if lp in env:
                return env[lp]
            return H('freeiv', lp.desc)
        if op == 'mu':
            lp = a[0]
            k = ('mu', lp, a[1])
            if k in env:
                return env[k]
            return H('freemu', str(a[1]))
        if op in ('sum', 'prod', 'anyiter', 'last', 'atfirst', 'gen'):
            lp = a[0]
            c = self.val(lp.count, env) if lp.count is not None else H('nocount')
            e2 = dict(env)
            body = [x for x in a[1:] if isinstance(x, T)]
            e2[lp] = H('iv', c, tuple(sorted(env[l] for l in t.free if l in env)))
            if op != 'sum' and lp.next and any(lp in x.free and has_mu(x, lp) for x in body):
                e2.update({('mu', lp, k): v for k, v in self._rounds(lp, env, c).items()})
            if op in ('sum',):
                v = self.val(body[0], e2)
                # count enters through the binder, the sum value is a hash
                return H('sum', c, v)
            return H(op, c, tuple(self.val(x, e2) for x in body))
        if op == 'fill':
            base, nl = a[0], a[1]
            loops = a[2:2 + nl]
            rest = a[2 + nl:]
            e2 = dict(env)
            cs = [self.val(lp.count, env) if lp.count is not None else H('nocount') for lp in loops]
            outer = tuple(sorted(env[l] for l in t.free if l in env))
            for lp, c in zip(loops, cs):
                pos = tuple(i for i, x in enumerate(rest[:-1]) if lp in x.free)
                e2[lp] = H('ivfill', c, pos, outer)
            vals = [self.val(x, e2) for x in rest]
            return H('fill', self.val(base, env), tuple(sorted(cs)), tuple(vals))
        if op == 'eta':
            return self._eta(a[0], a[1], env)
        if op == 'idx' and any(isinstance(x, T) and x.op == 'phi' for x in a[1:]):
            pass
        return H(op, tuple(self.val(x, env) if isinstance(x, T) else (x if not isinstance(x, Loop) else 'L') for x in a))

    def _eta(self, lp, key, env):
        cnt = self.val(lp.count, env) if lp.count is not None else H('nocount')
        return H('eta', cnt, self._rounds(lp, env, cnt).get(key, 0))

    def _rounds(self, lp, env, cnt):
        """values of the loop-carried cells of lp: a few rounds of the recurrence from hashed initial values"""
        mk_ = ('rounds', lp, tuple(sorted((l.id, env[l]) for l in env if isinstance(l, Loop))))
        if mk_ in self.memo:
            return self.memo[mk_]
        keys = [k for k in lp.next]
        cur = {k: H('mu0', self.val(lp.init[k], env) if k in lp.init else 0) for k in keys}
        sub = VN(self.seed, (), (), self.symname)
        sub.pool, sub.strpool, sub.cuts = self.pool, self.strpool, self.cuts
        for rnd in range(3):
            e2 = {k: v for k, v in env.items()}
            e2[lp] = H('ivg', cnt)
            for k in keys:
                e2[('mu', lp, k)] = cur[k]
            sub.memo = {}
            new = {}
            gs = [(sub.val(g, e2), {k: sub.val(v, e2) for k, v in d.items()}) for g, d in lp.brk]
            w = sub.val(lp.whilecond, e2) if lp.whilecond is not None else 0
            for k in keys:
                b = tuple((g, d.get(k, 0)) for g, d in gs)
                new[k] = H('mu', cur[k], sub.val(lp.next[k], e2), b, w)
            cur = new
        self.memo[mk_] = cur
        return cur

    # ---- conditions
    def cond(self, c, env):
        op, a = c.op, c.args
        if op == 'const':
            return bool(a[0])
        if op == 'not':
            return not self.cond(a[0], env)
        if op == 'and':
            return self.cond(a[0], env) and self.cond(a[1], env)
        if op == 'or':
            return self.cond(a[0], env) or self.cond(a[1], env)
        if op == 'phi':
            return self.cond(a[1] if self.cond(a[0], env) else a[2], env)
        if op == 'truth' and a[0].op in ('lt', 'eq', 'not', 'and', 'or'):
            return self.cond(a[0], env)
        if op in ('lt', 'eq'):
            x, y = a
            if op == 'eq' and isconst(y) and not isnum(y):
                return self.symval(self.val(x, env)) == cval(y)
            v = self.order(x, y, env)
            if v is not None:
                return v < 0 if op == 'lt' else v == 0
        return H('bool', self.seed, op, tuple(self.val(x, env) if isinstance(x, T) else repr(x) for x in a)) & 1 == 1

    def symval(self, v):
        """sampled concrete constant for a value compared with strings/None"""
        if v in self.rev:
            return self.rev[v]
        p = self.strpool
        i = H('str', self.seed, v) % (len(p) + 2)
        r = p[i] if i < len(p) else (None if i == len(p) else '\0other')
        return r

    def core(self, t, env):
        """(value of t without its numeric factor, that factor)"""
        v, m = self.val(t, env), coef(t)
        return (v, m) if m == 1 or m == 0 else (v * self.inv(self.f(m)) % P, m)

    def order(self, x, y, env):
        """sign of x - y under the sample; comparisons whose operands differ by constants stay consistent."""
        d, c = linear(sub(x, y))
        # resolve phis inside linear atoms by value
        tot = {}
        cc = c
        for t, k in d.items():
            tt = t
            while tt.op == 'phi':
                tt = tt.args[1] if self.cond(tt.args[0], env) else tt.args[2]
            if tt is not t:
                d2, c2 = linear(tt)
                cc += k * c2
                for t2, k2 in d2.items():
                    v, m = self.core(t2, env)
                    tot[v] = tot.get(v, 0) + k * k2 * m
            else:
                v, m = self.core(t, env)
                tot[v] = tot.get(v, 0) + k * m
        tot = {v: k for v, k in tot.items() if k != 0}
        if not tot:
            return (cc > 0) - (cc < 0)
        lead = min(tot)
        s = tot[lead]
        key = H('lin', tuple(sorted((v, k / s) for v, k in tot.items())))
        cutsel = H('cut', self.seed, key) % len(self.cuts)
        z = self.cuts[cutsel]       # sampled value of the normalised linear part
        r = (z + cc / s) * s
        return (r > 0) - (r < 0)


def coef(t, depth=0):
    """numeric factor of a product"""
    if isnum(t):
        return Fraction(cval(t))
    if depth > 40:
        return Fraction(1)
    if t.op in ('mul', 'div'):
        a, b = coef(t.args[0], depth + 1), coef(t.args[1], depth + 1)
        return a * b if t.op == 'mul' else (a / b if b else Fraction(1))
    if t.op == 'pow' and isnum(t.args[1]) and Fraction(cval(t.args[1])).denominator == 1 and abs(cval(t.args[1])) <= 8:
        m = coef(t.args[0], depth + 1)
        return m ** int(cval(t.args[1])) if m else Fraction(1)
    return Fraction(1)


def collect_pools(*ts):
    pool, strs = {Fraction(0)}, set()
    n = 0
    for t in ts:
        for x in walk(t):
            if x.op in ('lt', 'eq'):
                n += 1
                a, b = x.args
                if x.op == 'eq' and isconst(b) and isinstance(cval(b), str):
                    strs.add(cval(b))
                    continue
                d, c = linear(sub(a, b))
                if d and len(d) <= 3:
                    for k in set(d.values()):
                        pool.add(-c / k)
            elif x.op == 'phi':
                n += 1
    return pool, strs, n


def equal(t1, t2, samples=None, symname=None, seed0=0):
    """(equal?, witness-sample) for two terms."""
    if t1 is t2:
        return True, None
    pool, strs, n = collect_pools(t1, t2)
    if samples is None:
        samples = 1 if n == 0 else min(240, 24 + 12 * n)
    for s in range(samples):
        vn = VN(seed0 + s, pool, strs, symname)
        if vn.val(t1) != vn.val(t2):
            return False, s
    return True, None


def differs_where(t1, t2, **kw):
    return not equal(t1, t2, **kw)[0]
