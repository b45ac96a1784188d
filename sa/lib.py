"""Models of the Python builtins and of the numpy / netCDF4 / pandas / os operations the package uses.

Anything not modelled becomes an uninterpreted, deterministic function of its arguments.
"""
import ast
import functools
import os
import string
from fractions import Fraction
from . import term as tm
from .term import T, mk, num, const, NONE, TRUE, FALSE, ZERO, ONE, PI, Loop, FULL
from .interp import (Ref, Tup, PhiV, Func, Bound, Method, Prop, Ext, Super, Partial, UNB, PathDead, ARR_METHODS, EXC_PARENTS)

ALIAS = {'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'math.fabs': 'numpy.abs', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
         'numpy.concat': 'numpy.concatenate', 'numpy.divide': 'numpy.true_divide', 'numpy.arccos': 'numpy.arccos', 'numpy.acos': 'numpy.arccos',
         'numpy.asin': 'numpy.arcsin', 'numpy.atan': 'numpy.arctan', 'math.asin': 'numpy.arcsin', 'math.acos': 'numpy.arccos',
         'math.atan': 'numpy.arctan', 'math.degrees': 'numpy.rad2deg', 'math.radians': 'numpy.deg2rad', 'numpy.radians': 'numpy.deg2rad',
         'numpy.degrees': 'numpy.rad2deg', 'numpy.pow': 'numpy.power', 'math.pow': 'numpy.power', 'numpy.conjugate': 'numpy.conj',
         'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.asfarray': 'numpy.asarray',
         'numpy.trapezoid': 'numpy.trapz', 'scipy.integrate.trapezoid': 'numpy.trapz', 'numpy.sometrue': 'numpy.any', 'numpy.alltrue': 'numpy.all',
         'numpy.row_stack': 'numpy.vstack'}
for _n in ('exp', 'log', 'log10', 'log2', 'sqrt', 'sin', 'cos', 'tan', 'floor', 'ceil', 'expm1', 'log1p', 'sinh', 'cosh', 'tanh', 'isnan', 'isfinite', 'trunc', 'hypot'):
    ALIAS['math.' + _n] = 'numpy.' + _n
    ALIAS['cmath.' + _n] = 'numpy.' + _n
EXC_NAMES = {'Exception', 'ValueError', 'KeyError', 'TypeError', 'RuntimeError', 'IndexError', 'AttributeError', 'NotImplementedError', 'ImportError',
             'OSError', 'IOError', 'FileNotFoundError', 'StopIteration', 'AssertionError', 'SystemExit', 'Warning', 'UserWarning', 'DeprecationWarning',
             'LookupError', 'ArithmeticError', 'ZeroDivisionError', 'RuntimeWarning', 'FutureWarning', 'BaseException', 'TimeoutError', 'ConnectionError'}


# ------------------------------------------------------------------ helpers
def strc(v):
    """python str of a constant string term, else None"""
    if isinstance(v, T) and v.op == 'const' and isinstance(tm.cval(v), str):
        return tm.cval(v)
    return None


def numc(v):
    if isinstance(v, T) and tm.isnum(v):
        return tm.cval(v)
    return None


def intc(v):
    x = numc(v)
    return int(x) if x is not None and x == int(x) else None


def rank_of(*ts):
    rk = 0
    for t in ts:
        if t.rank is None:
            return None
        rk = max(rk, t.rank)
    return rk


def shape_of(I, v, depth=0):
    """tuple of dimension terms or None"""
    t = I.to_t(v) if not isinstance(v, T) else v
    return tshape(t)


def tshape(t, depth=0):
    if t.rank == 0:
        return ()
    i = t.info
    if isinstance(i, dict) and i.get('shape'):
        return tuple(i['shape'])
    if depth > 40:
        return None
    if t.op in ('zeros', 'emptyarr'):
        return tuple(t.args)
    if t.op == 'full':
        return tuple(t.args[1:])
    if t.op in ('store', 'fill'):
        return tshape(t.args[0], depth + 1)
    if t.rank == 1:
        return (tm.length(t),)
    if t.op in ('add', 'mul', 'div', 'pow', 'lt', 'eq', 'not', 'and', 'or', 'phi') or (t.op == 'call' and t.args[0] in tm.ELEMWISE):
        out = None
        for a in t.args:
            if not isinstance(a, T) or not a.rank:
                continue
            s = tshape(a, depth + 1)
            if s is None:
                if a.rank == t.rank:
                    continue
                return None
            s = (ONE,) * (t.rank - len(s)) + tuple(s)
            if out is None:
                out = s
            else:
                out = tuple(y if x is ONE else x for x, y in zip(out, s))
            if not any(x is ONE for x in out):
                return out
        return out
    if t.op == 'newax':
        s = tshape(t.args[0], depth + 1)
        if s is None:
            return None
        it = iter(s)
        return tuple(ONE if x is NONE else next(it) for x in t.args[1:])
    if t.op == 'call' and t.args[0] == 'T':
        s = tshape(t.args[1], depth + 1)
        return tuple(reversed(s)) if s else None
    if t.op in ('sl',):
        s = tshape(t.args[0], depth + 1)
        return (t.args[3],) + tuple(s[1:]) if s else None
    if t.op == 'arr' and t.args and t.args[0].rank is not None:
        s = tshape(t.args[0], depth + 1)
        return None if s is None else (num(len(t.args)),) + tuple(s)
    if t.op == 'idx':
        s = tshape(t.args[0], depth + 1)
        if s is None:
            return None
        out = []
        for k, x in enumerate(t.args[1:]):
            if x is FULL and k < len(s):
                out.append(s[k])
            elif x.op == 'slice':
                n = span(x, s[k]) if k < len(s) else None
                if n is None:
                    return None
                out.append(n)
            elif x.rank != 0:
                return None
        return tuple(out) + tuple(s[len(t.args) - 1:])
    if t.op in ('mu', 'eta'):
        i = t.args[0].init.get(t.args[1])
        return tshape(i, depth + 1) if i is not None and i.rank == t.rank else None
    return None


def dim(t, k):
    s = tshape(t)
    return s[k] if s is not None and k < len(s) else None


tm.DIM[0] = dim


def span(sel, n):
    """number of elements a slice selects from a dimension of length n"""
    if sel is FULL:
        return n
    if tm.isnum(n):
        k = tm.const_range(sel, int(tm.cval(n)))
        if k is not None:
            return num(len(k))
    return None


def nums(t, most=64):
    """shape as numbers, when it is known and small"""
    s = tshape(t)
    if s is None or not s or not all(tm.isnum(x) for x in s):
        return None
    s = tuple(int(tm.cval(x)) for x in s)
    n = 1
    for x in s:
        n *= x
    return s if 0 < n <= most else None


def nest(shape, f, pre=()):
    """explicit array of the given shape with the elements f(index)"""
    if not shape:
        return f(pre)
    xs = [nest(shape[1:], f, pre + (i,)) for i in range(shape[0])]
    return mk('arr', *xs, rank=len(shape))


def cell(t, ix):
    return tm.idx(t, tuple(num(i) for i in ix))


def along(I, t, ax, f):
    """reduce a small array along one axis: f(list of elements) -> element; None when the shape is not known"""
    ax = intc(ax) if isinstance(ax, T) else ax
    s = nums(t)
    if ax is None or s is None or len(s) < 2:
        return None
    ax %= len(s)
    out = s[:ax] + s[ax + 1:]
    return nest(out, lambda i: f([cell(t, i[:ax] + (k,) + i[ax:]) for k in range(s[ax])]))


def lam(n, f):
    """array of length n with the elements f(index)"""
    if tm.isnum(n) and 0 < tm.cval(n) <= 16:
        return nest((int(tm.cval(n)),), lambda i: f(num(i[0])))
    lp = Loop(n, 'lam')
    lp.done = True
    iv = mk('iv', lp, rank=0)
    v = f(iv)
    return mk('fill', mk('zeros', n, rank=1), 1, lp, iv, v, rank=1)


def total(n, f):
    lp = Loop(n, 'total')
    lp.done = True
    return tm.mksum(lp, f(mk('iv', lp, rank=0)))


def sum_axis(t, ax):
    """sum of a two-dimensional array along one axis; the number of terms too"""
    ax = intc(ax) if isinstance(ax, T) else ax
    s = tshape(t) if t.rank == 2 else None
    if s is None or ax not in (0, 1, -1, -2):
        return None, None
    ax %= 2
    at = (lambda i, k: tm.idx(t, (k, i))) if ax == 0 else (lambda i, k: tm.idx(t, (i, k)))
    return lam(s[1 - ax], lambda i: total(s[ax], lambda k: at(i, k))), s[ax]


def dims_of(I, v):
    """dimension terms from a size argument (int or tuple/list)"""
    it = I.items_of(v) if not isinstance(v, T) else None
    if it is not None:
        return [I.to_t(x) for x in it]
    t = I.to_t(v)
    if t.op in ('tup', 'list', 'arr'):
        return list(t.args)
    if t.op == 'shape':
        s = tshape(t.args[0])
        if s is not None:
            return list(s)
        return None
    return [t]


def wrap(I, vs, t):
    return I.wrap_like(vs, t)


def fresh_arr(I, t):
    if t.rank == 0:
        return t
    return I.new_arr(t)


def opaque(I, fn, args, kw, rank=None):
    ts = []
    for a in args:
        ts.append(I.to_t(a))
    for k, v in sorted(kw.items()):
        ts.append(mk('kw', k, I.to_t(v)))
    return mk('call', fn, *ts, rank=rank)


def bool_t(I, t):
    """elementwise truthiness"""
    if t.op in ('lt', 'eq', 'not', 'and', 'or', 'in', 'truth', 'inrange', 'isinstance') or (t.op == 'const' and isinstance(tm.cval(t), bool)):
        return t
    if t.op == 'call' and t.args[0] in ('any', 'all', 'isnan', 'isfinite', 'logical_xor', 'isin', 'isclose', 'allclose'):
        return t
    if t.op == 'phi' and t.args[0].rank == 0:
        return tm.phi(t.args[0], bool_t(I, t.args[1]), bool_t(I, t.args[2]))
    if t.op in ('store', 'fill', 'sym', 'idx', 'call', 'opcall', 'mcall') and t.rank is None:
        return mk('truth', t, rank=None)
    return tm.lnot(tm.eq(t, ZERO))


def new_iter(I, items=None, count=None, fn=None):
    if items is not None:
        count = num(len(items))
    return I.new('iter', items=items, count=count, fn=fn)


def loop_over(I, t, desc):
    lp = Loop(tm.length(t), desc)
    lp.done = True
    return lp, mk('iv', lp, rank=0)


def reduce_sum(t):
    if t.rank == 0:
        return t
    if t.rank == 1:
        if t.op in ('arr', 'list'):
            s = ZERO
            for a in t.args:
                s = tm.add(s, a)
            return s
        lp, iv = loop_over(None, t, 'sum')
        return tm.mksum(lp, tm.idx(t, (iv,)))
    return None


def concat(I, parts):
    ts = []
    for p in parts:
        t = I.to_t(p)
        if t.rank == 0:
            t = mk('arr', t, rank=1)
        elif t.op == 'list':
            t = mk('arr', *t.args, rank=1)
        ts.append(t)
    if all(t.op == 'arr' for t in ts):
        return mk('arr', *[a for t in ts for a in t.args], rank=1)
    out = ts[0]
    for t in ts[1:]:
        rk = out.rank if out.rank == t.rank else None
        out = mk('concat', out, t, rank=rk)
    return out


def as_array_t(I, v):
    """term of np.array(v)"""
    t = I.to_t(v)
    if t.op in ('list', 'tup'):
        a = []
        for x in t.args:
            if x.op in ('list', 'tup'):
                x = mk('arr', *x.args, rank=1) if all(y.rank == 0 for y in x.args) else x
            a.append(x)
        rks = {x.rank for x in a}
        rk = None
        if not a:
            rk = 1
        elif len(rks) == 1 and None not in rks:
            rk = rks.pop() + 1
        return mk('arr', *a, rank=rk)
    return t


# ------------------------------------------------------------------ attributes
def arr_attr(I, obj, name, node):
    c = I.content(obj)
    if name == 'T':
        if c.rank is not None and c.rank <= 1:
            return obj
        return I.alias_view(obj, 'T')
    if name == 'shape':
        s = tshape(c)
        if s is not None and c.rank != 0:
            return Tup(s)
        return mk('shape', c)
    if name == 'size':
        s = tshape(c)
        if s is not None:
            r = ONE
            for x in s:
                r = tm.mul(r, x)
            return r
        return mk('size', c, rank=0)
    if name == 'ndim':
        return num(c.rank) if c.rank is not None else mk('ndim', c, rank=0)
    if name in ('data', 'values', 'flat', 'real') and I.kind(obj) in ('arr', 'view'):
        if name == 'real':
            return wrap(I, [obj], tm.call('real', c))
        return obj
    if name == 'imag':
        return wrap(I, [obj], tm.call('imag', c))
    if name == 'dtype':
        return mk('dtype', c, rank=0)
    if name == 'values':
        return I.alias_view(obj, 'values') if c.rank is None else obj
    return Method(obj, name)


def ext_attr(I, obj, name):
    full = f'{obj.name}.{name}'
    full = full.replace('numpy.core.', 'numpy.')
    if full in ('numpy.pi', 'math.pi'):
        return PI
    if full in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
        return tm.sym('nan', rank=0)
    if full in ('numpy.inf', 'numpy.Inf', 'math.inf'):
        return tm.sym('inf', rank=0)
    if full in ('numpy.e', 'math.e'):
        return tm.exp(ONE)
    if full in ('numpy.newaxis',):
        return NONE
    if full in ('os.sep',):
        return const('/')
    return Ext(full)


# ------------------------------------------------------------------ calls
def call_ext(I, name, args, kw, node):
    name = ALIAS.get(name, name)
    if name in I.hooks:
        r = I.hooks[name](I, args, kw, node)
        if r is not None:
            return r
    # effects through out=
    out = kw.get('out')
    if out is not None and name.startswith('numpy') and out is not NONE:
        kw = {k: v for k, v in kw.items() if k != 'out'}
        r = call_ext(I, name, args, kw, node)
        tgt = out.items[0] if isinstance(out, Tup) else out
        if isinstance(tgt, Ref):
            I.effect(tgt, f'out= of {name}', node)
            I.set_content(tgt, I.to_t(r))
            return tgt
        return r
    if name.startswith('builtins.'):
        f = BUILT.get(name[9:])
        if f is not None:
            r = f(I, args, kw, node)
            if r is not None:
                return r
        if name[9:] in EXC_NAMES:
            return mk('exc', name[9:], *[I.to_t(a) for a in args])
    elif name.startswith('numpy.'):
        r = np_call(I, name[6:], args, kw, node)
        if r is not None:
            return r
    else:
        f = OTHER.get(name)
        if f is not None:
            r = f(I, args, kw, node)
            if r is not None:
                return r
    I.log('extcall', (name, tuple(args), dict(kw)), node)
    return opaque(I, name, args, kw)


ELEM1 = {'exp': tm.exp, 'log': tm.log, 'log10': lambda x: tm.div(tm.log(x), tm.log(num(10))), 'log2': lambda x: tm.div(tm.log(x), tm.log(num(2))),
         'sqrt': tm.sqrt, 'square': lambda x: tm.mul(x, x), 'abs': tm.tabs, 'negative': tm.neg, 'positive': lambda x: x,
         'reciprocal': lambda x: tm.div(ONE, x), 'sin': None, 'cos': None, 'tan': None, 'arcsin': None, 'arccos': None, 'arctan': None,
         'sinh': None, 'cosh': None, 'tanh': None, 'floor': None, 'ceil': None, 'sign': None, 'isnan': None, 'isfinite': None,
         'real': None, 'imag': None, 'conj': None, 'deg2rad': lambda x: tm.div(tm.mul(x, PI), num(180)), 'rad2deg': lambda x: tm.div(tm.mul(x, num(180)), PI),
         'expm1': lambda x: tm.sub(tm.exp(x), ONE), 'log1p': lambda x: tm.log(tm.add(x, ONE)), 'exp2': lambda x: tm.exp(tm.mul(x, tm.log(num(2)))),
         'float64': lambda x: x, 'float32': lambda x: tm.call('float32', x, rank=x.rank), 'float_': lambda x: x, 'double': lambda x: x, 'complex128': lambda x: x, 'real_if_close': lambda x: x,
         'logical_not': None, 'cbrt': lambda x: tm.power(x, num(Fraction(1, 3)))}


def elem1(I, fn, t):
    f = ELEM1[fn]
    if f is not None:
        return f(t)
    if fn == 'logical_not':
        return tm.lnot(bool_t(I, t))
    if fn == 'real' and tm.isnum(t):
        return t
    if fn == 'conj' and tm.isnum(t):
        return t
    if fn in ('floor', 'ceil') and tm.isnum(t):
        import math
        return num(getattr(math, fn)(tm.cval(t)))
    if fn == 'sign' and tm.isnum(t):
        v = tm.cval(t)
        return num((v > 0) - (v < 0))
    if fn == 'isnan' and tm.isnum(t):
        return FALSE
    return tm.call(fn, t)


def np_call(I, fn, args, kw, node):
    to = I.to_t
    if fn in ELEM1 and args:
        if 'where' in kw:
            return None
        return wrap(I, [args[0]], elem1(I, fn, seq_t(I, args[0])))
    f = NP.get(fn)
    if f is not None:
        return f(I, args, kw, node)
    return None


def seq_t(I, v):
    """array term of v (lists become arrays)"""
    if isinstance(v, (Tup,)) or (isinstance(v, Ref) and I.kind(v) == 'list'):
        return as_array_t(I, v)
    return I.to_t(v)


def bin_(f):
    def g(I, args, kw, node):
        if len(args) < 2:
            return None
        return wrap(I, args[:2], f(seq_t(I, args[0]), seq_t(I, args[1])))
    return g


def cmp_(op):
    def g(I, args, kw, node):
        r = I.compare(op, seq_arg(I, args[0]), seq_arg(I, args[1]), node)
        return r
    return g


def seq_arg(I, v):
    return v


def np_logical(f):
    def g(I, args, kw, node):
        a, b = bool_t(I, seq_t(I, args[0])), bool_t(I, seq_t(I, args[1]))
        return wrap(I, args[:2], f(a, b))
    return g


def np_where(I, args, kw, node):
    c = seq_t(I, args[0])
    c = bool_t(I, c)
    if len(args) == 1:
        if c.rank == 2:
            return Tup([mk('call', 'nonzero0', c, rank=1), mk('call', 'nonzero1', c, rank=1)])
        k = tm.mask_positions(c)
        if k is not None:
            return Tup([I.new_arr(mk('arr', *[num(j) for j in k], rank=1))])
        return Tup([I.new_arr(mk('call', 'nonzero', c, rank=1))])
    a, b = seq_t(I, args[1]), seq_t(I, args[2])
    t = tm.phi(c, a, b)
    if t.rank == 0:
        return t
    return I.new_arr(t)


def np_zeros(I, args, kw, node):
    sh = args[0] if args else kw.get('shape')
    d = dims_of(I, sh)
    if d is None:
        return I.new_arr(mk('call', 'zerosof', to_shape_t(I, sh)))
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    if isinstance(dt, Ext) and dt.name in ('builtins.bool', 'numpy.bool_') and d:
        return I.new_arr(mk('full', FALSE, *d, rank=len(d)))
    if not d:
        return ZERO
    return I.new_arr(mk('zeros', *d, rank=len(d)))


def to_shape_t(I, v):
    return I.to_t(v)


def np_full(I, args, kw, node, val=None):
    sh = args[0] if args else kw.get('shape')
    if val is None:
        v = args[1] if len(args) > 1 else kw.get('fill_value')
        val = I.to_t(v)
    d = dims_of(I, sh)
    dt = args[2] if len(args) > 2 else kw.get('dtype')
    if isinstance(dt, Ext) and dt.name in ('builtins.bool', 'numpy.bool_') and tm.isnum(val):
        val = FALSE if tm.cval(val) == 0 else TRUE
    if d is None:
        return I.new_arr(mk('call', 'fullof', val, I.to_t(sh)))
    if val.rank != 0:
        return None
    return I.new_arr(mk('full', val, *d, rank=len(d)))


def np_like(I, args, kw, node, val):
    t = seq_t(I, args[0])
    s = tshape(t)
    if s is None:
        if t.rank == 0:
            return val
        # elementwise constant with the rank/length of t
        return I.new_arr(mk('call', 'like', val, mk('shape', t), rank=t.rank))
    if not s:
        return val
    if numc(val) == 0:
        return I.new_arr(mk('zeros', *s, rank=len(s)))
    return I.new_arr(mk('full', val, *s, rank=len(s)))


def np_array(I, args, kw, node):
    v = args[0] if args else kw.get('object')
    t = as_array_t(I, v)
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    if dt is not None and not floaty(dt):
        t = mk('call', 'astype', t, I.to_t(dt), rank=t.rank)
    cp = kw.get('copy')
    if cp is FALSE and isinstance(v, Ref) and I.is_arr(v):
        return v
    if t.rank == 0 and not isinstance(v, (Tup,)):
        return t
    return I.new_arr(t)


def floaty(dt):
    if dt is NONE:
        return True
    if isinstance(dt, Ext):
        return dt.name.split('.')[-1] in ('float', 'float64', 'float_', 'double', 'complex', 'complex128', 'longdouble', 'object')
    s = strc(dt)
    return s in ('float', 'float64', 'f8', 'd', 'complex', 'complex128', '<f8')


def np_asarray(I, args, kw, node):
    v = args[0] if args else kw.get('a')
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    if isinstance(v, Ref) and I.kind(v) in ('arr', 'view', 'sym') and (dt is None or floaty(dt)):
        return v
    if isinstance(v, PhiV):
        return I.phi_map(v, lambda x: np_asarray(I, [x] + list(args[1:]), kw, node), node)
    return np_array(I, args, kw, node)


def np_copy(I, args, kw, node):
    t = seq_t(I, args[0])
    return t if t.rank == 0 else I.new_arr(t)


def np_arange(I, args, kw, node):
    a = [I.to_t(x) for x in args]
    lo, step = ZERO, ONE
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    if 'step' in kw:
        step = I.to_t(kw['step'])
    n = tm.div(tm.sub(hi, lo), step)
    if tm.isnum(n):
        import math
        n = num(max(0, math.ceil(tm.cval(n))))
        if tm.cval(n) <= 64:
            return I.new_arr(mk('arr', *[tm.add(lo, tm.mul(step, num(i))) for i in range(int(tm.cval(n)))], rank=1))
    return I.new_arr(mk('arange', lo, step, n, rank=1))


def np_linspace(I, args, kw, node):
    lo, hi = I.to_t(args[0]), I.to_t(args[1])
    n = I.to_t(args[2] if len(args) > 2 else kw.get('num', num(50)))
    if kw.get('endpoint') is FALSE:
        step = tm.div(tm.sub(hi, lo), n)
    else:
        step = tm.div(tm.sub(hi, lo), tm.sub(n, ONE))
    if kw.get('retstep'):
        return None
    return I.new_arr(mk('arange', lo, step, n, rank=1))


def np_sum(I, args, kw, node):
    t = seq_t(I, args[0])
    ax = args[1] if len(args) > 1 else kw.get('axis', NONE)
    if t.rank == 0:
        return t
    if t.rank == 1:
        return reduce_sum(t)
    r = along(I, t, ax, lambda xs: functools.reduce(tm.add, xs)) if ax is not NONE else None
    if r is None and ax is not NONE and t.rank == 2:
        r = sum_axis(t, ax)[0]
    if r is None:
        r = mk('call', 'sum', t, I.to_t(ax), rank=0 if ax is NONE else (t.rank - 1 if t.rank else None))
    return fresh_arr(I, r)


def np_mean(I, args, kw, node):
    t = seq_t(I, args[0])
    ax = args[1] if len(args) > 1 else kw.get('axis', NONE)
    if t.rank == 0:
        return t
    if t.rank == 1:
        return tm.div(reduce_sum(t), tm.length(t))
    r = along(I, t, ax, lambda xs: tm.div(functools.reduce(tm.add, xs), num(len(xs)))) if ax is not NONE else None
    if r is None and ax is not NONE and t.rank == 2:
        r, n = sum_axis(t, ax)
        r = r if r is None else tm.div(r, n)
    if r is None:
        r = mk('call', 'mean', t, I.to_t(ax), rank=0 if ax is NONE else (t.rank - 1 if t.rank else None))
    return fresh_arr(I, r)


def np_red(fn):
    def g(I, args, kw, node):
        t = seq_t(I, args[0])
        ax = args[1] if len(args) > 1 else kw.get('axis', NONE)
        if fn in ('any', 'all'):
            t = bool_t(I, t)
        if t.rank == 0:
            return t
        if t.op in ('arr', 'list') and t.rank == 1 and 0 < len(t.args) <= (256 if tm.isnum(t.args[0]) else 16) and fn in ('any', 'all', 'amax', 'amin'):
            r = t.args[0]
            for x in t.args[1:]:
                r = {'any': tm.lor, 'all': tm.land, 'amax': tm.tmax, 'amin': tm.tmin}[fn](r, x)
            return r
        if t.rank == 1 and fn in ('any', 'all', 'amax', 'amin'):
            n = tm.length(t)
            if tm.isnum(n) and (0 < tm.cval(n) <= 16 or 0 < tm.cval(n) <= 256 and tm.isnum(tm.idx(t, (ZERO,)))):
                xs = [tm.idx(t, (num(i),)) for i in range(int(tm.cval(n)))]
                r = xs[0]
                for x in xs[1:]:
                    r = {'any': tm.lor, 'all': tm.land, 'amax': tm.tmax, 'amin': tm.tmin}[fn](r, x)
                return r
            if fn in ('any', 'all'):
                lp = Loop(n, fn)
                lp.done = True
                e = tm.idx(t, (mk('iv', lp, rank=0),))
                if e is tm.TRUE or e is tm.FALSE:
                    return e
        if ax is NONE or t.rank == 1:
            return mk('call', fn, t, rank=0)
        if fn in ('any', 'all', 'amax', 'amin'):
            op = {'any': tm.lor, 'all': tm.land, 'amax': tm.tmax, 'amin': tm.tmin}[fn]
            r = along(I, t, ax, lambda xs: functools.reduce(op, xs))
            if r is not None:
                return fresh_arr(I, r)
        r = mk('call', fn, t, I.to_t(ax), rank=t.rank - 1 if t.rank else None)
        return fresh_arr(I, r)
    return g


def np_cumsum(I, args, kw, node):
    t = seq_t(I, args[0])
    if t.rank == 1:
        return I.new_arr(mk('call', 'cumsum', t, rank=1))
    ax = args[1] if len(args) > 1 else kw.get('axis', NONE)
    n, s = intc(ax) if isinstance(ax, T) and ax is not NONE else None, nums(t)
    if n is not None and s is not None:
        n %= len(s)
        return I.new_arr(nest(s, lambda i: functools.reduce(tm.add, [cell(t, i[:n] + (k,) + i[n + 1:]) for k in range(i[n] + 1)])))
    return None


def np_trapz(I, args, kw, node):
    y = seq_t(I, args[0])
    x = seq_t(I, args[1]) if len(args) > 1 else (seq_t(I, kw['x']) if 'x' in kw else None)
    if y.rank == 1 and (x is None or x.rank == 1):
        lp = Loop(tm.sub(tm.length(y), ONE), 'trapz')
        lp.done = True
        iv = mk('iv', lp, rank=0)
        jv = tm.add(iv, ONE)
        dx = ONE if x is None else tm.sub(tm.idx(x, (jv,)), tm.idx(x, (iv,)))
        return tm.mksum(lp, tm.div(tm.mul(dx, tm.add(tm.idx(y, (iv,)), tm.idx(y, (jv,)))), num(2)))
    return None


def np_append(I, args, kw, node):
    if kw.get('axis') is not None and I.to_t(args[0]).rank != 1:
        return None
    return I.new_arr(concat(I, [args[0], args[1]]))


def np_concatenate(I, args, kw, node):
    it = I.items_of(args[0])
    if it is None or not it:
        return None
    t = concat(I, it)
    if t.rank is None and any(I.to_t(x).rank not in (0, 1) for x in it):
        return None
    return I.new_arr(t)


def np_insert(I, args, kw, node):
    a, p, v = args[:3]
    p = I.to_t(p)
    ta = seq_t(I, a)
    if numc(p) == 0 and ta.rank == 1:
        return I.new_arr(concat(I, [v, a]))
    return None


def np_diff(I, args, kw, node):
    t = seq_t(I, args[0])
    if len(args) > 1 or kw:
        return None
    if t.rank not in (1, None):
        return None
    n = tm.sub(tm.length(t), ONE)
    if t.op == 'arr':
        return I.new_arr(mk('arr', *[tm.sub(b, a) for a, b in zip(t.args, t.args[1:])], rank=1))
    return I.new_arr(tm.sub(tm.mkslice(t, ONE, ONE, n), tm.mkslice(t, ZERO, ONE, n)))


REV = None


def rev_slice():
    return mk('slice', NONE, NONE, num(-1))


def np_flip(I, args, kw, node):
    v = args[0]
    ax = args[1] if len(args) > 1 else kw.get('axis', NONE)
    if isinstance(v, PhiV):
        return I.phi_map(v, lambda x: np_flip(I, [x] + list(args[1:]), kw, node), node)
    its = I.items_of(v) if not (isinstance(v, Ref) and I.is_arr(v)) else None
    if its is not None and (ax is NONE or numc(ax) == 0):
        xs = [I.to_t(x) for x in its]
        if all(x.rank in (0, None) and x.op not in ('tup', 'list', 'arr') for x in xs):
            return I.new_arr(mk('arr', *reversed(xs), rank=1))
    t = seq_t(I, v)
    if isinstance(v, Ref) and I.is_arr(v):
        if t.rank == 1:
            return I.view(v, (rev_slice(),))
        if t.rank == 2 and numc(ax) == 0:
            return I.view(v, (rev_slice(),))
        if t.rank is None:
            return I.view(v, (rev_slice(),)) if ax is NONE or numc(ax) == 0 else None
        if t.rank == 0:
            return v
    elif t.rank == 1:
        return I.new_arr(tm.idx(t, (rev_slice(),)))
    return None


def np_fliplr(I, args, kw, node):
    v = args[0]
    if isinstance(v, Ref) and I.is_arr(v) and I.to_t(v).rank == 2:
        return I.view(v, (FULL, rev_slice()))
    return None


def np_dot(I, args, kw, node):
    a, b = seq_t(I, args[0]), seq_t(I, args[1])
    return wrap(I, args[:2], I.dot(a, b))


def np_outer(I, args, kw, node):
    a, b = seq_t(I, args[0]), seq_t(I, args[1])
    if a.rank == 1 and b.rank == 1:
        return I.new_arr(tm.mul(tm.newax(a, (FULL, NONE)), tm.newax(b, (NONE, FULL))))
    return None


def np_repeat(I, args, kw, node):
    t = I.to_t(args[0])
    n = I.to_t(args[1] if len(args) > 1 else kw.get('repeats'))
    if t.rank == 0 and n.rank == 0:
        return I.new_arr(mk('full', t, n, rank=1))
    xs, ns = known_list(I, args[0]), known_list(I, args[1] if len(args) > 1 else kw.get('repeats'))
    if xs is not None and (ns is not None and len(ns) == len(xs) or n.rank == 0 and tm.isnum(n)):
        ns = ns if ns is not None else [n] * len(xs)
        if all(tm.isnum(x) and 0 <= tm.cval(x) <= max(256, I.unroll) for x in ns):
            return I.new_arr(mk('arr', *[x for x, k in zip(xs, ns) for _ in range(int(tm.cval(k)))], rank=1))
    return None


def known_list(I, v):
    """elements of a sequence of known length as terms"""
    it = I.items_of(v)
    if it is not None:
        return [I.to_t(x) for x in it]
    t = I.to_t(v)
    n = tm.length(t) if t.rank == 1 else None
    if n is None or not tm.isnum(n) or tm.cval(n) > max(256, I.unroll):
        return None
    return [tm.idx(t, (num(i),)) for i in range(int(tm.cval(n)))]


def o_compress(I, args, kw, node):
    xs, ss = I.items_of(args[0]), known_list(I, args[1])
    if xs is None or ss is None:
        return None
    out = []
    for x, b in zip(xs, ss):
        if b in (TRUE, FALSE) or tm.isnum(b):
            if b is TRUE or tm.isnum(b) and tm.cval(b) != 0:
                out.append(x)
        else:
            return None
    return new_iter(I, out)


def np_tile(I, args, kw, node):
    t = I.to_t(args[0])
    n = I.to_t(args[1] if len(args) > 1 else kw.get('reps'))
    if t.rank == 0 and n.rank == 0:
        return I.new_arr(mk('full', t, n, rank=1))
    return np_opaque('tile', None)(I, args, kw, node)


def np_maxmin(f):
    def g(I, args, kw, node):
        return wrap(I, args[:2], f(seq_t(I, args[0]), seq_t(I, args[1])))
    return g


def np_clip(I, args, kw, node):
    t = seq_t(I, args[0])
    lo = args[1] if len(args) > 1 else kw.get('a_min', NONE)
    hi = args[2] if len(args) > 2 else kw.get('a_max', NONE)
    if lo is not NONE:
        t = tm.tmax(t, I.to_t(lo))
    if hi is not NONE:
        t = tm.tmin(t, I.to_t(hi))
    return wrap(I, [args[0]], t)


def np_aliasview(nm):
    def g(I, args, kw, node):
        v = args[0]
        t = seq_t(I, v)
        if isinstance(v, Ref) and I.is_arr(v):
            if t.rank in (0, 1):
                return v
            return I.alias_view(v, nm)
        return None
    return g


def np_shape(I, args, kw, node):
    s = shape_of(I, args[0])
    return Tup(s) if s is not None else mk('shape', I.to_t(args[0]))


def np_size(I, args, kw, node):
    t = seq_t(I, args[0])
    s = tshape(t)
    if s is None:
        return mk('size', t, rank=0)
    r = ONE
    for x in s:
        r = tm.mul(r, x)
    return r


def np_copyto(I, args, kw, node):
    d, s = args[0], args[1]
    if isinstance(d, Ref):
        I.effect(d, 'np.copyto', node)
        t = I.to_t(s)
        old = I.content(d)
        if 'where' in kw:
            t = tm.phi(bool_t(I, I.to_t(kw['where'])), t, old)
        elif t.rank == 0 and old.rank == 1:
            t = mk('full', t, tm.length(old), rank=1)
        I.set_content(d, t)
    return NONE


def np_mut(what, at=None):
    def g(I, args, kw, node):
        d = args[0]
        if isinstance(d, Ref):
            I.effect(d, what, node)
            old = I.content(d)
            if what in ('np.put', 'np.place', 'np.putmask') and len(args) >= 3:
                I.set_content(d, tm.store(old, I.ixt(args[1]), I.to_t(args[2])))
            else:
                I.set_content(d, mk('call', what, old, *[I.to_t(a) for a in args[1:]], rank=old.rank))
        return NONE
    return g


def np_interp(I, args, kw, node):
    ts = [seq_t(I, a) for a in args] + [mk('kw', k, I.to_t(v)) for k, v in sorted(kw.items())]
    r = mk('call', 'interp', *ts, rank=ts[0].rank)
    return fresh_arr(I, r)


def np_opaque(fn, rank):
    def g(I, args, kw, node):
        ts = [seq_t(I, a) for a in args] + [mk('kw', k, I.to_t(v)) for k, v in sorted(kw.items())]
        rk = rank if not callable(rank) else rank(ts)
        return fresh_arr(I, mk('call', fn, *ts, rank=rk))
    return g


def np_argred(fn):
    other = np_opaque(fn, 0)

    def g(I, args, kw, node):
        t = seq_t(I, args[0])
        if len(args) == 1 and not kw and t.rank == 1:
            s = nums(t, 256)
            xs = [tm.idx(t, (num(i),)) for i in range(s[0])] if s else []
            if xs and all(tm.isnum(x) for x in xs):
                vs = [tm.cval(x) for x in xs]
                return num(vs.index((min if fn == 'argmin' else max)(vs)))
        return other(I, args, kw, node)
    return g


def np_nonzero(I, args, kw, node):
    return np_where(I, [args[0]], {}, node)


def np_sorted(name):
    dflt = np_opaque(name, (lambda ts: ts[0].rank) if name == 'sort' else 1)

    def f(I, args, kw, node):
        if len(args) == 1 and not kw:
            t = seq_t(I, args[0])
            n = tm.length(t) if t.rank == 1 else None
            if n is not None and tm.isnum(n) and tm.cval(n) <= 64:
                xs = [tm.idx(t, (num(i),)) for i in range(int(tm.cval(n)))]
                if all(tm.isnum(x) for x in xs):
                    xs.sort(key=tm.cval)
                    if name == 'unique':
                        xs = list(dict.fromkeys(xs))
                    return I.new_arr(mk('arr', *xs, rank=1))
        return dflt(I, args, kw, node)
    return f


def np_stack(I, args, kw, node):
    ax = numc(kw.get('axis', args[1] if len(args) > 1 else ZERO))
    return stack_on(I, args[0], ax)


def stack_on(I, seq, ax):
    it = I.items_of(seq)
    if it is None:
        return None
    ts = [seq_t(I, x) for x in it]
    if not ts or any(t.rank is None or t.rank != ts[0].rank for t in ts):
        return None
    if ax == 0 or (ax == -1 and ts[0].rank == 0):
        return I.new_arr(mk('arr', *ts, rank=ts[0].rank + 1))
    if ax in (1, -1) and ts[0].rank == 1:
        r = mk('zeros', tm.length(ts[0]), num(len(ts)), rank=2)
        for j, t in enumerate(ts):
            r = tm.store(r, (FULL, num(j)), t)
        return I.new_arr(r)
    return None


def np_vstack(I, args, kw, node):
    it = I.items_of(args[0])
    if it is None or any(seq_t(I, x).rank not in (0, 1) for x in it):
        return None
    return stack_on(I, args[0], 0)


def np_column_stack(I, args, kw, node):
    it = I.items_of(args[0])
    if it is None or any(seq_t(I, x).rank != 1 for x in it):
        return None
    return stack_on(I, args[0], 1)


def np_vectorize(I, args, kw, node):
    return None


NP = {
    'add': bin_(tm.add), 'subtract': bin_(tm.sub), 'multiply': bin_(tm.mul), 'true_divide': bin_(tm.div), 'power': bin_(tm.power), 'float_power': bin_(tm.power),
    'maximum': np_maxmin(tm.tmax), 'minimum': np_maxmin(tm.tmin), 'fmax': np_maxmin(tm.tmax), 'fmin': np_maxmin(tm.tmin),
    'greater': cmp_(ast.Gt()), 'less': cmp_(ast.Lt()), 'greater_equal': cmp_(ast.GtE()), 'less_equal': cmp_(ast.LtE()),
    'equal': cmp_(ast.Eq()), 'not_equal': cmp_(ast.NotEq()),
    'logical_and': np_logical(tm.land), 'logical_or': np_logical(tm.lor), 'bitwise_and': np_logical(tm.land), 'bitwise_or': np_logical(tm.lor),
    'where': np_where, 'nonzero': np_nonzero, 'flatnonzero': lambda I, a, k, n: np_where(I, [a[0]], {}, n).items[0],
    'zeros': np_zeros, 'ones': lambda I, a, k, n: np_full(I, a, k, n, ONE), 'full': np_full,
    'empty': lambda I, a, k, n: np_empty(I, a, k, n), 'zeros_like': lambda I, a, k, n: np_like(I, a, k, n, ZERO),
    'ones_like': lambda I, a, k, n: np_like(I, a, k, n, ONE), 'full_like': lambda I, a, k, n: np_like(I, a, k, n, I.to_t(a[1] if len(a) > 1 else k['fill_value'])),
    'empty_like': lambda I, a, k, n: np_emptylike(I, a, k, n),
    'array': np_array, 'asarray': np_asarray, 'copy': np_copy, 'arange': np_arange, 'linspace': np_linspace,
    'atleast_1d': lambda I, a, k, n: np_atleast(I, a, k, n),
    'sum': np_sum, 'nansum': None, 'mean': np_mean, 'max': np_red('amax'), 'min': np_red('amin'), 'any': np_red('any'), 'all': np_red('all'),
    'prod': np_red('prod'), 'cumsum': np_cumsum, 'trapz': np_trapz, 'append': np_append, 'concatenate': np_concatenate, 'hstack': np_concatenate,
    'insert': np_insert, 'diff': np_diff, 'ediff1d': np_diff, 'flip': np_flip, 'flipud': np_flip, 'fliplr': np_fliplr,
    'dot': np_dot, 'matmul': np_dot, 'inner': np_dot, 'vdot': None, 'repeat': np_repeat, 'clip': np_clip,
    'outer': np_outer, 'squeeze': np_aliasview('squeeze'), 'ravel': np_aliasview('ravel'), 'transpose': np_aliasview('T'),
    'shape': np_shape, 'size': np_size, 'ndim': lambda I, a, k, n: num(seq_t(I, a[0]).rank) if seq_t(I, a[0]).rank is not None else None,
    'copyto': np_copyto, 'put': np_mut('np.put'), 'place': np_mut('np.place'), 'putmask': np_mut('np.putmask'), 'fill_diagonal': np_mut('np.fill_diagonal'),
    'interp': np_interp, 'searchsorted': np_opaque('searchsorted', lambda ts: ts[1].rank), 'argmin': np_argred('argmin'), 'argmax': np_argred('argmax'),
    'count_nonzero': np_opaque('count_nonzero', 0), 'isscalar': lambda I, a, k, n: (TRUE if seq_t(I, a[0]).rank == 0 else FALSE) if seq_t(I, a[0]).rank is not None else None,
    'round': np_opaque('round', lambda ts: ts[0].rank), 'around': np_opaque('round', lambda ts: ts[0].rank),
    'isclose': np_opaque('isclose', lambda ts: rank_of(*ts[:2])), 'allclose': np_opaque('allclose', 0), 'array_equal': np_opaque('array_equal', 0),
    'isin': np_opaque('isin', lambda ts: ts[0].rank), 'in1d': np_opaque('isin', lambda ts: ts[0].rank),
    'sort': np_sorted('sort'), 'argsort': np_opaque('argsort', lambda ts: ts[0].rank), 'unique': np_sorted('unique'),
    'median': np_opaque('median', 0), 'std': np_opaque('std', 0), 'var': np_opaque('var', 0), 'arctan2': np_opaque('arctan2', lambda ts: rank_of(*ts)),
    'stack': np_stack, 'vstack': np_vstack, 'column_stack': np_column_stack, 'nan_to_num': np_opaque('nan_to_num', lambda ts: ts[0].rank), 'gradient': np_opaque('gradient', lambda ts: ts[0].rank),
    'mod': bin_(lambda a, b: mk('mod', a, b, rank=tm._r(a, b))), 'floor_divide': bin_(lambda a, b: mk('floordiv', a, b, rank=tm._r(a, b))),
    'int32': lambda I, a, k, n: b_int(I, a, k, n), 'int64': lambda I, a, k, n: b_int(I, a, k, n), 'int_': lambda I, a, k, n: b_int(I, a, k, n),
    'errstate': lambda I, a, k, n: NONE, 'seterr': lambda I, a, k, n: NONE, 'tile': np_tile,
    'take': lambda I, a, k, n: fresh_arr(I, tm.idx(seq_t(I, a[0]), (seq_t(I, a[1]),))) if not k and len(a) == 2 and seq_t(I, a[0]).rank == 1 else None,
}
NP = {k: v for k, v in NP.items() if v is not None}


def np_empty(I, args, kw, node):
    d = dims_of(I, args[0] if args else kw.get('shape'))
    if d is None:
        return None
    return I.new_arr(mk('emptyarr', *d, rank=len(d)))


def np_emptylike(I, args, kw, node):
    s = shape_of(I, args[0])
    if not s:
        return I.new_arr(mk('call', 'like', tm.sym('uninit'), mk('shape', I.to_t(args[0])), rank=I.to_t(args[0]).rank))
    return I.new_arr(mk('emptyarr', *s, rank=len(s)))


def np_atleast(I, args, kw, node):
    v = args[0]
    t = seq_t(I, v)
    if t.rank == 0:
        return I.new_arr(mk('arr', t, rank=1))
    if t.rank is not None:
        return v if isinstance(v, Ref) and I.is_arr(v) else I.new_arr(t)
    if isinstance(v, Ref) and I.is_arr(v):
        return v
    return None


# ------------------------------------------------------------------ builtins
def b_len(I, args, kw, node):
    v = args[0]
    if isinstance(v, PhiV):
        return I.phi_map(v, lambda x: b_len(I, [x], {}, node), node)
    if isinstance(v, Ref) and I.kind(v) == 'iter':
        return I.meta[v.oid]['count']
    if isinstance(v, Ref) and I.kind(v) == 'range':
        return I.meta[v.oid]['r'][1]
    it = I.items_of(v)
    if it is not None:
        return num(len(it))
    if isinstance(v, Ref) and I.kind(v) == 'obj':
        m = I.lookup(v, '__len__')
        if m is not None:
            return I.call(m, [], {}, node)
    t = I.to_t(v)
    if t.op == 'shape' and t.args[0].rank is not None:
        return num(t.args[0].rank)
    return tm.length(t)


def b_range(I, args, kw, node):
    a = [I.to_t(x) for x in args]
    lo, step = ZERO, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    else:
        return None
    if any(x.rank not in (0, None) for x in a):
        return None
    s = numc(step)
    if s is None or s == 0:
        n = mk('call', 'rangelen', lo, hi, step, rank=0)
    elif s in (1, -1):
        n = tm.sub(hi, lo) if s == 1 else tm.sub(lo, hi)
        if tm.isnum(n):
            n = num(max(0, tm.cval(n)))
    else:
        d = tm.sub(hi, lo)
        if tm.isnum(d):
            import math
            n = num(max(0, math.ceil(Fraction(tm.cval(d)) / s)))
        else:
            n = mk('call', 'rangelen', lo, hi, step, rank=0)
    return I.new('range', r=(lo, n, step))


def b_enumerate(I, args, kw, node):
    start = I.to_t(args[1]) if len(args) > 1 else I.to_t(kw.get('start', ZERO))
    v = args[0]
    it = I.items_of(v)
    if it is not None and len(it) <= max(64, I.unroll):
        return new_iter(I, [Tup([tm.add(start, num(i)), x]) for i, x in enumerate(it)])
    if isinstance(v, PhiV):
        v = I.to_t(v)
    n, fn = I.symiter(v)
    return new_iter(I, None, n, lambda t: Tup([tm.add(start, t), fn(t)]))


def b_zip(I, args, kw, node):
    its = [I.items_of(a) for a in args]
    if all(i is not None for i in its):
        return new_iter(I, [Tup(x) for x in zip(*its)])
    cs = []
    fns = []
    for a, it in zip(args, its):
        if it is not None:
            t = mk('arr', *[I.to_t(x) for x in it], rank=1)
            cs.append(num(len(it)))
            fns.append(lambda i, t=t: tm.idx(t, (i,)))
        else:
            n, f = I.symiter(I.to_t(a) if isinstance(a, PhiV) else a)
            cs.append(n)
            fns.append(f)
    # lengths are taken to agree (numeric one preferred)
    n = next((c for c in cs if tm.isnum(c)), cs[0])
    return new_iter(I, None, n, lambda t: Tup([f(t) for f in fns]))


def b_reversed(I, args, kw, node):
    it = I.items_of(args[0])
    if it is not None:
        return new_iter(I, list(reversed(it)))
    n, fn = I.symiter(args[0])
    return new_iter(I, None, n, lambda t: fn(tm.sub(tm.sub(n, ONE), t)))


def b_list(I, args, kw, node):
    if not args:
        return I.new_list([])
    it = I.items_of(args[0])
    if it is not None:
        return I.new_list(it)
    return None


def listlike(I, v, kind='list'):
    t = I.to_t(v)
    r = I.new(kind)
    I.st.m[('l', r.oid)] = t
    return r


def b_tuple(I, args, kw, node):
    if not args:
        return Tup([])
    it = I.items_of(args[0])
    return Tup(it) if it is not None else None


def b_set(I, args, kw, node):
    if not args:
        return I.new_list([], 'set')
    it = I.items_of(args[0])
    if it is None:
        return None
    out = []
    for x in it:
        if not any((x is y) or (isinstance(x, Ref) and x == y) for y in out):
            out.append(x)
    return I.new_list(out, 'set')


def b_dict(I, args, kw, node):
    pairs = []
    if args:
        v = args[0]
        if isinstance(v, Ref) and I.kind(v) == 'dict' and I.st.m.get(('dk', v.oid)) is not None:
            pairs = [(k, I.st.m[('d', v.oid, k)]) for k in I.st.m[('dk', v.oid)]]
        else:
            it = I.items_of(v)
            if it is None:
                return None
            for x in it:
                xi = I.items_of(x)
                if xi is None or len(xi) != 2:
                    return None
                pairs.append((I.keyof(xi[0]), xi[1]))
    pairs += [(const(k), v) for k, v in kw.items()]
    return I.new_dict(pairs)


def b_minmax(f, nm):
    def g(I, args, kw, node):
        if kw:
            return None
        its = args if len(args) > 1 else I.items_of(args[0])
        if its:
            r = I.to_t(its[0])
            for x in its[1:]:
                r = f(r, I.to_t(x))
            return r
        t = I.to_t(args[0])
        return mk('call', nm, t, rank=0)
    return g


def b_sum(I, args, kw, node):
    it = I.items_of(args[0])
    init = I.to_t(args[1]) if len(args) > 1 else ZERO
    if it is not None:
        for x in it:
            init = tm.add(init, I.to_t(x))
        return init if init.rank == 0 else fresh_arr(I, init)
    v = args[0]
    if isinstance(v, Ref) and I.kind(v) in ('iter', 'range'):
        n, fn = I.symiter(v)
        lp = Loop(n, 'sum')
        lp.done = True
        return tm.add(init, tm.mksum(lp, I.to_t(fn(mk('iv', lp, rank=0)))))
    r = reduce_sum(I.to_t(v))
    return tm.add(init, r) if r is not None else None


def b_anyall(fn):
    def g(I, args, kw, node):
        it = I.items_of(args[0])
        if it is not None:
            r = FALSE if fn == 'any' else TRUE
            for x in it:
                c = I.truth(x, node)
                r = tm.lor(r, c) if fn == 'any' else tm.land(r, c)
            return r
        t = bool_t(I, I.to_t(args[0]))
        return mk('call', fn, t, rank=0)
    return g


def b_abs(I, args, kw, node):
    return wrap(I, args[:1], tm.tabs(I.to_t(args[0])))


def b_int(I, args, kw, node):
    if not args:
        return ZERO
    t = I.to_t(args[0])
    if len(args) > 1 or kw:
        return None
    return int_t(t)


def int_t(t):
    if tm.isnum(t):
        return num(int(tm.cval(t)))
    if t.op == 'const' and isinstance(tm.cval(t), bool):
        return num(int(tm.cval(t)))
    s = strc(t)
    if s is not None:
        try:
            return num(int(s))
        except ValueError:
            pass
    if t.op == 'phi' and t.rank == 0 and all(tm.isnum(x) for x in t.args[1:]):
        return tm.phi(t.args[0], int_t(t.args[1]), int_t(t.args[2]))
    if t.op == 'call' and t.args[0] in ('int', 'argmin', 'argmax', 'count_nonzero') or t.op in ('len', 'iv'):
        return t
    return mk('call', 'int', t, rank=0 if t.rank in (0, None) else t.rank)


def b_float(I, args, kw, node):
    if not args:
        return ZERO
    t = I.to_t(args[0])
    s = strc(t)
    if s is not None:
        if s.strip().lower() == 'nan':
            return tm.sym('nan', rank=0)
        if s.strip().lower() in ('inf', '+inf', 'infinity'):
            return tm.sym('inf', rank=0)
        try:
            return num(Fraction(s.strip()))
        except ValueError:
            I.raise_('ValueError', None, node)
    if tm.isnum(t) or t.rank == 0:
        if t.op in ('mcall', 'fstr', 'call') and tm.isstr(t):
            return mk('call', 'float', t, rank=0)
        return t
    return mk('call', 'float', t, rank=0)


def b_str(I, args, kw, node):
    if not args:
        return const('')
    t = I.to_t(args[0])
    if strc(t) is not None:
        return t
    return tm.fstr([t])


def b_bool(I, args, kw, node):
    return I.truth(args[0], node) if args else FALSE


def b_complex(I, args, kw, node):
    a = I.to_t(args[0]) if args else ZERO
    b = I.to_t(args[1]) if len(args) > 1 else ZERO
    return tm.mkcomplex(a, b)


TYPEK = {'str': 'str', 'dict': 'dict', 'list': 'list', 'tuple': 'tuple', 'bool': 'bool', 'set': 'set'}


def type_is(I, v, tname):
    """True/False/None: is v an instance of the named builtin/numpy type"""
    short = tname.split('.')[-1]
    if isinstance(v, T) and v in getattr(I, 'dates', ()):
        return short in ('datetime', 'date', 'object')
    if isinstance(v, Tup):
        return short in ('tuple', 'Sequence', 'Iterable', 'object')
    if isinstance(v, (Func, Bound, Ext, Method, Super, Partial)):
        return False if short not in ('object', 'Callable', 'type', 'FunctionType') else None
    if isinstance(v, Ref):
        md = I.meta[v.oid]
        k = md['kind']
        if md.get('pytype'):
            return short in (md['pytype'], 'object')
        if k in ('list', 'dict', 'set'):
            return short in (k, 'object', 'Iterable') or (k == 'dict' and short == 'Mapping') or (k == 'list' and short == 'Sequence')
        if k in ('arr', 'view'):
            c = I.content(v)
            if c.rank == 0:
                return None if short in ('float', 'int', 'number', 'ndarray', 'generic', 'float64', 'floating', 'Number', 'complex') else False
            return short in ('ndarray', 'object', 'Iterable')
        if k == 'sym':
            if md.get('rank'):
                return short in ('ndarray', 'object', 'Iterable')
            return None
        if k in ('module', 'class', 'obj', 'iter', 'range'):
            return False if short in ('ndarray', 'str', 'dict', 'list', 'tuple', 'int', 'float', 'bool', 'DataFrame') else None
    if isinstance(v, T):
        if v.op == 'const':
            x = tm.cval(v)
            if x is None:
                return short in ('NoneType', 'object')
            if isinstance(x, bool):
                return short in ('bool', 'int', 'object')
            if isinstance(x, str):
                return short in ('str', 'object')
            if short in ('str', 'dict', 'list', 'tuple', 'ndarray', 'bool', 'NoneType', 'set', 'bytes', 'DataFrame', 'Series', 'complex'):
                return False
            if isinstance(x, Fraction) and x.denominator != 1:
                return {'float': True, 'int': False}.get(short)
            return None
        if v.op == 'fstr' or tm.isstr(v):
            return short in ('str', 'object')
        if v.op in ('add', 'mul', 'div', 'pow', 'sum') and v.rank == 0:
            if short in ('str', 'dict', 'list', 'tuple', 'ndarray', 'bool', 'NoneType', 'set', 'DataFrame'):
                return False
        if v.rank is not None and v.rank > 0:
            return short in ('ndarray', 'object')
        if v.rank == 0 and v.op in ('sym', 'idx', 'iv', 'call', 'phi') and short in ('ndarray', 'dict', 'list', 'tuple'):
            return False
    return None


def b_isinstance(I, args, kw, node):
    v, ty = args[0], args[1]
    if isinstance(v, PhiV):
        return I.phi_map(v, lambda x: b_isinstance(I, [x, ty], kw, node), node)
    if isinstance(v, T) and v.op == 'phi' and v.args[0].rank == 0:
        return tm.phi(v.args[0], I.to_t(b_isinstance(I, [v.args[1], ty], kw, node)), I.to_t(b_isinstance(I, [v.args[2], ty], kw, node)))
    tys = I.items_of(ty) if isinstance(ty, Tup) else [ty]
    res = FALSE
    for t in tys:
        if isinstance(t, Ref) and I.kind(t) == 'class':
            if isinstance(v, Ref) and I.kind(v) == 'obj':
                r = t in I.mro(I.meta[v.oid]['cls'])
            elif isinstance(v, Ref) and I.kind(v) == 'sym' or (isinstance(v, T) and v.op not in ('const',)):
                r = None
            else:
                r = False
        elif isinstance(t, Ext):
            r = type_is(I, v, t.name)
        else:
            r = None
        if r is True:
            return TRUE
        if r is None:
            res = tm.lor(res, mk('isinstance', I.to_t(v), I.to_t(t), rank=0))
    return res


def b_type(I, args, kw, node):
    v = args[0]
    if isinstance(v, Ref) and I.kind(v) == 'obj':
        return I.meta[v.oid]['cls']
    for n in ('str', 'dict', 'list', 'tuple', 'bool', 'ndarray', 'float'):
        if not isinstance(v, PhiV) and type_is(I, v, n) is True:
            return Ext('numpy.ndarray' if n == 'ndarray' else 'builtins.' + n)
    return mk('type', I.to_t(v), rank=0)


def b_getattr(I, args, kw, node):
    n = strc(args[1])
    if n is None:
        t = I.to_t(args[1])
        if t.op == 'phi':
            return I.phi_map(PhiV(t.args[0], t.args[1], t.args[2]), lambda x: b_getattr(I, [args[0], x] + list(args[2:]), kw, node), node)
        return mk('getattr', I.to_t(args[0]), t)
    if len(args) > 2 and has_attr(I, args[0], n) is False:
        return args[2]
    return I.getattr_(args[0], n, node)


def has_attr(I, obj, n):
    if isinstance(obj, PhiV):
        obj = I.refine_v(obj)
    if isinstance(obj, Ref):
        k = I.kind(obj)
        if k == 'obj':
            c = I.meta[obj.oid]['cls']
            if I.cls_lookup(c, n) is not None:
                return True
            v = I.st.m.get(('f', obj.oid, n))
            if v is None:
                return None if I.meta[obj.oid].get('open') else False
            return True if not isinstance(v, PhiV) and v is not UNB else None
        if k == 'class':
            v = I.cls_lookup(obj, n)
            return v is not None
        if k == 'module':
            return ('f', obj.oid, n) in I.st.m
        if k in ('arr', 'view'):
            return n in ARR_METHODS or n in ('shape', 'size', 'T', 'ndim', 'dtype', '__len__', '__iter__', 'real', 'imag')
    if isinstance(obj, T) and tm.isnum(obj):
        return n in ('real', 'imag') or None if n not in ('shape', '__len__', '__iter__', 'ndim') else False
    return None


def b_hasattr(I, args, kw, node):
    n = strc(args[1])
    r = has_attr(I, args[0], n) if n is not None else None
    if r is None:
        return mk('truth', mk('call', 'hasattr', I.to_t(args[0]), I.to_t(args[1])), rank=0)
    return TRUE if r else FALSE


def b_setattr(I, args, kw, node):
    n = strc(args[1])
    if n is None:
        t = I.to_t(args[1])
        if t.op == 'phi':
            I.phi_map(PhiV(t.args[0], t.args[1], t.args[2]), lambda x: (b_setattr(I, [args[0], x, args[2]], kw, node), NONE)[1], node)
            return NONE
        I.log('setattr-opaque', (t,), node)
        return NONE
    I.setattr_(args[0], n, args[2], node)
    return NONE


def b_sorted(I, args, kw, node):
    it = I.items_of(args[0])
    if it is not None and not kw and all(isinstance(x, T) and x.op == 'const' for x in it):
        try:
            return I.new_list(sorted(it, key=lambda x: tm.cval(x)))
        except TypeError:
            return None
    return None


def b_map(I, args, kw, node):
    its = [I.items_of(a) for a in args[1:]]
    if all(i is not None for i in its):
        return new_iter(I, [I.call(args[0], list(x), {}, node) for x in zip(*its)])
    if len(args) == 2:
        n, fn = I.symiter(args[1])
        f = args[0]
        return new_iter(I, None, n, lambda t: I.call(f, [fn(t)], {}, node))
    return None


def b_filter(I, args, kw, node):
    it = I.items_of(args[0 + 1])
    if it is None:
        return None
    out = []
    for x in it:
        c = I.truth(I.call(args[0], [x], {}, node), node) if args[0] is not NONE else I.truth(x, node)
        if c is TRUE:
            out.append(x)
        elif c is not FALSE:
            return None
    return new_iter(I, out)


def b_print(I, args, kw, node):
    return NONE


def b_super_init(I, args, kw, node):
    return NONE


def b_vars(I, args, kw, node):
    v = args[0]
    if isinstance(v, Ref) and I.kind(v) in ('module', 'obj', 'class'):
        ks = [k for k in I.st.m if k[0] == 'f' and k[1] == v.oid]
        return I.new_dict([(const(k[2]), I.st.m[k]) for k in ks])
    return None


def b_import(I, args, kw, node):
    n = strc(args[0])
    if n is None or not n.startswith('pyrtlib'):
        return None
    m = I.load(n) if I.modpath(n) else None
    if m is None and os.path.isdir(os.path.join(I.repo, *n.split('.'))):
        m = I.modules.get(n)
        if m is None:
            m = I.new('module', frozenset(), name=n, path=os.path.join(I.repo, *n.split('.'), '__init__.py'))
            I.modules[n] = m
    if m is None:
        I.raise_('ImportError', None, node)
    fl = args[3] if len(args) > 3 else kw.get('fromlist')
    its = I.items_of(fl) if fl is not None else None
    for x in its or []:
        s = strc(x)
        if s and I.modpath(n + '.' + s):
            I.st.m[('f', m.oid, s)] = I.load(n + '.' + s)
    if not its:
        return I.load(n.split('.')[0])
    return m


def b_round(I, args, kw, node):
    t = I.to_t(args[0])
    if tm.isnum(t):
        nd = intc(args[1]) if len(args) > 1 else 0
        if nd is not None:
            v = tm.cval(t)
            r = round(Fraction(v), nd)
            return num(Fraction(r))
    return mk('call', 'round', t, *[I.to_t(a) for a in args[1:]], rank=t.rank)


def b_pow(I, args, kw, node):
    return wrap(I, args[:2], tm.power(I.to_t(args[0]), I.to_t(args[1]))) if len(args) == 2 else None


def b_property(I, args, kw, node):
    f = args[0] if args else kw.get('fget')
    return Prop(f, args[1] if len(args) > 1 else kw.get('fset'))


def b_static(kind):
    def g(I, args, kw, node):
        f = args[0]
        if isinstance(f, Func):
            return Func(f.node, f.mod, f.name, f.defaults, f.cls, f.fid, kind)
        return f
    return g


def b_iter(I, args, kw, node):
    it = I.items_of(args[0])
    return new_iter(I, it) if it is not None else args[0]


def b_next(I, args, kw, node):
    it = I.items_of(args[0])
    if it:
        v = it[0]
        if isinstance(args[0], Ref) and I.kind(args[0]) == 'iter':
            md = I.meta[args[0].oid]
            if md['items'] is not None:
                md['items'] = md['items'][1:]
        return v
    if it is not None and len(args) > 1:
        return args[1]
    if it is not None:
        I.raise_('StopIteration', None, node)
    return None


def b_slice(I, args, kw, node):
    a = [I.to_t(x) for x in args]
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return mk('slice', *a)


def b_callable(I, args, kw, node):
    v = args[0]
    if isinstance(v, (Func, Bound, Ext, Method, Partial)):
        return TRUE
    if isinstance(v, Ref) and I.kind(v) in ('class',):
        return TRUE
    if isinstance(v, T) and v.op == 'const':
        return FALSE
    return None


def b_divmod(I, args, kw, node):
    a, b = I.to_t(args[0]), I.to_t(args[1])
    return Tup([I.binop_t(ast.FloorDiv(), a, b), I.binop_t(ast.Mod(), a, b)])


BUILT = {'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed, 'list': b_list, 'tuple': b_tuple, 'set': b_set,
         'frozenset': b_set, 'dict': b_dict, 'min': b_minmax(tm.tmin, 'amin'), 'max': b_minmax(tm.tmax, 'amax'), 'sum': b_sum, 'any': b_anyall('any'),
         'all': b_anyall('all'), 'abs': b_abs, 'int': b_int, 'float': b_float, 'str': b_str, 'bool': b_bool, 'complex': b_complex,
         'isinstance': b_isinstance, 'type': b_type, 'getattr': b_getattr, 'setattr': b_setattr, 'hasattr': b_hasattr, 'sorted': b_sorted, 'map': b_map,
         'filter': b_filter, 'print': b_print, 'object.__init__': b_super_init, 'vars': b_vars, '__import__': b_import, 'round': b_round, 'pow': b_pow,
         'property': b_property, 'staticmethod': b_static('static'), 'classmethod': b_static('classm'), 'iter': b_iter, 'next': b_next, 'slice': b_slice,
         'callable': b_callable, 'divmod': b_divmod, 'locals': lambda I, a, k, n: mk('locals'), 'globals': lambda I, a, k, n: I.modules.get(I.frames[-1].mod) or mk('globals')}


# ------------------------------------------------------------------ other libraries
def o_exit(I, args, kw, node):
    I.raise_('SystemExit', list(args), node)


def o_join(I, args, kw, node):
    ss = [strc(I.to_t(a)) for a in args]
    if all(s is not None for s in ss):
        return const(os.path.join(*ss))
    return None


def o_path(fn):
    def g(I, args, kw, node):
        s = strc(I.to_t(args[0]))
        return const(fn(s)) if s is not None else None
    return g


def o_reload(I, args, kw, node):
    m = args[0]
    if isinstance(m, Ref) and I.kind(m) == 'module':
        I.log('reload', (I.meta[m.oid]['name'],), node)
        I.exec_module(m)
        return m
    return None


def o_import_module(I, args, kw, node):
    n = strc(args[0])
    if n and n.startswith('.') and len(args) > 1 and strc(args[1]):
        n = strc(args[1]) + n
    if n and n.startswith('pyrtlib') and I.modpath(n):
        return I.load(n)
    return None


def o_dataset(I, args, kw, node):
    p = I.to_t(args[0] if args else kw.get('filename'))
    I.log('extcall', ('netCDF4.Dataset', tuple(args), dict(kw)), node)
    if strc(p) is None:
        return mk('call', 'netCDF4.Dataset', p)
    return mk('nc', p)


def o_deepcopy(I, args, kw, node):
    return clone(I, args[0], {}, True)


def o_copy(I, args, kw, node):
    return clone(I, args[0], {}, False)


def clone(I, v, memo, deep):
    if isinstance(v, Tup):
        return Tup([clone(I, x, memo, deep) for x in v.items], v.names) if deep else v
    if isinstance(v, PhiV):
        a = clone(I, v.a, memo, deep) if v.a is not UNB else UNB
        b = clone(I, v.b, memo, deep) if v.b is not UNB else UNB
        return PhiV(v.c, a, b)
    if not isinstance(v, Ref):
        return v
    if v.oid in memo:
        return memo[v.oid]
    md = I.meta[v.oid]
    k = md['kind']
    m = I.st.m
    sub = (lambda x: clone(I, x, memo, deep)) if deep else (lambda x: x)
    if k in ('arr', 'view'):
        r = I.new_arr(I.content(v))
        memo[v.oid] = r
        return r
    if k in ('list', 'set'):
        r = I.new(k)
        memo[v.oid] = r
        it = m[('l', v.oid)]
        m[('l', r.oid)] = tuple(sub(x) for x in it) if isinstance(it, tuple) else it
        return r
    if k == 'dict':
        r = I.new('dict', **{x: y for x, y in md.items() if x not in ('kind', 'roots')})
        memo[v.oid] = r
        for kk in [q for q in m if q[0] == 'd' and q[1] == v.oid]:
            m[('d', r.oid, kk[2])] = sub(m[kk])
        m[('dk', r.oid)] = m.get(('dk', v.oid))
        return r
    if k == 'obj':
        r = I.new('obj', frozenset(), cls=md['cls'], **({'open': md['open']} if md.get('open') else {}))
        memo[v.oid] = r
        for kk in [q for q in m if q[0] == 'f' and q[1] == v.oid]:
            m[('f', r.oid, kk[2])] = sub(m[kk])
        return r
    if k == 'sym':
        I.noid += 1
        oid = (f'C{I.noid}', md['path'])
        nmd = dict(md)
        nmd['roots'] = frozenset()
        I.meta[oid] = nmd
        r = Ref(oid)
        memo[v.oid] = r
        for q in [q for q in m if len(q) > 1 and q[1] == v.oid]:
            m[(q[0], oid) + tuple(q[2:])] = clone(I, m[q], memo, deep) if q[0] in ('f', 'd') and deep else m[q]
        return r
    return v


def o_partial(I, args, kw, node):
    return Partial(args[0], list(args[1:]), dict(kw))


def o_frame(I, args, kw, node):
    d = args[0] if args else kw.get('data')
    if d is None:
        r = I.new_dict([])
    elif isinstance(d, Ref) and I.kind(d) == 'dict' and I.st.m.get(('dk', d.oid)) is not None:
        r = I.new_dict([])
        ks = I.st.m[('dk', d.oid)]
        for k in ks:
            v = I.st.m[('d', d.oid, k)]
            I.st.m[('d', r.oid, k)] = I.new_arr(I.to_t(v)) if I.is_arr(v) else v
        I.st.m[('dk', r.oid)] = tuple(ks)
    else:
        return None
    I.meta[r.oid]['frame'] = True
    I.meta[r.oid]['pytype'] = 'DataFrame'
    return r


def o_concat(I, args, kw, node):
    if any(k in kw and kw[k] is not ZERO for k in ('axis',)) or any(k in kw for k in ('keys', 'join', 'levels')):
        return None
    it = I.items_of(args[0])
    if it is None:
        return None
    cols = []
    frames = []
    for x in it:
        if not (isinstance(x, Ref) and I.kind(x) == 'dict' and I.meta[x.oid].get('frame')) or I.st.m.get(('dk', x.oid)) is None:
            return None
        ks = list(I.st.m[('dk', x.oid)])
        if not ks:
            continue
        if cols and set(ks) != set(cols):
            return None
        cols = cols or ks
        frames.append(x)
    r = I.new_dict([])
    for k in cols:
        parts = [I.st.m[('d', f.oid, k)] for f in frames]
        if len(parts) == 1:
            t = I.to_t(parts[0])
        else:
            t = concat(I, parts)
        I.st.m[('d', r.oid, k)] = I.new_arr(t)
    I.st.m[('dk', r.oid)] = tuple(cols)
    I.meta[r.oid]['frame'] = True
    I.meta[r.oid]['pytype'] = 'DataFrame'
    return r


def o_none(I, args, kw, node):
    I.log('extcall', ('warnings.warn', tuple(args), dict(kw)), node)
    return NONE


def o_modules_values(I, args, kw, node):
    return I.new_list(list(I.modules.values()))


OTHER = {'itertools.compress': o_compress, 'sys.exit': o_exit, 'os._exit': o_exit, 'os.path.join': o_join, 'posixpath.join': o_join, 'os.path.dirname': o_path(os.path.dirname), 'os.path.abspath': o_path(lambda s: s),
         'os.path.basename': o_path(os.path.basename), 'os.path.realpath': o_path(lambda s: s), 'os.path.normpath': o_path(os.path.normpath),
         'os.fspath': o_path(lambda s: s), 'importlib.reload': o_reload, 'importlib.import_module': o_import_module,
         'netCDF4.Dataset': o_dataset, 'copy.deepcopy': o_deepcopy, 'copy.copy': o_copy, 'functools.partial': o_partial,
         'pandas.DataFrame': o_frame, 'pandas.concat': o_concat, 'warnings.warn': o_none, 'warnings.filterwarnings': o_none, 'warnings.simplefilter': o_none,
         'sys.modules.values': o_modules_values}


# ------------------------------------------------------------------ methods
def call_method(I, obj, name, args, kw, node):
    if isinstance(obj, Ref):
        k = I.kind(obj)
        if k in ('list', 'set'):
            r = list_method(I, obj, name, args, kw, node)
        elif k == 'dict':
            r = dict_method(I, obj, name, args, kw, node)
        elif k in ('arr', 'view', 'sym'):
            r = arr_method(I, obj, name, args, kw, node)
        else:
            r = None
        if r is not None:
            return r
    elif isinstance(obj, Tup):
        if name == 'index':
            for i, x in enumerate(obj.items):
                if I.to_t(x) is I.to_t(args[0]):
                    return num(i)
        if name == '_asdict' and obj.names:
            return I.new_dict([(const(n), v) for n, v in zip(obj.names, obj.items)])
        if name == '_replace' and obj.names:
            return Tup([kw.get(n, v) for n, v in zip(obj.names, obj.items)], obj.names)
    elif isinstance(obj, T):
        r = term_method(I, obj, name, args, kw, node)
        if r is not None:
            return r
    t = I.to_t(obj)
    I.log('mcall', (t, name, tuple(args), dict(kw)), node)
    ts = [I.to_t(a) for a in args] + [mk('kw', k, I.to_t(v)) for k, v in sorted(kw.items())]
    return mk('mcall', t, name, *ts)


def list_method(I, obj, name, args, kw, node):
    m = I.st.m
    key = ('l', obj.oid)
    it = m[key]
    if name in ('append', 'add'):
        I.effect(obj, 'list.' + name, node)
        if isinstance(it, tuple):
            if name == 'add' and any(x is args[0] for x in it):
                return NONE
            m[key] = it + (args[0],)
        else:
            m[key] = mk('concat', I._list_t(it), mk('list', I.to_t(args[0]), rank=1 if I.to_t(args[0]).rank == 0 else None), rank=1)
        return NONE
    if name in ('extend', 'update'):
        I.effect(obj, 'list.' + name, node)
        ai = I.items_of(args[0])
        if isinstance(it, tuple) and ai is not None:
            m[key] = it + tuple(ai)
        else:
            m[key] = mk('concat', I._list_t(it), I.to_t(args[0]))
        return NONE
    if name in ('insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'discard'):
        I.effect(obj, 'list.' + name, node)
        if isinstance(it, tuple):
            l = list(it)
            if name == 'insert' and intc(args[0]) is not None:
                l.insert(intc(args[0]), args[1])
                m[key] = tuple(l)
                return NONE
            if name == 'pop' and l and (not args or intc(args[0]) is not None):
                x = l.pop(*( [intc(args[0])] if args else []))
                m[key] = tuple(l)
                return x
            if name in ('remove', 'discard'):
                for i, x in enumerate(l):
                    if I.to_t(x) is I.to_t(args[0]):
                        del l[i]
                        m[key] = tuple(l)
                        return NONE
            if name == 'clear':
                m[key] = ()
                return NONE
            if name == 'reverse':
                m[key] = tuple(reversed(l))
                return NONE
            if name == 'sort' and not kw and all(isinstance(x, T) and x.op == 'const' for x in l):
                m[key] = tuple(sorted(l, key=lambda x: tm.cval(x)))
                return NONE
        m[key] = mk('call', 'list.' + name, I._list_t(it), *[I.to_t(a) for a in args])
        return NONE if name != 'pop' else None
    if name == 'copy':
        r = I.new(I.kind(obj))
        m[('l', r.oid)] = it
        return r
    if name == 'index' and isinstance(it, tuple):
        ta = I.to_t(args[0])
        for i, x in enumerate(it):
            if I.to_t(x) is ta:
                return num(i)
        if tm.isconst(ta) and all(isinstance(x, T) and tm.isconst(x) for x in it):
            I.raise_('ValueError', None, node)
    if name == 'count' and isinstance(it, tuple) and all(isinstance(x, T) and tm.isconst(x) for x in it) and tm.isconst(I.to_t(args[0])):
        return num(sum(1 for x in it if x is I.to_t(args[0])))
    if name in ('union', 'intersection', 'difference') and isinstance(it, tuple) and args:
        ai = I.items_of(args[0])
        if ai is not None:
            inb = lambda x, l: any(I.to_t(x) is I.to_t(y) for y in l)
            if name == 'union':
                return I.new_list(list(it) + [x for x in ai if not inb(x, it)], 'set')
            if name == 'intersection':
                return I.new_list([x for x in it if inb(x, ai)], 'set')
            return I.new_list([x for x in it if not inb(x, ai)], 'set')
    return None


def dict_method(I, obj, name, args, kw, node):
    m = I.st.m
    ks = m.get(('dk', obj.oid))
    if name == 'get':
        d = args[1] if len(args) > 1 else NONE
        return I.dict_get(obj, args[0], node, d)
    if name in ('keys', '__iter__') and ks is not None:
        return new_iter(I, list(ks))
    if name == 'values' and ks is not None:
        return new_iter(I, [I.refine_v(m[('d', obj.oid, k)]) for k in ks])
    if name == 'items' and ks is not None:
        return new_iter(I, [Tup([k, I.refine_v(m[('d', obj.oid, k)])]) for k in ks])
    if name == 'copy':
        return clone(I, obj, {}, False)
    if name == 'update':
        I.effect(obj, 'dict.update', node)
        pairs = [(const(k), v) for k, v in kw.items()]
        if args:
            s = args[0]
            sk = m.get(('dk', s.oid)) if isinstance(s, Ref) and I.kind(s) == 'dict' else None
            if sk is None:
                m[('dk', obj.oid)] = None
                return NONE
            pairs = [(k, m[('d', s.oid, k)]) for k in sk] + pairs
        for k, v in pairs:
            I.setitem(obj, k, v, node)
        return NONE
    if name == 'pop' and ks is not None:
        I.effect(obj, 'dict.pop', node)
        k = I.keyof(args[0])
        if k in ks:
            v = m[('d', obj.oid, k)]
            m[('dk', obj.oid)] = tuple(x for x in ks if x is not k)
            del m[('d', obj.oid, k)]
            return v
        if tm.isconst(k) and all(tm.isconst(x) for x in ks):
            if len(args) > 1:
                return args[1]
            I.log('key-error', (tm.cval(k),), node)
            I.raise_('KeyError', None, node)
        return None
    if name == 'setdefault' and ks is not None:
        k = I.keyof(args[0])
        if k in ks:
            return m[('d', obj.oid, k)]
        v = args[1] if len(args) > 1 else NONE
        I.setitem(obj, k, v, node)
        return v
    if name == 'clear':
        I.effect(obj, 'dict.clear', node)
        m[('dk', obj.oid)] = ()
        return NONE
    if name == 'fromkeys':
        return None
    return None


def arr_method(I, obj, name, args, kw, node):
    c = I.content(obj)
    if name in ('copy', 'flatten', 'tolist', 'to_numpy'):
        if name == 'flatten' and c.rank not in (0, 1):
            return I.new_arr(mk('call', 'ravel', c, rank=1))
        if name == 'tolist' and c.rank is None:
            return None
        if c.rank == 0:
            return c
        return I.new_arr(c)
    if name == 'astype':
        if floaty(args[0] if args else kw.get('dtype', NONE)):
            return I.new_arr(c) if c.rank != 0 else c
        return fresh_arr(I, mk('call', 'astype', c, I.to_t(args[0]), rank=c.rank))
    if name == 'item':
        if not args:
            return c if c.rank == 0 else tm.idx(c, (ZERO,)) if c.rank == 1 else mk('call', 'item', c, rank=0)
        return tm.idx(c, tuple(I.to_t(a) for a in args))
    if name in ('sum', 'mean', 'any', 'all', 'max', 'min', 'cumsum', 'prod', 'dot', 'clip', 'round', 'argmin', 'argmax', 'repeat', 'searchsorted', 'conj', 'conjugate', 'nonzero', 'std', 'var', 'take', 'argsort'):
        n2 = {'conjugate': 'conj'}.get(name, name)
        r = np_call(I, n2, [obj] + list(args), kw, node)
        if r is not None:
            return r
        return fresh_arr(I, opaque(I, name, [c] + list(args), kw))
    if name == 'fill':
        I.effect(obj, 'ndarray.fill', node)
        t = I.to_t(args[0])
        s = tshape(c)
        I.set_content(obj, mk('full', t, *s, rank=len(s)) if s and numc(t) != 0 else mk('zeros', *s, rank=len(s)) if s else mk('call', 'like', t, mk('shape', c), rank=c.rank))
        return NONE
    if name in ('sort', 'put', 'resize', 'itemset', 'partition', 'byteswap', 'setflags'):
        I.effect(obj, 'ndarray.' + name, node)
        if name != 'setflags':
            I.set_content(obj, mk('call', name, c, *[I.to_t(a) for a in args], rank=c.rank))
        return NONE
    if name in ('append', 'extend', 'insert', 'remove', 'clear', 'reverse', 'update', 'setdefault', 'popitem', 'pop', 'add', 'discard'):
        # list/dict mutators on an object supplied from outside
        I.effect(obj, '.' + name, node)
        I.set_content(obj, mk('call', name, c, *[I.to_t(a) for a in args]))
        return None
    if name in ('reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view'):
        if c.rank == 1 and name in ('ravel', 'squeeze', 'transpose', 'view'):
            return obj
        if name == 'reshape':
            d = dims_of(I, args[0]) if len(args) == 1 else [I.to_t(a) for a in args]
            if c.rank == 1 and d is not None and len(d) == 1:
                return obj
            if c.op == 'arr' and c.rank == 1 and d is not None and len(d) == 2 and all(tm.isnum(x) for x in d):
                a, b = (int(tm.cval(x)) for x in d)
                n = len(c.args)
                a, b = (n // b if a < 0 and b else a), (n // a if b < 0 and a else b)
                if a > 0 and a * b == n:
                    return I.new_arr(mk('arr', *[mk('arr', *c.args[i * b:i * b + b], rank=1) for i in range(a)], rank=2))
        if name == 'transpose' and not args:
            return I.alias_view(obj, 'T')
        w = name if not args else f"{name}({','.join(tm.show(I.to_t(a)) for a in args)})"
        return I.alias_view(obj, w)
    return None


def term_method(I, t, name, args, kw, node):
    if t.op in ('ncgroups', 'ncvars'):
        its = I.items_of(t)
        if name in ('keys', '__iter__'):
            return new_iter(I, its)
        if name == 'items':
            return new_iter(I, [Tup([k, nc_item(I, t, k, node)]) for k in its])
        if name == 'values':
            return new_iter(I, [nc_item(I, t, k, node) for k in its])
        if name == 'get' and args:
            k = strc(I.to_t(args[0]))
            if k is not None:
                return nc_item(I, t, const(k), node) if k in [tm.cval(x) for x in its] else (args[1] if len(args) > 1 else NONE)
    if t.op in ('nc',):
        if name == 'close':
            I.log('mcall', (t, name, (), {}), node)
            return NONE
        if name in ('__enter__',):
            return t
    s = strc(t)
    if s is not None:
        r = str_method(I, s, name, args, kw, node)
        if r is not None:
            return r
    if name in ('item', 'astype', 'copy', 'conj', 'squeeze', 'tolist') and t.rank == 0:
        if name == 'conj':
            return tm.call('conj', t)
        return t
    if t.op == 'phi' and t.args[0].rank == 0 and all(x.op == 'const' or x.op == 'phi' for x in t.args[1:]):
        return I.phi_map(PhiV(t.args[0], t.args[1], t.args[2]), lambda x: call_method(I, x, name, args, kw, node), node)
    if t.rank in (1, 2) and t.op not in ('const',):
        # array term without identity
        if name in ('sum', 'mean', 'any', 'all', 'max', 'min', 'copy', 'astype', 'flatten', 'ravel', 'reshape', 'cumsum', 'dot', 'transpose', 'squeeze'):
            r = I.new_arr(t)
            return arr_method(I, r, name, args, kw, node)
    if t.rank in (None, 0) and name in ('any', 'all'):
        return mk('call', name, bool_t(I, t), rank=0)
    if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', 'isalpha', 'isspace', 'isdecimal'):
        ts = [I.to_t(a) for a in args]
        return mk('truth', mk('mcall', t, name, *ts, rank=0), rank=0)
    return None


def str_method(I, s, name, args, kw, node):
    if name == 'format':
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                head = field
                rest = []
                for sep in ('.', '['):
                    pass
                import _string
                first, rst = _string.formatter_field_name_split(field)
                if first == '':
                    v = args[auto]
                    auto += 1
                elif isinstance(first, int):
                    v = args[first]
                else:
                    v = kw[first]
                for isattr, nm in rst:
                    v = I.getattr_(v, nm, node) if isattr else I.getitem(v, const(nm) if isinstance(nm, str) else num(nm), node)
                t = I.to_t(v)
                parts.append(I.fmt(t, const(spec)) if spec else t)
        except (IndexError, KeyError, TypeError):
            return None
        return tm.fstr(parts)
    if name == 'join':
        it = I.items_of(args[0])
        if it is None:
            return None
        parts = []
        for i, x in enumerate(it):
            if i:
                parts.append(const(s))
            parts.append(I.to_t(x))
        return tm.fstr(parts)
    cargs = []
    for a in args:
        if isinstance(a, Tup):
            xs = [strc(x) for x in a.items]
            if None in xs:
                return None
            cargs.append(tuple(xs))
            continue
        t = I.to_t(a)
        if not tm.isconst(t) and not tm.isnum(t):
            return None
        x = tm.cval(t)
        if isinstance(x, Fraction):
            x = int(x)
        cargs.append(x)
    if kw:
        return None
    if name == 'decode' and getattr(I, 'bytes_known', False):
        return mk('const', s)
    if not hasattr(str, name):
        I.log('missing-attr', ('str', name), node)
        I.raise_('AttributeError', None, node)
    try:
        r = getattr(s, name)(*cargs)
    except (ValueError, IndexError):
        I.raise_('ValueError', None, node)
    except TypeError:
        return None
    if isinstance(r, (str, bool)):
        return const(r)
    if isinstance(r, int):
        return num(r)
    if isinstance(r, list):
        return I.new_list([const(x) for x in r])
    if isinstance(r, tuple):
        return Tup([const(x) for x in r])
    return None


# ------------------------------------------------------------------ netCDF objects
def nc_attr(I, t, name, node):
    if t.op == 'nc' and name == 'groups':
        return mk('ncgroups', t.args[0])
    if t.op == 'nc' and name == 'variables':
        return mk('ncvars', t.args[0], const(''))
    if t.op == 'ncgroup' and name == 'variables':
        return mk('ncvars', *t.args)
    if t.op == 'ncdata' and name == 'data':
        return t
    if I.rows is not None and name == 'data' and t.rank == 0 and t.op == 'const':
        return t        # a masked scalar read from a file whose value is known
    if t.op == 'ncvar' and name == 'shape':
        path, g, v = (tm.cval(x) for x in t.args)
        shp = I.ncmeta.get(path)[g][v]
        return Tup([num(min(n, I.rows) if I.rows is not None and k == 0 and n >= 10 else n) for k, n in enumerate(shp)])
    return None


def nc_item(I, t, ix, node):
    if t.op == 'nc':
        t = mk('ncgroups', t.args[0])
    if t.op == 'ncgroup':
        t = mk('ncvars', *t.args)
    if t.op == 'ncgroups':
        g = I.to_t(ix)
        if g.op == 'phi':
            return I.phi_map(PhiV(g.args[0], g.args[1], g.args[2]), lambda x: nc_item(I, t, x, node), node)
        s = strc(g)
        if s is None:
            return mk('idx', t, g)
        if s not in I.ncmeta.get(tm.cval(t.args[0])):
            I.log('key-error', (s,), node)
            I.raise_('KeyError', None, node)
        return mk('ncgroup', t.args[0], g)
    if t.op == 'ncvars':
        v = I.to_t(ix)
        s = strc(v)
        if s is None:
            return mk('idx', t, v)
        sch = I.ncmeta.get(tm.cval(t.args[0])).get(tm.cval(t.args[1]), {})
        if s not in sch:
            I.log('key-error', (s,), node)
            I.raise_('KeyError', None, node)
        return mk('ncvar', t.args[0], t.args[1], v)
    if t.op == 'ncvar':
        path, g, v = (tm.cval(x) for x in t.args)
        shp = I.ncmeta.get(path)[g][v]
        base = os.path.basename(path)
        dims = []
        for k, n in enumerate(shp):
            if I.rows is not None and k == 0 and n >= 10:
                n = min(n, I.rows)
            dims.append(tm.sym(f'n:{base}:{g}:{n}', rank=0) if n >= 10 and k == 0 and I.rows is None else num(n))
        if I.rows is not None and all(n < 10 for n in shp) and len(shp) <= 1:
            xs = [num(x) for x in I.ncmeta.small(path, g, v)]
            if not shp:
                return xs[0]
            return I.getitem(I.new_arr(mk('arr', *xs, rank=1)), ix, node)
        d = mk('ncdata', base, g, v, *((num(I.rows),) if I.rows is not None else ()), rank=len(shp), info={'shape': tuple(dims)} if dims else None)
        tix = I.ixt(ix)
        full = all(x.op in ('slice', 'ellipsis') and (x.op == 'ellipsis' or all(a is NONE for a in x.args)) for x in tix)
        if not dims:
            return d
        r = I.new_arr(d)
        if full:
            return r
        return I.getitem(r, ix, node)
    return None
