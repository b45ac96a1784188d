"""Common set-ups of the abstract interpreter over the repository."""
import os

from . import term as tm
from .term import T, mk, num, const, NONE, TRUE, FALSE, ZERO, ONE
from .interp import Interp, Ref, Tup, PhiV, Func, Bound, Ext, PathDead, Broken, UNB

TB = 'pyrtlib.tb_spectrum'
RT = 'pyrtlib.rt_equation'
AM = 'pyrtlib.absorption_model'
UT = 'pyrtlib.utils'
UN = 'pyrtlib.uncertainty.absmod_uncertainty'

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec')
NL, NF, NA, NC = (tm.sym(n, rank=0) for n in ('nl', 'nf', 'nang', 'ncld'))


# declared ranges of the physical inputs (1 positive, 2 non-negative); comparisons with zero are decided from them
SIGN = dict(p=1, t=1, rh=2, frq=1, o3n=2, denice=2, denliq=2, es=2, e=2)


SIZES = dict(nl=4, nf=2, nang=2, ncld=1)


def set_sign(t, s):
    t.info = dict(t.info or {}, sign=s)
    t.info.pop('sgn', None)
    return t


class Session:
    over = {}

    def __init__(self, sizes=None, budget=4000000):
        self.I = Interp(budget=budget)
        self.sizes = sizes
        if sizes and 'rows' in sizes:
            self.I.rows, self.I.unroll = sizes['rows'], 64
        self.NL, self.NF, self.NA, self.NC = (self.dim(n) for n in ('nl', 'nf', 'nang', 'ncld'))
        for p in sorted(os.listdir(SPEC)):
            if p.endswith('.py'):
                self.I.spec_paths['spec.' + p[:-3]] = os.path.join(SPEC, p)

    def dim(self, n):
        if self.sizes and n in self.sizes:
            return num(self.sizes[n])
        return tm.sym(n, rank=0)

    def size(self, d):
        if isinstance(d, int):
            return d
        return self.sizes[d]

    def spec(self, modname, fname, *args, **kw):
        return self.call(self.get('spec.' + modname, fname), *args, **kw)

    def where(self, dotted, *names):
        """file:line of a definition, for reports"""
        try:
            v = self.get(dotted, *names)
            f = getattr(v, 'f', v)
            return f'{self.I.modpath(dotted)}:{f.node.lineno} {".".join(names)}'
        except Exception:
            return dotted + ':' + '.'.join(names)

    def mod(self, dotted):
        return self.I.load(dotted)

    def get(self, dotted, *names):
        v = self.mod(dotted)
        for n in names:
            v = self.I.getattr_(v, n, None)
        return v

    def has(self, dotted, *names):
        v = self.mod(dotted)
        m = self.I.st.m
        for n in names:
            if not isinstance(v, Ref):
                return False
            k = self.I.kind(v)
            x = self.I.cls_lookup(v, n) if k == 'class' else m.get(('f', v.oid, n))
            if x is None:
                return False
            v = x
        return True

    def prof(self, name, n=None, rank=1, root=None, shape=None, mono=0):
        shape = shape or (n if n is not None else self.NL,)
        tag = ''.join('@' + str(x.args[0] if x.args else x) for x in shape) if self.sizes else ''
        if mono:
            name += '_up' if mono > 0 else '_down'
        r = self._prof(name, tag, root, rank, shape)
        if mono:
            t = self.I.meta[r.oid]['term']
            t.info = dict(t.info or {}, mono=mono)
        return r

    def _prof(self, name, tag, root, rank, shape):
        r = self.I.new_sym(name + tag, frozenset({root or 'input:' + name}), rank=rank, shape=shape)
        if name in SIGN:
            set_sign(self.I.meta[r.oid]['term'], SIGN[name])
        return r

    def s(self, name):
        return tm.sym(name, rank=0)

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw, None)

    def method(self, obj, name, *args, **kw):
        return self.call(self.I.getattr_(obj, name, None), *args, **kw)

    def t(self, v):
        return self.I.to_t(v)

    def facts(self):
        key = self.I.st.pc
        hit = getattr(self, '_facts', None)
        if hit and hit[0] is key:
            return hit[1]
        m = {}
        facts = list(key)
        while True:
            n = len(m)
            rest = []
            for c, b in facts:
                todo = [(tm.subst(c, m) if m else c, b)]
                while todo:
                    c, b = todo.pop()
                    if c.op == 'not':
                        todo.append((c.args[0], not b))
                    elif c.op == 'and' and b or c.op == 'or' and not b:
                        todo += [(x, b) for x in c.args]
                    elif c.op in ('and', 'or'):
                        rest.append((c, b))
                    elif c.op != 'const':
                        m[c] = TRUE if b else FALSE
            facts = rest
            if len(m) == n or not rest:
                break
        self._facts = key, m
        return m

    def final(self, t):
        """t simplified by what must hold for the analysed code to have got here without an exception"""
        m = self.facts()
        return tm.subst(t, m) if m else t

    # ------------------------------------------------------------------ the model class
    def set_model(self, h2o=None, o2=None, n2=None, liq=None, o3=None):
        for c, m in (('H2OAbsModel', h2o), ('O2AbsModel', o2), ('N2AbsModel', n2), ('LiqAbsModel', liq), ('O3AbsModel', o3)):
            if m is not None:
                self.I.setattr_(self.get(AM, c), 'model', const(m), None)

    def tb(self, cloudy=FALSE, ray_tracing=FALSE, from_sat=TRUE, o3n=None, amu=None, absmdl=None, mono=1):
        I = self.I
        cls = self.get(TB, 'TbCloudRTE')
        over = self.over
        self.z, self.p, self.tk, self.rh = (over.get(n) or self.prof(n, mono=mono if n == 'z' else 0) for n in 'z p t rh'.split())
        self.frq = over.get('frq') or self.prof('frq', self.NF)
        self.ang = over.get('angles') or self.prof('angles', self.NA)
        kw = dict(ray_tracing=ray_tracing, from_sat=from_sat, cloudy=cloudy)
        if o3n is not None:
            kw['o3n'] = (over.get('o3n') or self.prof('o3n')) if o3n is True else o3n
        if amu is not None:
            kw['amu'] = amu
        if absmdl is not None:
            kw['absmdl'] = const(absmdl)
        self.rte = I.call(cls, [self.z, self.p, self.tk, self.rh, self.frq, self.ang], kw, None)
        return self.rte

    def clouds(self, call=True):
        self.cldh = self.prof('cldh', rank=2, shape=(num(2), self.NC))
        over = self.over
        self.denice, self.denliq = over.get('denice') or self.prof('denice'), over.get('denliq') or self.prof('denliq')
        if call:
            self.method(self.rte, 'init_cloudy', self.cldh, self.denice, self.denliq)
