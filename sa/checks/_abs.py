"""Absorber set-ups: the package's absorption functions and their reference formulations."""
from ._rte import *

H2O_MODELS = ('R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24')
O2_MODELS = ('R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24')
O3_MODELS = ('R18', 'R22', 'R23')
N2_MODELS = ('R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24')
LIQ_MODELS = ('R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24')
CLS = dict(h2o='H2OAbsModel', o2='O2AbsModel', o3='O3AbsModel', n2='N2AbsModel', liq='LiqAbsModel')
ROWS = dict(h2o=3, o2=49, o3=3)


def state(s):
    """dry pressure and vapour pressure (kPa), inverse temperature, frequency"""
    return sym('pdrykpa', 0, 1), sym('vx', 0, 1), sym('ekpa', 0, 2), sym('frq0', 0, 1)


def select(s, sp, model):
    c = s.get(AM, CLS[sp])
    s.I.setattr_(c, 'model', model if isinstance(model, T) else const(model), None)
    return c


def load(s, sp, model):
    c = select(s, sp, model)
    s.method(c, 'set_ll')
    return s.I.instantiate(c, [], {}, None)


def pair(s, r, names=('line', 'continuum')):
    if not isinstance(r, Tup) or len(r.items) != 2:
        raise Undecided('not a pair of absorption terms')
    return {n: s.final(scalar(s, x)) for n, x in zip(names, r.items)}


def scalar(s, x):
    """one-element arrays count as their element"""
    t = s.t(x)
    if t.rank == 1:
        t = tm.idx(t, (ZERO,))
    elif t.op == 'phi' and t.rank is None:
        return tm.phi(t.args[0], scalar(s, t.args[1]), scalar(s, t.args[2]))
    return t


def h2o_code(model, amu=NONE):
    def f(s):
        o = load(s, 'h2o', model)
        pd, v, e, frq = state(s)
        return pair(s, s.method(o, 'h2o_absorption', pd, v, e, frq, amu))
    return f


def h2o_rule(model):
    def f(s):
        s.mod(AM)
        pd, v, e, frq = state(s)
        t = s.spec('absorb', 'h2o_table', const(model))
        return pair(s, s.spec('absorb', 'h2o', const(model), t, pd, v, e, frq))
    return f


def o2_code(model, amu=NONE):
    def f(s):
        o = load(s, 'o2', model)
        pd, v, e, frq = state(s)
        return pair(s, s.method(o, 'o2_absorption', pd, v, e, frq, amu), ('resonant', 'non-resonant'))
    return f


def o2_rule(model):
    def f(s):
        s.mod(AM)
        pd, v, e, frq = state(s)
        t = s.spec('absorb', 'o2_table', const(model))
        return pair(s, s.spec('absorb', 'o2', const(model), t, pd, v, e, frq), ('resonant', 'non-resonant'))
    return f


def o3_state():
    return sym('temp', 0, 1), sym('pres', 0, 1), sym('frq0', 0, 1), sym('o3den', 0, 2)


def one(s, r):
    return {'value': s.final(scalar(s, r))}


def o3_code(model, amu=NONE):
    def f(s):
        o = load(s, 'o3', model)
        return one(s, s.method(o, 'o3_absorption', *o3_state(), amu))
    return f


def o3_rule(model):
    def f(s):
        s.mod(AM)
        t = s.spec('absorb', 'o3_table', const(model))
        return one(s, s.spec('absorb', 'o3', const(model), t, *o3_state()))
    return f


def n2_code(model):
    def f(s):
        c = select(s, 'n2', model)
        return one(s, s.call(s.I.getattr_(c, 'n2_absorption', None), *o3_state()[:3]))
    return f


def liq_code(model):
    def f(s):
        c = select(s, 'liq', model)
        return one(s, s.call(s.I.getattr_(c, 'liquid_water_absorption', None), sym('water', 0, 2), sym('frq0', 0, 1), sym('temp', 0, 1)))
    return f


def fn_code(mod, name, *args):
    def f(s):
        fn = s.get(mod, name)
        return one(s, s.call(fn, *args))
    return f


def rule(name, *args):
    def f(s):
        s.mod(AM)
        s.mod(UT)
        return one(s, s.spec('absorb', name, *args))
    return f
