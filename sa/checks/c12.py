"""C12: options accept exactly their documented values."""
from fractions import Fraction

from ..harness import *
from ..core import *
from . import c04, c13, c15, c17
from .c04 import refused, accepted
from .c15 import EX
from ..regions import fval
from ._rte import sym

EXPLANATION = ('Every selector is interpreted for each documented value, whose value graph must be the documented result for that value, and for values outside the list (empty, other case, prefix, neighbouring '
               'values, None), for which every path must end in an exception. Selectors: uncertainty equation, perturbation mode, extrapolation mode and season per latitude band, height grid, satellite and emissivity '
               'switches, physical constants, absorption models, climates, gases, instruments.')
WF = 'pyrtlib.weighting_functions'
AU = ('AbsModUncertainty',)
CONSTANTS = {'avogadro': '6.022140857e+23', 'boltzmann': '1.380658e-23', 'EarthRadius': '6370.949', 'gravity': '9.80665', 'light': '299792458', 'Np2dB': '4.342944819032518', 'planck': '6.6260755e-34',
             'Rdry': '287.04', 'Rwatvap': '461.52', 'Tcosmicbkg': '2.728', 'R': '8.31446261815324'}


class Part:
    """another property's rules as a part of this one: rule names prefixed, some constructs left to that property"""

    def __init__(self, ctx, name, rules, skip=()):
        self.__dict__.update(ctx=ctx, name=name, rules_=rules, skip=skip)

    def wanted(self, rule, construct):
        return rule in self.rules_ and (rule, construct.split(':')[0]) not in self.skip

    def rule(self, name, text):
        if name in self.rules_:
            self.ctx.rule(f'{self.name}-{name}', text)

    def ok(self, rule, construct, detail=''):
        if self.wanted(rule, construct):
            self.ctx.ok(f'{self.name}-{rule}', construct, detail)

    def bad(self, rule, construct, where='', detail=''):
        if self.wanted(rule, construct):
            self.ctx.bad(f'{self.name}-{rule}', construct, where, detail)

    def unk(self, rule, construct, where='', detail=''):
        if self.wanted(rule, construct):
            self.ctx.unk(f'{self.name}-{rule}', construct, where, detail)

    must, guard, agree = Ctx.must, Ctx.guard, Ctx.agree

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def propagate(fun):
    def code(s):
        A, B, sA, sB = (s.prof(k) for k in ('A', 'B', 'sA', 'sB'))
        a, b, c = sym('a', 0), sym('b', 0), sym('sAB', 0)
        r = s.call(s.get(UN, *AU, 'uncertainty_propagation'), const(fun), A, B, sA, sB, a, b, c)
        return {'function': s.final(s.t(r.items[0])), 'uncertainty': s.final(s.t(r.items[1]))}

    def rule(s):
        s.mod(UN)
        A, B, sA, sB = (s.t(s.prof(k)) for k in ('A', 'B', 'sA', 'sB'))
        a, b, c = sym('a', 0), sym('b', 0), sym('sAB', 0)
        r = s.spec('uncertainty', 'propagate', const(fun), A, B, sA, sB, a, b, c)
        return {'function': s.final(s.t(r.items[0])), 'uncertainty': s.final(s.t(r.items[1]))}
    return code, rule


def odd(names):
    """values near the documented ones"""
    out = ['', ' ', 'x', 'None', 'default']
    for n in names:
        out += [n.upper(), n.lower(), n.swapcase(), n.capitalize(), n.title(), n[:-1], n[1:], n + 'x', n + ' ', ' ' + n, n + n, n[::-1]]
    out += [a + b for a in names for b in names if a != b][:6]
    return [x for x in dict.fromkeys(out) if x not in names]


def run(ctx):
    ctx.rule('equation', 'uncertainty_propagation computes the function and standard deviation tabulated for the equation named')
    ctx.rule('mode', 'a perturbation mode adds, subtracts or leaves; the extrapolation mode is the documented one')
    ctx.rule('constant', 'constants(name) is the constant of that name')
    ctx.rule('switch', 'a switch takes the documented values')
    ctx.rule('refuse', 'any other value is an explicit error')
    S = Session()
    for m in (UN, UT, EX, TB, WF, AM):
        S.mod(m)
    wp = S.where(UN, *AU, 'uncertainty_propagation')
    eqs = ('aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a')
    for f in eqs:
        ctx.agree('equation', f, *propagate(f), wp, dead='violated')
    for f in odd(eqs) + ['AB', 'A+B', 'A-B', 'A**a', 'a*A', 'aA*bB', 'aA/bB', 'a^A', 'B/A']:
        refused(ctx, 'refuse', f'equation {f!r}', propagate(f)[0], wp)

    # perturbation mode
    wm = S.where(UN, *AU, 'parameters_perturbation')

    def perturbed(s, mode, p='gamma_a'):
        c = s.get(UN, 'SpectroscopicParameter')
        par = lambda v, u: s.call(c, v, u, const('u'), const('r'))
        v, u, w, t = num(Fraction(7, 2)), num(Fraction(1, 4)), s.prof('ws'), s.prof('us')
        d = s.I.new_dict({})
        for k, x in ((const('one'), par(v, u)), (const('many'), par(w, t))):
            s.I.setitem(d, k, x, None)
        s.I.setattr_(c, 'SP', d, None)
        f = s.get(UN, *AU, 'parameters_perturbation')
        out = {}
        for k, args in (('one', ()), ('many', (sym('index', 0),))):
            r = s.call(f, s.I.new_list([const(k)]), const(mode) if isinstance(mode, str) else mode, *args)
            x = s.t(s.I.getattr_(s.I.getitem(r, const(k), None), 'value', None))
            out[k] = s.final(x if k == 'one' else tm.idx(x, (sym('index', 0),)))
        return out
    w_, u_ = S.t(S.prof('ws')), S.t(S.prof('us'))
    i = (sym('index', 0),)
    for mode, sg in (('max', 1), ('min', -1), ('non', 0)):
        def want(s, sg=sg):
            w, t = s.t(s.prof('ws')), s.t(s.prof('us'))
            return {'one': num(Fraction(7, 2) + sg * Fraction(1, 4)), 'many': tm.add(tm.idx(w, i), tm.mul(num(sg), tm.idx(t, i)))}
        ctx.agree('mode', f'perturbation {mode}', lambda s, m=mode: perturbed(s, m), want, wm, dead='violated')
    for mode in odd(('max', 'min', 'non', 'ran')) + ['ran', 'maxmin', 'none', 'mean', 'random', 'maximum', '+', '-', NONE]:
        refused(ctx, 'refuse', f'perturbation mode {mode if isinstance(mode, str) else None!r}', lambda s: perturbed(s, mode), wm)

    # extrapolation
    new = lambda s, *a: s.call(s.get(EX, 'ProfileExtrapolation'), *a)
    accepted(ctx, 'mode', 'extrapolation default', new, S.where(EX, 'ProfileExtrapolation'))
    accepted(ctx, 'mode', 'extrapolation ITU-Annex1', lambda s: new(s, const('ITU-Annex1')), S.where(EX, 'ProfileExtrapolation'))
    for m in odd(('ITU-Annex1',)) + ['ITU-Annex2', 'ITU', 'Annex1', 'ITU-Annex', NONE]:
        refused(ctx, 'refuse', f'extrapolation mode {m if isinstance(m, str) else None!r}', lambda s: new(s, const(m) if isinstance(m, str) else m), S.where(EX, 'ProfileExtrapolation'))
    for f in c15.QUANT:
        for lat in (0, 30, 60, -30, -60):
            for season in odd(('summer', 'winter')) + ['spring', 'autumn', 'standard', 'annual', NONE]:
                refused(ctx, 'refuse', f'{f} latitude {lat} season {season if isinstance(season, str) else None!r}',
                        lambda s: s.method(new(s), f, num(lat), sym('h', 0), const(season) if isinstance(season, str) else season), S.where(EX, 'ProfileExtrapolation', f))
    for v in (NONE, const('x'), num(3)):
        refused(ctx, 'refuse', f'height grid {tm.show(v)}', lambda s: s.I.setattr_(new(s), 'height', v, None), S.where(EX, 'ProfileExtrapolation', 'height'))
    c15.run(Part(ctx, 'extrapolation', ('formula', 'mirror')))

    # switches
    def wf(s):
        return s.call(s.get(WF, 'WeightingFunctions'), *[s.prof(k, NL) for k in ('z', 'p', 't', 'rh')])
    for lab, make in (('simulation', lambda s: s.tb()), ('weighting functions', wf)):
        mod, cls = (TB, 'TbCloudRTE') if lab == 'simulation' else (WF, 'WeightingFunctions')
        for v in (TRUE, FALSE):
            def code(s):
                o = make(s)
                s.I.setattr_(o, 'satellite', v, None)
                return {'': s.t(s.I.getattr_(o, 'satellite', None))}
            ctx.agree('switch', f'{lab} satellite {tm.cval(v)}', code, lambda s: {'': v}, S.where(mod, cls, 'satellite'), dead='violated')
        for v in (const('True'), const('up'), const(''), NONE, num(2), num(-1), num(Fraction(1, 2))):
            refused(ctx, 'refuse', f'{lab} satellite {tm.show(v)}', lambda s: s.I.setattr_(make(s), 'satellite', v, None), S.where(mod, cls, 'satellite'))
        for v in (const('0.9'), const('land'), const(''), NONE) if lab == 'simulation' else ():
            refused(ctx, 'refuse', f'{lab} emissivity {tm.show(v)}', lambda s: s.I.setattr_(make(s), 'emissivity', v, None), S.where(mod, cls, 'emissivity'))

    # constants
    for n, v in CONSTANTS.items():
        def value():
            s = Session()
            x = fval(s.t(s.I.getitem(s.call(s.get(UT, 'constants'), const(n)), ZERO, None)))
            ctx.seen(s)
            ctx.must(abs(x - float(v)) <= 1e-9 * float(v), 'constant', n, S.where(UT, 'constants'), f'is {x:.10g}, should be {v}')
        ctx.guard('constant', n, value, dead='violated')
    for n in [x for x in odd(tuple(CONSTANTS)) if x]:
        refused(ctx, 'refuse', f'constant {n!r}', lambda s: s.call(s.get(UT, 'constants'), const(n)), S.where(UT, 'constants'))

    c17.run(Part(ctx, 'instrument', ('case', 'refuse')))
    c13.run(Part(ctx, 'catalogue', ('climate', 'gas', 'mass', 'refuse'), skip=[('mass', 'CCL3F')]))
    c04.run(Part(ctx, 'model', ('formulation', 'refuse', 'offered')))
