"""C14: conversions and their inverses."""
from ..harness import *
from ..core import *

EXPLANATION = ('Each pair of inverse conversions is interpreted one after the other on symbolic (positive) inputs; by algebraic value numbering (rational arithmetic, exp/log and powers cancelled) the '
               'composition must be the value put in.')


def q(n, sg=1):
    return tm.sym(n, rank=0) if not sg else set_sign(tm.sym(n, rank=0), sg)


def fn(s, mod, *name):
    return s.get(mod, *name)


def roundtrip(mods, args, first, second, value):
    """second(first(value))"""
    def f(s):
        env = {a: s.prof(a) if a[0] != '!' else q(a[1:]) for a in args}
        x = s.call(fn(s, *mods[0]), *[env[a] for a in first])
        env['*'] = x
        return s.final(s.t(s.call(fn(s, *mods[1]), *[env[a] for a in second])))

    def g(s):
        return s.t(s.prof(value) if value[0] != '!' else q(value[1:]))
    return lambda s: {'': f(s)}, lambda s: {'': g(s)}


PAIRS = (
    ('to_celsius after to_kelvin', ((UT, 'to_kelvin'), (UT, 'to_celsius')), ('tc',), ('tc',), ('*',), 'tc'),
    ('to_kelvin after to_celsius', ((UT, 'to_celsius'), (UT, 'to_kelvin')), ('t',), ('t',), ('*',), 't'),
    ('e2mr after mr2e', ((UT, 'mr2e'), (UT, 'e2mr')), ('p', 'mr'), ('p', 'mr'), ('p', '*'), 'mr'),
    ('mr2e after e2mr', ((UT, 'e2mr'), (UT, 'mr2e')), ('p', 'e'), ('p', 'e'), ('p', '*'), 'e'),
    ('rho2mr after mr2rho', ((UT, 'mr2rho'), (UT, 'rho2mr')), ('p', 't', 'mr'), ('mr', 't', 'p'), ('*', 't', 'p'), 'mr'),
    ('mr2rho after rho2mr', ((UT, 'rho2mr'), (UT, 'mr2rho')), ('p', 't', 'rho'), ('rho', 't', 'p'), ('*', 't', 'p'), 'rho'),
    ('pressure_to_height after height_to_pressure', ((UT, 'height_to_pressure'), (UT, 'pressure_to_height')), ('!height',), ('!height',), ('*',), '!height'),
    ('height_to_pressure after pressure_to_height', ((UT, 'pressure_to_height'), (UT, 'height_to_pressure')), ('!p',), ('!p',), ('*',), '!p'),
)


def planck(s):
    h, t = q('hvk'), q('t')
    b = s.call(s.get(UT, 'tk2b_mod'), h, t)
    r = s.t(s.call(s.get(RT, 'RTEquation', 'bright'), h, b))
    # a radiance is never zero
    return {'': tm.subst(r, {tm.eq(s.t(b), ZERO): FALSE})}


def radiance(s):
    h, b = q('hvk'), q('b')
    t = s.call(s.get(RT, 'RTEquation', 'bright'), h, b)
    return {'': s.t(s.call(s.get(UT, 'tk2b_mod'), h, t))}


def run(ctx):
    ctx.rule('inverse', 'the second conversion applied to the result of the first gives back the input')
    S = Session()
    for name, mods, args, a, b, v in PAIRS:
        f, g = roundtrip(mods, args, a, b, v)
        ctx.agree('inverse', name, f, g, S.where(*mods[1]), sizes=dict(nl=2), dead='violated')
    ctx.agree('inverse', 'bright after tk2b_mod', planck, lambda s: {'': q('t')}, S.where(RT, 'RTEquation', 'bright'))
    ctx.agree('inverse', 'tk2b_mod after bright', radiance, lambda s: {'': q('b')}, S.where(RT, 'RTEquation', 'bright'))
