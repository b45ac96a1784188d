"""C28: conversion utilities against their published formulas."""
from ..harness import *
from ..core import *
from .c14 import q

EXPLANATION = ('Every conversion utility is interpreted on symbolic arrays (and with every option value) and its value graph compared by algebraic value numbering with its published formula '
               '(sa/spec/convert.py).')


def arr(s, x):
    if isinstance(x, str):
        return s.prof(x) if x[0] != '!' else q(x[1:])
    return x


def outs(s, r, n):
    if n == 1:
        return {'': (s.final(s.t(r)), ('nl',)) if not isinstance(r, Tup) else None}
    if not isinstance(r, Tup) or len(r.items) != n:
        raise Undecided('result is not a tuple of %d' % n)
    return {f'result {i}': (s.final(s.t(x)), ('nl',)) for i, x in enumerate(r.items)}


def scal(d):
    return {k: v[0] for k, v in d.items()}


TC = '!tconvert'
CASES = (
    # construct, module, names, args, kwargs, spec, spec args, outputs, scalar
    ('satvap water', 'satvap', ('t',), 'satvap', ('t', NONE), 1),
    ('satvap ice', 'satvap', ('t', TC), 'satvap', ('t', TC), 1),
    ('satmix water', 'satmix', ('p', 't'), 'satmix', ('p', 't', NONE), 1),
    ('satmix ice', 'satmix', ('p', 't', TC), 'satmix', ('p', 't', TC), 1),
    ('mr2rh water', 'mr2rh', ('p', 't', 'mr'), 'mr2rh', ('p', 't', 'mr', NONE), 2),
    ('mr2rh ice', 'mr2rh', ('p', 't', 'mr', TC), 'mr2rh', ('p', 't', 'mr', TC), 2),
    ('eswat_goffgratch', 'eswat_goffgratch', ('t',), 'es_water_smithsonian', ('t',), 1),
    ('esice_goffgratch', 'esice_goffgratch', ('t',), 'es_ice', ('t', num(273.15)), 1),
    ('mr2rho', 'mr2rho', ('mr', 't', 'p'), 'mr2rho', ('mr', 't', 'p'), 1),
    ('rho2mr', 'rho2mr', ('rho', 't', 'p'), 'rho2mr', ('rho', 't', 'p'), 1),
    ('rho2rh', 'rho2rh', ('rho', 't', 'p'), 'rho2rh', ('rho', 't', 'p'), 2),
    ('mr2e', 'mr2e', ('p', 'mr'), 'e_of_mr', ('p', 'mr'), 1),
    ('e2mr', 'e2mr', ('p', 'e'), 'mr_of_e', ('p', 'e'), 1),
    ('tk2b_mod', 'tk2b_mod', ('!hvk', 't'), 'planck_mod', ('!hvk', 't'), 1),
    ('virtual_temperature', 'virtual_temperature', ('t', 'mr'), 'virtual_temperature', ('t', 'mr'), 1),
    ('kgkg_to_kgm3', 'kgkg_to_kgm3', ('mr', 'p', 't'), 'kgkg_to_kgm3', ('mr', 'p', 't'), 1),
    ('ppmv_to_moleculesm3', 'ppmv_to_moleculesm3', ('mr', 'p', 't'), 'ppmv_to_molecules', ('mr', 'p', 't'), 1),
    ('pressure_to_height', 'pressure_to_height', ('!p',), 'pressure_to_height', ('!p',), 0),
    ('height_to_pressure', 'height_to_pressure', ('!height',), 'height_to_pressure', ('!height',), 0),
    ('dewpoint2rh arm', 'dewpoint2rh', ('!td', '!tc'), 'dewpoint2rh', ('!td', '!tc', FALSE, const('arm')), 0),
    ('dewpoint2rh other water', 'dewpoint2rh', ('!td', '!tc', FALSE, const('x')), 'dewpoint2rh', ('!td', '!tc', FALSE, const('x')), 0),
    ('dewpoint2rh other ice', 'dewpoint2rh', ('!td', '!tc', TRUE, const('x')), 'dewpoint2rh', ('!td', '!tc', TRUE, const('x')), 0),
)


def run(ctx):
    ctx.rule('formula', 'the value computed equals the published formula')
    S = Session()
    S.mod(UT)
    for name, f, args, g, gargs, n in CASES:
        def code(s):
            r = s.call(s.get(UT, f), *[arr(s, a) for a in args])
            return outs(s, r, n) if n else {'': s.final(s.t(r))}

        def spec(s):
            r = s.spec('convert', g, *[arr(s, a) for a in gargs])
            return outs(s, r, n) if n else {'': s.final(s.t(r))}
        ctx.agree('formula', name, code, spec, S.where(UT, f), sizes=dict(nl=2), dead='violated')
    for mr in (True, False):
        ctx.agree('formula', 'atmospheric_tickness' + (' moist' if mr else ''),
                  lambda s: outs(s, s.call(s.get(UT, 'atmospheric_tickness'), s.prof('p'), s.prof('t'), *([s.prof('mr')] if mr else [])), 1),
                  lambda s: outs(s, s.spec('convert', 'thickness', s.prof('p'), s.prof('t'), s.prof('mr') if mr else NONE, s.NL), 1),
                  S.where(UT, 'atmospheric_tickness'), sizes=dict(nl=4), dead='violated')
    gm = UT + '.gas_mass'

    def mass(s):
        s.mod(UT)
        s.I.func_hooks[gm] = lambda I, a, kw, node: mk('call', 'gas_mass', I.to_t((list(a) + list(kw.values()))[0]), rank=0)
        return lambda g: mk('call', 'gas_mass', g, rank=0)

    def code(s):
        mass(s)
        return outs(s, s.call(s.get(UT, 'ppmv2gkg'), s.prof('ppmv'), q('gas')), 1)

    def spec(s):
        m = mass(s)
        return outs(s, s.spec('convert', 'ppmv2gkg', s.prof('ppmv'), m(q('gas')), m(num(99))), 1)
    ctx.agree('formula', 'ppmv2gkg', code, spec, S.where(UT, 'ppmv2gkg'), sizes=dict(nl=2), dead='violated')
