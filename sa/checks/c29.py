"""C29: vapour pressure, refractivity and ray geometry."""
from ..harness import *
from ..core import *
from .c14 import q
from .c28 import outs

EXPLANATION = ('vapor, refractivity, bright and ray_tracing are interpreted on symbolic profiles (any number of levels; up to four levels where the loop shapes differ) and compared by algebraic value '
               'numbering with the published equations (Goff-Gratch, Thayer 1974, Bean and Dutton) written in sa/spec/convert.py.')


def rt(s, name):
    return s.get(RT, 'RTEquation', name)


def run(ctx):
    ctx.rule('formula', 'the value computed equals the published equation')
    S = Session()
    S.mod(RT)
    for ice in (FALSE, TRUE, None):
        a = [] if ice is None else [ice]
        ctx.agree('formula', 'vapor' + (' default' if ice is None else ' ice' if ice is TRUE else ' water'),
                  lambda s: outs(s, s.call(rt(s, 'vapor'), s.prof('t'), s.prof('rh'), *a), 2),
                  lambda s: outs(s, s.spec('convert', 'vapor', s.prof('t'), s.prof('rh'), ice or FALSE), 2), S.where(RT, 'RTEquation', 'vapor'), sizes=dict(nl=2), dead='violated')
    ctx.agree('formula', 'refractivity', lambda s: outs(s, s.call(rt(s, 'refractivity'), s.prof('p'), s.prof('t'), s.prof('e')), 3),
              lambda s: outs(s, s.spec('convert', 'refractivity', s.prof('p'), s.prof('t'), s.prof('e')), 3), S.where(RT, 'RTEquation', 'refractivity'), sizes=dict(nl=3), dead='violated')
    ctx.agree('formula', 'bright', lambda s: {'': s.t(s.call(rt(s, 'bright'), q('hvk'), tm.sym('radiance', rank=0)))},
              lambda s: {'': s.t(s.spec('convert', 'bright', q('hvk'), tm.sym('radiance', rank=0)))}, S.where(RT, 'RTEquation', 'bright'))
    for name, ang in (('zenith', num(90)), ('nadir', num(-90)), ('upper limit', num(91)), ('lower limit', num(89)), ('any angle', tm.sym('angle', rank=0))):
        for n in (3,) if not ctx.thorough else (2, 3, 4):
            ctx.agree('formula', f'ray_tracing {name}', lambda s: physical(s, s.call(rt(s, 'ray_tracing'), *rays(s), ang, tm.sym('z0', rank=0)), n),
                      lambda s: physical(s, s.spec('convert', 'ray', *rays(s), ang, tm.sym('z0', rank=0), s.NL), n),
                      S.where(RT, 'RTEquation', 'ray_tracing'), first=dict(nl=n), sizes=dict(nl=n), dead='violated')
    ctx.rule('unphysical', 'a refractive index below one at any level gives no path at all')
    for i in range(3):
        ctx.guard('unphysical', f'level {i}', lambda: unphysical(ctx, i, S.where(RT, 'RTEquation', 'ray_tracing')))


def rays(s):
    return s.prof('z', mono=1), s.prof('refindx')


def below_one(s, n, bad=None):
    r = s.t(s.prof('refindx'))
    return {tm.lt(tm.idx(r, (num(i),)), ONE): TRUE if i == bad else FALSE for i in range(n)}


def pick(s, v, m):
    while isinstance(v, PhiV):
        c = tm.subst(v.c, m)
        if c.op != 'const':
            raise Undecided('result depends on ' + tm.show(c, 3))
        v = v.a if tm.cval(c) else v.b
    return v


def physical(s, v, n):
    m = below_one(s, n)
    t = tm.subst(s.t(pick(s, v, m)), m)
    return {'': (t, ('nl',))}


def unphysical(ctx, i, where):
    s = Session(sizes=dict(nl=3))
    v = s.call(rt(s, 'ray_tracing'), *rays(s), tm.sym('angle', rank=0), tm.sym('z0', rank=0))
    ctx.seen(s)
    ctx.must(pick(s, v, below_one(s, 3, i)) is NONE, 'unphysical', f'level {i}', where, 'a path is returned')
