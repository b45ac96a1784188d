"""C04: formulations of the absorption models; refusal of unknown names."""
from ._abs import *
from ..core import *

EXPLANATION = ('Every absorption routine is interpreted for every supported model name with symbolic pressure, temperature, vapour pressure, frequency, ozone, droplet content and line-table '
               'contents (any number of lines, or the true number of lines where the loops differ in shape), and its value graph compared by algebraic value numbering with the reference '
               'formulation of that model (sa/spec/absorb.py): line sum, line shape, widths, shifts, mixing, continuum and constants. The helper functions (complex error function, water '
               'permittivity, self continua, nitrogen collision spectrum) are compared with their own references. Every name that is not in the list of a routine must make every path of it '
               'end in an exception, and every clear-sky name must be accepted by the liquid-water routine.')
ODD = ('', 'R9', 'r98', 'R19sd', 'R99', 'R', 'X', 'R98 ')


def q(n, sg=1):
    return sym(n, 0, sg)


def refused(ctx, rule, construct, f, where):
    """every path of f ends in an exception"""
    def go():
        s = Session()
        try:
            f(s)
        except PathDead:
            ctx.seen(s)
            ctx.ok(rule, construct, 'raises ' + ', '.join(sorted({r[0] for r in s.I.raises})))
            return
        ctx.seen(s)
        for r in s.I.raises:        # an error on a condition the analyser cannot decide
            for c, b in r[2]:
                if any(x.op in OPAQUE_OPS or x.op == 'in' or (x.op == 'call' and str(x.args[0]) not in ELEMENTARY) for x in tm.walk(c)):
                    raise Undecided('whether it is refused depends on ' + tm.show(c, 4)[:200])
        ctx.bad(rule, construct, where, 'a path ends normally')
    ctx.guard(rule, construct, go)


def accepted(ctx, rule, construct, f, where):
    def go():
        s = Session()
        f(s)
        ctx.seen(s)
        ctx.ok(rule, construct)
    ctx.guard(rule, construct, go, dead='violated')


def groups(sp):
    s = Session()
    s.mod(AM)
    p = os.path.join(os.path.dirname(s.I.modpath(AM)), '_lineshape', f'{sp}_lineshape.nc')
    return tuple(s.I.ncmeta.get(p))


def h2o_fn(name, *args):
    return lambda s: one(s, s.method(s.I.instantiate(s.get(AM, 'H2OAbsModel'), [], {}, None), name, *args))


def run(ctx):
    ctx.rule('formulation', 'the absorption computed for a model equals the formulation published for that model')
    ctx.rule('helper', 'shared functions equal their published expression')
    ctx.rule('refuse', 'a model name outside the list of a routine is an error')
    ctx.rule('offered', 'a model offered for clear sky is accepted by the liquid-water absorption')
    S = Session()
    S.mod(AM)
    w = {sp: S.where(AM, CLS[sp], fn) for sp, fn in (('h2o', 'h2o_absorption'), ('o2', 'o2_absorption'), ('o3', 'o3_absorption'), ('n2', 'n2_absorption'), ('liq', 'liquid_water_absorption'))}
    names = {sp: groups(sp) for sp in ('h2o', 'o2', 'o3')}
    for sp, known in (('h2o', H2O_MODELS), ('o2', O2_MODELS), ('o3', O3_MODELS)):
        for m in names[sp]:
            if m not in known:
                ctx.unk('formulation', f'{sp} {m}', w[sp], 'no reference for this model')
    for m in H2O_MODELS:
        ctx.agree('formulation', f'h2o {m}', h2o_code(m), h2o_rule(m), w['h2o'], sizes=dict(rows=3), dead='violated')
    for m in O2_MODELS:
        ctx.agree('formulation', f'o2 {m}', o2_code(m), o2_rule(m), w['o2'], sizes=dict(rows=49), dead='violated')
    for m in O3_MODELS:
        ctx.agree('formulation', f'o3 {m}', o3_code(m), o3_rule(m), w['o3'], sizes=dict(rows=3), dead='violated')
    for m in N2_MODELS:
        ctx.agree('formulation', f'n2 {m}', n2_code(m), rule('n2', const(m), *o3_state()[:3]), w['n2'], dead='violated')
    for m in LIQ_MODELS:
        ctx.agree('formulation', f'liquid {m}', liq_code(m), rule('liquid', const(m), q('water', 2), q('frq0'), q('temp')), w['liq'], dead='violated')

    f, t, vx = q('frq0'), q('temp'), q('vx')
    ctx.agree('helper', 'nitrogen collision spectrum', lambda s: one(s, s.call(s.I.getattr_(s.get(AM, 'N2AbsModel'), 'n2_absorption_mwl24', None), *o3_state()[:3])),
              rule('n2_mwl24', *o3_state()[:3]), S.where(AM, 'N2AbsModel', 'n2_absorption_mwl24'))
    ctx.agree('helper', 'permittivity of water', fn_code(UT, 'dilec12', f, t), rule('permittivity', f, t), S.where(UT, 'dilec12'))
    ctx.agree('helper', 'complex error function', fn_code(UT, '_dcerror', q('x', 0), q('y', 0)), rule('cerror', q('x', 0), q('y', 0)), S.where(UT, '_dcerror'))
    ctx.agree('helper', 'self continuum', h2o_fn('h2o_continuum', f, vx, num(1)), rule('h2o_self', f, vx), S.where(AM, 'H2OAbsModel', 'h2o_continuum'))
    ctx.agree('helper', 'self continuum MWL24', h2o_fn('h2o_continuum_mwl24', f, vx), rule('h2o_self_mwl24', f, vx), S.where(AM, 'H2OAbsModel', 'h2o_continuum_mwl24'))

    every = sorted(set(H2O_MODELS + O2_MODELS + O3_MODELS + N2_MODELS + LIQ_MODELS))
    for sp in ('h2o', 'o2', 'o3'):
        for m in [x for x in every if x not in names[sp]] + list(ODD):
            refused(ctx, 'refuse', f'{sp} {m!r}', lambda s: load(s, sp, m), S.where(AM, CLS[sp], 'set_ll'))
    for sp, code, known in (('n2', n2_code, N2_MODELS), ('liq', wet_liq, LIQ_MODELS)):
        for m in ODD:
            refused(ctx, 'refuse', f'{sp} {m!r}', code(m), w[sp])
    for m in sorted(set(names['h2o']) | set(names['o2'])):
        accepted(ctx, 'offered', f'liquid {m}', wet_liq(m), w['liq'])


def wet_liq(model):
    def f(s):
        c = select(s, 'liq', model)
        return one(s, s.call(s.I.getattr_(c, 'liquid_water_absorption', None), sym('droplets', 0, 1), sym('frq0', 0, 1), sym('temp', 0, 1)))
    return f
