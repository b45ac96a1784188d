"""C24: composition of the dry absorption."""
from ._abs import *

EXPLANATION = ('clearsky_absorption interpreted with the absorbers as uninterpreted functions of their arguments, for every combination of nitrogen and ozone model selected or not and ozone data '
               'given or not; its dry value graph must equal oxygen line + oxygen non-resonant + nitrogen + ozone, each once, by value numbering. For every oxygen model the sum of the two parts '
               'o2_absorption returns, with all line strengths set to zero, must equal the single published non-resonant term.')


def run(ctx):
    ctx.rule('sum', 'dry absorption = oxygen (line + non-resonant) + nitrogen (when selected) + ozone (when selected and ozone data given), each exactly once')
    w = Session().where(RT, 'RTEquation', 'clearsky_absorption')
    for n2 in ('R98', 'R24', None):
        for o3 in ('R18', 'R22', 'R23', None):
            for o3n in (True, False):
                if o3 is None and o3n:
                    continue
                kw = dict(n2=n2, o3=o3, o3n=o3n)
                ctx.agree('sum', f'nitrogen {n2} ozone {o3} data {o3n}', lambda s, kw=kw: dict(adry=clear_sim(s, **kw)['adry']), lambda s, kw=kw: dict(adry=clear_ref(s, **kw)['adry']), w,
                          sizes=dict(nl=3), dead='violated')
    ctx.rule('non-resonant', 'with every resonant line switched off the two oxygen terms together hold exactly one non-resonant term')
    w = Session().where(AM, 'O2AbsModel', 'o2_absorption')
    for m in O2_MODELS:
        if m in ('R23', 'R24'):
            # their normalised sums have no limit without lines; they hold the term inside the sum, so nothing is added outside
            f = lambda s, g: dict(outside=g(s)['non-resonant'])
        else:
            f = lambda s, g: dict(total=unlit(tm.add(*g(s).values())))
        ctx.agree('non-resonant', f'oxygen {m}', lambda s: f(s, o2_code(m)), lambda s: f(s, o2_rule(m)), w, sizes=dict(rows=49), dead='violated')


def unlit(t):
    """line strengths replaced by zero"""
    m = {x: mk('full', ZERO, tm.length(x), rank=1) for x in tm.walk(t) if x.op == 'ncdata' and x.args[2] is const('s300') or x.op == 'ncdata' and x.args[2] == 's300'}
    return tm.subst(t, m)
