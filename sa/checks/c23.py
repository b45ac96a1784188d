"""C23: cloud absorption belongs to the declared clouds, and to cloudy runs only."""
from ._rte import *

EXPLANATION = ('Value graphs of cloudy_absorption (per level: liquid absorption of that level\'s liquid density where it is positive, ice absorption of its ice density where it is positive, zero elsewhere), '
               'of the layer and total cloud opacities and cloud amounts of the simulation, each compared by value numbering with the rule; and of a clear-sky run in which cloud data were declared, '
               'in which no value may depend on them. Numbers of levels symbolic, one to three clouds.')


def run(ctx):
    ctx.rule('levels', 'a level contributes liquid (ice) absorption exactly when its liquid (ice) density is positive, with that density')
    ctx.rule('opacity', 'cloud opacity integrates the cloud absorption over all layers between cloudy levels')
    ctx.rule('amount', 'integrated liquid and ice sum every layer between declared base and top of every cloud')
    ctx.rule('clear', 'a clear-sky run has no cloud term')
    ctx.assumptions.append('cloud densities, temperatures and absorption coefficients not negative')
    s0 = Session()
    w = s0.where(TB, 'TbCloudRTE', 'execute')
    wc = s0.where(RT, 'RTEquation', 'cloudy_absorption')

    def csim(s):
        r = cloud_sim(s)
        return r
    ctx.agree('levels', 'cloudy_absorption', csim, cloud_ref, wc, sizes=dict(nl=3), dead='violated')
    small = dict(nl=4, nf=1, nang=1, ncld=2)
    first = dict(nf=1, nang=1, ncld=2)
    outs = ('tauliq', 'tauice', 'taulayliq', 'taulayice')
    for name, cfg in (('ground', dict(cloudy=1)), ('satellite', dict(cloudy=1, sat=1)), ('descending', dict(cloudy=1, mono=-1))):
        ctx.agree('opacity', name, lambda s, c=cfg: sim(s, c, outs), lambda s, c=cfg: ref(s, c, outs), w, sizes=small, first=first, dead='violated')
        for nc in (1, 2, 3) if ctx.thorough else (2,):
            ctx.agree('amount', f'{name} {nc} clouds', lambda s, c=cfg: sim(s, c, ('sliq', 'sice')), lambda s, c=cfg: ref(s, c, ('sliq', 'sice')), w,
                      sizes=dict(small, ncld=nc), first=dict(first, ncld=nc), dead='violated')

    CL = {'cldh', 'denliq', 'denice'}

    def clear(cfg, name):
        def go():
            s = Session(sizes=dict(nf=1, nang=1, ncld=1))
            r = sim(s, cfg, ALL)
            ctx.seen(s)
            for o in ALL:
                dep = {str(x.args[0]).split('@')[0] for x in tm.walk(r[o]) if x.op == 'sym'} & CL
                if dep:
                    # a value may read cloud data and still not depend on them: rename and compare
                    m = {x: tm.sym(str(x.args[0]) + "'", rank=x.rank, info=x.info) for x in tm.walk(r[o]) if x.op == 'sym' and str(x.args[0]).split('@')[0] in CL}
                    res = ctx.decide(r[o], tm.subst(r[o], m))
                    if res[0] == 'different':
                        ctx.bad('clear', f'{name}:{o}', w, f'depends on {sorted(dep)}')
                        continue
                if o in ('tauliq', 'tauice', 'taulayliq', 'taulayice', 'sliq', 'sice'):
                    z = {'tauliq': (1,), 'tauice': (1,)}.get(o) or ((1, 1, 'nl') if o.startswith('taulay') else (1,))
                    t = tm.idx(r[o], tuple(num(0) if d == 1 else sym('lev') for d in z))
                    res = ctx.decide(t, ZERO)
                    if res[0] == 'different':
                        ctx.bad('clear', f'{name}:{o}', w, 'not zero in a clear-sky run: ' + str(res[1]))
                        continue
                ctx.ok('clear', f'{name}:{o}')
        ctx.guard('clear', name, go, 'violated')
    clear({}, 'no cloud data')
    clear(dict(late_clear=1, cloudy=1), 'cloud data declared, then switched to clear')
    clear(dict(late_clear=1, cloudy=1, sat=1), 'cloud data declared, then switched to clear, satellite')
