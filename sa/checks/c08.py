"""C08: each reported column holds the quantity its name says."""
from ._rte import *

EXPLANATION = ('Value graphs of all columns of the result table and of all entries of the detail dictionary. Provenance: the set of species absorption functions '
               '(uninterpreted symbols for water vapour, oxygen, nitrogen, ozone, liquid, ice) each value can depend on must be exactly those of its name. '
               'Meaning: tbatm, tmr, tmrcld equal the transfer rule without background / effective temperature rules applied to the layer opacities the run itself reports, '
               'each total opacity equals the sum of its own reported layers, and the angle column and the row order match the inputs.')

DRYF, WETF = 'clearsky_absorption.1', 'clearsky_absorption.0'
LIQF, ICEF = 'cloudy_absorption.0', 'cloudy_absorption.1'
SPECIES = {WETF: 'wet', DRYF: 'dry', LIQF: 'liquid', ICEF: 'ice'}
EXPECT = dict(tauwet={WETF}, taudry={DRYF}, tauliq={LIQF}, tauice={ICEF}, taulaywet={WETF}, taulaydry={DRYF}, taulayliq={LIQF}, taulayice={ICEF},
              awet={WETF}, adry={DRYF}, srho={'vapor.1'}, swet={'refractivity.1'}, sdry={'refractivity.0'}, sliq={'denliq'}, sice={'denice'})
ATOMS = {'vapor.1', 'refractivity.0', 'refractivity.1'} | set(SPECIES)


def atoms(t, conds=True):
    """species functions and cloud densities a value depends on, not looking inside their own arguments (nor, conds false, into conditions)"""
    out = set()
    for x in tm.walk(t, stop=lambda x: x.op == 'call' and x.args[0] in ATOMS, conds=conds):
        if x.op == 'call' and x.args[0] in ATOMS:
            out.add(x.args[0])
        elif x.op == 'sym' and str(x.args[0]).split('@')[0] in ('denliq', 'denice'):
            out.add(str(x.args[0]).split('@')[0])
    return out


def provenance(ctx, cfg, name, w):
    def go():
        s = Session(sizes=dict(nf=2, nang=2, ncld=1))
        outs = [o for o in EXPECT if cfg.get('cloudy') or not ('liq' in o or 'ice' in o)]
        r = sim(s, cfg, outs)
        ctx.seen(s)
        for o in outs:
            got = atoms(r[o])
            if got != EXPECT[o] and got > EXPECT[o] and not atoms(r[o], False) - EXPECT[o]:
                # the rest is read by conditions only: what they do to the value is for C23 and C26
                ctx.ok('provenance', f'{name}:{o}', f'conditions read {sorted(got - EXPECT[o])} as well')
                continue
            ctx.must(got == EXPECT[o], 'provenance', f'{name}:{o}', w, f'depends on {sorted(got)}, expected {sorted(EXPECT[o])}')
        if not cfg.get('cloudy'):
            for o in ('tauliq', 'tauice', 'taulayliq', 'taulayice'):
                got = atoms(sim(Session(sizes=dict(nf=1, nang=1)), cfg, (o,))[o])
                ctx.must(not got, 'provenance', f'{name}:{o}', w, f'depends on {sorted(got)} in a clear-sky run')
    ctx.guard('provenance', name, go, 'violated')


def species(ctx):
    def go():
        s = Session()
        want = dict(awet={'h2o_absorption'}, adry={'o2_absorption', 'n2_absorption', 'o3_absorption'})
        r = clear_sim(s)
        ctx.seen(s)
        w = s.where(RT, 'RTEquation', 'clearsky_absorption')
        for o in want:
            got = {str(x.args[0]).split('.')[0] for x in tm.walk(r[o]) if x.op == 'call' and '_absorption' in str(x.args[0])}
            ctx.must(got == want[o], 'provenance', f'clearsky_absorption:{o}', w, f'depends on {sorted(got)}, expected {sorted(want[o])}')
        s = Session()
        r = cloud_sim(s)
        ctx.seen(s)
        w = s.where(RT, 'RTEquation', 'cloudy_absorption')
        want = dict(aliq=({'liquid_water_absorption'}, {'denliq'}), aice=(set(), {'denice'}))
        for o in want:
            got = {str(x.args[0]).split('.')[0] for x in tm.walk(r[o]) if x.op == 'call' and '_absorption' in str(x.args[0])}
            den = {x.args[0] for x in tm.walk(r[o]) if x.op == 'sym' and x.args[0] in ('denliq', 'denice')}
            ctx.must((got, den) == want[o], 'provenance', f'cloudy_absorption:{o}', w, f'depends on {sorted(got | den)}')
    ctx.guard('provenance', 'absorbers', go, 'violated')


def effective(cfg):
    outs = ('tbatm', 'tmr')

    def code(s):
        r = sim(s, cfg, outs + (('tmrcld',) if cfg.get('cloudy') else ()))
        return r

    def rule(s):
        o = sim(s, cfg, LAYER[:4])
        parts = [o[n] for n in (LAYER[:4] if cfg.get('cloudy') else LAYER[:2])]
        tot = parts[0]
        for x in parts[1:]:
            tot = tm.add(tot, x)
        lay = s.I.new_arr(tot)
        a = inputs(s, cfg)
        sat = const(bool(cfg.get('sat')))
        d = s.spec('rte', 'transfer', a['t'], a['frq'], lay, s.NL, s.NF, s.NA, sat, a['es'], FALSE)
        out = {n: flat(s, s.t(s.I.getitem(d, const(n), None))) for n in outs}
        if cfg.get('cloudy'):
            d = s.spec('rte', 'lowest_cloud', a['z'], a['t'], a['frq'], lay, s.NL, s.NF, s.NA, sat, a['es'], a['cldh'])
            out['tmrcld'] = flat(s, s.t(s.I.getitem(d, const('tmrcld'), None)))
        return out
    return code, rule


def totals(cfg):
    names = [('tauwet', 'taulaywet'), ('taudry', 'taulaydry')] + ([('tauliq', 'taulayliq'), ('tauice', 'taulayice')] if cfg.get('cloudy') else [])

    def code(s):
        return sim(s, cfg, [a for a, b in names])

    def rule(s):
        o = sim(s, cfg, [b for a, b in names])
        return {a: flat(s, s.t(s.spec('rte', 'layer_sums', s.I.new_arr(o[b]), s.NL, s.NF, s.NA))) for a, b in names}
    return code, rule


def layout(ctx, w):
    def go():
        s = Session(sizes=dict(nf=2, nang=2, ncld=1))
        sim(s, {}, ('tbtotal',))
        df = s.df
        ang = s.t(s.ang)
        col = s.t(s.I.getitem(df, const('angle'), None))
        for k in range(2):
            for j in range(2):
                r = ctx.decide(tm.idx(col, (num(k * 2 + j),)), tm.idx(ang, (num(k),)))
                if r[0] == 'different':
                    ctx.bad('layout', f'angle column row {k * 2 + j}', w, r[1])
                else:
                    ctx.ok('layout', f'angle column row {k * 2 + j}')
    ctx.guard('layout', 'angle column', go, 'violated')


def run(ctx):
    ctx.rule('provenance', 'a column depends on exactly the absorbers (or densities) of its name')
    ctx.rule('effective', 'tbatm: no background; tmr, tmrcld: effective temperature of the emitting layers; from the reported layer opacities')
    ctx.rule('totals', 'each total opacity is the sum of the reported layers of the same species')
    ctx.rule('layout', 'rows are ordered by angle, then frequency, and the angle column says so')
    ctx.assumptions.append('physical signs of the inputs; strictly increasing heights')
    s0 = Session()
    w = s0.where(TB, 'TbCloudRTE', 'execute')
    for name, cfg in (('clear', {}), ('cloudy', dict(cloudy=1)), ('cloudy satellite', dict(cloudy=1, sat=1, es=False))):
        provenance(ctx, cfg, name, w)
    species(ctx)
    one = dict(nf=1, nang=1, ncld=1)
    two = dict(nf=2, nang=2, ncld=2)
    small = dict(nl=4, nf=2, nang=2, ncld=1)
    for name, cfg in (('clear ground', {}), ('cloudy ground', dict(cloudy=1)), ('clear satellite', dict(sat=1)), ('cloudy satellite', dict(cloudy=1, sat=1))):
        ctx.agree('effective', name, *effective(cfg), w, sizes=small, first=two if ctx.thorough else one, dead='violated')
    for name, cfg in (('clear', {}), ('cloudy', dict(cloudy=1))):
        ctx.agree('totals', name, *totals(cfg), w, sizes=small, first=two if ctx.thorough else one, dead='violated')
    layout(ctx, w)
