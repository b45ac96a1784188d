"""C10: the radiative transfer recursion, from the layer opacities the simulation itself reports."""
from ._rte import *

EXPLANATION = ('The simulation (constructor, model selection, execute) is interpreted abstractly; the value graph of each total brightness '
               'temperature is compared by algebraic value numbering with the transfer rule of sa/spec/rte.py, in which the layer opacities are the ones the same run reports. '
               'Looking up: cosmic background attenuated by everything plus every layer attenuated by the layers between it and the ground; looking down: '
               'surface emission plus reflection attenuated by everything plus every layer attenuated by the layers above it. '
               'The number of levels, all profile contents, frequencies, angles and emissivities are symbolic.')


def code(cfg):
    return lambda s: dict(tbtotal=sim(s, cfg, ('tbtotal',))['tbtotal'])


def rule(cfg, reflect):
    def f(s):
        o = sim(s, cfg, LAYER[:4])
        lay = s.I.new_arr(tm.add(tm.add(o['taulaywet'], o['taulaydry']), tm.add(o['taulayliq'], o['taulayice'])) if cfg.get('cloudy') else tm.add(o['taulaywet'], o['taulaydry']))
        a = inputs(s, cfg)
        d = s.spec('rte', 'transfer', a['t'], a['frq'], lay, s.NL, s.NF, s.NA, const(bool(cfg.get('sat'))), a['es'], const(reflect))
        return dict(tbtotal=flat(s, s.t(s.I.getitem(d, const('tbtotal'), None))))
    return f


def run(ctx):
    ctx.rule('transfer', 'value graph of tbtotal equals the transfer rule for its viewing direction')
    ctx.assumptions.append('profile heights strictly increasing (C09 covers the other orientation), temperatures, pressures and absorption coefficients of physical sign')
    first = dict(nf=2, nang=2, ncld=1) if ctx.thorough else dict(nf=1, nang=1, ncld=1)
    small = dict(nl=4, nf=2, nang=2, ncld=1)
    where = lambda s: s.where(RT, 'RTEquation', 'planck')
    w = where(Session())
    for name, cfg in (('ground', {}), ('satellite', dict(sat=1)), ('satellite black surface', dict(sat=1, es=False)), ('ground slant refracted', dict(ray=1)), ('ground descending profile', dict(mono=-1))):
        if cfg.get('sat') and cfg.get('es', True):
            ctx.agree('transfer', name, code(cfg), rule(cfg, True), w, sizes=small, first=first, alts={'no-reflection': rule(cfg, False)}, dead='violated')
        else:
            ctx.agree('transfer', name, code(cfg), rule(cfg, False), w, sizes=small, first=first, dead='violated')
    if ctx.thorough:
        for nl in (2, 3, 6):
            for nf, na in ((1, 3), (3, 1)):
                z = dict(nl=nl, nf=nf, nang=na, ncld=1)
                for name, cfg in (('ground', {}), ('satellite black surface', dict(sat=1, es=False))):
                    ctx.agree('transfer', f'{name} {nl} levels {nf}x{na}', code(cfg), rule(cfg, False), w, sizes=z, first=z, dead='violated')
